// C20: every sequence of socket results, rooms and validations up to CALLS calls: what the UDP source emits; what the UDP sink sends.
#include "../blk.h"
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
#include "../net.h"
#include "desktop_blocks/udp/source_udp.hpp"
#include "desktop_blocks/udp/sink_udp.hpp"
struct Item { uint8_t b[3]; };
#if BLOB
typedef Blob T; static const uint8_t* dataOf(const T& t) { return t.data; } static size_t lenOf(const T& t) { return t.len; } enum { MAXLEN = 4 };
#else
typedef Item T; static const uint8_t* dataOf(const T& t) { return t.b; } static size_t lenOf(const T&) { return 3; } enum { MAXLEN = 3 };
#endif
struct Dgram { uint8_t b[MAXLEN]; size_t n; }; static Dgram sent[64]; static unsigned nSent, nRecv; static bool hard, allGood; static unsigned limit;
static bool match(const T& t, const Dgram& d) { if (lenOf(t) != d.n) return false; bool r = true; for (size_t i = 0; i < d.n; i++) r = r & (dataOf(t)[i] == d.b[i]); return r; }
static int ctx; static unsigned told, asked; static bool valid(const T& t, void* c) { CHECK(c == &ctx, "the validator's context"); asked++; return (dataOf(t)[0] & 1) == 0; } static void seen(const T& t, void* c) { CHECK(c == &ctx, "the callback's context"); told++; }
#if SINK == 0
static bool useValid;
ssize_t net::onRecv(uint8_t* b, size_t n, bool& trunc) {
  nRecv++; unsigned k = allGood || !limit ? 1 : sym_choose("socket", 5); if (limit) limit--; else if (!allGood) k = 4;
  if (k == 0) { trunc = true; for (size_t i = 0; i < n; i++) b[i] = (uint8_t)0x55; return n; }                   // longer than the buffer
  if (k == 1 || k == 2) { size_t len = allGood || k == 1 ? (BLOB ? 2 : 3) : (sym_choose("length", 2) ? MAXLEN : 1); Dgram d; d.n = len; for (size_t i = 0; i < len; i++) b[i] = d.b[i] = i < 2 ? (uint8_t)sym_bits("byte", 8) : (uint8_t)i; if (allGood) { sym_assume((b[0] & 1) == 0); } if ((BLOB || len == 3) && !(useValid && (d.b[0] & 1))) sent[nSent++] = d; return len; }
  if (k == 3) return 0;
  int e = limit || nRecv == 1 ? (int)sym_range("errno", 1, 133) : EAGAIN; errno = e; hard = !(e == EAGAIN || e == EINTR || e == EMSGSIZE); return -1;
}
ssize_t net::onSend(const uint8_t*, size_t, const sockaddr*, socklen_t) { sym_fail("a source does not send"); return -1; }
extern "C" void harness() {
  unsigned cfg = sym_choose("callbacks", 3); useValid = cfg > 0; bool cb = cfg != 2;
  { SourceUDPSocketBlock<T> s("s", UDPBlock::SocketType::INET_UDP, "0.0.0.0:5000", useValid ? valid : nullptr, cb ? seen : nullptr, &ctx, MAXLEN, SLOTS);
    Out<T> o; unsigned got = 0; T held[64]; unsigned nh = 0; size_t slots = 0;
    for (int c = 0; c < CALLS; c++) {
      unsigned room = sym_choose("room", 4); limit = EVENTS; hard = false; o.reset(room); unsigned r0 = nRecv; auto r = s.procedure(&o);
      if (!room) CHECK(r.is_err() && nRecv == r0, "nothing is received without room for it"); if (o.n > room) return;
      CHECK(got + o.n == nSent, "every valid datagram is delivered, and nothing else"); if (got + o.n != nSent) return;
      for (size_t i = 0; i < o.n; i++) { CHECK(match(o.buf[i], sent[got]), "items arrive unchanged, with their own length, in order"); got++; held[nh++] = o.buf[i]; }
      bool fatal = r.is_err() && cler::is_fatal(r.unwrap_err()); if (BLOB) CHECK(fatal == hard, "a failing socket terminates, an interrupted or empty one does not"); else CHECK(!fatal || hard, "only a failing socket terminates"); if (o.n) sym_reach("received"); if (hard) { sym_reach("failed"); }
      if (cb) CHECK(told == got, "the callback sees each item once");
#if BLOB
      for (unsigned i = 0; i < nh; i++) for (unsigned j = 0; j < i; j++) CHECK(held[i].data + MAXLEN <= held[j].data || held[j].data + MAXLEN <= held[i].data, "items in flight do not share memory"); for (unsigned i = 0; i < nh; i++) CHECK(match(held[i], sent[got - nh + i]), "an item stays unchanged until it is released");
      if (nh && sym_choose("release", 2)) { for (unsigned i = 0; i < nh; i++) held[i].release(); nh = 0; }
#else
      nh = 0;
#endif
    }
#if BLOB
    for (unsigned i = 0; i < nh; i++) held[i].release(); allGood = true; o.reset(SLOTS + 1); auto r = s.procedure(&o); CHECK(o.n == SLOTS, "every buffer has come back to its pool"); 
#endif
  }
  CHECK(net::opens == net::closes, "the socket is closed"); sym_reach("end");
}
#else
static bool down; ssize_t net::onRecv(uint8_t*, size_t, bool&) { sym_fail("a sink does not receive"); return -1; }
ssize_t net::onSend(const uint8_t* b, size_t n, const sockaddr* a, socklen_t l) { CHECK(l == sizeof(sockaddr_in) && a->sa_family == AF_INET && ((const sockaddr_in*)a)->sin_port == htons(5000), "items go to the configured address"); CHECK(n <= MAXLEN, "no more than the item is sent"); if (sym_choose("send fails", 2)) { down = true; errno = ENETDOWN; return -1; } Dgram d; d.n = n; for (size_t i = 0; i < n && i < MAXLEN; i++) d.b[i] = b[i]; sent[nSent++] = d; return n; }
static Dgram fedD[64]; static unsigned calls; static void onSent(const T& t, void* c) { CHECK(c == &ctx, "the callback's context"); calls++; }
extern "C" void harness() {
  bool cb = sym_choose("callback", 2); Slab slab(SLOTS, MAXLEN); unsigned fed = 0;
  { SinkUDPSocketBlock<T> s("s", UDPBlock::SocketType::INET_UDP, "1.2.3.4:5000", cb ? onSent : nullptr, &ctx, 3); if (sym_choose("rot", 2)) rotate(s.in, 3);
    unsigned consumed = 0;
    for (int c = 0; c < CALLS && !down; c++) {
      unsigned more = sym_choose("arrive", 4); while (more-- && s.in.space()) { Dgram d; d.n = BLOB ? (sym_choose("length", 2) ? MAXLEN : 1) : 3; for (size_t i = 0; i < d.n; i++) d.b[i] = (uint8_t)sym_bits("byte", 8); T t;
#if BLOB
        auto r = slab.take_slot(); if (r.is_err()) break; t = r.unwrap(); t.len = d.n; for (size_t i = 0; i < d.n; i++) t.data[i] = d.b[i];
#else
        for (size_t i = 0; i < 3; i++) t.b[i] = d.b[i];
#endif
        fedD[fed++] = d; s.in.push(t); }
      size_t have = s.in.size(), n0 = nSent; auto r = s.procedure(); size_t took = have - s.in.size(); consumed += took;
      CHECK((r.is_err() && cler::is_fatal(r.unwrap_err())) == down, "a failing socket terminates, and nothing else does"); CHECK(down || took == nSent - n0, "what is consumed is sent once"); CHECK(down || !have || took > 0, "items that wait are sent");
      CHECK(nSent <= consumed, "only what was consumed is sent");
      if (BLOB) CHECK(slab.available_slots() == SLOTS - s.in.size(), "the buffer of every consumed item goes back to its pool");
      if (cb) CHECK(calls == nSent + down, "the callback sees each attempt once"); if (nSent) sym_reach("sent"); if (down) sym_reach("failed");
    }
    for (unsigned i = 0; i < nSent && i < fed; i++) { bool m = sent[i].n == fedD[i].n; for (size_t k = 0; m && k < sent[i].n; k++) CHECK(sent[i].b[k] == fedD[i].b[k], "each item is sent unchanged, in order"); CHECK(m, "each item is sent with its own length, in order"); } }
  CHECK(net::opens == net::closes, "the socket is closed"); sym_reach("end");
}
#endif
