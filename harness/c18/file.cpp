// C18: file source (SINK=0) and file sink (SINK=1) on a modelled file, every length, cutting and failure up to the bounds.
#include "../blk.h"
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
#undef close
#undef fopen
#include <fstream>
#include <algorithm>
struct Item { uint8_t b[SZ]; };
static bool eq(const Item& a, const uint8_t* p) { bool r = true; for (unsigned i = 0; i < SZ; i++) if (i < 4 || i + 2 > SZ) r = r & (a.b[i] == p[i]); return r; }
static uint8_t file[(MAXB > 8192 ? MAXB : 8192) + 16]; static size_t len; static unsigned opens, closes; static int faults = IOFAULTS; static bool faulted;
static bool fault(const char* w) { if (!faults || !sym_choose(w, 2)) return false; faults--; faulted = true; return true; }
namespace std {
struct verif_ifstream {
  bool o = false, e = false, f = false, b = false; size_t p = 0; streamsize g = 0;
  verif_ifstream() {} template <class S> explicit verif_ifstream(const S& n, ios::openmode m = ios::in) { open(n, m); } ~verif_ifstream() { if (o) close(); }
  template <class S> void open(const S&, ios::openmode m = ios::in) { CHECK(m & ios::binary, "the file is read as bytes"); if (fault("open")) { f = true; return; } o = true; opens++; p = 0; e = f = b = false; } 
  bool is_open() const { return o; } void close() { if (o) { o = false; closes++; } else f = true; }
  verif_ifstream& read(char* d, streamsize n) { g = 0; CHECK(o, "no read from a closed file"); if (e || f || b || !o) { f = true; return *this; } sym_touch(d, n, 1);
    size_t k = std::min<size_t>(n, len - p); bool bad = k && fault("read"); if (bad) k = sym_choose("bytes before the error", 2) ? k - 1 : 0;
    for (size_t i = 0; i < k; i++) d[i] = (char)file[p + i]; p += k; g = k; if (bad) b = f = true; else if (k < (size_t)n) e = f = true; return *this; }
  streamsize gcount() const { return g; } bool eof() const { return e; } bool fail() const { return f || b; } bool bad() const { return b; } bool good() const { return !(e || f || b); } explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  void clear() { e = f = b = false; } verif_ifstream& seekg(streamoff q, ios::seekdir w) { e = false; if (f || b) { f = true; return *this; } p = (w == ios::beg ? 0 : w == ios::end ? len : p) + q; return *this; } verif_ifstream& seekg(streamoff q) { return seekg(q, ios::beg); } streamoff tellg() const { return f || b ? -1 : (streamoff)p; }
  int peek() { if (e || f || b) return -1; if (p >= len) { e = true; return -1; } return file[p]; }
}; }
#define ifstream verif_ifstream
#undef fclose
static char handle; static size_t wr; static bool wopen;
namespace std {
static FILE* vf_open(const char*, const char* m) { CHECK(m[0] == 'w' && m[1] == 'b', "the file is written as bytes, from the start"); if (fault("open")) return nullptr; opens++; wopen = true; return (FILE*)&handle; }
static int vf_close(FILE* f) { CHECK(f == (FILE*)&handle && wopen, "only an open file is closed"); wopen = false; closes++; return 0; }
static int vf_flush(FILE* f) { CHECK(f == (FILE*)&handle && wopen, "only an open file is flushed"); return 0; }
static int vf_setvbuf(FILE*, char*, int, size_t) { return fault("setvbuf") ? -1 : 0; }
static size_t vf_write(const void* d, size_t s, size_t n, FILE* f) { CHECK(f == (FILE*)&handle && wopen, "only an open file is written"); size_t k = n; if (s * n && fault("write")) k = sym_choose("items written", 2) ? n - 1 : 0; if (s * k) sym_touch(d, s * k, 0); for (size_t i = 0; i < s * k && wr < sizeof file; i++) file[wr++] = ((const uint8_t*)d)[i]; return k; }
}
#define fopen vf_open
#define fclose vf_close
#define fflush vf_flush
#define setvbuf vf_setvbuf
#define fwrite vf_write
#include "desktop_blocks/sources/source_file.hpp"
#include "desktop_blocks/sinks/sink_file.hpp"
static unsigned ends; static void onEof(const char* n) { CHECK(n[0] == 'f' && !n[1], "the callback is told the file"); ends++; }
static const unsigned STEP[] = {1, 0, 2, 5};
extern "C" void harness() {
#if SINK == 0
  len = sym_concretize(sym_range("file length", 0, MAXB)); for (size_t i = 0; i < len; i++) file[i] = (uint8_t)sym_bits("byte", 8); size_t M = len / SZ; bool rep = sym_choose("repeat", 2), cb = sym_choose("callback", 2);
  SourceFileBlock<Item>* b; try { b = new SourceFileBlock<Item>("b", "f", rep, cb ? onEof : nullptr); CHECK(!faulted, "a file that cannot be opened is reported"); } catch (const std::runtime_error&) { CHECK(faulted && opens == closes, "only a file that cannot be opened is refused"); sym_reach("refused"); return; }
  Out<Item> o; size_t k = 0; unsigned dry = 0; bool dead = false;
  for (int c = 0; c < CALLS; c++) {
    unsigned room = STEP[sym_choose("room", 4)]; o.reset(room); unsigned e0 = ends; auto r = b->procedure(&o);
    if (dead) { CHECK(r.is_err() && cler::is_fatal(r.unwrap_err()) && !o.n, "after its end the source asks for termination"); sym_reach("terminated"); continue; }
    if (!room) { CHECK(!o.n && ends == e0 && (r.is_ok() || !cler::is_fatal(r.unwrap_err())), "without room nothing happens"); continue; }
    bool bad = r.is_err() && cler::is_fatal(r.unwrap_err()); if (bad) CHECK((faulted || (!rep && k == M)) && (!cb || ends), "an unreadable file or the end, nothing else, terminates");
    if (o.n > room) return;
    for (size_t i = 0; i < o.n; i++, k++) { CHECK(M && (rep || k < M), "no item beyond the end of the file"); if (!M || (!rep && k >= M)) return; CHECK(eq(o.buf[i], file + (k % M) * SZ), "each item is the next one of the file"); }
    if (ends > e0) { CHECK(ends == 1 && !o.n && cb && (faulted || (!rep && k == M)), "the end is announced once, after the last item"); }
    if (o.n) dry = 0; else if (!faulted) { dry++; if (!rep && k == M) { dead = true; CHECK(ends == cb, "the end is announced"); } else CHECK(rep && (dry < 2 || !M), "items keep coming until the end"); } else dead = true;
    if (rep && M && k > M) sym_reach("repeated"); if (!rep && M && k == M) sym_reach("all read");
  }
  delete b; CHECK(opens == closes, "the file is closed"); sym_reach("end");
#else
  SinkFileBlock<Item>* b; try { b = new SinkFileBlock<Item>("b", "f"); CHECK(!faulted, "a file that cannot be opened is reported"); } catch (const std::runtime_error&) { CHECK(faulted && opens == closes, "only a file that cannot be opened is refused, and it is closed"); sym_reach("refused"); return; }
  size_t cap = b->in.space(); unsigned rot = sym_choose("rot", 2); if (rot) rotate(b->in, cap); static uint8_t all[8192]; size_t fed = 0, done = 0; bool err = false;
  for (int c = 0; c < CALLS && !err; c++) {
    unsigned more = STEP[sym_choose("arrive", 4)]; while (more-- && b->in.space() && (fed + 1) * SZ <= sizeof all) { Item x; for (unsigned i = 0; i < SZ; i++) x.b[i] = i < 4 || i + 2 > SZ ? (uint8_t)sym_bits("byte", 8) : (uint8_t)(i + fed); for (unsigned i = 0; i < SZ; i++) all[fed * SZ + i] = x.b[i]; fed++; b->in.push(x); }
    size_t have = b->in.size(); auto r = b->procedure(); size_t took = have - b->in.size(); done += took;
    if (faulted) { CHECK(r.is_err() && cler::is_fatal(r.unwrap_err()), "a failed write is a terminating error"); err = true; sym_reach("failed"); } else { CHECK(r.is_ok() || !have, "writing goes on"); if (have) { CHECK(took > 0, "items that wait are written"); sym_reach("written"); } }
    CHECK(done * SZ <= wr, "no item is consumed without being written"); if (!faulted) CHECK(wr == done * SZ, "what is written is what was consumed");
  }
  for (size_t i = 0; i < done && (i + 1) * SZ <= wr; i++) { Item x; for (unsigned k = 0; k < SZ; k++) x.b[k] = file[i * SZ + k]; CHECK(eq(x, all + i * SZ), "the bytes written are those of the items, in order"); for (unsigned k = 4; k + 2 <= SZ; k += 97) CHECK(x.b[k] == all[i * SZ + k], "all bytes of an item are written"); }
  delete b; CHECK(opens == closes && !wopen, "the file is closed"); sym_reach("end");
#endif
}
