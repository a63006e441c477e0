// C15: multi-port blocks over every combination of per-port fill levels and output rooms, with symbolic samples.
#include "../blk.h"
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
#include "liquid.h"
static int dspLive;
struct firpfbch_crcf_s { unsigned M; uint32_t s; };
static void analyze(firpfbch_crcf_s& q, const cf* x, cf* y) { uint32_t h = q.s; for (unsigned i = 0; i < q.M; i++) { h = rotl(h, 5) ^ fbits(x[i].real()); h = rotl(h, 9) + fbits(x[i].imag()); } q.s = h + 1; for (unsigned i = 0; i < q.M; i++) y[i] = cf(bitsf(h ^ (i * 0x01010101u)), bitsf(rotl(h, (int)i + 1))); }
extern "C" { firpfbch_crcf firpfbch_crcf_create_kaiser(int type, unsigned M, unsigned, float) { CHECK(type == LIQUID_ANALYZER, "an analysis channeliser"); dspLive++; return new firpfbch_crcf_s{M, 99}; } int firpfbch_crcf_destroy(firpfbch_crcf q) { dspLive--; delete q; return 0; } int firpfbch_crcf_analyzer_execute(firpfbch_crcf q, cf* x, cf* y) { cf t[8]; for (unsigned i = 0; i < q->M; i++) t[i] = x[i]; analyze(*q, t, y); return 0; } }
#include "desktop_blocks/math/add.hpp"
#include "desktop_blocks/utils/fanout.hpp"
#include "desktop_blocks/channelizers/polyphase_channelizer.hpp"
#if BLK == 0
typedef uint32_t T;
#define NOUT 1
static const int NI = PORTS, NO = 1; struct K { AddBlock<T> b{"b", PORTS, BUF}; cler::Channel<T>& in(int i) { return b.in[i]; } };
#elif BLK == 1
typedef uint32_t T;
#define NOUT PORTS
 static const int NI = 1, NO = PORTS; struct K { FanoutBlock<T> b{"b", PORTS, BUF}; cler::Channel<T>& in(int) { return b.in; } };
#else
typedef cf T; 
#define NOUT PORTS
static const int NI = 1, NO = PORTS; struct K { PolyphaseChannelizerBlock b{"b", PORTS, 60.f, 3, BUF}; cler::Channel<T>& in(int) { return b.in; } };
#endif
#if REALOUT
typedef cler::Channel<T> O;
#else
typedef Out<T> O;
#endif
template <size_t... I> static auto call(K& k, O* o, std::index_sequence<I...>) { return k.b.procedure((cler::ChannelBase<T>*)&o[I]...); }
static T xs[NI][600]; static size_t pushed[NI], taken[NI];
extern "C" void harness() {
  uint64_t h0 = sym_live_heap();
  { K k; firpfbch_crcf_s ref{PORTS, 99}; size_t cap = k.in(0).space(), rot = sym_choose("rot", 3); for (int i = 0; i < NI; i++) rotate(k.in(i), i % 2 ? 1 : rot == 0 ? 0 : rot == 1 ? cap - 1 : cap);
#if REALOUT
  O* o = (O*)operator new(sizeof(O) * NO); for (int i = 0; i < NO; i++) new (&o[i]) O(4096 / sizeof(T)); size_t oc = o[0].space();
#else
  O o[NO];
#endif
  for (int c = 0; c < CALLS; c++) {
    size_t room[NO], least = ~0ull, have[NI], few = ~0ull;
    for (int i = 0; i < NI; i++) { size_t add = BLK == 2 ? sym_choose("arrive", 2 * PORTS + 1) : sym_choose("arrive", MAXIN); for (size_t j = 0; j < add; j++) { T x = symSample<T>(); xs[i][pushed[i]++] = x; k.in(i).push(x); } have[i] = k.in(i).size(); if (have[i] < few) few = have[i]; }
    for (int i = 0; i < NO; i++) { static const unsigned R[] = {0, 1, 3}; room[i] = ANYROOM ? 0 : R[sym_choose("room", 3)];
#if REALOUT
      { size_t f = oc - room[i]; rotate(o[i], oc - 1 - c - i); T z{}; for (size_t j = 0; j < f; j++) o[i].push(z); }
#else
      if (!ANYROOM) o[i].reset(room[i]); else room[i] = o[i].any("room", BLK == 2 ? few / PORTS : few);
#endif
      if (room[i] < least) least = room[i];
    }
    auto r = call(k, o, std::make_index_sequence<NO>());
    if (BLK == 2) few /= PORTS; size_t can = few < least ? few : least; size_t m = (have[0] - k.in(0).size()) / (BLK == 2 ? PORTS : 1);
    for (int i = 0; i < NI; i++) CHECK(k.in(i).size() <= have[i] && have[i] - k.in(i).size() == m * (BLK == 2 ? PORTS : 1), "every input advances by the same whole number"); CHECK(m <= can, "no more than every port allows"); if (can) { CHECK(m > 0 && r.is_ok(), "what can move does move"); sym_reach("moved"); } else { if (r.is_err()) CHECK(!cler::is_fatal(r.unwrap_err()), "waiting is not fatal"); sym_reach("blocked"); }
#if REALOUT
    for (int i = 0; i < NO; i++) { CHECK(o[i].size() == oc - room[i] + m, "every output advances by the same number"); T w; for (size_t j = 0; j < oc - room[i]; j++) { o[i].pop(w); CHECK(same<T>(w, T{}), "what was in the output stays"); } }
#define GET(o, j) (o.pop(w), w)
    T w;
#else
    for (int i = 0; i < NO; i++) CHECK(o[i].n == m, "every output advances by the same number");
#define GET(o, j) (o.buf[j])
#endif
    for (int i = 0; i < NO; i++) if (
#if REALOUT
      o[i].size()
#else
      o[i].n
#endif
      != m) return;
    for (size_t j = 0; j < m; j++) {
#if BLK == 0
      T e = 0; for (int i = 0; i < NI; i++) e += xs[i][taken[i]++]; CHECK(GET(o[0], j) == e, "each output is the sum of the samples at the same position of all inputs");
#elif BLK == 1
      T x = xs[0][taken[0]++]; for (int i = 0; i < NO; i++) CHECK(GET(o[i], j) == x, "every output gets the identical stream");
#else
      cf y[PORTS]; analyze(ref, &xs[0][taken[0]], y); taken[0] += PORTS; for (int i = 0; i < NO; i++) CHECK(same<cf>(GET(o[i], j), y[i]), "each output gets its own channel of every frame, frames in order");
#endif
    }
    bool uneven = false; for (int i = 1; i < NI; i++) uneven |= have[i] != have[0];
#if NOUT > 1
    for (int i = 1; i < NO; i++) if (room[0] <= m && room[i] != room[0]) uneven = true;
#endif
    if (uneven && m) sym_reach("uneven");
  }
  for (int i = 0; i < NI; i++) { T x; while (taken[i] < pushed[i]) { CHECK(k.in(i).try_pop(x), "nothing is dropped"); CHECK(same<T>(x, xs[i][taken[i]]), "the rest stays in place"); taken[i]++; } CHECK(k.in(i).size() == 0, "nothing appears"); }
#if REALOUT
  for (int i = 0; i < NO; i++) o[i].~O(); operator delete(o);
#endif
  }
  CHECK(sym_live_heap() == h0 && sym_vm_mapped() == 0 && dspLive == 0, "the block gives back what it took"); sym_reach("end");
}
