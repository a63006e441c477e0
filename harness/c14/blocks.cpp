// C14: one-in blocks against a per-sample oracle over every fill, space and ring position, with symbolic samples.
#include "../dsp.h"
// libm calls made by the magnitude/phase mode: any function of both components will do
static float H(float x, float y) { return bitsf(rotl(fbits(x), 9) + fbits(y)); } static float A(float y, float x) { return bitsf(rotl(fbits(y), 11) ^ (fbits(x) + 5)); }
extern "C" { float hypotf(float x, float y) { return H(x, y); } float atan2f(float y, float x) { return A(y, x); } float cabsf(float _Complex z) { return H(__real__ z, __imag__ z); } float cargf(float _Complex z) { return A(__imag__ z, __real__ z); } }
#define normal_distribution verif_normal
#define random_device verif_rd
#define mt19937 verif_mt
#include "desktop_blocks/math/gain.hpp"
#include "desktop_blocks/math/complex_demux.hpp"
#include "desktop_blocks/noise/awgn.hpp"
#include "desktop_blocks/fm/fm_demod.hpp"
#include "desktop_blocks/filters/kaiser_lpf.hpp"
#include "desktop_blocks/utils/throughput.hpp"
struct Num { uint32_t v; }; static Num operator*(Num a, Num b) { return {rotl(a.v, 5) + (b.v ^ 0x77)}; }
#if BLK == 0
typedef Num TI; typedef Num TO; struct K { Num g{(uint32_t)sym_bits("gain", 32)}; GainBlock<Num> b{"b", g, BUF}; TO ref(TI x) { return x * g; } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 1
typedef float TI; typedef float TO; struct K { float g = sym_float("gain"); GainBlock<float> b{"b", g, BUF}; TO ref(TI x) { return x * g; } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 2
typedef cf TI; typedef float TO; struct K { ComplexToMagPhaseBlock b{"b", ComplexToMagPhaseBlock::RealImag, BUF}; TO ref(TI x) { return x.real(); } TO ref2(TI x) { return x.imag(); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 3
typedef cf TI; typedef float TO; struct K { ComplexToMagPhaseBlock b{"b", ComplexToMagPhaseBlock::MagPhase, BUF}; TO ref(TI x) { return H(x.real(), x.imag()); } TO ref2(TI x) { return A(x.imag(), x.real()); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 4
typedef float TI; typedef float TO; struct K { NoiseAWGNBlock<float> b{"b", 0.5f, BUF}; unsigned k = 0; TO ref(TI x) { return x + 0.5f * std::verif_unit<float>(k++); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 5
typedef cf TI; typedef cf TO; struct K { NoiseAWGNBlock<cf> b{"b", 0.5f, BUF}; unsigned k = 0; TO ref(TI x) { float r = 0.5f * std::verif_unit<float>(k), i = 0.5f * std::verif_unit<float>(k + 1); k += 2; return cf(x.real() + r, x.imag() + i); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 6
typedef cf TI; typedef float TO; struct K { FMDemodBlock b{"b", 2e6, 75e3, BUF}; freqdem_s q; K() { CHECK(dspKf == (float)(75e3 / 2e6), "modulation factor"); } TO ref(TI x) { return stepFM(q, x); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 7
typedef float TI; typedef float TO; struct K { KaiserLPFBlock<float> b{"b", 2e6, 1e5, 2e4, 60.0, BUF}; Mach q; K() { CHECK(dspFc == (float)(1e5 / 2e6) && dspAs == 60.f && dspN % 2 == 1, "filter design"); } TO ref(TI x) { return stepF(q, x); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#elif BLK == 8
typedef cf TI; typedef cf TO; struct K { KaiserLPFBlock<cf> b{"b", 2e6, 1e5, 2e4, 60.0, BUF}; Mach q, r; K() { CHECK(dspFc == (float)(1e5 / 2e6) && dspAs == 60.f && dspN % 2 == 1, "filter design"); } TO ref(TI x) { return stepC(q, r, x); } template <class... O> auto go(O*... o) { return b.procedure(o...); } };
#else
struct Pkt { uint32_t a; uint8_t b[20]; }; typedef Pkt TI; typedef Pkt TO; static uint64_t passed; struct K { ThroughputBlock<Pkt> b{"b", BUF}; TO ref(TI x) { passed++; return x; } template <class... O> auto go(O*... o) { auto r = b.procedure(o...); return r; } };
template <> Pkt symSample<Pkt>() { Pkt p; memset(&p, 0, sizeof p); p.a = (uint32_t)sym_bits("x", 32); p.b[19] = (uint8_t)(p.a >> 3); return p; }
#endif
#define TWO (BLK == 2 || BLK == 3)
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
static const unsigned FILL[] = {0, 1, 2, 3}; static const unsigned ROOM[] = {0, 1, 2, 4};
extern "C" void harness() {
  static TI xs[6000]; size_t pushed = 0, taken = 0; uint64_t h0 = sym_live_heap();
  { K k; size_t cap = k.b.in.space(); 
#if SYMROT
  uint64_t rot = sym_range("rot", 0, 1u << 13); sym_assume(rot <= cap); rotate(k.b.in, rot);
#else
  size_t rot = REALOUT ? 0 : sym_choose("rot", 3); rotate(k.b.in, rot == 0 ? 0 : rot == 1 ? cap - 1 : cap);
#endif
#if REALOUT
  cler::Channel<TO> o1(4096 / sizeof(TO)), o2(4096 / sizeof(TO)); size_t oc = o1.space();
#else
  Out<TO> o1, o2;
#endif
  for (int c = 0; c < CALLS; c++) {
#if BULK
    size_t add = c == 0 ? cap : 3, r1 = c == 0 ? cap / 2 : cap, r2 = c == 0 ? cap / 2 + 1 : cap;
#else
    size_t add = FILL[sym_choose("arrive", 4)], r1 = !ANYROOM ? ROOM[sym_choose("room", 4)] : 0, r2 = !ANYROOM && TWO ? ROOM[sym_choose("room2", 4)] : r1;
#endif
    for (size_t i = 0; i < add && k.b.in.space(); i++) { TI x = symSample<TI>(); xs[pushed++] = x; k.b.in.push(x); }
#if REALOUT
    { size_t f1 = oc - r1, f2 = oc - r2; rotate(o1, oc - 1 - c); rotate(o2, c); TO z; memset((void*)&z, 0x5a, sizeof z); for (size_t i = 0; i < f1; i++) o1.push(z); for (size_t i = 0; i < f2; i++) o2.push(z); }
#else
    if (!ANYROOM) { o1.reset(r1); o2.reset(r2); } else { r1 = o1.any("room", k.b.in.size()); r2 = TWO ? o2.any("room2", k.b.in.size()) : r1; }
#endif
    size_t have = k.b.in.size(), room = TWO && r2 < r1 ? r2 : r1; if (room > have) room = have;
#if TWO
    auto r = k.go((cler::ChannelBase<TO>*)&o1, (cler::ChannelBase<TO>*)&o2);
#else
    auto r = k.go((cler::ChannelBase<TO>*)&o1);
#endif
    size_t left = k.b.in.size(), m = have - left; CHECK(left <= have, "nothing appears in the input");
#if REALOUT
    size_t n1 = o1.size() - (oc - r1), n2 = o2.size() - (oc - r2); TO z, w; memset((void*)&z, 0x5a, sizeof z); for (size_t i = 0; i < oc - r1; i++) { o1.pop(w); CHECK(same(w, z), "what was in the output stays"); } for (size_t i = 0; i < oc - r2; i++) o2.pop(w);
#define GET(o, i) (o.pop(w), w)
#else
    size_t n1 = o1.n, n2 = o2.n;
#define GET(o, i) (o.buf[i])
#endif
    CHECK(n1 == m, "as many samples come out as go in"); if (TWO) CHECK(n2 == m, "both outputs advance alike"); if (n1 != m || (TWO && n2 != m)) return;
    if (room) { CHECK(m > 0, "what can move does move"); sym_reach("moved"); } CHECK(m <= room, "no more than fits");
    if (m) CHECK(r.is_ok(), "moving is a success"); else { CHECK(BLK == 9 || r.is_err(), "a call that moves nothing says so"); sym_reach("blocked"); } if (r.is_err()) CHECK(!cler::is_fatal(r.unwrap_err()), "waiting is not fatal");
    for (size_t i = 0; i < m; i++) { TI x = xs[taken++]; CHECK(same<TO>(GET(o1, i), k.ref(x)), "each output is the defined function of its own input sample, in order");
#if TWO
      CHECK(same<TO>(GET(o2, i), k.ref2(x)), "the second output is the defined function of the same sample");
#endif
    }
#if BLK == 9
    CHECK(k.b.samples_passed() == passed, "the meter counts what passed");
#endif
    if (left && m) sym_reach("partly moved");
  }
  CHECK(k.b.in.size() == pushed - taken, "no sample is lost"); TI x; while (taken < pushed && k.b.in.try_pop(x)) { CHECK(same<TI>(x, xs[taken]), "the rest of the input stays in place"); taken++; } CHECK(taken == pushed, "no sample is lost");
  }
  CHECK(sym_live_heap() == h0 && sym_vm_mapped() == 0 && dspLive == 0, "the block gives back what it took"); sym_reach("end");
}
