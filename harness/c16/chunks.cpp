// C16: the stream a tone, chirp or frequency shifter emits is the same for every way of cutting it into calls, and follows its definition.
#include "../blk.h"
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
extern "C" { float cabsf(float _Complex z) { return sqrtf(__real__ z * __real__ z + __imag__ z * __imag__ z); } float hypotf(float x, float y) { return sqrtf(x * x + y * y); }
float _Complex cexpf(float _Complex z) { float e = expf(__real__ z); float _Complex r; __real__ r = e * cosf(__imag__ z); __imag__ r = e * sinf(__imag__ z); return r; } }
#include "desktop_blocks/sources/source_cw.hpp"
#include "desktop_blocks/sources/source_chirp.hpp"
#include "desktop_blocks/math/frequency_shift.hpp"
#if CPLX
typedef cf T;
#else
typedef float T;
#endif
static float A, F0, F1, DUR; static size_t SPS; static double FS, FR;
#if BLK == 0
struct K { SourceCWBlock<T> b{"b", A, F0, SPS}; void feed(cf) {} size_t left() { return 0; } size_t room() { return 0; } };
#elif BLK == 1
struct K { SourceChirpBlock<T> b{"b", A, F0, F1, SPS, DUR}; void feed(cf) {} size_t left() { return 0; } size_t room() { return 0; } };
#else
struct K { FrequencyShiftBlock b{"b", FS, FR, BUF}; void feed(cf x) { b.in.push(x); } size_t left() { return b.in.size(); } size_t room() { return b.in.space(); } };
#endif
static float re(float x) { return x; } static float re(cf x) { return x.real(); } static float im(float) { return 0; } static float im(cf x) { return x.imag(); }
static const unsigned STEP[] = {0, 1, 2, 5};
extern "C" void harness() {
#if SYMPAR
  A = sym_float("amplitude"); F0 = sym_float("frequency"); F1 = sym_float("frequency1"); SPS = 8; DUR = 0.5f; FS = sym_double("shift"); FR = 8;
#else
  static const float f[] = {0.f, 1.f, -1.3f, 3.7f}; static const float d[] = {0.5f, 0.375f, 1.f}; A = sym_choose("amplitude", 2) ? 1.5f : -0.25f; F0 = f[sym_choose("frequency", 4)]; F1 = f[sym_choose("frequency1", BLK == 1 ? 3 : 1)]; SPS = 8; DUR = d[sym_choose("duration", BLK == 1 ? 3 : 1)]; FS = F0; FR = 8;
#endif
  static T one[NS], cut[NS]; static cf xs[NS]; for (int i = 0; i < NS; i++) xs[i] = BLK == 2 ? (SYMIN ? symSample<cf>() : cf((float)(i % 3) - 1, (float)(i % 4) - 1.5f)) : cf();
  { K k; Out<T> o; unsigned n = 0, fed = 0; for (int c = 0; n < NS && c < 2 * NS; c++) { while (fed < NS && k.room()) k.feed(xs[fed++]); o.reset(NS - n); auto r = k.b.procedure(&o); CHECK(r.is_ok() && o.n > 0 && o.n <= NS - n, "samples come as long as there is room"); for (size_t i = 0; i < o.n && n < NS; i++) one[n++] = o.buf[i]; } CHECK(n == NS, "the whole stream comes"); if (n != NS) return; }
  { K k; if (BLK == 2) { size_t cap = k.room(), rot = sym_choose("rot", 2); if (rot) { 
#if BLK == 2
    rotate(k.b.in, cap);
#endif
    } (void)cap; }
    unsigned fed = 0, n = 0; Out<T> o;
    for (int c = 0; n < NS && c < 3 * NS; c++) {
      unsigned room = !c ? (unsigned)sym_concretize(sym_range("room", 0, NS)) : c < CALLS ? STEP[sym_choose("room", 4)] : NS - n; if (room > NS - n) room = NS - n; unsigned more = BLK != 2 ? 0 : c < CALLS ? STEP[sym_choose("arrive", 4)] : NS - fed; while (more-- && fed < NS && k.room()) k.feed(xs[fed++]);
      size_t have = k.left(); o.reset(room); auto r = k.b.procedure(&o);
      if (BLK == 2) CHECK(have - k.left() == o.n, "a shifter emits one sample per sample consumed"); bool can = room && (BLK != 2 || have); CHECK(can == (o.n > 0), "samples come exactly when they can"); if (!can) { CHECK(r.is_err() && !cler::is_fatal(r.unwrap_err()), "a call that can do nothing says so"); sym_reach("blocked"); } if (o.n > NS - n) return;
      for (size_t i = 0; i < o.n; i++) cut[n++] = o.buf[i];
    }
    CHECK(n == NS, "the whole stream comes"); if (n != NS) return; }
  for (int i = 0; i < NS; i++) CHECK(same(one[i], cut[i]), "the stream is the same however it is cut");
#if !SYMPAR && !SYMIN
  double w = 2 * M_PI * F0 / SPS; unsigned P = BLK == 1 ? (unsigned)(DUR * SPS) : NS;
  for (unsigned i = 0; i < NS; i++) { double j = i % P, ph = BLK == 1 ? w * j + 2 * M_PI * (F1 - F0) / DUR / SPS / SPS * j * (j - 1) / 2 : w * i; double er = A * cos(ph), ei = A * sin(ph); if (BLK == 2) { er = xs[i].real() * cos(ph) - xs[i].imag() * sin(ph); ei = xs[i].real() * sin(ph) + xs[i].imag() * cos(ph); }
    CHECK(fabs(re(one[i]) - er) < 1e-4 && (!CPLX || fabs(im(one[i]) - ei) < 1e-4), "each sample is the one its index (and input) prescribes"); }
#endif
  sym_reach("end");
}
