// liquid-dsp stand-ins (C API as declared by liquid.h): each filter is the machine of blk.h, per component.
#pragma once
#include "blk.h"
#include "liquid.h"
static int dspLive; static float dspKf, dspFc, dspAs, dspMu; static unsigned dspN;
struct freqdem_s { Mach a, b; }; struct firfilt_rrrf_s { Mach a; uint32_t y; }; struct firfilt_crcf_s { Mach a, b; cf y; };
static float stepF(Mach& m, float x) { return bitsf(m.step(fbits(x))); } static cf stepC(Mach& a, Mach& b, cf x) { float r = stepF(a, x.real()), i = stepF(b, x.imag()); return cf(r, i); }
static float stepFM(freqdem_s& q, cf x) { uint32_t r = q.a.step(fbits(x.real())), i = q.b.step(fbits(x.imag())); return bitsf(r ^ rotl(i, 5)); }
extern "C" {
freqdem freqdem_create(float k) { dspLive++; dspKf = k; return new freqdem_s; } int freqdem_destroy(freqdem q) { dspLive--; delete q; return 0; } int freqdem_reset(freqdem q) { *q = freqdem_s(); return 0; }
int freqdem_demodulate(freqdem q, cf r, float* m) { *m = stepFM(*q, r); return 0; } int freqdem_demodulate_block(freqdem q, cf* r, unsigned n, float* m) { for (unsigned i = 0; i < n; i++) m[i] = stepFM(*q, r[i]); return 0; }
firfilt_rrrf firfilt_rrrf_create_kaiser(unsigned n, float fc, float as, float mu) { dspLive++; dspN = n; dspFc = fc; dspAs = as; dspMu = mu; return new firfilt_rrrf_s; } int firfilt_rrrf_destroy(firfilt_rrrf q) { dspLive--; delete q; return 0; } int firfilt_rrrf_reset(firfilt_rrrf q) { *q = firfilt_rrrf_s(); return 0; }
int firfilt_rrrf_push(firfilt_rrrf q, float x) { q->y = q->a.step(fbits(x)); return 0; } int firfilt_rrrf_execute(firfilt_rrrf q, float* y) { *y = bitsf(q->y); return 0; } int firfilt_rrrf_execute_one(firfilt_rrrf q, float x, float* y) { *y = stepF(q->a, x); return 0; } int firfilt_rrrf_execute_block(firfilt_rrrf q, float* x, unsigned n, float* y) { for (unsigned i = 0; i < n; i++) y[i] = stepF(q->a, x[i]); return 0; }
firfilt_crcf firfilt_crcf_create_kaiser(unsigned n, float fc, float as, float mu) { dspLive++; dspN = n; dspFc = fc; dspAs = as; dspMu = mu; return new firfilt_crcf_s; } int firfilt_crcf_destroy(firfilt_crcf q) { dspLive--; delete q; return 0; } int firfilt_crcf_reset(firfilt_crcf q) { *q = firfilt_crcf_s(); return 0; }
int firfilt_crcf_push(firfilt_crcf q, cf x) { q->y = stepC(q->a, q->b, x); return 0; } int firfilt_crcf_execute(firfilt_crcf q, cf* y) { *y = q->y; return 0; } int firfilt_crcf_execute_one(firfilt_crcf q, cf x, cf* y) { *y = stepC(q->a, q->b, x); return 0; } int firfilt_crcf_execute_block(firfilt_crcf q, cf* x, unsigned n, cf* y) { for (unsigned i = 0; i < n; i++) y[i] = stepC(q->a, q->b, x[i]); return 0; }
}
