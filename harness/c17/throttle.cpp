// C17: every sequence of arrivals, rooms and clock readings up to CALLS calls: when each sample passes, and which.
#include "../blk.h"
#include <time.h>
static uint64_t now = 1000000; static uint64_t step() { uint64_t k = sym_range("clock step", 0, (1ull << STEPBITS) - 1); return k << SHIFT; }
static bool slept; static uint64_t asked;
extern "C" uint64_t verif_clock_ns() { now += step(); return now; }
extern "C" int nanosleep(const timespec* t, timespec*) { CHECK(t->tv_sec >= 0 && t->tv_nsec >= 0 && t->tv_nsec < 1000000000, "a sleep is asked for a valid time"); uint64_t d = (uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec; now += d; asked += d; slept = true; if (LATE) now += step(); return 0; }
#include "desktop_blocks/utils/throttle.hpp"
struct Tm : Out<uint32_t> { uint64_t at[CALLS]; unsigned k = 0; void push(const uint32_t& v) override { if (k < CALLS) at[k++] = now; Out::push(v); } bool try_push(const uint32_t& v) override { if (n < room && k < CALLS) at[k++] = now; return Out::try_push(v); } size_t writeN(const uint32_t* d, size_t c) override { for (size_t i = 0; i < c && k < CALLS; i++) at[k++] = now; return Out::writeN(d, c); } void commit_write(size_t c) override { for (size_t i = 0; i < c && k < CALLS; i++) at[k++] = now; Out::commit_write(c); } };
extern "C" void harness() {
  const uint64_t I = 1000000000ull / SPS;         // the interval in whole ticks of the clock
  size_t cap = 1 + sym_choose("capacity", 2) * 2; uint64_t before = now; ThrottleBlock<uint32_t> b("t", SPS, cap); uint64_t start = now; (void)before;
  if (sym_choose("rot", 2)) rotate(b.in, b.in.space());
  Tm o; uint32_t xs[2 * CALLS]; unsigned fed = 0, out = 0; if (GAP) now += step();
  for (int c = 0; c < CALLS; c++) {
    unsigned more = sym_choose("arrive", 3); while (more-- && b.in.space()) { xs[fed] = (uint32_t)sym_bits("x", 32); b.in.push(xs[fed++]); }
    size_t have = b.in.size(); unsigned room = sym_choose("room", 3); o.reset(room); unsigned k0 = o.k; slept = false; asked = 0; uint64_t t0 = now;
    auto r = b.procedure(&o);
    CHECK(have - b.in.size() == o.n, "what a call consumes it has passed on");
    if (!have || !room) { CHECK(o.n == 0 && r.is_err() && !cler::is_fatal(r.unwrap_err()) && !slept && now == t0, "a call that can do nothing says so, at once"); sym_reach("blocked"); if (GAP) now += step(); continue; }
    CHECK(r.is_ok() && o.n >= 1 && o.n <= have && o.n <= room, "a call that can pass a sample does"); if (o.n > have || o.n > room) return;
    for (size_t i = 0; i < o.n; i++, out++) { CHECK(o.buf[i] == xs[out], "samples pass in order and unchanged"); CHECK(o.at[k0 + i] >= start + out * I, "no more samples have passed than the rate allows since the start"); for (unsigned j = 0; j + 1 < out; j++) CHECK(o.at[k0 + i] >= o.at[j] + (out - j - 1) * I, "a delay is not made up for by a burst"); }
    if (slept) { CHECK(asked <= (I + (I >> 20) + 2) * o.n, "a throttle waits for no longer than its interval"); sym_reach("waited"); } else sym_reach("late");
    if (GAP) now += step();
  }
  CHECK(o.k == out, "every sample is seen once"); sym_reach("end");
}
