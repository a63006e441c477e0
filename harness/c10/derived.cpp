// C10: figures derived from any recorded counts and times.
#include "../allstd.h"
#include "sym.h"
#include "cler.hpp"
static double small(const char* n) { uint64_t m = sym_bits(n, 4), e = sym_bits("exponent", 6); uint64_t u = ((e + 991) << 52) | (m << 48); double d; memcpy(&d, &u, 8); return d; }   // 2^-32 .. 2^31 s, sixteen steps per octave
extern "C" void harness() {
  cler::BlockExecutionStats s; s.successful_procedures = sym_bits("ok", 8); s.failed_procedures = sym_bits("bad", 8);
  s.total_runtime_s = sym_bool("zero run") ? 0.0 : small("run"); s.total_dead_time_s = sym_bool("zero dead") ? 0.0 : small("dead"); sym_assume(s.total_dead_time_s <= s.total_runtime_s);
  double u = s.get_cpu_utilization_percent();
#if WHAT == 0
  CHECK(u >= 0 && u <= 100.0001, "utilisation is a percentage"); if (s.total_runtime_s == 0) CHECK(u == 0, "no utilisation without run time"); else if (s.total_dead_time_s == 0) CHECK(u > 99.9999, "fully used without dead time"); if (s.total_runtime_s > 0 && s.total_dead_time_s == s.total_runtime_s) CHECK(u == 0, "unused when all dead");
#else
  double e = s.get_avg_execution_time_us(), d = s.get_avg_dead_time_per_fail();
  CHECK(e >= 0 && e < 1e17, "average time is finite and not negative"); CHECK(d >= 0 && d <= s.total_dead_time_s, "average dead time is at most the whole"); if (!s.successful_procedures) CHECK(e == 0, "no successes, no average"); if (!s.failed_procedures) CHECK(d == 0, "no failures, no average");
#endif
  sym_reach("end");
}
