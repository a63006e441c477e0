// C09: adaptive back-off: delays requested from the task layer for every sequence of results and symbolic configuration.
#include "../fg.h"
typedef FG<Scripted>::type Graph; static Graph* g; extern "C" uint64_t verif_clock_ns() { return 1000; }
static unsigned symAt, calls, fails; static bool justOk; static size_t nsleeps; static cler::FlowGraphConfig cfg; static int self;
static bool capped; static double prev; static uint64_t lastReq;
static void account() {   // what was requested between the previous call and this one
  auto& sl = *Scripted::sleeps; size_t n = sl.size() - nsleeps; double cur = g->stats()[self].current_adaptive_sleep_us.load();
  CHECK(n <= 1, "at most one delay after a call");
  if (!cfg.adaptive_sleep) { CHECK(n == 0 && cur == 0, "no delay with adaptive sleeping off"); }
  else if (n) {
    CHECK(!justOk, "a block that made progress is not delayed"); CHECK(fails > cfg.adaptive_sleep_fail_threshold, "no delay before the configured number of consecutive failures");
    CHECK(cur <= cfg.adaptive_sleep_max_us, "the back-off never exceeds the maximum"); CHECK(sl.back() <= (uint64_t)cfg.adaptive_sleep_max_us, "the delay never exceeds the maximum");
    if (prev > 0 && !SYMMAX) { CHECK(cur <= prev * cfg.adaptive_sleep_multiplier * 1.0625, "the back-off grows by at most the multiplier (and its jitter)"); CHECK(fails < 2 || cur >= prev * 0.9375 || cur == cfg.adaptive_sleep_max_us, "the back-off does not shrink while the block fails"); }
    else if (prev == 0) CHECK(cur <= 1.0, "the back-off starts at one microsecond");
    sym_reach("delayed"); if (cur == cfg.adaptive_sleep_max_us) sym_reach("at the maximum");
  } else if (!justOk && calls) CHECK(fails <= cfg.adaptive_sleep_fail_threshold, "a block that keeps failing is delayed");
  if (justOk) CHECK(cur <= prev, "progress never lengthens the back-off");
  prev = cur; nsleeps = sl.size();
}
Result<Empty, Error> onCall(B& b) {
  if (b.id != self) { return Empty{}; }
  account();
  if (calls == CALLS) { g->stop(); return Error::NotEnoughSamples; }
  calls++; unsigned k = SYMMAX && calls != symAt ? 1 : sym_choose("result", 2); if (k == 0) { justOk = true; fails = 0; return Empty{}; }
  justOk = false; fails++; return (Error)(int)sym_range("starved", (int)Error::NotEnoughSamples, (int)Error::NotEnoughSpaceOrSamples);
}
extern "C" void harness() {
  alignas(B) static char mem[sizeof(B) * NB]; B* b = (B*)mem; FG<Scripted>::mk(b); Scripted::sleeps = new std::vector<uint64_t>; Scripted::sleeps->reserve(64);
  g = FG<Scripted>::make(b); cfg.max_calls_per_tick = 1 + (SYMMAX ? 0 : sym_choose("max_calls", 2)); cfg.adaptive_sleep = ADAPT;
  if (POOL) { cfg.scheduler = cler::SchedulerType::FixedThreadPool; cfg.num_workers = 1; }
  cfg.adaptive_sleep_fail_threshold = SYMMAX ? 0 : sym_bits("threshold", 64);
  static const double M[] = {1.0, 1.5, 2.0, 7.3}, X[] = {0, 0.4, 1.0, 2.7, 10.0, 5000.0};
#if SYMMAX
  cfg.adaptive_sleep_multiplier = MULT; cfg.adaptive_sleep_max_us = sym_double("max"); sym_assume(cfg.adaptive_sleep_max_us >= 0 && cfg.adaptive_sleep_max_us <= 1e9);
#else
  cfg.adaptive_sleep_multiplier = M[sym_choose("multiplier", 4)]; cfg.adaptive_sleep_max_us = X[sym_choose("max", 6)];
#endif
  symAt = SYMMAX ? sym_choose("success at", CALLS) + 1 : 0; self = SELF; g->run(cfg); auto& t = Scripted::tasks(); CHECK(t.size() == (POOL ? 1 : NB), "tasks"); t[POOL ? 0 : self]();
  CHECK(Scripted::joins > 0 && calls == CALLS, "ran"); sym_reach("end");
}
