// C10: statistics count every call exactly; times stay within the run; derived figures stay in range, for any non-decreasing clock.
#include "../fg.h"
typedef FG<Scripted>::type Graph; static Graph* g; static uint64_t now = 5000000; static unsigned reads;
extern "C" uint64_t verif_clock_ns() { if (reads++ < TICKS) { static const uint64_t D[] = {0, 1000003, 3600000000000ull}; now += D[sym_choose("tick", 3)]; } else now += 7; return now; }
static unsigned budget, calls[NB]; static size_t ok[NB], bad[NB]; static cler::FlowGraphConfig cfg;
Result<Empty, Error> onCall(B& b) {
  calls[b.id]++; if (--budget == 0) g->stop();
  unsigned k = sym_choose("result", 3); if (k == 0) { ok[b.id]++; return Empty{}; }
  bad[b.id]++; if (k == 1) return (Error)(int)sym_range("soft", (int)Error::Unknown, (int)Error::TERMINATE_FLOWGRAPH - 1);
  return (Error)(int)sym_range("fatal", (int)Error::TERMINATE_FLOWGRAPH, (int)Error::TERM_EOFReached);
}
static void derived(const cler::BlockExecutionStats& s, double elapsed) {
  CHECK(s.total_runtime_s >= 0 && s.total_dead_time_s >= 0, "times are not negative"); CHECK(s.total_runtime_s <= elapsed * 1.000001 + 1e-9, "no run time beyond the run"); CHECK(s.total_dead_time_s <= s.total_runtime_s * 1.000001 + 1e-9, "no dead time beyond the run time");
  double u = s.get_cpu_utilization_percent(), e = s.get_avg_execution_time_us(), d = s.get_avg_dead_time_per_fail();
  CHECK(u >= -0.001 && u <= 100.001, "utilisation is a percentage"); CHECK(e >= 0 && d >= 0, "averages are not negative"); CHECK(d <= s.total_runtime_s * 1.000001 + 1e-9, "average dead time within the run");
  if (!s.successful_procedures) CHECK(e == 0, "no average without successes"); if (!s.failed_procedures) CHECK(d == 0, "no average without failures");
}
extern "C" void harness() {
  alignas(B) static char mem[sizeof(B) * NB]; B* b = (B*)mem; FG<Scripted>::mk(b); g = FG<Scripted>::make(b);
  cler::BlockExecutionStats none; derived(none, 0);
  cfg.collect_detailed_stats = STATS; cfg.max_calls_per_tick = 1 + sym_choose("max_calls", 2); cfg.adaptive_sleep = ADAPT; cfg.adaptive_sleep_fail_threshold = 0;
  if (POOL) { cfg.scheduler = cler::SchedulerType::FixedThreadPool; cfg.num_workers = POOL; }
  for (unsigned r = 0; r < RUNS; r++) {
    for (int i = 0; i < NB; i++) ok[i] = bad[i] = calls[i] = 0; budget = r + 1 < RUNS ? 2 : CALLS; Scripted::tasks().clear();
    uint64_t t0 = now; g->run(cfg); auto& t = Scripted::tasks(); size_t n = t.size(), first = sym_choose("first", (unsigned)n);
    t[first](); if (!g->is_stopped()) sym_fail("the first task ended with the run"); for (size_t i = 0; i < n; i++) if (i != first) t[i]();
    g->stop(); double el = (double)(now - t0) / 1e9; const auto& st = g->stats(); size_t total = 0;
    for (int i = 0; i < NB; i++) {
      if (STATS) CHECK(st[i].successful_procedures == ok[i] && st[i].failed_procedures == bad[i], "every call is counted once, under its block"); else CHECK(!st[i].successful_procedures && !st[i].failed_procedures && st[i].total_runtime_s == 0 && st[i].total_dead_time_s == 0, "nothing is collected unless asked for");
      derived(st[i], el); total += st[i].successful_procedures + st[i].failed_procedures; if (STATS) CHECK(!strcmp(st[i].name.c_str(), "block"), "named after the block");
      if (ADAPT && STATS) CHECK(st[i].final_adaptive_sleep_us >= 0 && st[i].final_adaptive_sleep_us <= cfg.adaptive_sleep_max_us, "final back-off in range"); if (!ADAPT) CHECK(st[i].final_adaptive_sleep_us == 0, "no back-off when off");
      if (st[i].total_dead_time_s > 0) sym_reach("dead time");
    }
    if (total >= 2) sym_reach("counted");
  }
  sym_reach("end");
}
