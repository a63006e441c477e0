// C06: which worker calls which block, how often and in what order, for every worker count and a symbolic outcome of each call.
#include "../fg.h"
typedef FG<Scripted>::type Graph; static Graph* g; static uint64_t now; extern "C" uint64_t verif_clock_ns() { return now += 1000; }
static unsigned idle, budget, symCalls, lastResult; static std::vector<int>* trace; static unsigned maxCalls;
Result<Empty, Error> onCall(B& b) {
  CHECK(!g->is_stopped(), "no block is called once the graph is stopped");
  CHECK(budget > 0, "no call after the stop"); trace->push_back(b.id);
  if (--budget == 0) g->stop();
  unsigned k = 0; if (symCalls) { symCalls--; k = sym_choose("result", 3); }
  if (k == 1) return Error::NotEnoughSamples; if (k == 2) return Error::BadData; return Empty{};
}
extern "C" void harness() {
  alignas(B) static char mem[sizeof(B) * NB]; B* b = (B*)mem; FG<Scripted>::mk(b);
  trace = new std::vector<int>; trace->reserve(256);
  g = FG<Scripted>::make(b); cler::FlowGraphConfig cfg; cfg.scheduler = cler::SchedulerType::FixedThreadPool; cfg.num_workers = sym_bits("workers", 64); cfg.pin_workers = sym_bool("pin");
  maxCalls = cfg.max_calls_per_tick = 1 + sym_choose("max_calls", 3);
  cfg.collect_detailed_stats = STATS;
  int owner[NB]; for (int i = 0; i < NB; i++) owner[i] = -1;
  unsigned nw = 0, symWorker = sym_choose("symworker", NB);
  for (unsigned w = 0; ; w++) {
    Scripted::tasks().clear(); budget = 3 * NB * 3; symCalls = w == symWorker ? SYMCALLS : 0; trace->clear();
    g->run(cfg); unsigned n = (unsigned)Scripted::tasks().size(); if (w == 0) nw = n; CHECK(n == nw && n >= 1 && n <= NB, "the same number of tasks each time, at most one per block"); CHECK(n <= cfg.num_workers || cfg.num_workers == 0 || (n == NB && cfg.num_workers >= NB), "no more tasks than workers asked for");
    if (w >= n) { g->stop(); break; }
    auto f = Scripted::tasks()[w];
    idle = 0; Scripted::onRelax = [] { if (trace->empty() && ++idle > 2) g->stop(); };   // a worker without blocks idles until the graph is stopped
    f();
    auto& t = *trace; unsigned m = (unsigned)t.size(); bool mine[NB] = {}; unsigned distinct = 0; for (unsigned i = 0; i < m; i++) { CHECK(t[i] >= 0 && t[i] < NB, "a block index"); if (!mine[t[i]]) { mine[t[i]] = true; distinct++; } }
    if (n == NB) CHECK(distinct == 1, "one thread per block serves one block");
    // in turn: collapse runs, then every window of `distinct` visits covers every one of them
    if (distinct > 1) { int v[3 * NB * 3]; unsigned k = 0, run = 0; for (unsigned i = 0; i < m; i++) { if (k && v[k - 1] == t[i]) { run++; CHECK(run <= maxCalls, "a visit makes at most the configured number of calls"); } else { v[k++] = t[i]; run = 1; } }
      for (unsigned i = 0; i + distinct <= k; i++) CHECK(v[i + distinct - 1] >= 0 && (i + distinct >= k || v[i + distinct] == v[i]), "blocks are served in turn"); CHECK(k >= 2 * distinct, "every block is served again and again"); }
    for (int i = 0; i < NB; i++) if (mine[i]) { CHECK(owner[i] < 0, "no block belongs to two workers"); owner[i] = (int)w; }
  }
  for (int i = 0; i < NB; i++) CHECK(owner[i] >= 0, "every block belongs to a worker");
  if (nw < NB) sym_reach("pool"); else sym_reach("thread per block"); sym_reach("end");
}
