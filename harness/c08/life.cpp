// C08: every sequence of run / run_for / stop / terminating error up to EV events, both schedulers, with real threads.
#include "../env_vm.h"
#include "../clock.h"
#include "task_policies/cler_desktop_tpolicy.hpp"
using cler::Error; using cler::Empty; using cler::Result;
static uint64_t now, step = 1000; extern "C" uint64_t verif_clock_ns() { return sym_thread_self() ? 1000 : (now += step); }   // time passes for the main thread
#include <time.h>
extern "C" int nanosleep(const timespec* t, timespec*) { if (!sym_thread_self()) now += (uint64_t)t->tv_sec * 1000000000u + (uint64_t)t->tv_nsec; return 0; }   // and it sleeps exactly as long as it asks
struct B; extern "C++" Result<Empty, Error> onCall(B&);
struct B : cler::BlockBase { int id; size_t calls = 0, ok = 0, bad = 0, run = 0; explicit B(int i) : BlockBase("block"), id(i) {} Result<Empty, Error> procedure() { return onCall(*this); } };
template <size_t> struct BR { typedef cler::BlockRunner<B> t; };
template <class S> struct FGT; template <size_t... I> struct FGT<std::index_sequence<I...>> { typedef cler::DesktopFlowGraph<typename BR<I>::t...> type; static type* make(B* b) { return new type(cler::BlockRunner<B>(&b[I])...); } static void mk(B* p) { (new (p + I) B((int)I), ...); } };
typedef FGT<std::make_index_sequence<NB>> FG; typedef FG::type Graph;
static Graph* g; static std::atomic<unsigned> served, handled; static std::atomic<unsigned> runNo; static std::atomic<bool> running, quiet; static std::atomic<int> fatalBlock{-1}; static int mark;
static void onTerminate(void* c) { CHECK(c == &mark, "the handler's context"); handled.fetch_add(1); }
Result<Empty, Error> onCall(B& b) {
  CHECK(running, "no block is called while the graph is stopped");
  if (b.run != runNo) { b.run = runNo; b.ok = b.bad = b.calls = 0; }
  unsigned n = b.calls++; if (n < 3) sym_progress();
  if (n == 0) served.fetch_add(1);
  if (n == 0) { b.ok++; return Empty{}; }
  if (fatalBlock.load() == b.id) { b.bad++; return (Error)(int)sym_range("fatal code", (int)Error::TERMINATE_FLOWGRAPH, (int)Error::TERM_EOFReached); }
  if (n >= 2 && !quiet) while (!g->is_stopped() && fatalBlock.load() < 0) sym_yield();
  b.bad++; if (n == 1 && b.id == 0) return (Error)(int)sym_range("soft code", (int)Error::Unknown, (int)Error::TERMINATE_FLOWGRAPH - 1); return Error::NotEnoughSamples;
}
static void clean(bool detailed) {
  CHECK(g->is_stopped(), "stopped once stop has returned"); CHECK(sym_live_threads() <= 1, "every task has been joined once stop has returned"); running = false;
  if (detailed) { auto& st = g->stats(); for (int i = 0; i < NB; i++) { extern B* blk; CHECK(blk[i].run == runNo && st[i].successful_procedures == blk[i].ok && st[i].failed_procedures == blk[i].bad, "statistics are those of the latest run"); } }
}
B* blk;
extern "C" void harness() {
  alignas(B) static char mem[sizeof(B) * NB]; B* b = blk = (B*)mem; FG::mk(b); g = FG::make(b); g->set_on_err_terminate_cb(onTerminate, &mark);
  bool up = false, detailed = false; cler::FlowGraphConfig last; unsigned fatals = 0;
  for (int e = 0; e < EV; e++) {
    unsigned k = sym_choose("event", 6);
    if (k == 0) break;
    if (k <= 2 || k == 5) {       // run under thread-per-block, under the pool, or for a time
      cler::FlowGraphConfig c; unsigned s = k == 5 ? POOLRF : k == 2; if (s) { c.scheduler = cler::SchedulerType::FixedThreadPool; c.num_workers = NB > 2 ? sym_range("workers", 2, NB - 1) : 1; }
      c.max_calls_per_tick = sym_range("max calls", 1, 3); c.collect_detailed_stats = STATS; c.adaptive_sleep = e & 1; c.adaptive_sleep_max_us = sym_double("max sleep"); c.adaptive_sleep_fail_threshold = 1000;
      fatalBlock.store(-1); served.store(0); handled.store(0); if (up && !g->is_stopped()) { g->stop(); clean(detailed && STATS); }   // restarting a running graph is not part of the claim; a terminated one is
      runNo++; running = true; detailed = true; last = c;
      if (k == 5) { quiet = true; step = 4000; auto t0 = now; uint64_t ns = LONGRUN ? 150000000ull : 10000ull; if (LONGRUN) step = 15000000; g->run_for(std::chrono::nanoseconds(ns), c); quiet = false; CHECK(now - t0 >= ns, "a timed run lasts as long as asked"); step = 1000; up = false;
        CHECK(g->is_stopped() && sym_live_threads() <= 1, "a timed run has ended when it returns"); running = false; sym_reach("timed run"); continue; }
      g->run(c); up = true;
      CHECK(g->config().max_calls_per_tick == c.max_calls_per_tick && g->config().adaptive_sleep == c.adaptive_sleep && dbits(g->config().adaptive_sleep_max_us) == dbits(c.adaptive_sleep_max_us) && g->config().scheduler == c.scheduler, "the configuration is the one given to the latest run");
      while (served.load() < NB) sym_yield();                         // every block is called in this run, or this never ends
      CHECK(!g->is_stopped(), "a graph that was started again is not stopped");
      if (runNo > 1) sym_reach("second run");
    } else if (k == 3) { g->stop(); if (!runNo) { CHECK(g->is_stopped(), "stopped after stop"); } else if (up) clean(detailed && STATS); else CHECK(g->is_stopped() && sym_live_threads() <= 1, "stopping again changes nothing"); up = false; }
    else { if (!up || fatalBlock.load() >= 0) sym_assume(0); fatalBlock.store(NB - 1); while (!g->is_stopped()) sym_yield(); while (handled.load() < 1) sym_yield(); sym_reach("terminated"); }
  }
  g->stop(); if (up) clean(detailed && STATS); running = false; delete g; CHECK(sym_live_threads() <= 1, "no task outlives the graph"); sym_reach("end");
}
