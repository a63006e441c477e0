// C07: real desktop threads, every interleaving: a terminating result stops every block, a soft one stops none, and a stop is final.
#include "../env_vm.h"
#include "../clock.h"
#include "task_policies/cler_desktop_tpolicy.hpp"
#include <vector>
using cler::Error; using cler::Empty; using cler::Result;
#ifndef NB
#define NB 2
#endif
extern "C" uint64_t verif_clock_ns() { return 1000; }
struct B; extern "C++" Result<Empty, Error> onCall(B&);
struct B : cler::BlockBase { int id; unsigned calls = 0, fatals = 0; bool sawStop = false; explicit B(int i) : BlockBase("block"), id(i) {} Result<Empty, Error> procedure() { return onCall(*this); } };
template <size_t> struct BR { typedef cler::BlockRunner<B> t; };
template <class S> struct FGT; template <size_t... I> struct FGT<std::index_sequence<I...>> { typedef cler::DesktopFlowGraph<typename BR<I>::t...> type; static type* make(B* b) { return new type(cler::BlockRunner<B>(&b[I])...); } static void mk(B* p) { (new (p + I) B((int)I), ...); } };
typedef FGT<std::make_index_sequence<NB>> FG; typedef FG::type Graph;
static Graph* g; static bool done; static std::atomic<unsigned> cb, served; static int mark; static bool symRes[NB]; static int fatalAt[NB];
static void onTerminate(void* c) { CHECK(c == &mark, "the terminate handler gets the context it was set with"); CHECK(g->is_stopped(), "the graph is stopped when the terminate handler runs"); cb.fetch_add(1); }
Result<Empty, Error> onCall(B& b) {
  CHECK(!done, "no block is called after stop has returned"); CHECK(!b.sawStop, "no call starts once the graph is stopped for this worker"); CHECK(!b.fatals, "a block that reported a terminating error is not called again");
  unsigned n = b.calls++; if (n < CALLS + 3) sym_progress();
  if ((int)n == fatalAt[b.id]) { b.fatals++; Error e = (Error)(int)sym_range("fatal code", (int)Error::TERMINATE_FLOWGRAPH, (int)Error::TERM_EOFReached); return e; }
  if (n == CALLS - 1) served.fetch_add(1);
  if (n >= CALLS + (POOL ? 1 : 0)) { if (HOLD) while (!g->is_stopped()) sym_yield(); b.sawStop = g->is_stopped(); if (MAXC) return Empty{}; return Error::NotEnoughSamples; }   // from here on nothing but the stop matters
  if (!symRes[b.id]) return Empty{};
  unsigned k = sym_choose("result", 3); if (k == 0) return Empty{}; if (k == 1) return Error::NotEnoughSpace;
  return (Error)(int)sym_range("soft code", (int)Error::Unknown, (int)Error::TERMINATE_FLOWGRAPH - 1);
}
extern "C" void harness() {
  alignas(B) static char mem[sizeof(B) * NB]; B* b = (B*)mem; FG::mk(b); for (int i = 0; i < NB; i++) fatalAt[i] = -1;
  g = FG::make(b); g->set_on_err_terminate_cb(onTerminate, &mark);
  CHECK(g->on_err_terminate_cb() == onTerminate && g->on_err_terminate_context() == &mark, "the handler set is the handler reported");
  cler::FlowGraphConfig c; c.max_calls_per_tick = 1 + MAXC; c.adaptive_sleep = ADAPT; c.adaptive_sleep_fail_threshold = 0;
  if (POOL) { c.scheduler = cler::SchedulerType::FixedThreadPool; c.num_workers = POOL; }
  unsigned nf = 0;
  if (MODE == 0) { int f = sym_choose("who", NB); fatalAt[f] = sym_choose("when", CALLS); nf = 1; symRes[f] = true; }        // one block reports a terminating error
  if (MODE == 1) symRes[sym_choose("who", NB)] = true;                                                                         // soft results only
  if (MODE == 3) { for (int i = 0; i < NB; i++) fatalAt[i] = sym_choose("when", CALLS), nf++; }                                 // all of them do
  g->run(c);
  if (MODE == 0 || MODE == 3) { while (!g->is_stopped()) sym_yield(); }
  if (MODE == 1) { while (served.load() < NB) { CHECK(!g->is_stopped(), "a soft result does not stop the graph"); sym_yield(); } CHECK(!g->is_stopped(), "a soft result does not stop the graph"); }
  g->stop(); done = true;
  CHECK(g->is_stopped(), "stopped after stop"); CHECK(sym_live_threads() <= 1, "every worker has ended when stop returns");
  unsigned f = 0; for (int i = 0; i < NB; i++) f += b[i].fatals; CHECK(cb.load() == f, "the terminate handler runs once for every terminating error and not otherwise");
  if (MODE == 0) { CHECK(f == 1, "the terminating result was delivered"); sym_reach("fatal"); }
  if (MODE == 3) { CHECK(f >= 1, "the terminating result was delivered"); if (f == NB) sym_reach("all fatal"); else sym_reach("some fatal"); }
  if (MODE == 1) for (int i = 0; i < NB; i++) CHECK(b[i].calls >= CALLS, "every block goes on being called");
  delete g; CHECK(sym_live_threads() <= 1, "every worker has ended when the graph is destroyed"); sym_reach("end");
}
