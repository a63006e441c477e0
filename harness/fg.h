// A flowgraph of NB scripted blocks under a task policy that records what the scheduler asks for (tasks run when the harness says).
#pragma once
#include "env_vm.h"
#include "clock.h"
#include "cler.hpp"
#include "task_policies/cler_task_policy_base.hpp"
#include <functional>
#include <vector>
#ifndef NB
#define NB 2
#endif
using cler::Error; using cler::Empty; using cler::Result;
struct Scripted : cler::TaskPolicyBase<Scripted> {
  struct task_type { int id = -1; bool live = false; };
  static std::vector<std::function<void()>>& tasks() { static std::vector<std::function<void()>> t; return t; }
  static inline unsigned joins, relaxes, yields, pins; static inline std::vector<uint64_t>* sleeps; static inline bool inTask;
  template <class F> static task_type create_task(F&& f) { task_type t; t.id = (int)tasks().size(); t.live = true; tasks().emplace_back(std::forward<F>(f)); return t; }
  static void join_task(task_type& t) { if (t.live) joins++; t.live = false; }
  static void yield() { yields++; }
  static void sleep_us(size_t us) { if (sleeps) sleeps->push_back(us); }
  static inline void (*onRelax)(); static void relax() { relaxes++; if (onRelax) onRelax(); }
  static void pin_to_core(size_t) { pins++; }
};
struct B; extern "C++" Result<Empty, Error> onCall(B&);
struct B : cler::BlockBase { int id; explicit B(int i) : BlockBase("block"), id(i) {} Result<Empty, Error> procedure() { return onCall(*this); } };
template <class P, size_t> using BR = cler::BlockRunner<B>;
template <class P, class S> struct FGT; template <class P, size_t... I> struct FGT<P, std::index_sequence<I...>> { typedef cler::FlowGraph<P, BR<P, I>...> type; static type* make(B* b) { return new type(cler::BlockRunner<B>(&b[I])...); } static void mk(B* p) { (new (p + I) B((int)I), ...); } };
template <class P> using FG = FGT<P, std::make_index_sequence<NB>>;
