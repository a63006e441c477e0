#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
using namespace llvm;

static uint32_t vget(const VC& v, uint32_t i) { return i < v.size() ? v[i] : 0; }
static void vset(VC& v, uint32_t i, uint32_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
static void vjoin(VC& a, const VC& b) { for (uint32_t i = 0; i < b.size(); i++) if (vget(a, i) < b[i]) vset(a, i, b[i]); }

bool Exec::multi(State& s) { if (s.th.size() < 2) return false; unsigned n = 0; for (auto& t : s.th) if (!t.finished) n++; return n > 1; }

void Exec::raceCheck(State& s, uint32_t obj, uint64_t off, unsigned n, bool write) {
  Thread& t = s.th[s.cur];
  for (unsigned i = 0; i < n; i++) {
    RaceRec& r = s.race[((uint64_t)obj << 32) | (off + i)];
    if (r.wt != 0xffff && r.wt != s.cur && vget(t.vc, r.wt) < r.we) error(s, "race", std::string("data race: ") + (write ? "write" : "read") + " of '" + objRO(s, obj)->name + "'+" + std::to_string(off + i) + " not ordered after a write by another thread");
    if (write) {
      for (auto& p : r.reads) if (p.first != s.cur && vget(t.vc, p.first) < p.second) error(s, "race", "data race: write of '" + objRO(s, obj)->name + "'+" + std::to_string(off + i) + " not ordered after a read by another thread");
      r.reads.clear(); r.wt = s.cur; r.we = vget(t.vc, s.cur);
    } else {
      bool f = false; for (auto& p : r.reads) if (p.first == s.cur) { p.second = vget(t.vc, s.cur); f = true; }
      if (!f) r.reads.push_back({s.cur, vget(t.vc, s.cur)});
    }
  }
}
uint64_t Exec::atomLoc(State& s, E addr, unsigned n) {
  uint64_t a = concretize(s, addr); Acc r = resolve(s, mkConst(a, 64), n, false); return ((uint64_t)r.id << 32) | (uint64_t)r.off->val;
}
static bool isAcq(AtomicOrdering o) { return isAcquireOrStronger(o); }
static bool isRel(AtomicOrdering o) { return isReleaseOrStronger(o); }

E Exec::atomicLoad(State& s, E addr, unsigned n, AtomicOrdering o, bool rmw) {
  if (!s.everMulti) return load(s, addr, n);
  uint64_t k = atomLoc(s, addr, n); uint32_t id = k >> 32; uint64_t off = k & 0xffffffff;
  Thread& t = s.th[s.cur];
  auto& L = s.atoms[k];
  if (L.h.empty()) { L.size = n; L.h.push_back({readC(s, id, off, n, false), {}, 0, 0, false}); 
    RaceRec* rr = nullptr; auto it = s.race.find(k); if (it != s.race.end()) rr = &it->second; // initialisation must be ordered before
    if (rr && rr->wt != 0xffff && rr->wt != s.cur && vget(t.vc, rr->wt) < rr->we) error(s, "race", "atomic object used before its initialisation is visible"); }
  int lastIdx = (int)L.h.size() - 1, first = lastIdx;
  if (!rmw && opt.weak) {
    first = 0; for (int i = lastIdx; i >= 0; i--) { if (L.h[i].tid == s.cur || vget(t.vc, L.h[i].tid) >= L.h[i].epoch) { first = i; break; } if (o == AtomicOrdering::SequentiallyConsistent && L.h[i].sc) { first = i; break; } }
    auto lr = t.lastRead.find(k); if (lr != t.lastRead.end() && lr->second > first) first = lr->second;
  }
  int pick = lastIdx;
  if (lastIdx > first) {
    // choose which visible store is read
    int nc = lastIdx - first + 1, c;
    if (s.forced >= 0) { c = s.forced; s.forced = -1; } else { for (int i = 1; i < nc; i++) { State* f = fork(s); f->forced = i; } c = 0; }
    pick = lastIdx - c;
  }
  if (!rmw) s.inputs.push_back({"readfrom", mkConst(lastIdx - pick, 32)});
  Thread& tt = s.th[s.cur]; auto& LL = s.atoms[k];
  if (opt.spinCheck && !rmw) {
    uint64_t key = (uint64_t)(uintptr_t)tt.stack.back().pc * 31 + k * 7 + pick;
    int c = ++tt.spin[key];
    if (c > (int)opt.spinLimit) {
      bool others = false; for (unsigned i = 0; i < s.th.size(); i++) if (i != s.cur && !s.th[i].finished) { Op op = opOf(s, i); if (op.t == OP_NONE || enabled(s, i, op)) others = true; }
      if (!others && pick == lastIdx) error(s, "livelock", "a thread spins forever: nothing left can release it");
      st.pruned++; throw PathEnd{};
    }
  }
  const StoreRec& r = LL.h[pick]; tt.lastRead[k] = pick;
  if (isAcq(o)) vjoin(tt.vc, r.rel); else vjoin(tt.acqPending, r.rel);
  return r.val;
}
void Exec::atomicStore(State& s, E addr, E v, unsigned n, AtomicOrdering o, bool rmw) {
  if (v->w % 8) v = mkZExt(v, n * 8);
  if (!s.everMulti) { store(s, addr, v); return; }
  uint64_t k = atomLoc(s, addr, n); uint32_t id = k >> 32; uint64_t off = k & 0xffffffff;
  Thread& t = s.th[s.cur]; auto& L = s.atoms[k];
  if (L.h.empty()) { L.size = n; L.h.push_back({readC(s, id, off, n, false), {}, 0, 0, false}); }
  uint32_t ep = vget(t.vc, s.cur) + 1; vset(t.vc, s.cur, ep);
  StoreRec r; r.val = v; r.tid = s.cur; r.epoch = ep; r.sc = o == AtomicOrdering::SequentiallyConsistent;
  if (isRel(o)) r.rel = t.vc; else r.rel = t.relFence;
  if (rmw) vjoin(r.rel, L.h.back().rel);
  L.h.push_back(r); t.lastRead[k] = (int)L.h.size() - 1; t.spin.clear();
  vset(t.vc, s.cur, ep + 1); s.storeCount++;
  Obj* ob = objRW(s, id); for (unsigned i = 0; i < n; i++) if (v->isConst()) setByte(ob, off + i, {nullptr, (uint32_t)((v->val >> (8 * i)) & 255)}); else setByte(ob, off + i, {v, i});
}
void Exec::fence(State& s, AtomicOrdering o) {
  if (!s.everMulti) return; Thread& t = s.th[s.cur];
  if (isAcq(o)) { vjoin(t.vc, t.acqPending); }
  if (isRel(o)) { t.relFence = t.vc; vset(t.vc, s.cur, vget(t.vc, s.cur) + 1); }
}
bool Exec::visibleInst(State& s, Thread& t, Op& op) {
  if (t.finished || t.stack.empty()) return false;
  Frame& f = t.stack.back(); const Instruction* I = f.pc;
  auto locOf = [&](const Value* p, unsigned n) -> uint64_t { E e = simp(s, evalE(s, f, p)); if (!e->isConst()) return 0; uint32_t id; uint64_t off; if (!translate(s, (uint64_t)e->val, false, id, off)) return 0; return ((uint64_t)id << 32) | off; };
  if (auto* l = dyn_cast<LoadInst>(I)) { if (!l->isAtomic()) return false; op = {OP_LOAD, locOf(l->getPointerOperand(), 1)}; return true; }
  if (auto* l = dyn_cast<StoreInst>(I)) { if (!l->isAtomic()) return false; op = {OP_STORE, locOf(l->getPointerOperand(), 1)}; return true; }
  if (auto* l = dyn_cast<AtomicRMWInst>(I)) { op = {OP_STORE, locOf(l->getPointerOperand(), 1)}; return true; }
  if (auto* l = dyn_cast<AtomicCmpXchgInst>(I)) { op = {OP_STORE, locOf(l->getPointerOperand(), 1)}; return true; }
  if (isa<FenceInst>(I)) { op = {OP_FENCE, 0}; return true; }
  if (auto* c = dyn_cast<CallBase>(I)) { Function* fn = c->getCalledFunction(); if (!fn || !fn->isDeclaration()) return false; StringRef n = fn->getName();
    if (n == "sym_thread_join") { E e = simp(s, evalE(s, f, c->getArgOperand(0))); op = {OP_JOIN, e->isConst() ? (uint64_t)e->val : 0}; return true; }
    if (n == "sym_yield") { op = {OP_YIELD, 0}; return true; }
    if (n == "sym_point") { op = {OP_OTHER, 0}; return true; }
    if (n == "pthread_mutex_lock") { op = {OP_LOCK, locOf(c->getArgOperand(0), 1)}; return true; }
    if (n == "pthread_mutex_unlock" || n == "pthread_mutex_trylock") { op = {OP_STORE, locOf(c->getArgOperand(0), 1)}; return true; } }
  return false;
}
Op Exec::opOf(State& s, unsigned t) { Op op; visibleInst(s, s.th[t], op); return op; }
bool Exec::enabled(State& s, unsigned i, const Op& op) {
  Thread& t = s.th[i]; if (t.finished) return false;
  if (op.t == OP_JOIN) return op.loc >= s.th.size() || s.th[op.loc].finished;
  if (op.t == OP_LOCK) { auto it = s.mutexes.find(op.loc); return it == s.mutexes.end() || it->second.first < 0; }
  if (op.t == OP_YIELD && t.yielded && t.yieldedAt == s.storeCount) return false;
  return true;
}
static bool independent(const Op& a, const Op& b) {
  if (a.t == OP_NONE || b.t == OP_NONE || a.t == OP_OTHER || b.t == OP_OTHER) return false;
  if (a.t == OP_FENCE || b.t == OP_FENCE || a.t == OP_JOIN || b.t == OP_JOIN) return true;
  if (a.t == OP_YIELD || b.t == OP_YIELD) return !(a.t == OP_STORE || b.t == OP_STORE || a.t == OP_LOCK || b.t == OP_LOCK);
  if (!a.loc || !b.loc) return a.t == OP_LOAD && b.t == OP_LOAD;
  if (a.loc != b.loc) return true;
  return a.t == OP_LOAD && b.t == OP_LOAD;
}
void Exec::schedule(State& s) {
  // bring every live thread to its next visible operation first
  for (unsigned i = 0; i < s.th.size(); i++) { Op op; if (!s.th[i].finished && !visibleInst(s, s.th[i], op)) { s.cur = i; s.scheduled = false; return; } }
  std::vector<std::pair<unsigned, Op>> en; bool any = false;
  for (unsigned i = 0; i < s.th.size(); i++) { if (s.th[i].finished) continue; any = true; Op op = opOf(s, i); if (enabled(s, i, op)) en.push_back({i, op}); }
  if (!any) throw PathEnd{};
  if (en.empty()) {
    bool y = false; for (unsigned i = 0; i < s.th.size(); i++) if (!s.th[i].finished && opOf(s, i).t == OP_YIELD) y = true;
    if (opt.verbose) for (unsigned i = 0; i < s.th.size(); i++) if (!s.th[i].finished) { s.cur = i; std::vector<std::string> sk; where(s, &sk); fprintf(stderr, "thread %u (op %d):\n", i, (int)opOf(s, i).t); for (auto& f : sk) fprintf(stderr, "    %s\n", f.c_str()); }
    error(s, y ? "livelock" : "deadlock", y ? "every thread waits and nothing can change" : "deadlock: every live thread is blocked");
  }
  if (opt.rr) {   // one fair schedule: every thread takes one visible operation in turn
    if (++s.visible > opt.maxVisible) error(s, "livelock", "the threads go on for ever without getting anywhere");
    st.visible++; unsigned pick = en[0].first; for (auto& p : en) if (p.first > s.cur) { pick = p.first; break; }
    s.cur = pick; s.sleep.clear(); s.scheduled = true; s.inputs.push_back({"sched", mkConst(pick, 32)}); return;
  }
  if (++s.visible > opt.maxVisible) incompletePath(s, "visible-operation bound reached");
  st.visible++;
  std::vector<std::pair<unsigned, Op>> todo;
  for (auto& p : en) { bool sl = false; for (auto& q : s.sleep) if (q.first == p.first) sl = true; if (!sl) todo.push_back(p); }
  if (todo.empty()) { st.pruned++; throw PathEnd{}; }
  // prefer staying on the current thread for the state explored first
  for (size_t i = 0; i < todo.size(); i++) if (todo[i].first == s.cur) std::swap(todo[0], todo[i]);
  bool curEnabled = false; for (auto& p : en) if (p.first == s.cur) curEnabled = true;
  if (opt.preemptBound >= 0 && curEnabled && todo.size() && todo[0].first == s.cur && (int)s.preempt >= opt.preemptBound) todo.resize(1);
  std::vector<std::pair<unsigned, Op>> done = s.sleep; auto oldCur = s.cur;
  std::vector<std::vector<std::pair<unsigned, Op>>> sl(todo.size());
  for (size_t i = 0; i < todo.size(); i++) { for (auto& q : done) if (q.first != todo[i].first && independent(q.second, todo[i].second)) sl[i].push_back(q); if (opt.preemptBound < 0) done.push_back(todo[i]); }
  for (size_t i = todo.size(); i-- > 1; ) { State* f = fork(s); f->cur = todo[i].first; f->sleep = sl[i]; f->scheduled = true; if (curEnabled && todo[i].first != oldCur) f->preempt++; f->inputs.push_back({"sched", mkConst(todo[i].first, 32)}); }
  s.cur = todo[0].first; s.sleep = sl[0]; s.scheduled = true; if (curEnabled && s.cur != oldCur) s.preempt++; s.inputs.push_back({"sched", mkConst(todo[0].first, 32)});
}
