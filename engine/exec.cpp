#include "exec.h"
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/raw_ostream.h>
#include <chrono>
#include <fstream>
#include <sstream>
#include <unistd.h>
using namespace llvm;

Exec::Exec(Module* m, Options o) : opt(o), mod(m), DL(m->getDataLayout()) { registerExternals(); }

FuncInfo* Exec::info(Function* f) {
  auto it = finfo.find(f); if (it != finfo.end()) return it->second;
  auto* fi = new FuncInfo; fi->f = f; fi->name = f->getName().str(); unsigned n = 0;
  for (auto& a : f->args()) fi->slot[&a] = n++;
  for (auto& b : *f) for (auto& i : b) if (!i.getType()->isVoidTy()) fi->slot[&i] = n++;
  fi->nslots = n;
  if (auto* sp = f->getSubprogram()) { std::string d = sp->getDirectory().str(), fn = sp->getFilename().str(); fi->file = (!fn.empty() && fn[0] == '/') ? fn : d + "/" + fn; }
  finfo[f] = fi; return fi;
}
std::string Exec::where(State& s, std::vector<std::string>* stack) {
  std::string first;
  if (s.th.empty()) return "";
  auto& st_ = s.th[s.cur].stack;
  for (size_t i = st_.size(); i-- > 0; ) {
    const Instruction* I = st_[i].pc; std::string w = demangle(st_[i].fi->name); if (w.size() > 160) w = w.substr(0, 160) + "...";
    if (auto& dl = I->getDebugLoc()) { std::string f = dl->getFilename().str(); size_t p = f.rfind("/repo/"); std::string l = f + ":" + std::to_string(dl.getLine()); w += " @ " + l; 
      if (first.empty() && (f.find("/repo/") != std::string::npos)) first = l; }
    if (stack) stack->push_back(w);
  }
  if (first.empty() && !st_.empty()) { const Instruction* I = st_.back().pc; if (auto& dl = I->getDebugLoc()) first = dl->getFilename().str() + ":" + std::to_string(dl.getLine()); }
  return first;
}
void Exec::noteError(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  ErrorRec r; r.kind = kind; r.msg = msg; r.where = where(s, &r.stack);
  for (auto& x : errors) if (x.kind == kind && x.where == r.where && (x.msg == msg || kind == "memory" || kind == "race")) { x.count++; return; }
  for (auto& in : s.inputs) { auto v = evalModel(in.e, m); r.inputs.push_back({in.name, {in.e->w, v ? *v : 0}}); }
  r.trace = s.trace; errors.push_back(r);
  if (opt.verbose) { fprintf(stderr, "ERROR %s: %s at %s\n", kind.c_str(), msg.c_str(), r.where.c_str()); for (auto& f : r.stack) fprintf(stderr, "    %s\n", f.c_str()); for (auto& in : r.inputs) fprintf(stderr, "   %s = %llu\n", in.first.c_str(), (unsigned long long)in.second.second); }
}
void Exec::error(State& s, const std::string& kind, const std::string& msg, const Model* m) { noteError(s, kind, msg, m ? *m : *s.model); st.errored++; throw PathEnd{}; }
void Exec::incompletePath(State& s, const std::string& why) { std::string w = why; std::string l = where(s, nullptr); if (incomplete.size() < 50) w += " at " + l; incomplete[w]++; st.truncated++; if (opt.verbose) { fprintf(stderr, "INCOMPLETE %s\n", w.c_str()); std::vector<std::string> sk; where(s, &sk); for (auto& x : sk) fprintf(stderr, "    %s\n", x.c_str()); } throw PathEnd{}; }

State* Exec::fork(State& s) { auto n = std::make_unique<State>(s); n->id = nextStateId++; n->forks++; st.forks++; State* p = n.get(); work.push_back(std::move(n)); return p; }
void Exec::addC(State& s, E c) {
  if (c->isTrue()) return;
  if (c->k == K_AND && c->w == 1) { addC(s, c->a); addC(s, c->b); return; }
  if (!s.csSet.insert(c).second) return;
  s.cs.push_back(c); s.known[c] = mkBool(true); E n = mkNot(c); s.known[n] = mkBool(false);
  if (c->k == K_EQ && c->b->isConst()) s.known[c->a] = c->b;
}
bool Exec::may(State& s, E c, Model& m) {
  c = simp(s, c);
  if (c->isFalse()) return false;
  auto v = evalModel(c, *s.model); if (v && *v) { m = *s.model; g_sstats.modelHits++; return true; }
  Res r = checkSat(s.cs, c, *s.model, m);
  if (r == UNKNOWN) { incomplete["solver gave no answer within its limit"]++; return false; }
  return r == SAT;
}
void Exec::assume(State& s, E c) {
  c = simp(s, c); if (c->isTrue()) return;
  Model m; if (c->isFalse() || !may(s, c, m)) { st.infeasible++; throw PathEnd{}; }
  addC(s, c); s.model = std::make_shared<Model>(m);
}
void Exec::check(State& s, E c, const std::string& kind, const std::string& msg) {
  st.checks++; c = simp(s, c); if (c->isTrue()) return;
  st.checksSolver++; Model m;
  if (may(s, mkNot(c), m)) { noteError(s, kind, msg, m); Model m2; if (c->isFalse() || !may(s, c, m2)) { st.errored++; throw PathEnd{}; } addC(s, c); s.model = std::make_shared<Model>(m2); return; }
  addC(s, c);
}
uint64_t Exec::concretize(State& s, E e) {
  e = simp(s, e); if (e->isConst()) return (uint64_t)e->val;
  auto v = evalModel(e, *s.model); Model m;
  if (!v) { // uninterpreted value unknown in the model: ask
    E t = mkSym("conc", e->w); if (checkSat(s.cs, mkEq(t, e), *s.model, m) != SAT) incompletePath(s, "cannot concretise"); v = m.v[t->id]; s.model = std::make_shared<Model>(m); }
  E eq = mkEq(e, mkConst(*v, e->w));
  if (may(s, mkNot(eq), m)) { State* f = fork(s); addC(*f, mkNot(eq)); f->model = std::make_shared<Model>(m); }
  addC(s, eq); s.known[e] = mkConst(*v, e->w);
  return (uint64_t)*v;
}

// ---------------------------------------------------------------- constants and set-up
Val Exec::zeroVal(Type* t) {
  if (auto* st_ = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto* x : st_->elements()) r.agg->push_back(zeroVal(x)); return r; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(at->getNumElements(), zeroVal(at->getElementType())); return r; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(vt->getNumElements(), zeroVal(vt->getElementType())); return r; }
  return Val(mkConst(0, DL.getTypeSizeInBits(t)));
}
Val Exec::undefVal(Type* t) {
  if (auto* st_ = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (auto* x : st_->elements()) r.agg->push_back(undefVal(x)); return r; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(at->getNumElements(), undefVal(at->getElementType())); return r; }
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(vt->getNumElements(), undefVal(vt->getElementType())); return r; }
  return Val();
}
Val Exec::evalConst(const Constant* c) {
  auto it = constCache.find(c); if (it != constCache.end()) return it->second;
  Val r;
  if (auto* ci = dyn_cast<ConstantInt>(c)) { APInt v = ci->getValue(); u128 x = v.getBitWidth() <= 64 ? (u128)v.getZExtValue() : (((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0)); r = Val(mkConst(x, v.getBitWidth())); }
  else if (auto* cf = dyn_cast<ConstantFP>(c)) { APInt v = cf->getValueAPF().bitcastToAPInt(); u128 x = v.getBitWidth() <= 64 ? (u128)v.getZExtValue() : (((u128)v.extractBitsAsZExtValue(v.getBitWidth() - 64, 64) << 64) | v.extractBitsAsZExtValue(64, 0)); r = Val(mkConst(x, v.getBitWidth())); }
  else if (isa<ConstantPointerNull>(c)) r = Val(mkConst(0, 64));
  else if (isa<UndefValue>(c)) return undefVal(c->getType());   // also poison
  else if (isa<ConstantAggregateZero>(c)) r = zeroVal(c->getType());
  else if (auto* gv = dyn_cast<GlobalValue>(c)) { const GlobalValue* g = gv; if (auto* ga = dyn_cast<GlobalAlias>(gv)) g = cast<GlobalValue>(ga->getAliasee()->stripPointerCasts()); auto a = gaddr.find(g); if (a == gaddr.end()) { fprintf(stderr, "no address for %s\n", g->getName().str().c_str()); abort(); } r = Val(mkConst(a->second, 64)); }
  else if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) r.agg->push_back(evalConst(cd->getElementAsConstant(i))); }
  else if (auto* ca = dyn_cast<ConstantAggregate>(c)) { r.agg = std::make_shared<std::vector<Val>>(); for (auto& op : ca->operands()) r.agg->push_back(evalConst(cast<Constant>(op))); }
  else if (auto* ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { auto* g = cast<GEPOperator>(ce); APInt off(64, 0); if (!g->accumulateConstantOffset(DL, off)) { fprintf(stderr, "const gep\n"); abort(); } r = Val(mkAdd(evalConst(cast<Constant>(g->getPointerOperand())).e, mkConst((uint64_t)off.getSExtValue(), 64))); break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: { E e = evalConst(ce->getOperand(0)).e; unsigned w = DL.getTypeSizeInBits(ce->getType()); r = Val(e->w > w ? mkExtract(e, 0, w) : mkZExt(e, w)); break; }
    case Instruction::Trunc: r = Val(mkExtract(evalConst(ce->getOperand(0)).e, 0, DL.getTypeSizeInBits(ce->getType()))); break;
    case Instruction::Add: r = Val(mkAdd(evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e)); break;
    case Instruction::Sub: r = Val(mkSub(evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e)); break;
    case Instruction::Xor: r = Val(mkBin(K_XOR, evalConst(ce->getOperand(0)).e, evalConst(ce->getOperand(1)).e)); break;
    case Instruction::ICmp: { E a = evalConst(ce->getOperand(0)).e, b = evalConst(ce->getOperand(1)).e; r = Val(ce->getPredicate() == CmpInst::ICMP_EQ ? mkEq(a, b) : mkNot(mkEq(a, b))); break; }
    default: fprintf(stderr, "constant expression opcode %s\n", ce->getOpcodeName()); abort();
    } }
  else { std::string t; raw_string_ostream o(t); c->print(o); fprintf(stderr, "constant not handled: %s\n", t.c_str()); abort(); }
  constCache[c] = r; return r;
}
void Exec::writeConst(State& s, const Constant* c, Obj& o, uint64_t off) {
  Type* t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { uint64_t n = DL.getTypeAllocSize(t); for (uint64_t i = 0; i < n && off + i < o.size; i++) setByte(&o, off + i, {nullptr, 0}); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { uint64_t es = DL.getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) writeConst(s, cd->getElementAsConstant(i), o, off + i * es); return; }
  if (auto* cs = dyn_cast<ConstantStruct>(c)) { auto* sl = DL.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) writeConst(s, cs->getOperand(i), o, off + sl->getElementOffset(i)); return; }
  if (auto* ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) writeConst(s, ca->getOperand(i), o, off + i * es); return; }
  if (auto* cv = dyn_cast<ConstantVector>(c)) { uint64_t es = DL.getTypeAllocSize(cv->getType()->getElementType()); for (unsigned i = 0; i < cv->getNumOperands(); i++) writeConst(s, cv->getOperand(i), o, off + i * es); return; }
  E e = evalConst(c).e; unsigned n = DL.getTypeStoreSize(t); e = mkZExt(e, n * 8);
  for (unsigned i = 0; i < n; i++) setByte(&o, off + i, {nullptr, (uint32_t)((e->val >> (8 * i)) & 255)});
}
void Exec::setup(State& s) {
  s.model = std::make_shared<Model>();
  for (auto& f : *mod) { if (f.isIntrinsic()) continue; Obj* o = newObj(s, 16, OK_FUNC, 16, f.getName().str()); gaddr[&f] = o->base; faddr[o->base] = &f; }
  for (auto& g : mod->globals()) { uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL.getTypeAllocSize(g.getValueType()) : 64; if (!g.hasInitializer()) sz = std::max<uint64_t>(sz, 256);
    Obj* o = newObj(s, sz, OK_GLOBAL, std::max<uint64_t>(g.getAlign().valueOrOne().value(), 16), g.getName().str()); o->fill = 0; gaddr[&g] = o->base; }
  for (auto& g : mod->globals()) if (g.hasInitializer()) { uint32_t id; findObj(s, gaddr[&g], id); Obj* o = objRW(s, id); writeConst(s, g.getInitializer(), *o, 0); o->readonly = g.isConstant(); }
}
Val Exec::eval(State& s, Frame& f, const Value* v) {
  if (auto* c = dyn_cast<Constant>(v)) return evalConst(c);
  auto it = f.fi->slot.find(v);
  if (it == f.fi->slot.end()) { if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return Val(); fprintf(stderr, "no slot\n"); abort(); }
  return f.regs[it->second];
}
E Exec::evalE(State& s, Frame& f, const Value* v) {
  Val r = eval(s, f, v); if (r.e) return r.e;
  if (r.agg) { // vector as bits
    E e = nullptr; for (size_t i = r.agg->size(); i-- > 0; ) { E x = (*r.agg)[i].e; if (!x) x = mkSym("undef", DL.getTypeSizeInBits(cast<VectorType>(v->getType())->getElementType()), true); e = e ? mkConcat(e, x) : x; } return e; }
  return mkSym("undef", DL.getTypeSizeInBits(v->getType()), true);
}
void Exec::setReg(State& s, Frame& f, const Instruction* i, Val v) { f.regs[f.fi->slot.find(i)->second] = std::move(v); }
void Exec::jump(State& s, Frame& f, const BasicBlock* bb) {
  const BasicBlock* from = f.pc->getParent(); f.prev = from;
  std::vector<std::pair<const PHINode*, Val>> vals; const Instruction* I = &bb->front();
  while (auto* p = dyn_cast<PHINode>(I)) { vals.push_back({p, eval(s, f, p->getIncomingValueForBlock(from))}); I = I->getNextNode(); }
  for (auto& pv : vals) setReg(s, f, pv.first, pv.second);
  f.pc = I;
}
void Exec::advance(State& s, Frame& f) {
  if (auto* iv = dyn_cast<InvokeInst>(f.pc)) jump(s, f, iv->getNormalDest()); else f.pc = f.pc->getNextNode();
}
void Exec::branch(State& s, E c, const BasicBlock* t, const BasicBlock* fb) {
  Frame& f = s.th[s.cur].stack.back(); c = simp(s, c);
  if (c->isConst()) { jump(s, f, c->val ? t : fb); return; }
  if (opt.uninitBranch) for (uint32_t id : *symsOf(c)) if (!(id & 0x80000000u) && g_syms[id].uninit) error(s, "uninit", "branch depends on uninitialised value '" + g_syms[id].name + "'");
  auto v = evalModel(c, *s.model); Model m;
  bool side;
  if (v) side = *v; else { if (may(s, c, m)) { side = true; s.model = std::make_shared<Model>(m); } else side = false; }
  E other = side ? mkNot(c) : c, mine = side ? c : mkNot(c);
  if (!v && !side) { jump(s, f, fb); addC(s, mine); return; }
  if (may(s, other, m)) { State* n = fork(s); addC(*n, other); n->model = std::make_shared<Model>(m); jump(*n, n->th[n->cur].stack.back(), side ? fb : t); }
  addC(s, mine); jump(s, f, side ? t : fb);
}
void Exec::enter(State& s, Function* fn, std::vector<Val>& args, const CallBase* cb) {
  FuncInfo* fi = info(fn); fi->calls++;
  Thread& t = s.th[s.cur]; if (t.stack.size() > 400) incompletePath(s, "stack depth");
  Frame nf; nf.fi = fi; nf.pc = &fn->getEntryBlock().front(); nf.regs.resize(fi->nslots); nf.call = cb;
  unsigned n = fn->arg_size(); for (unsigned i = 0; i < n && i < args.size(); i++) {
    // byval arguments are copied
    nf.regs[i] = args[i]; }
  for (unsigned i = n; i < args.size(); i++) nf.varargs.push_back(args[i]);
  t.stack.push_back(std::move(nf));
  for (auto& a : fn->args()) if (a.hasByValAttr()) { uint64_t sz = DL.getTypeAllocSize(a.getParamByValType()); Obj* o = newObj(s, sz, OK_STACK, std::max<uint64_t>(16, a.getParamAlign().valueOrOne().value()), "byval"); uint64_t base = o->base; Frame& fr = s.th[s.cur].stack.back(); fr.allocas.push_back(o->id); E src = fr.regs[a.getArgNo()].e; fr.regs[a.getArgNo()] = Val(mkConst(base, 64)); copyMem(s, mkConst(base, 64), src, sz); }
}
void Exec::doReturn(State& s, Val v, bool has) {
  Thread& t = s.th[s.cur]; const CallBase* cb = t.stack.back().call;
  for (uint32_t id : t.stack.back().allocas) { Obj* o = objRW(s, id); o->alive = false; o->pages.clear(); }
  t.stack.pop_back();
  if (t.stack.empty()) { t.finished = true; s.scheduled = false; s.storeCount++; if (s.cur == 0) { st.complete++; if ((st.complete & (st.complete - 1)) == 0) { sampleInputs.push_back({}); for (auto& in : s.inputs) { auto v = evalModel(in.e, *s.model); sampleInputs.back().push_back({in.name, {in.e->w, v ? *v : 0}}); } std::string x; for (auto& in : s.inputs) { auto v = evalModel(in.e, *s.model); x += in.name + "=" + (v ? std::to_string((uint64_t)*v) : "?") + " "; if (x.size() > 400) break; } samples.push_back(x); } for (auto& l : s.reached) reach[l]++; throw PathEnd{}; } return; }
  Frame& f = t.stack.back();
  if (has && cb && !cb->getType()->isVoidTy()) setReg(s, f, cb, v);
  if (cb) advance(s, f);
}
void Exec::retVal(State& s, const CallBase* cb, Val v) { Frame& f = s.th[s.cur].stack.back(); if (!cb->getType()->isVoidTy()) setReg(s, f, cb, v); advance(s, f); }

bool Exec::catchMatch(const Constant* clause, uint64_t ti) {
  if (clause->isNullValue()) return true;
  uint64_t want = (uint64_t)evalConst(clause).e->val;
  std::function<bool(uint64_t)> isA = [&](uint64_t x) -> bool { if (x == want) return true;
    for (auto& g : mod->globals()) { auto it = gaddr.find(&g); if (it == gaddr.end() || it->second != x) continue; if (!g.hasInitializer()) return false;
      auto* cs = dyn_cast<ConstantStruct>(g.getInitializer()); if (!cs) return false; 
      for (unsigned i = 2; i < cs->getNumOperands(); i++) if (cs->getOperand(i)->getType()->isPointerTy()) { if (isA((uint64_t)evalConst(cs->getOperand(i)).e->val)) return true; } return false; }
    return false; };
  return isA(ti);
}
void Exec::unwind(State& s) {
  Thread& t = s.th[s.cur];
  for (;;) {
    if (auto* iv = dyn_cast<InvokeInst>(t.stack.back().pc)) {
      Frame& f = t.stack.back(); const LandingPadInst* lp = iv->getLandingPadInst();
      int sel = 0; bool match = lp->isCleanup();
      for (unsigned i = 0; i < lp->getNumClauses(); i++)
        if (lp->isCatch(i)) { const Constant* c = lp->getClause(i); if (catchMatch(c, t.curTi)) { uint64_t k = c->isNullValue() ? 0 : (uint64_t)evalConst(c).e->val; auto it = typeIds.find(k); if (it == typeIds.end()) it = typeIds.emplace(k, (int)typeIds.size() + 1).first; sel = it->second; match = true; break; } }
        else { match = true; sel = -1; break; }
      if (match) {
        jump(s, f, iv->getUnwindDest());
        Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(Val(mkConst(t.curExc, 64))); v.agg->push_back(Val(mkConst((uint64_t)(int64_t)sel, 32)));
        setReg(s, f, lp, v); f.pc = lp->getNextNode(); return;
      }
    }
    for (uint32_t id : t.stack.back().allocas) { Obj* o = objRW(s, id); o->alive = false; o->pages.clear(); }
    if (t.stack.size() == 1) { std::string tn; uint32_t id; if (findObj(s, t.curTi, id)) tn = demangle(objRO(s, id)->name); error(s, "exception", "uncaught exception of " + tn); }
    t.stack.pop_back();
  }
}

// ---------------------------------------------------------------- main loop
void Exec::run() {
  t0 = std::chrono::steady_clock::now();
  auto s0 = std::make_unique<State>(); setup(*s0);
  Function* entry = mod->getFunction(opt.entry); if (!entry) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); exit(3); }
  // call order: constructors, then the entry
  std::vector<Function*> ctors;
  if (auto* gc = mod->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<uint64_t, Function*>> v; for (auto& op : ca->operands()) { auto* cs = cast<ConstantStruct>(op); if (auto* f = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), f}); } std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& p : v) ctors.push_back(p.second); }
  Thread t; t.vc = {1}; s0->th.push_back(t);
  std::vector<Val> none; enter(*s0, entry, none, nullptr);
  for (size_t i = ctors.size(); i-- > 0; ) enter(*s0, ctors[i], none, nullptr);   // run before the entry, stacked on top
  work.push_back(std::move(s0));
  uint64_t pops = 0;
  while (!work.empty()) {
    elapsed = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    if (elapsed > opt.maxTime || g_stop) { incomplete["time budget exhausted"] += work.size(); break; }
    if (st.paths >= opt.maxPaths) { incomplete["path budget exhausted"] += work.size(); break; }
    if (errors.size() >= opt.maxErrors) { incomplete["stopped after enough violations"] += work.size(); break; }
    if ((++pops & 255) == 0) { FILE* f = fopen("/proc/self/statm", "r"); unsigned long a = 0, rss = 0; if (f) { if (fscanf(f, "%lu %lu", &a, &rss) != 2) rss = 0; fclose(f); } if (rss / 256 > opt.maxMemMB) { incomplete["memory budget exhausted"] += work.size(); break; } }
    auto s = std::move(work.back()); work.pop_back(); st.paths++;
    try { loop(*s); } catch (PathEnd&) {}
  }
  elapsed = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
}
void Exec::loop(State& s) {
  unsigned tick = 0;
  for (;;) {
    if (multi(s)) {
      Op op; bool vis = s.th[s.cur].finished || visibleInst(s, s.th[s.cur], op);
      if (vis && !s.scheduled) { schedule(s); continue; }
      step(s); if (vis) s.scheduled = false;
    } else {
      if (s.th[s.cur].finished) { for (unsigned i = 0; i < s.th.size(); i++) if (!s.th[i].finished) s.cur = i; if (s.th[s.cur].finished) throw PathEnd{}; s.sleep.clear(); }
      step(s);
    }
    if (++s.steps > opt.maxSteps) incompletePath(s, "step bound");
    if ((++tick & 0xffff) == 0 && (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > opt.maxTime || g_stop)) { incomplete["time budget exhausted"]++; st.truncated++; throw PathEnd{}; }
  }
}
static bool pureBin(unsigned op, Kind& k) {
  switch (op) {
  case Instruction::Add: k = K_ADD; return true; case Instruction::Sub: k = K_SUB; return true; case Instruction::Mul: k = K_MUL; return true;
  case Instruction::And: k = K_AND; return true; case Instruction::Or: k = K_OR; return true; case Instruction::Xor: k = K_XOR; return true;
  case Instruction::Shl: k = K_SHL; return true; case Instruction::LShr: k = K_LSHR; return true; case Instruction::AShr: k = K_ASHR; return true;
  case Instruction::UDiv: k = K_UDIV; return true; case Instruction::SDiv: k = K_SDIV; return true; case Instruction::URem: k = K_UREM; return true; case Instruction::SRem: k = K_SREM; return true;
  case Instruction::FAdd: k = K_FADD; return true; case Instruction::FSub: k = K_FSUB; return true; case Instruction::FMul: k = K_FMUL; return true; case Instruction::FDiv: k = K_FDIV; return true; case Instruction::FRem: k = K_FREM; return true;
  } return false;
}
static E icmp(CmpInst::Predicate p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a);
  case CmpInst::ICMP_SLT: return mkBin(K_SLT, a, b); case CmpInst::ICMP_SLE: return mkBin(K_SLE, a, b); case CmpInst::ICMP_SGT: return mkBin(K_SLT, b, a); case CmpInst::ICMP_SGE: return mkBin(K_SLE, b, a);
  default: abort(); }
}
static E fcmp(CmpInst::Predicate p, E a, E b) {
  E uno = mkFp(K_FUNO, a, b);
  switch (p) {
  case CmpInst::FCMP_FALSE: return mkBool(false); case CmpInst::FCMP_TRUE: return mkBool(true);
  case CmpInst::FCMP_OEQ: return mkFp(K_FOEQ, a, b); case CmpInst::FCMP_OGT: return mkFp(K_FOLT, b, a); case CmpInst::FCMP_OGE: return mkFp(K_FOLE, b, a);
  case CmpInst::FCMP_OLT: return mkFp(K_FOLT, a, b); case CmpInst::FCMP_OLE: return mkFp(K_FOLE, a, b);
  case CmpInst::FCMP_ONE: return mkAnd(mkNot(uno), mkNot(mkFp(K_FOEQ, a, b))); case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno;
  case CmpInst::FCMP_UEQ: return mkOr(uno, mkFp(K_FOEQ, a, b)); case CmpInst::FCMP_UGT: return mkNot(mkFp(K_FOLE, a, b)); case CmpInst::FCMP_UGE: return mkNot(mkFp(K_FOLT, a, b));
  case CmpInst::FCMP_ULT: return mkNot(mkFp(K_FOLE, b, a)); case CmpInst::FCMP_ULE: return mkNot(mkFp(K_FOLT, b, a)); case CmpInst::FCMP_UNE: return mkNot(mkFp(K_FOEQ, a, b));
  default: abort(); }
}
static E fneg(E a) { return mkBin(K_XOR, a, mkConst((u128)1 << (a->w - 1), a->w)); }
void Exec::step(State& s) {
  st.instrs++;
  Frame& f = s.th[s.cur].stack.back(); const Instruction* I = f.pc;
  auto lift2 = [&](const Value* x, const Value* y, Type* rt, std::function<E(E, E)> fn) -> Val {
    if (auto* vt = dyn_cast<FixedVectorType>(x->getType())) { Val a = eval(s, f, x), b = eval(s, f, y), r; r.agg = std::make_shared<std::vector<Val>>(); unsigned w = DL.getTypeSizeInBits(vt->getElementType());
      for (unsigned i = 0; i < vt->getNumElements(); i++) { E p = (*a.agg)[i].e, q = (*b.agg)[i].e; if (!p) p = mkSym("undef", w, true); if (!q) q = mkSym("undef", w, true); r.agg->push_back(Val(fn(p, q))); } return r; }
    return Val(fn(evalE(s, f, x), evalE(s, f, y))); };
  auto lift1 = [&](const Value* x, std::function<E(E)> fn) -> Val {
    if (auto* vt = dyn_cast<FixedVectorType>(x->getType())) { Val a = eval(s, f, x), r; r.agg = std::make_shared<std::vector<Val>>(); unsigned w = DL.getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) { E p = (*a.agg)[i].e; if (!p) p = mkSym("undef", w, true); r.agg->push_back(Val(fn(p))); } return r; }
    return Val(fn(evalE(s, f, x))); };
  unsigned op = I->getOpcode(); Kind k;
  if (pureBin(op, k)) {
    if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) { E d = evalE(s, f, I->getOperand(1)); if (!d->isConst() || d->val == 0) check(s, mkNot(mkEq(d, mkConst(0, d->w))), "divzero", "division by zero"); }
    Val r = lift2(I->getOperand(0), I->getOperand(1), I->getType(), [&](E a, E b) { return k >= K_FADD ? mkFp(k, a, b) : mkBin(k, simp(s, a), simp(s, b)); });
    setReg(s, f, I, r); f.pc = I->getNextNode(); return;
  }
  unsigned bits = I->getType()->isSized() && !I->getType()->isVoidTy() ? (unsigned)DL.getTypeSizeInBits(I->getType()->getScalarType()->isSized() ? I->getType()->getScalarType() : I->getType()) : 0;
  switch (op) {
  case Instruction::FNeg: setReg(s, f, I, lift1(I->getOperand(0), [](E a) { return fneg(a); })); break;
  case Instruction::ICmp: { auto p = cast<ICmpInst>(I)->getPredicate(); setReg(s, f, I, lift2(I->getOperand(0), I->getOperand(1), I->getType(), [&](E a, E b) { return simp(s, icmp(p, simp(s, a), simp(s, b))); })); break; }
  case Instruction::FCmp: { auto p = cast<FCmpInst>(I)->getPredicate(); setReg(s, f, I, lift2(I->getOperand(0), I->getOperand(1), I->getType(), [&](E a, E b) { return simp(s, fcmp(p, a, b)); })); break; }
  case Instruction::Trunc: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkExtract(a, 0, bits); })); break;
  case Instruction::ZExt: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkZExt(a, bits); })); break;
  case Instruction::SExt: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkSExt(a, bits); })); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return a->w > bits ? mkExtract(a, 0, bits) : mkZExt(a, bits); })); break;
  case Instruction::AddrSpaceCast: setReg(s, f, I, eval(s, f, I->getOperand(0))); break;
  case Instruction::BitCast: {
    Type *st_ = I->getOperand(0)->getType(), *dt = I->getType();
    if (isa<FixedVectorType>(st_) || isa<FixedVectorType>(dt)) { E e = evalE(s, f, I->getOperand(0)); if (auto* vt = dyn_cast<FixedVectorType>(dt)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); unsigned w = DL.getTypeSizeInBits(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(Val(mkExtract(e, i * w, w))); setReg(s, f, I, r); } else setReg(s, f, I, Val(e)); }
    else setReg(s, f, I, eval(s, f, I->getOperand(0))); break; }
  case Instruction::Freeze: { Val v = eval(s, f, I->getOperand(0)); if (!v.e && !v.agg) v = Val(evalE(s, f, I->getOperand(0))); setReg(s, f, I, v); break; }
  case Instruction::FPExt: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkFp(K_FPEXT, a, nullptr, nullptr, bits); })); break;
  case Instruction::FPTrunc: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkFp(K_FPTRUNC, a, nullptr, nullptr, bits); })); break;
  case Instruction::FPToSI: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkFp(K_FPTOSI, a, nullptr, nullptr, bits); })); break;
  case Instruction::FPToUI: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkFp(K_FPTOUI, a, nullptr, nullptr, bits); })); break;
  case Instruction::SIToFP: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkFp(K_SITOFP, a, nullptr, nullptr, bits); })); break;
  case Instruction::UIToFP: setReg(s, f, I, lift1(I->getOperand(0), [&](E a) { return mkFp(K_UITOFP, a, nullptr, nullptr, bits); })); break;
  case Instruction::Select: {
    auto* si = cast<SelectInst>(I);
    if (isa<FixedVectorType>(si->getCondition()->getType())) { Val c = eval(s, f, si->getCondition()), a = eval(s, f, si->getTrueValue()), b = eval(s, f, si->getFalseValue()), r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < c.agg->size(); i++) { E p = (*a.agg)[i].e, q = (*b.agg)[i].e; if (!p) p = q; if (!q) q = p; r.agg->push_back(Val(mkIte((*c.agg)[i].e, p, q))); } setReg(s, f, I, r); break; }
    E c = simp(s, evalE(s, f, si->getCondition())); Val a = eval(s, f, si->getTrueValue()), b = eval(s, f, si->getFalseValue());
    if (c->isConst()) setReg(s, f, I, c->val ? a : b);
    else if (a.agg && b.agg) { std::function<Val(Val, Val)> mix = [&](Val x, Val y) -> Val { if (x.agg && y.agg) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < x.agg->size(); i++) r.agg->push_back(mix((*x.agg)[i], (*y.agg)[i])); return r; } if (!x.e) return y; if (!y.e) return x; return Val(mkIte(c, x.e, y.e)); }; setReg(s, f, I, mix(a, b)); }
    else if (!a.e) setReg(s, f, I, b); else if (!b.e) setReg(s, f, I, a);
    else setReg(s, f, I, Val(mkIte(c, a.e, b.e))); break; }
  case Instruction::GetElementPtr: {
    auto* g = cast<GEPOperator>(I); GepInfo*& gi = gepCache[I];
    if (!gi) { gi = new GepInfo; MapVector<Value*, APInt> vo; APInt co(64, 0); if (!g->collectOffset(DL, 64, vo, co)) { incompletePath(s, "gep"); } gi->off = (uint64_t)co.getSExtValue(); for (auto& p : vo) gi->var.push_back({p.first, (uint64_t)p.second.getSExtValue()}); }
    auto one = [&](E base, unsigned lane) { E r = base; for (auto& p : gi->var) { Val iv = eval(s, f, p.first); E i = iv.agg ? (*iv.agg)[lane].e : (iv.e ? iv.e : evalE(s, f, p.first)); i = simp(s, i); i = i->w < 64 ? mkSExt(i, 64) : mkExtract(i, 0, 64); r = mkAdd(r, mkMul(i, mkConst(p.second, 64))); } return mkAdd(r, mkConst(gi->off, 64)); };
    if (auto* vt = dyn_cast<FixedVectorType>(I->getType())) { Val b = eval(s, f, g->getPointerOperand()), r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(Val(one(b.agg ? (*b.agg)[i].e : b.e, i))); setReg(s, f, I, r); }
    else setReg(s, f, I, Val(one(evalE(s, f, g->getPointerOperand()), 0))); break; }
  case Instruction::Alloca: {
    auto* a = cast<AllocaInst>(I); uint64_t n = 1; if (a->isArrayAllocation()) n = concretize(s, evalE(s, f, a->getArraySize()));
    uint64_t sz = (uint64_t)DL.getTypeAllocSize(a->getAllocatedType()) * n; Obj* o = newObj(s, sz, OK_STACK, std::max<uint64_t>(16, a->getAlign().value()), a->getName().str()); Frame& fr = s.th[s.cur].stack.back(); fr.allocas.push_back(o->id); setReg(s, fr, I, Val(mkConst(o->base, 64))); break; }
  case Instruction::Load: {
    auto* l = cast<LoadInst>(I); E p = evalE(s, f, l->getPointerOperand()); Val v;
    if (l->isAtomic()) { unsigned n = DL.getTypeStoreSize(l->getType()); E e = atomicLoad(s, p, n, l->getOrdering()); unsigned b = DL.getTypeSizeInBits(l->getType()); v = Val(b < e->w ? mkExtract(e, 0, b) : e); }
    else v = loadT(s, p, l->getType());
    setReg(s, s.th[s.cur].stack.back(), I, v); break; }
  case Instruction::Store: {
    auto* l = cast<StoreInst>(I); E p = evalE(s, f, l->getPointerOperand());
    if (l->isAtomic()) atomicStore(s, p, evalE(s, f, l->getValueOperand()), DL.getTypeStoreSize(l->getValueOperand()->getType()), l->getOrdering());
    else { Val v = eval(s, f, l->getValueOperand()); if (!v.e && !v.agg) { // undefined value: leave the bytes uninitialised
        Type* t = l->getValueOperand()->getType(); uint64_t n = DL.getTypeStoreSize(t); Acc a = resolve(s, p, n, true); if (!a.bytewise && a.off->isConst()) { Obj* o = objRW(s, a.id); for (uint64_t i = 0; i < n; i++) setByte(o, (uint64_t)a.off->val + i, {nullptr, 256}); } else store(s, p, mkSym("undef", n * 8, true)); }
      else storeT(s, p, v, l->getValueOperand()->getType()); }
    break; }
  case Instruction::AtomicRMW: {
    auto* l = cast<AtomicRMWInst>(I); E p = evalE(s, f, l->getPointerOperand()), v = evalE(s, f, l->getValOperand()); unsigned n = DL.getTypeStoreSize(l->getType()); unsigned b = DL.getTypeSizeInBits(l->getType());
    E old = atomicLoad(s, p, n, l->getOrdering(), true); if (b < old->w) old = mkExtract(old, 0, b); E nv;
    switch (l->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = mkAdd(old, v); break; case AtomicRMWInst::Sub: nv = mkSub(old, v); break; case AtomicRMWInst::And: nv = mkAnd(old, v); break; case AtomicRMWInst::Or: nv = mkOr(old, v); break; case AtomicRMWInst::Xor: nv = mkBin(K_XOR, old, v); break;
      case AtomicRMWInst::UMax: nv = mkIte(mkUlt(old, v), v, old); break; case AtomicRMWInst::UMin: nv = mkIte(mkUlt(v, old), v, old); break; case AtomicRMWInst::Max: nv = mkIte(mkBin(K_SLT, old, v), v, old); break; case AtomicRMWInst::Min: nv = mkIte(mkBin(K_SLT, v, old), v, old); break; default: incompletePath(s, "atomicrmw operation"); }
    atomicStore(s, p, nv, n, l->getOrdering(), true); setReg(s, s.th[s.cur].stack.back(), I, Val(old)); break; }
  case Instruction::AtomicCmpXchg: {
    auto* l = cast<AtomicCmpXchgInst>(I); E p = evalE(s, f, l->getPointerOperand()), c = evalE(s, f, l->getCompareOperand()), nv = evalE(s, f, l->getNewValOperand()); unsigned n = DL.getTypeStoreSize(l->getCompareOperand()->getType()); unsigned b = DL.getTypeSizeInBits(l->getCompareOperand()->getType());
    E old = atomicLoad(s, p, n, l->getSuccessOrdering(), true); if (b < old->w) old = mkExtract(old, 0, b);
    E eq = mkEq(old, c); bool ok = concretize(s, eq); if (ok) atomicStore(s, p, nv, n, l->getSuccessOrdering(), true);
    Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(Val(old)); r.agg->push_back(Val(mkBool(ok))); setReg(s, s.th[s.cur].stack.back(), I, r); break; }
  case Instruction::Fence: fence(s, cast<FenceInst>(I)->getOrdering()); break;
  case Instruction::ExtractValue: { auto* e = cast<ExtractValueInst>(I); Val v = eval(s, f, e->getAggregateOperand()); for (unsigned i : e->indices()) { if (!v.agg) break; Val t = (*v.agg)[i]; v = t; } setReg(s, f, I, v); break; }
  case Instruction::InsertValue: { auto* e = cast<InsertValueInst>(I); Val v = eval(s, f, e->getAggregateOperand()); if (!v.agg) v = undefVal(e->getType()); Val x = eval(s, f, e->getInsertedValueOperand());
    std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val b, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return x; Val r; r.agg = std::make_shared<std::vector<Val>>(*b.agg); (*r.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1)); return r; };
    setReg(s, f, I, ins(v, e->getIndices())); break; }
  case Instruction::ExtractElement: { Val v = eval(s, f, I->getOperand(0)); uint64_t i = concretize(s, evalE(s, f, I->getOperand(1))); setReg(s, f, I, v.agg ? (*v.agg)[i] : Val()); break; }
  case Instruction::InsertElement: { Val v = eval(s, f, I->getOperand(0)); if (!v.agg) v = undefVal(I->getType()); uint64_t i = concretize(s, evalE(s, f, I->getOperand(2))); Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg); (*r.agg)[i] = eval(s, f, I->getOperand(1)); setReg(s, f, I, r); break; }
  case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(I); Val a = eval(s, f, sv->getOperand(0)), b = eval(s, f, sv->getOperand(1)), r; unsigned n = cast<FixedVectorType>(sv->getOperand(0)->getType())->getNumElements(); if (!a.agg) a = undefVal(sv->getOperand(0)->getType()); if (!b.agg) b = undefVal(sv->getOperand(1)->getType()); r.agg = std::make_shared<std::vector<Val>>(); for (int m : sv->getShuffleMask()) r.agg->push_back(m < 0 ? Val() : (unsigned)m < n ? (*a.agg)[m] : (*b.agg)[m - n]); setReg(s, f, I, r); break; }
  case Instruction::Br: { auto* b = cast<BranchInst>(I); if (b->isUnconditional()) jump(s, f, b->getSuccessor(0)); else branch(s, evalE(s, f, b->getCondition()), b->getSuccessor(0), b->getSuccessor(1)); return; }
  case Instruction::Switch: {
    auto* sw = cast<SwitchInst>(I); E v = simp(s, evalE(s, f, sw->getCondition()));
    if (v->isConst()) { auto c = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), (uint64_t)v->val)); jump(s, f, c->getCaseSuccessor()); return; }
    // group the cases by successor; take one side now, fork the rest
    std::vector<std::pair<const BasicBlock*, E>> groups; E def = mkBool(true);
    for (auto& c : sw->cases()) { E q = mkEq(v, mkConst(c.getCaseValue()->getZExtValue(), v->w)); def = mkAnd(def, mkNot(q)); bool fnd = false; for (auto& g : groups) if (g.first == c.getCaseSuccessor()) { g.second = mkOr(g.second, q); fnd = true; } if (!fnd) groups.push_back({c.getCaseSuccessor(), q}); }
    { bool fnd = false; for (auto& g : groups) if (g.first == sw->getDefaultDest()) { g.second = mkOr(g.second, def); fnd = true; } if (!fnd) groups.push_back({sw->getDefaultDest(), def}); }
    std::vector<std::pair<size_t, Model>> feas; for (size_t i = 0; i < groups.size(); i++) { Model m; if (may(s, groups[i].second, m)) feas.push_back({i, m}); }
    if (feas.empty()) { st.infeasible++; throw PathEnd{}; }
    for (size_t j = 1; j < feas.size(); j++) { State* n = fork(s); addC(*n, groups[feas[j].first].second); n->model = std::make_shared<Model>(feas[j].second); jump(*n, n->th[n->cur].stack.back(), groups[feas[j].first].first); }
    addC(s, groups[feas[0].first].second); s.model = std::make_shared<Model>(feas[0].second); jump(s, s.th[s.cur].stack.back(), groups[feas[0].first].first); return; }
  case Instruction::Ret: { auto* r = cast<ReturnInst>(I); if (r->getReturnValue()) { Val v = eval(s, f, r->getReturnValue()); doReturn(s, v, true); } else doReturn(s, Val(), false); return; }
  case Instruction::Call: case Instruction::Invoke: doCall(s, cast<CallBase>(I)); return;
  case Instruction::Resume: { unwind(s); return; }
  case Instruction::Unreachable: error(s, "unreachable", "undefined behaviour: unreachable code executed");
  case Instruction::LandingPad: f.pc = I->getNextNode(); return;
  default: incompletePath(s, std::string("instruction ") + I->getOpcodeName());
  }
  Frame& f2 = s.th[s.cur].stack.back(); f2.pc = I->getNextNode();
}
void Exec::doCall(State& s, const CallBase* cb) {
  Frame& f = s.th[s.cur].stack.back();
  if (cb->isInlineAsm()) { // barriers and pause hints only
    std::string a = cast<InlineAsm>(cb->getCalledOperand())->getAsmString(); if (!cb->getType()->isVoidTy()) incompletePath(s, "inline asm: " + a); if (!a.empty() && a.find("pause") == std::string::npos && a.find("nop") == std::string::npos && a.find("yield") == std::string::npos && a.find("prfchw") == std::string::npos) incompletePath(s, "inline asm: " + a); advance(s, f); return; }
  Function* fn = cb->getCalledFunction();
  if (!fn) { const Value* cv = cb->getCalledOperand()->stripPointerCasts(); if (auto* ff = dyn_cast<Function>(const_cast<Value*>(cv))) fn = ff; else if (auto* ga = dyn_cast<GlobalAlias>(cv)) fn = dyn_cast<Function>(const_cast<Constant*>(ga->getAliasee())->stripPointerCasts()); }
  if (!fn) { uint64_t a = concretize(s, evalE(s, f, cb->getCalledOperand())); auto it = faddr.find(a); if (it == faddr.end()) error(s, "memory", "call through an invalid function pointer"); fn = it->second; }
  std::vector<Val> args; for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) { args.push_back(Val()); continue; } Val v = eval(s, f, a.get()); if (!v.e && !v.agg && fn->isDeclaration()) v = Val(mkSym("undef", DL.getTypeSizeInBits(a->getType()), true)); args.push_back(v); }
  if (fn->isIntrinsic()) { Val r; if (intrinsic(s, cb, fn, args, r)) retVal(s, cb, r); return; }
  Handler* h = nullptr; auto ce = extCache.find(fn);
  if (ce != extCache.end()) h = ce->second; else { auto it = ext.find(fn->getName().str()); h = it == ext.end() ? nullptr : &it->second; extCache[fn] = h; }
  if (h) { info(fn)->calls++; Val r; if ((*h)(s, cb, args, r)) retVal(s, cb, r); return; }
  if (fn->isDeclaration()) {
    // math library calls
    std::string n = fn->getName().str();
    static const std::set<std::string> m1 = {"sin","cos","tan","asin","acos","atan","exp","exp2","log","log2","log10","sqrt","fabs","floor","ceil","round","trunc","rint","nearbyint","cbrt","tanh","sinh","cosh","log1p","expm1"};
    static const std::set<std::string> m2 = {"atan2","pow","fmod","hypot","fmax","fmin","copysign","remainder","ldexp"};
    std::string b = n; bool flt = false; if (!m1.count(b) && !m2.count(b) && b.size() > 1 && b.back() == 'f') { b.pop_back(); flt = true; }
    if (m1.count(b) || m2.count(b)) { Val r;
      if (m1.count(b)) r = fpUnary(s, b, args[0].e);
      else { E x = args[0].e, y = args[1].e;
        if (x->isConst() && y->isConst()) { auto toD = [&](E e) { if (e->w == 32 && b != "ldexp") { uint32_t u = (uint32_t)e->val; float q; memcpy(&q, &u, 4); return (double)q; } uint64_t u = (uint64_t)e->val; double q; memcpy(&q, &u, 8); return q; };
          double p = toD(x), q = b == "ldexp" ? 0 : toD(y), o = 0; if (b == "atan2") o = flt ? atan2f(p, q) : atan2(p, q); else if (b == "pow") o = flt ? powf(p, q) : pow(p, q); else if (b == "fmod") o = fmod(p, q); else if (b == "hypot") o = flt ? hypotf(p, q) : hypot(p, q); else if (b == "fmax") o = fmax(p, q); else if (b == "fmin") o = fmin(p, q); else if (b == "copysign") o = copysign(p, q); else if (b == "remainder") o = remainder(p, q); else o = ldexp(p, (int)y->val);
          if (x->w == 32) { float t = o; uint32_t u; memcpy(&u, &t, 4); r = Val(mkConst(u, 32)); } else { uint64_t u; memcpy(&u, &o, 8); r = Val(mkConst(u, 64)); } }
        else if (b == "fmod") r = Val(mkUF(n, x->w, {x, y}));
        else if (b == "copysign") { u128 sb = (u128)1 << (x->w - 1); r = Val(mkOr(mkAnd(x, mkConst(sb - 1, x->w)), mkAnd(y, mkConst(sb, x->w)))); }
        else r = Val(mkUF(n, x->w, {x, y})); }
      retVal(s, cb, r); return; }
    incompletePath(s, "call to external function " + demangle(fn->getName().str()));
  }
  enter(s, fn, args, cb);
}
Val Exec::fpUnary(State& s, const std::string& n, E a) {
  if (n == "fabs") return Val(mkAnd(a, mkConst(((u128)1 << (a->w - 1)) - 1, a->w)));
  if (n == "sqrt") return Val(mkFp(K_FSQRT, a));
  static const std::map<std::string, unsigned> rm = {{"nearbyint", 0}, {"rint", 0}, {"floor", 1}, {"ceil", 2}, {"trunc", 3}, {"round", 4}};
  auto it = rm.find(n); if (it != rm.end()) return Val(mkFp(K_FRINT, a, nullptr, nullptr, a->w, it->second));
  if (a->isConst()) {
    double d; if (a->w == 32) { uint32_t u = (uint32_t)a->val; float q; memcpy(&q, &u, 4); 
      float r; if (n == "sin") r = sinf(q); else if (n == "cos") r = cosf(q); else if (n == "tan") r = tanf(q); else if (n == "exp") r = expf(q); else if (n == "log") r = logf(q); else if (n == "log10") r = log10f(q); else if (n == "log2") r = log2f(q); else if (n == "exp2") r = exp2f(q); else if (n == "asin") r = asinf(q); else if (n == "acos") r = acosf(q); else if (n == "atan") r = atanf(q); else if (n == "cbrt") r = cbrtf(q); else if (n == "tanh") r = tanhf(q); else if (n == "sinh") r = sinhf(q); else if (n == "cosh") r = coshf(q); else if (n == "log1p") r = log1pf(q); else r = expm1f(q);
      uint32_t o; memcpy(&o, &r, 4); return Val(mkConst(o, 32)); }
    uint64_t u = (uint64_t)a->val; memcpy(&d, &u, 8); double r;
    if (n == "sin") r = sin(d); else if (n == "cos") r = cos(d); else if (n == "tan") r = tan(d); else if (n == "exp") r = exp(d); else if (n == "log") r = log(d); else if (n == "log10") r = log10(d); else if (n == "log2") r = log2(d); else if (n == "exp2") r = exp2(d); else if (n == "asin") r = asin(d); else if (n == "acos") r = acos(d); else if (n == "atan") r = atan(d); else if (n == "cbrt") r = cbrt(d); else if (n == "tanh") r = tanh(d); else if (n == "sinh") r = sinh(d); else if (n == "cosh") r = cosh(d); else if (n == "log1p") r = log1p(d); else r = expm1(d);
    uint64_t o; memcpy(&o, &r, 8); return Val(mkConst(o, 64));
  }
  return Val(mkUF(n, a->w, {a}));
}
static std::string jesc(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
void Exec::report(const std::string& out) {
  std::ostringstream o; o << "{\n";
  o << "\"entry\":\"" << opt.entry << "\",\"paths\":" << st.paths << ",\"complete\":" << st.complete << ",\"infeasible\":" << st.infeasible << ",\"errored\":" << st.errored << ",\"pruned\":" << st.pruned << ",\"truncated\":" << st.truncated << ",\"instructions\":" << st.instrs << ",\"forks\":" << st.forks << ",\"checks\":" << st.checks << ",\"checks_by_solver\":" << st.checksSolver << ",\"schedule_points\":" << st.visible << ",\"memory_accesses_checked\":" << st.memChecks << ",\"expressions\":" << g_exprCount << ",\"elapsed\":" << elapsed << ",\n";
  o << "\"solver\":{\"queries\":" << g_sstats.queries << ",\"sat\":" << g_sstats.sat << ",\"unsat\":" << g_sstats.unsat << ",\"unknown\":" << g_sstats.unknown << ",\"cache_hits\":" << g_sstats.cacheHits << ",\"model_hits\":" << g_sstats.modelHits << ",\"time\":" << g_sstats.time << ",\"max\":" << g_sstats.maxTime << "},\n";
  o << "\"incomplete\":{"; bool first = true; for (auto& p : incomplete) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } o << "},\n";
  o << "\"reach\":{"; first = true; for (auto& p : reach) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } o << "},\n";
  o << "\"samples\":["; first = true; for (auto& p : samples) { o << (first ? "" : ",") << "\"" << jesc(p) << "\""; first = false; } o << "],\n";
  auto inp = [&](const std::vector<std::pair<std::string, std::pair<unsigned, u128>>>& v) { bool f2 = true; o << "["; for (auto& x : v) { char b[64]; u128 q = x.second.second; snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(q >> 64), (unsigned long long)q); o << (f2 ? "" : ",") << "[\"" << jesc(x.first) << "\"," << x.second.first << ",\"" << b << "\"]"; f2 = false; } o << "]"; };
  o << "\"sample_inputs\":["; first = true; for (auto& p : sampleInputs) { if (!first) o << ","; first = false; inp(p); } o << "],\n";
  o << "\"check_sites\":{"; first = true; for (auto& p : checkHits) { o << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; } o << "},\n";
  { // functions of the code under test that were executed, including those inlined into others
    std::map<std::pair<std::string, std::string>, uint64_t> fs; std::set<const DISubprogram*> seenSp; 
    auto note = [&](const DISubprogram* sp, uint64_t calls) { if (!sp) return; std::string d = sp->getDirectory().str(), fn = sp->getFilename().str(); std::string file = (!fn.empty() && fn[0] == '/') ? fn : d + "/" + fn; if (file.find("/repo/") == std::string::npos) return; std::string n = sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str()); if (n.size() > 200) n = n.substr(0, 200) + "..."; fs[{n, file}] += calls; };
    for (auto& p : finfo) if (p.second->calls) { std::set<const DISubprogram*> loc; note(p.second->f->getSubprogram(), p.second->calls); if (p.second->f->getSubprogram()) loc.insert(p.second->f->getSubprogram());
      for (auto& b : *p.second->f) for (auto& i : b) for (const DILocation* l = i.getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) if (loc.insert(sp).second) note(sp, p.second->calls); }
    o << "\"functions\":["; first = true; for (auto& p : fs) { o << (first ? "" : ",") << "{\"name\":\"" << jesc(p.first.first) << "\",\"file\":\"" << jesc(p.first.second) << "\",\"calls\":" << p.second << "}"; first = false; } o << "],\n"; }
  o << "\"errors\":["; first = true; for (auto& e : errors) { o << (first ? "" : ",\n") << "{\"kind\":\"" << e.kind << "\",\"msg\":\"" << jesc(e.msg) << "\",\"where\":\"" << jesc(e.where) << "\",\"count\":" << e.count << ",\"stack\":["; bool f2 = true; for (auto& x : e.stack) { o << (f2 ? "" : ",") << "\"" << jesc(x) << "\""; f2 = false; } o << "],\"inputs\":["; f2 = true; for (auto& x : e.inputs) { char b[64]; u128 v = x.second.second; if (v >> 64) snprintf(b, 64, "0x%llx%016llx", (unsigned long long)(v >> 64), (unsigned long long)v); else snprintf(b, 64, "0x%llx", (unsigned long long)v); o << (f2 ? "" : ",") << "[\"" << jesc(x.first) << "\"," << x.second.first << ",\"" << b << "\"]"; f2 = false; } o << "],\"trace\":["; f2 = true; for (auto& x : e.trace) { o << (f2 ? "" : ",") << "\"" << jesc(x) << "\""; f2 = false; } o << "]}"; first = false; } o << "]}\n";
  if (out.empty() || out == "-") fputs(o.str().c_str(), stdout); else { std::ofstream f(out); f << o.str(); }
}
