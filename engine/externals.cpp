#include "exec.h"
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/Demangle/Demangle.h>
#include <cstring>
using namespace llvm;

static uint32_t vget(const VC& v, uint32_t i) { return i < v.size() ? v[i] : 0; }
static void vset(VC& v, uint32_t i, uint32_t x) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = x; }
static void vjoin(VC& a, const VC& b) { for (uint32_t i = 0; i < b.size(); i++) if (vget(a, i) < b[i]) vset(a, i, b[i]); }

// the n-th input of a name is the same symbol on every path, so that sibling paths share expressions and solver results
static E inputSym(State& s, const std::string& n, unsigned w) { static std::map<std::pair<std::string, unsigned>, E> memo; std::string k = n + "/" + std::to_string(w); unsigned i = s.nameCount[k]++; E& e = memo[{k, i}]; if (!e) e = mkSym(n, w); return e; }
bool Exec::intrinsic(State& s, const CallBase* cb, Function* fn, std::vector<Val>& a, Val& ret) {
  auto id = fn->getIntrinsicID();
  auto lane = [&](unsigned nargs, std::function<E(std::vector<E>)> g) -> Val {
    if (auto* vt = dyn_cast<FixedVectorType>(cb->getType())) { Val r; r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < vt->getNumElements(); i++) { std::vector<E> x; for (unsigned k = 0; k < nargs; k++) { E e = a[k].agg ? (*a[k].agg)[i].e : a[k].e; if (!e) e = mkSym("undef", DL.getTypeSizeInBits(vt->getElementType()), true); x.push_back(e); } r.agg->push_back(Val(g(x))); } return r; }
    std::vector<E> x; for (unsigned k = 0; k < nargs; k++) x.push_back(a[k].e ? a[k].e : mkSym("undef", DL.getTypeSizeInBits(cb->getArgOperand(k)->getType()), true)); return Val(g(x)); };
  auto minmax = [&](Kind k, bool max) { return lane(2, [&](std::vector<E> x) { E c = mkBin(k, x[0], x[1]); return max ? mkIte(c, x[1], x[0]) : mkIte(c, x[0], x[1]); }); };
  switch (id) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::var_annotation: case Intrinsic::x86_sse2_pause: case Intrinsic::vaend: return true;
  case Intrinsic::invariant_start: case Intrinsic::stacksave: ret = Val(mkConst(0, 64)); return true;
  case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: ret = a[0]; return true;
  case Intrinsic::is_constant: ret = Val(mkBool(false)); return true;
  case Intrinsic::objectsize: ret = Val(mkConst(cast<ConstantInt>(cb->getArgOperand(1))->isOne() ? 0 : ~(u128)0, DL.getTypeSizeInBits(cb->getType()))); return true;
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = concretize(s, a[2].e); copyMem(s, a[0].e, a[1].e, n); return true; }
  case Intrinsic::memset: case Intrinsic::memset_inline: { uint64_t n = concretize(s, a[2].e); if (!n) return true; uint64_t d = concretize(s, a[0].e); E v = a[1].e; Acc r = resolve(s, mkConst(d, 64), n, true);
      if (r.bytewise) { for (uint64_t i = 0; i < n; i++) store(s, mkConst(d + i, 64), v); return true; }
      if (s.everMulti) raceCheck(s, r.id, (uint64_t)r.off->val, n, true); Obj* o = objRW(s, r.id); for (uint64_t i = 0; i < n; i++) setByte(o, (uint64_t)r.off->val + i, v->isConst() ? MByte{nullptr, (uint32_t)v->val} : MByte{v, 0}); return true; }
  case Intrinsic::eh_typeid_for: { uint64_t k = (uint64_t)a[0].e->val; auto it = typeIds.find(k); if (it == typeIds.end()) it = typeIds.emplace(k, (int)typeIds.size() + 1).first; ret = Val(mkConst(it->second, 32)); return true; }
  case Intrinsic::trap: case Intrinsic::debugtrap: case Intrinsic::ubsantrap: error(s, "abort", "trap executed");
  case Intrinsic::umin: ret = minmax(K_ULT, false); return true; case Intrinsic::umax: ret = minmax(K_ULT, true); return true;
  case Intrinsic::smin: ret = minmax(K_SLT, false); return true; case Intrinsic::smax: ret = minmax(K_SLT, true); return true;
  case Intrinsic::abs: ret = lane(1, [&](std::vector<E> x) { return mkIte(mkBin(K_SLT, x[0], mkConst(0, x[0]->w)), mkSub(mkConst(0, x[0]->w), x[0]), x[0]); }); return true;
  case Intrinsic::ctpop: ret = lane(1, [&](std::vector<E> x) { E r = mkConst(0, x[0]->w); for (unsigned i = 0; i < x[0]->w; i++) r = mkAdd(r, mkZExt(mkExtract(x[0], i, 1), x[0]->w)); return r; }); return true;
  case Intrinsic::ctlz: ret = lane(1, [&](std::vector<E> x) { unsigned w = x[0]->w; E r = mkConst(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(x[0], i, 1), mkConst(w - 1 - i, w), r); return r; }); return true;
  case Intrinsic::cttz: ret = lane(1, [&](std::vector<E> x) { unsigned w = x[0]->w; E r = mkConst(w, w); for (unsigned i = w; i-- > 0; ) r = mkIte(mkExtract(x[0], i, 1), mkConst(i, w), r); return r; }); return true;
  case Intrinsic::bswap: ret = lane(1, [&](std::vector<E> x) { E r = nullptr; for (unsigned i = 0; i < x[0]->w; i += 8) { E b = mkExtract(x[0], i, 8); r = r ? mkConcat(r, b) : b; } return r; }); return true;
  case Intrinsic::bitreverse: ret = lane(1, [&](std::vector<E> x) { E r = nullptr; for (unsigned i = 0; i < x[0]->w; i++) { E b = mkExtract(x[0], i, 1); r = r ? mkConcat(r, b) : b; } return r; }); return true;
  case Intrinsic::fshl: case Intrinsic::fshr: { bool l = id == Intrinsic::fshl; ret = lane(3, [&](std::vector<E> x) { unsigned w = x[0]->w; if (x[2]->isConst()) { unsigned k = (unsigned)(x[2]->val % w); if (!l) { if (k == 0) return x[1]; k = w - k; } if (k == 0) return x[0]; return mkConcat(mkExtract(x[0], 0, w - k), mkExtract(x[1], w - k, k)); }
      E cc = mkConcat(x[0], x[1]); E sh = mkZExt(mkBin(K_UREM, x[2], mkConst(w, w)), 2 * w); return l ? mkExtract(mkBin(K_SHL, cc, sh), w, w) : mkExtract(mkBin(K_LSHR, cc, sh), 0, w); }); return true; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      E x = a[0].e, y = a[1].e; unsigned w = x->w; if (w > 64) incompletePath(s, "wide overflow op"); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      Kind k = (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? K_ADD : (id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow) ? K_SUB : K_MUL;
      E r = mkBin(k, x, y), ov;
      if (id == Intrinsic::uadd_with_overflow) ov = mkUlt(r, x); else if (id == Intrinsic::usub_with_overflow) ov = mkUlt(x, y);
      else { E wx = sg ? mkSExt(x, 2 * w) : mkZExt(x, 2 * w), wy = sg ? mkSExt(y, 2 * w) : mkZExt(y, 2 * w); E wr = mkBin(k, wx, wy); ov = mkNot(mkEq(wr, sg ? mkSExt(r, 2 * w) : mkZExt(r, 2 * w))); }
      ret.agg = std::make_shared<std::vector<Val>>(); ret.agg->push_back(Val(r)); ret.agg->push_back(Val(ov)); return true; }
  case Intrinsic::usub_sat: ret = lane(2, [&](std::vector<E> x) { return mkIte(mkUlt(x[0], x[1]), mkConst(0, x[0]->w), mkSub(x[0], x[1])); }); return true;
  case Intrinsic::uadd_sat: ret = lane(2, [&](std::vector<E> x) { E r = mkAdd(x[0], x[1]); return mkIte(mkUlt(r, x[0]), mkConst(maskOf(r->w), r->w), r); }); return true;
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: ret = lane(2, [&](std::vector<E> x) { unsigned w = x[0]->w; E p = mkSExt(x[0], w + 1), q = mkSExt(x[1], w + 1); E r = id == Intrinsic::sadd_sat ? mkAdd(p, q) : mkSub(p, q); u128 mx = maskOf(w - 1); E hi = mkConst(mx, w + 1), lo = mkConst(-(u128)mx - 1, w + 1); return mkExtract(mkIte(mkBin(K_SLT, hi, r), hi, mkIte(mkBin(K_SLT, r, lo), lo, r)), 0, w); }); return true;
  case Intrinsic::fabs: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "fabs", x[0]).e; }); return true;
  case Intrinsic::sqrt: ret = lane(1, [&](std::vector<E> x) { return mkFp(K_FSQRT, x[0]); }); return true;
  case Intrinsic::floor: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "floor", x[0]).e; }); return true;
  case Intrinsic::ceil: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "ceil", x[0]).e; }); return true;
  case Intrinsic::trunc: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "trunc", x[0]).e; }); return true;
  case Intrinsic::round: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "round", x[0]).e; }); return true;
  case Intrinsic::rint: case Intrinsic::nearbyint: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "rint", x[0]).e; }); return true;
  case Intrinsic::sin: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "sin", x[0]).e; }); return true;
  case Intrinsic::cos: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "cos", x[0]).e; }); return true;
  case Intrinsic::exp: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "exp", x[0]).e; }); return true;
  case Intrinsic::log: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "log", x[0]).e; }); return true;
  case Intrinsic::log10: ret = lane(1, [&](std::vector<E> x) { return fpUnary(s, "log10", x[0]).e; }); return true;
  case Intrinsic::pow: ret = lane(2, [&](std::vector<E> x) { if (x[0]->isConst() && x[1]->isConst() && x[0]->w == 64) { uint64_t u = (uint64_t)x[0]->val, v = (uint64_t)x[1]->val; double p, q; memcpy(&p, &u, 8); memcpy(&q, &v, 8); double r = pow(p, q); memcpy(&u, &r, 8); return mkConst(u, 64); } return mkUF("pow", x[0]->w, {x[0], x[1]}); }); return true;
  case Intrinsic::copysign: ret = lane(2, [&](std::vector<E> x) { u128 sb = (u128)1 << (x[0]->w - 1); return mkOr(mkAnd(x[0], mkConst(sb - 1, x[0]->w)), mkAnd(x[1], mkConst(sb, x[0]->w))); }); return true;
  case Intrinsic::fmuladd: ret = lane(3, [&](std::vector<E> x) { return mkFp(K_FADD, mkFp(K_FMUL, x[0], x[1]), x[2]); }); return true;
  case Intrinsic::fma: ret = lane(3, [&](std::vector<E> x) { return mkFp(K_FMA, x[0], x[1], x[2]); }); return true;
  case Intrinsic::maxnum: ret = lane(2, [&](std::vector<E> x) { return mkIte(mkFp(K_FUNO, x[0], x[0]), x[1], mkIte(mkFp(K_FUNO, x[1], x[1]), x[0], mkIte(mkFp(K_FOLT, x[0], x[1]), x[1], x[0]))); }); return true;
  case Intrinsic::minnum: ret = lane(2, [&](std::vector<E> x) { return mkIte(mkFp(K_FUNO, x[0], x[0]), x[1], mkIte(mkFp(K_FUNO, x[1], x[1]), x[0], mkIte(mkFp(K_FOLT, x[1], x[0]), x[1], x[0]))); }); return true;
  case Intrinsic::is_fpclass: { uint64_t mask = (uint64_t)a[1].e->val; ret = lane(1, [&](std::vector<E> x) { unsigned w = x[0]->w, mb = w == 32 ? 23 : 52; E mag = mkAnd(x[0], mkConst(((u128)1 << (w - 1)) - 1, w)); u128 inf = w == 32 ? (u128)0x7f800000u : (u128)0x7ff0000000000000ull; E neg = mkExtract(x[0], w - 1, 1);
      E nan = mkUlt(mkConst(inf, w), mag), isInf = mkEq(mag, mkConst(inf, w)), zero = mkEq(mag, mkConst(0, w)), sub = mkAnd(mkNot(zero), mkUlt(mag, mkConst((u128)1 << mb, w))), norm = mkAnd(mkUle(mkConst((u128)1 << mb, w), mag), mkUlt(mag, mkConst(inf, w)));
      E r = mkBool(false); if (mask & 3) r = mkOr(r, nan); auto add = [&](unsigned nb, unsigned pb, E c) { if (mask & (1u << nb)) r = mkOr(r, mkAnd(c, neg)); if (mask & (1u << pb)) r = mkOr(r, mkAnd(c, mkNot(neg))); };
      add(2, 9, isInf); add(3, 8, norm); add(4, 7, sub); add(5, 6, zero); return r; }); return true; }
  case Intrinsic::ptrmask: ret = Val(mkAnd(a[0].e, a[1].e)); return true;
  case Intrinsic::vector_reduce_add: { E r = nullptr; for (auto& v : *a[0].agg) r = r ? mkAdd(r, v.e) : v.e; ret = Val(r); return true; }
  case Intrinsic::vector_reduce_or: { E r = nullptr; for (auto& v : *a[0].agg) r = r ? mkOr(r, v.e) : v.e; ret = Val(r); return true; }
  case Intrinsic::vastart: { // System V va_list whose register area is exhausted: everything is in the overflow area
      Frame& f = s.th[s.cur].stack.back(); uint64_t n = f.varargs.size() * 8; Obj* o = newObj(s, n + 16, OK_STACK, 16, "varargs"); uint64_t base = o->base; uint32_t oid = o->id; s.th[s.cur].stack.back().allocas.push_back(oid);
      std::vector<Val> va = s.th[s.cur].stack.back().varargs; for (size_t i = 0; i < va.size(); i++) { E e = va[i].e ? va[i].e : mkSym("undef", 64, true); store(s, mkConst(base + 8 * i, 64), mkZExt(e, 64)); }
      E l = a[0].e; store(s, l, mkConst(48, 32)); store(s, mkAdd(l, mkConst(4, 64)), mkConst(176, 32)); store(s, mkAdd(l, mkConst(8, 64)), mkConst(base, 64)); store(s, mkAdd(l, mkConst(16, 64)), mkConst(0, 64)); return true; }
  case Intrinsic::vacopy: copyMem(s, a[0].e, a[1].e, 24); return true;
  default: incompletePath(s, "intrinsic " + fn->getName().str());
  }
  return true;
}

void Exec::registerExternals() {
  auto alloc = [this](State& s, uint64_t n, uint64_t al, const char* nm, uint8_t kind, bool zero) -> uint64_t {
    if (n > (1ull << 32)) return 0;
    Obj* o = newObj(s, n, OK_HEAP, al, std::string(nm) + "(" + std::to_string(n) + ")"); o->allocFn = kind; if (zero) o->fill = 0; s.liveHeap++; s.heapBytes += n; return o->base; };
  auto dealloc = [this](State& s, uint64_t p, uint8_t kind) { if (!p) return; uint32_t id; if (!findObj(s, p, id)) error(s, "memory", "free of an invalid pointer"); Obj* o = objRW(s, id);
    if (o->kind != OK_HEAP || o->base != p) error(s, "memory", "free of a pointer that was not allocated ('" + o->name + "')"); if (!o->alive) error(s, "memory", "double free"); if (o->allocFn != kind) error(s, "memory", "mismatched allocation and release functions"); 
    if (s.everMulti && o->size) raceCheck(s, id, 0, (unsigned)std::min<uint64_t>(o->size, 16), true);
    o->alive = false; o->pages.clear(); s.liveHeap--; s.heapBytes -= o->size; };
  auto reg = [this](std::initializer_list<const char*> ns, Handler h) { for (auto n : ns) ext[n] = h; };
  auto badAlloc = [this](State& s) { incompletePath(s, "allocation larger than 4 GiB"); };
  reg({"malloc"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, a[0].e); r = Val(mkConst(alloc(s, n, 16, "malloc", 0, false), 64)); return true; });
  reg({"calloc"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, a[0].e), m = concretize(s, a[1].e); r = Val(mkConst(alloc(s, n * m, 16, "calloc", 0, true), 64)); return true; });
  reg({"realloc"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t p = concretize(s, a[0].e), n = concretize(s, a[1].e); uint64_t q = alloc(s, n, 16, "realloc", 0, false); if (p) { uint32_t id; if (!findObj(s, p, id) || objRO(s, id)->base != p || !objRO(s, id)->alive) error(s, "memory", "realloc of an invalid pointer"); copyMem(s, mkConst(q, 64), mkConst(p, 64), std::min<uint64_t>(n, objRO(s, id)->size)); dealloc(s, p, 0); } r = Val(mkConst(q, 64)); return true; });
  reg({"free", "cfree"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { dealloc(s, concretize(s, a[0].e), 0); return true; });
  reg({"aligned_alloc", "memalign"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t al = concretize(s, a[0].e), n = concretize(s, a[1].e); r = Val(mkConst(alloc(s, n, al, "aligned_alloc", 0, false), 64)); return true; });
  reg({"posix_memalign"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t al = concretize(s, a[1].e), n = concretize(s, a[2].e); store(s, a[0].e, mkConst(alloc(s, n, al, "posix_memalign", 0, false), 64)); r = Val(mkConst(0, 32)); return true; });
  for (bool arr : {false, true}) {
    uint8_t k = arr ? 2 : 1; std::string nw = arr ? "_Zna" : "_Znw", dl = arr ? "_Zda" : "_Zdl";
    auto fnNew = [=, this](State& s, const CallBase* cb, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, a[0].e); uint64_t al = 16; if (a.size() > 1 && a[1].e && a[1].e->isConst() && (a[1].e->val & (a[1].e->val - 1)) == 0 && a[1].e->val < 65536 && a[1].e->val) al = (uint64_t)a[1].e->val; uint64_t p = alloc(s, n, al, arr ? "new[]" : "new", k, false); if (!p) badAlloc(s); r = Val(mkConst(p, 64)); return true; };
    auto fnDel = [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { dealloc(s, concretize(s, a[0].e), k); return true; };
    for (auto suf : {"m", "mSt11align_val_t", "mRKSt9nothrow_t", "mSt11align_val_tRKSt9nothrow_t"}) ext[nw + suf] = fnNew;
    for (auto suf : {"Pv", "Pvm", "PvSt11align_val_t", "PvmSt11align_val_t", "PvRKSt9nothrow_t"}) ext[dl + suf] = fnDel;
  }
  reg({"memcpy", "memmove"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, a[2].e); copyMem(s, a[0].e, a[1].e, n); r = a[0]; return true; });
  reg({"memset"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, a[2].e), d = concretize(s, a[0].e); E v = mkExtract(a[1].e, 0, 8); for (uint64_t i = 0; i < n; i++) store(s, mkConst(d + i, 64), v); r = a[0]; return true; });
  reg({"abort", "_ZSt9terminatev", "__assert_fail", "__cxa_pure_virtual", "_ZSt10unexpectedv", "__stack_chk_fail", "_ZSt21__glibcxx_assert_failPKciS0_S0_"}, [=, this](State& s, const CallBase* cb, std::vector<Val>&, Val&) { error(s, "abort", "the program aborts (" + cb->getCalledFunction()->getName().str() + ")"); return true; });
  reg({"exit", "_exit", "quick_exit"}, [=, this](State& s, const CallBase* cb, std::vector<Val>&, Val&) { error(s, "abort", "the program exits"); return true; });
  reg({"__cxa_atexit", "atexit", "__cxa_thread_atexit"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val& r) { r = Val(mkConst(0, 32)); return true; });
  reg({"__cxa_guard_acquire"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { E g = load(s, a[0].e, 1); uint64_t v = concretize(s, g); r = Val(mkConst(v == 0, 32)); return true; });
  reg({"__cxa_guard_release"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { store(s, a[0].e, mkConst(1, 8)); return true; });
  reg({"__cxa_guard_abort"}, [=](State&, const CallBase*, std::vector<Val>&, Val&) { return true; });
  // exceptions
  reg({"__cxa_allocate_exception"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { Obj* o = newObj(s, concretize(s, a[0].e), OK_EXC, 16, "exception"); r = Val(mkConst(o->base, 64)); return true; });
  reg({"__cxa_free_exception", "_Unwind_DeleteException"}, [=](State&, const CallBase*, std::vector<Val>&, Val&) { return true; });
  reg({"__cxa_throw"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { Thread& t = s.th[s.cur]; t.curExc = (uint64_t)a[0].e->val; t.curTi = (uint64_t)a[1].e->val; unwind(s); return false; });
  reg({"__cxa_begin_catch", "__cxa_get_exception_ptr"}, [=, this](State& s, const CallBase* cb, std::vector<Val>& a, Val& r) { Thread& t = s.th[s.cur]; if (cb->getCalledFunction()->getName() == "__cxa_begin_catch") t.caught.push_back({t.curExc, t.curTi}); r = a[0]; return true; });
  reg({"__cxa_end_catch"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val&) { Thread& t = s.th[s.cur]; if (!t.caught.empty()) t.caught.pop_back(); return true; });
  reg({"__cxa_rethrow"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val&) { Thread& t = s.th[s.cur]; if (t.caught.empty()) error(s, "abort", "rethrow without exception"); t.curExc = t.caught.back().first; t.curTi = t.caught.back().second; unwind(s); return false; });
  reg({"_Unwind_Resume"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val&) { unwind(s); return false; });
  // harness interface
  reg({"sym_in_engine"}, [=](State&, const CallBase*, std::vector<Val>&, Val& r) { r = Val(mkConst(1, 32)); return true; });
  reg({"sym_bits"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { std::string n = readStr(s, a[0].e); unsigned w = (unsigned)concretize(s, a[1].e); E e = inputSym(s, n, w); s.inputs.push_back({n, e}); r = Val(mkZExt(e, 64)); s.th[s.cur].spin.clear(); return true; });
  reg({"sym_bytes"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { uint64_t n = concretize(s, a[1].e), p = concretize(s, a[0].e); std::string nm = readStr(s, a[2].e); for (uint64_t i = 0; i < n; i++) { E e = inputSym(s, nm, 8); s.inputs.push_back({nm, e}); store(s, mkConst(p + i, 64), e); } return true; });
  reg({"sym_assume"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { assume(s, mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w)))); return true; });
  reg({"sym_check"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { std::string m = readStr(s, a[1].e); checkHits[m]++; check(s, mkNot(mkEq(a[0].e, mkConst(0, a[0].e->w))), "check", m); return true; });
  reg({"sym_fail"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { error(s, "check", readStr(s, a[0].e)); return true; });
  reg({"sym_choose"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { std::string nm = readStr(s, a[0].e); unsigned n = (unsigned)concretize(s, a[1].e), c; if (s.forced >= 0) { c = s.forced; s.forced = -1; } else { for (unsigned i = n; i-- > 1; ) { State* f = fork(s); f->forced = (int)i; } c = 0; } s.inputs.push_back({nm, mkConst(c, 32)}); r = Val(mkConst(c, 32)); s.th[s.cur].spin.clear(); return true; });
  reg({"sym_part"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { unsigned n = (unsigned)concretize(s, a[0].e); // work split: this process takes one residue class
      uint64_t v = concretize(s, a[1].e); if (opt.parts > 1 && n && v % opt.parts != opt.part) throw PathEnd{}; return true; });
  reg({"sym_concretize"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { r = Val(mkConst(concretize(s, a[0].e), 64)); return true; });
  reg({"sym_reach"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { s.reached.push_back(readStr(s, a[0].e)); return true; });
  reg({"sym_note"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { auto v = evalModel(a[1].e, *s.model); s.trace.push_back(readStr(s, a[0].e) + "=" + (v ? std::to_string((int64_t)*v) : "?")); if (opt.verbose) fprintf(stderr, "[%llu] note %s\n", (unsigned long long)s.id, s.trace.back().c_str()); return true; });
  reg({"sym_live_heap"}, [=](State& s, const CallBase*, std::vector<Val>&, Val& r) { r = Val(mkConst(s.liveHeap, 64)); return true; });
  reg({"sym_heap_bytes"}, [=](State& s, const CallBase*, std::vector<Val>&, Val& r) { r = Val(mkConst(s.heapBytes, 64)); return true; });
  reg({"sym_is_init"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t p = concretize(s, a[0].e), n = concretize(s, a[1].e); bool ok = true; for (uint64_t i = 0; i < n; i++) { uint32_t id; uint64_t off; if (!translate(s, p + i, false, id, off)) error(s, "memory", "sym_is_init out of bounds"); MByte b = getByte(s, objRO(s, id), off); if (!b.e) { if (b.v > 255) ok = false; } else for (uint32_t q : *symsOf(mkExtract(b.e, b.v * 8, 8))) if (!(q & 0x80000000u) && g_syms[q].uninit) ok = false; } r = Val(mkConst(ok, 32)); return true; });
  reg({"sym_poison"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t p = concretize(s, a[0].e), n = concretize(s, a[1].e); for (uint64_t i = 0; i < n; i++) { uint32_t id; uint64_t off; if (!translate(s, p + i, true, id, off)) error(s, "memory", "sym_poison out of bounds"); setByte(objRW(s, id), off, {nullptr, 256}); } return true; });
  // uninterpreted function of up to 6 words: sym_uf(name, width, nargs, ...)
  reg({"sym_uf"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { std::string nm = readStr(s, a[0].e); unsigned w = (unsigned)concretize(s, a[1].e), n = (unsigned)concretize(s, a[2].e); std::vector<E> x; for (unsigned i = 0; i < n; i++) x.push_back(mkZExt(a[3 + i].e, 64)); E u = mkUF(nm, w, x); s.inputs.push_back({"uf:" + nm, u}); r = Val(mkZExt(u, 64)); return true; });
  // virtual memory
  reg({"sym_touch"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { uint64_t n = concretize(s, a[1].e), w = concretize(s, a[2].e); if (n) resolve(s, a[0].e, n, w != 0); return true; });
  reg({"sym_vm_reserve"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t n = (concretize(s, a[0].e) + 4095) / 4096 * 4096; uint64_t al = a.size() > 1 ? concretize(s, a[1].e) : 4096; uint64_t b = (s.nextMap + al - 1) / al * al; s.nextMap = b + n + 0x10000; s.maps[b] = Region{n, -1, 0, false}; r = Val(mkConst(b, 64)); return true; });
  reg({"sym_vm_file"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t n = concretize(s, a[0].e); Obj* o = newObj(s, n, OK_FILE, 16, "shared memory file"); o->fill = 0; r = Val(mkConst(o->id, 64)); return true; });
  reg({"sym_vm_map"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t ad = concretize(s, a[0].e), n = (concretize(s, a[1].e) + 4095) / 4096 * 4096, id = concretize(s, a[2].e), off = concretize(s, a[3].e);
      // split or replace whatever was there
      std::map<uint64_t, Region> nm; for (auto& p : s.maps) { uint64_t b = p.first, e = b + p.second.len; if (e <= ad || b >= ad + n) { nm.insert(p); continue; } if (b < ad) { Region x = p.second; x.len = ad - b; nm[b] = x; } if (e > ad + n) { Region x = p.second; x.off += ad + n - b; x.len = e - (ad + n); nm[ad + n] = x; } }
      if ((int64_t)id >= 0) nm[ad] = Region{n, (int32_t)id, off, true}; s.maps = nm; r = Val(mkConst(0, 32)); return true; });   // id -1: unmap
  reg({"sym_vm_mapped"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val& r) { uint64_t t = 0; for (auto& p : s.maps) t += p.second.len; r = Val(mkConst(t, 64)); return true; });
  // threads
  reg({"sym_thread_create"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) {
      uint64_t fa = concretize(s, a[0].e); auto it = faddr.find(fa); if (it == faddr.end()) error(s, "memory", "thread entry is not a function"); FuncInfo* fi = info(it->second); fi->calls++;
      unsigned me = s.cur; Thread t; Frame fr; fr.fi = fi; fr.pc = &it->second->getEntryBlock().front(); fr.regs.resize(fi->nslots); fr.regs[0] = a[1]; t.stack.push_back(fr);
      unsigned id = s.th.size(); t.vc = s.th[me].vc; vset(t.vc, id, 1); s.th.push_back(t); vset(s.th[me].vc, me, vget(s.th[me].vc, me) + 1); s.everMulti = true; r = Val(mkConst(id, 32)); return true; });
  reg({"sym_thread_join"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val&) { uint64_t id = concretize(s, a[0].e); if (id >= s.th.size()) error(s, "check", "join of an unknown thread"); if (id == s.cur) error(s, "deadlock", "a thread joins itself"); if (!s.th[id].finished) { error(s, "deadlock", "join can never return"); } vjoin(s.th[s.cur].vc, s.th[id].vc); return true; });
  reg({"sym_thread_self"}, [=](State& s, const CallBase*, std::vector<Val>&, Val& r) { r = Val(mkConst(s.cur, 32)); return true; });
  reg({"sym_thread_finished"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { uint64_t id = concretize(s, a[0].e); r = Val(mkConst(id < s.th.size() && s.th[id].finished, 32)); return true; });
  reg({"sym_live_threads"}, [=](State& s, const CallBase*, std::vector<Val>&, Val& r) { unsigned n = 0; for (auto& t : s.th) n += !t.finished; r = Val(mkConst(n, 32)); return true; });
  reg({"sym_progress"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val&) { Thread& t = s.th[s.cur]; t.spin.clear(); t.yielded = false; return true; });
  reg({"sym_yield"}, [=, this](State& s, const CallBase*, std::vector<Val>&, Val&) { Thread& t = s.th[s.cur]; t.spin.clear(); t.yielded = true; t.yieldedAt = s.storeCount; 
      // a waiting thread must eventually see the newest values: drop its claim on stale ones
      if (s.everMulti) for (auto& p : s.atoms) { int last = (int)p.second.h.size() - 1; if (last >= 0) { int& lr = t.lastRead[p.first]; if (lr < last) lr = last; } }
      return true; });
  reg({"sym_point"}, [=](State&, const CallBase*, std::vector<Val>&, Val&) { return true; });
  reg({"pthread_mutex_lock"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { if (s.everMulti) { uint64_t k = atomLoc(s, a[0].e, 1); auto& m = s.mutexes.try_emplace(k, -1, VC{}).first->second; if (m.first >= 0) error(s, "deadlock", "mutex locked twice"); m.first = s.cur; vjoin(s.th[s.cur].vc, m.second); s.storeCount++; } r = Val(mkConst(0, 32)); return true; });
  reg({"pthread_mutex_trylock"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { r = Val(mkConst(0, 32)); if (s.everMulti) { uint64_t k = atomLoc(s, a[0].e, 1); auto& m = s.mutexes.try_emplace(k, -1, VC{}).first->second; if (m.first >= 0) r = Val(mkConst(16, 32)); else { m.first = s.cur; vjoin(s.th[s.cur].vc, m.second); s.storeCount++; } } return true; });
  reg({"pthread_mutex_unlock"}, [=, this](State& s, const CallBase*, std::vector<Val>& a, Val& r) { if (s.everMulti) { uint64_t k = atomLoc(s, a[0].e, 1); auto it = s.mutexes.find(k); if (it != s.mutexes.end()) { it->second.first = -1; it->second.second = s.th[s.cur].vc; vset(s.th[s.cur].vc, s.cur, vget(s.th[s.cur].vc, s.cur) + 1); s.storeCount++; } } r = Val(mkConst(0, 32)); return true; });
  reg({"pthread_mutex_init", "pthread_mutex_destroy"}, [=](State&, const CallBase*, std::vector<Val>&, Val& r) { r = Val(mkConst(0, 32)); return true; });
}
