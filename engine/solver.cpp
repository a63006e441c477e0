#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
SolverStats g_sstats; bool g_fpUF = false; unsigned g_queryTimeoutMs = 60000;

static Z3_context ctx; static Z3_ast rne;
static std::vector<Z3_func_decl> ufDecl; static std::unordered_map<std::string, Z3_func_decl> fpufDecl;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
static void init() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config(); ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(ctx, errh);
  rne = Z3_mk_fpa_rne(ctx);
}
static Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(ctx, w); }
static Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx); }
static Z3_ast keep(Z3_ast a) { return a; }   // non-RC context: terms live as long as the context
static Z3_ast mkNum(u128 v, unsigned w) {
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvs(w));
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), bvs(w - 64)), lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, bvs(64));
  return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast b2v(Z3_ast b) { return Z3_mk_ite(ctx, b, mkNum(1, 1), mkNum(0, 1)); }

// boolean-sorted translation for width-1 expressions, bit-vector for others.
static Z3_ast bvOf(E e); static Z3_ast fpOf(E e); static Z3_ast boolOf(E e);
static bool isFpOp(Kind k) { return k == K_FADD || k == K_FSUB || k == K_FMUL || k == K_FDIV || k == K_FREM || k == K_FSQRT || k == K_FMA || k == K_FPEXT || k == K_FPTRUNC || k == K_FRINT || k == K_SITOFP || k == K_UITOFP; }
static Z3_ast fpufApp(E e) {
  std::string name = "fp" + std::to_string(e->k) + "_" + std::to_string(e->w) + "_" + std::to_string(e->aux);
  std::vector<Z3_sort> ss; std::vector<Z3_ast> as;
  for (E x : {e->a, e->b, e->c}) if (x) { name += "_" + std::to_string(x->w); ss.push_back(bvs(x->w)); as.push_back(bvOf(x)); }
  auto it = fpufDecl.find(name);
  if (it == fpufDecl.end()) {
    Z3_func_decl d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, name.c_str()), ss.size(), ss.data(), bvs(e->w));
    it = fpufDecl.emplace(name, d).first;
  }
  return Z3_mk_app(ctx, it->second, as.size(), as.data());
}
static Z3_ast roundMode(unsigned aux) {
  switch (aux) { case 1: return Z3_mk_fpa_rtn(ctx); case 2: return Z3_mk_fpa_rtp(ctx); case 3: return Z3_mk_fpa_rtz(ctx); case 4: return Z3_mk_fpa_rna(ctx); default: return rne; }
}
static Z3_ast fpOf(E e) {   // FP-sorted
  if (e->z3fp) return (Z3_ast)e->z3fp;
  Z3_ast r;
  switch (e->k) {
  case K_FADD: r = Z3_mk_fpa_add(ctx, rne, fpOf(e->a), fpOf(e->b)); break;
  case K_FSUB: r = Z3_mk_fpa_sub(ctx, rne, fpOf(e->a), fpOf(e->b)); break;
  case K_FMUL: r = Z3_mk_fpa_mul(ctx, rne, fpOf(e->a), fpOf(e->b)); break;
  case K_FDIV: r = Z3_mk_fpa_div(ctx, rne, fpOf(e->a), fpOf(e->b)); break;
  case K_FREM: r = Z3_mk_fpa_rem(ctx, fpOf(e->a), fpOf(e->b)); break;
  case K_FSQRT: r = Z3_mk_fpa_sqrt(ctx, rne, fpOf(e->a)); break;
  case K_FMA: r = Z3_mk_fpa_fma(ctx, rne, fpOf(e->a), fpOf(e->b), fpOf(e->c)); break;
  case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_fp_float(ctx, rne, fpOf(e->a), fps(e->w)); break;
  case K_FRINT: r = Z3_mk_fpa_round_to_integral(ctx, roundMode(e->aux), fpOf(e->a)); break;
  case K_SITOFP: r = Z3_mk_fpa_to_fp_signed(ctx, rne, bvOf(e->a), fps(e->w)); break;
  case K_UITOFP: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne, bvOf(e->a), fps(e->w)); break;
  case K_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), fpOf(e->b), fpOf(e->c)); break;
  default: r = Z3_mk_fpa_to_fp_bv(ctx, bvOf(e), fps(e->w));
  }
  e->z3fp = keep(r); return r;
}
static std::unordered_map<E, Z3_ast> boolMemo;
static Z3_ast boolOf(E e) {
  auto it = boolMemo.find(e); if (it != boolMemo.end()) return it->second;
  Z3_ast r; Z3_ast t[2];
  switch (e->k) {
  case K_CONST: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case K_EQ: if (e->a->w == 1) r = Z3_mk_eq(ctx, boolOf(e->a), boolOf(e->b)); else r = Z3_mk_eq(ctx, bvOf(e->a), bvOf(e->b)); break;
  case K_ULT: if (e->a->w == 1) { t[0] = Z3_mk_not(ctx, boolOf(e->a)); t[1] = boolOf(e->b); r = Z3_mk_and(ctx, 2, t); } else r = Z3_mk_bvult(ctx, bvOf(e->a), bvOf(e->b)); break;
  case K_ULE: if (e->a->w == 1) { t[0] = Z3_mk_not(ctx, boolOf(e->a)); t[1] = boolOf(e->b); r = Z3_mk_or(ctx, 2, t); } else r = Z3_mk_bvule(ctx, bvOf(e->a), bvOf(e->b)); break;
  case K_SLT: r = Z3_mk_bvslt(ctx, bvOf(e->a), bvOf(e->b)); break;
  case K_SLE: r = Z3_mk_bvsle(ctx, bvOf(e->a), bvOf(e->b)); break;
  case K_AND: t[0] = boolOf(e->a); t[1] = boolOf(e->b); r = Z3_mk_and(ctx, 2, t); break;
  case K_OR: t[0] = boolOf(e->a); t[1] = boolOf(e->b); r = Z3_mk_or(ctx, 2, t); break;
  case K_XOR: if (e->b->isTrue()) r = Z3_mk_not(ctx, boolOf(e->a)); else r = Z3_mk_xor(ctx, boolOf(e->a), boolOf(e->b)); break;
  case K_ITE: r = Z3_mk_ite(ctx, boolOf(e->a), boolOf(e->b), boolOf(e->c)); break;
  case K_FOEQ: case K_FOLT: case K_FOLE: case K_FUNO:
    if (!g_fpUF) {
      Z3_ast x = fpOf(e->a), y = fpOf(e->b);
      if (e->k == K_FOEQ) r = Z3_mk_fpa_eq(ctx, x, y); else if (e->k == K_FOLT) r = Z3_mk_fpa_lt(ctx, x, y); else if (e->k == K_FOLE) r = Z3_mk_fpa_leq(ctx, x, y);
      else { t[0] = Z3_mk_fpa_is_nan(ctx, x); t[1] = Z3_mk_fpa_is_nan(ctx, y); r = Z3_mk_or(ctx, 2, t); }
      break;
    } // fallthrough
  default: r = Z3_mk_eq(ctx, bvOf(e), mkNum(1, 1));
  }
  boolMemo[e] = keep(r); return r;
}
static Z3_ast bvOf1(E e) {
  switch (e->k) {
  case K_CONST: return mkNum(e->val, e->w);
  case K_SYM: return Z3_mk_const(ctx, Z3_mk_int_symbol(ctx, e->aux), bvs(e->w));
  case K_UF: {
    if (ufDecl.size() <= e->aux) ufDecl.resize(e->aux + 1, nullptr);
    std::vector<Z3_ast> as; for (E x : e->args) as.push_back(bvOf(x));
    if (!ufDecl[e->aux]) { std::vector<Z3_sort> ss; for (E x : e->args) ss.push_back(bvs(x->w));
      ufDecl[e->aux] = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, ("uf!" + g_ufs[e->aux].name).c_str()), ss.size(), ss.data(), bvs(e->w)); }
    return Z3_mk_app(ctx, ufDecl[e->aux], as.size(), as.data()); }
  case K_ADD: return Z3_mk_bvadd(ctx, bvOf(e->a), bvOf(e->b));
  case K_SUB: return Z3_mk_bvsub(ctx, bvOf(e->a), bvOf(e->b));
  case K_MUL: return Z3_mk_bvmul(ctx, bvOf(e->a), bvOf(e->b));
  case K_UDIV: return Z3_mk_bvudiv(ctx, bvOf(e->a), bvOf(e->b));
  case K_SDIV: return Z3_mk_bvsdiv(ctx, bvOf(e->a), bvOf(e->b));
  case K_UREM: return Z3_mk_bvurem(ctx, bvOf(e->a), bvOf(e->b));
  case K_SREM: return Z3_mk_bvsrem(ctx, bvOf(e->a), bvOf(e->b));
  case K_AND: if (e->w == 1) break; return Z3_mk_bvand(ctx, bvOf(e->a), bvOf(e->b));
  case K_OR: if (e->w == 1) break; return Z3_mk_bvor(ctx, bvOf(e->a), bvOf(e->b));
  case K_XOR: if (e->w == 1) break; return Z3_mk_bvxor(ctx, bvOf(e->a), bvOf(e->b));
  case K_SHL: return Z3_mk_bvshl(ctx, bvOf(e->a), bvOf(e->b));
  case K_LSHR: return Z3_mk_bvlshr(ctx, bvOf(e->a), bvOf(e->b));
  case K_ASHR: return Z3_mk_bvashr(ctx, bvOf(e->a), bvOf(e->b));
  case K_ITE: if (e->w == 1) break; return Z3_mk_ite(ctx, boolOf(e->a), bvOf(e->b), bvOf(e->c));
  case K_CONCAT: return Z3_mk_concat(ctx, bvOf(e->a), bvOf(e->b));
  case K_EXTRACT: return Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bvOf(e->a));
  case K_ZEXT: return Z3_mk_zero_ext(ctx, e->w - e->a->w, bvOf(e->a));
  case K_SEXT: return Z3_mk_sign_ext(ctx, e->w - e->a->w, bvOf(e->a));
  case K_FOEQ: case K_FOLT: case K_FOLE: case K_FUNO: if (g_fpUF) return fpufApp(e); break;
  case K_FPTOSI: case K_FPTOUI: {
    if (g_fpUF) return fpufApp(e);
    Z3_ast x = fpOf(e->a); Z3_sort s = fps(e->a->w);
    if (e->k == K_FPTOSI) {
      double lim = 1; for (unsigned i = 0; i + 1 < e->w; i++) lim *= 2;
      // in range: -lim-1 < trunc(x) < lim  <=>  rtz(x) in [-lim, lim-1]
      Z3_ast rt = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), x);
      Z3_ast lo = Z3_mk_fpa_leq(ctx, Z3_mk_fpa_numeral_double(ctx, -lim, s), rt), hi = Z3_mk_fpa_lt(ctx, rt, Z3_mk_fpa_numeral_double(ctx, lim, s));
      Z3_ast both[2] = {lo, hi};
      Z3_ast bad; 
      if (e->w < 32) { // narrow target: cvttss2si to 32 bits then truncate
        Z3_ast lo2 = Z3_mk_fpa_leq(ctx, Z3_mk_fpa_numeral_double(ctx, -2147483648.0, s), rt), hi2 = Z3_mk_fpa_lt(ctx, rt, Z3_mk_fpa_numeral_double(ctx, 2147483648.0, s)); Z3_ast b2[2] = {lo2, hi2};
        bad = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, b2), Z3_mk_extract(ctx, e->w - 1, 0, Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, 32)), mkNum(0, e->w));
        return bad;
      }
      bad = mkNum((u128)1 << (e->w - 1), e->w);
      return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, both), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, e->w), bad);
    }
    if (e->w <= 32) { // via 64-bit signed conversion, truncated
      double lim = 9223372036854775808.0;
      Z3_ast rt = Z3_mk_fpa_round_to_integral(ctx, Z3_mk_fpa_rtz(ctx), x);
      Z3_ast b2[2] = {Z3_mk_fpa_leq(ctx, Z3_mk_fpa_numeral_double(ctx, -lim, s), rt), Z3_mk_fpa_lt(ctx, rt, Z3_mk_fpa_numeral_double(ctx, lim, s))};
      return Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, b2), Z3_mk_extract(ctx, e->w - 1, 0, Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, 64)), mkNum(0, e->w));
    }
    return Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), x, e->w); }
  default: break;
  }
  if (isFpOp(e->k)) { if (g_fpUF) return fpufApp(e); return Z3_mk_fpa_to_ieee_bv(ctx, fpOf(e)); }
  if (e->w == 1) return b2v(boolOf(e));
  fprintf(stderr, "bvOf: unhandled kind %d\n", e->k); abort();
}
static Z3_ast bvOf(E root) {
  if (root->z3bv) return (Z3_ast)root->z3bv;
  // pre-translate children iteratively to keep recursion shallow
  std::vector<std::pair<E, bool>> st{{root, false}};
  while (!st.empty()) {
    auto [x, done] = st.back(); st.pop_back();
    if (x->z3bv) continue;
    if (done || (x->k == K_SYM) || (x->k == K_CONST)) { if (!x->z3bv) x->z3bv = keep(bvOf1(x)); continue; }
    if (x->w == 1) { if (root == x) { x->z3bv = keep(bvOf1(x)); } continue; }
    st.push_back({x, true});
    for (E y : {x->a, x->b, x->c}) if (y && !y->z3bv && y->w > 1 && !(isFpOp(x->k) && !g_fpUF)) st.push_back({y, false});
    for (E y : x->args) if (!y->z3bv) st.push_back({y, false});
  }
  return (Z3_ast)root->z3bv;
}

struct VecHash { size_t operator()(const std::vector<uint32_t>& v) const { size_t h = 14695981039346656037ull; for (auto x : v) h = (h ^ x) * 1099511628211ull; return h; } };
struct CacheEnt { Res r; std::vector<std::pair<uint32_t, u128>> vals; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> cache;

static bool hasFp(E e) {
  static std::unordered_map<E, bool> memo; std::vector<E> st{e};
  std::unordered_set<E> seen; 
  auto it = memo.find(e); if (it != memo.end()) return it->second;
  bool r = false;
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue; auto m = memo.find(x); if (m != memo.end()) { if (m->second) { r = true; break; } continue; }
    if (x->k >= K_FADD || x->k == K_UF) { r = true; break; }
    for (E y : {x->a, x->b, x->c}) if (y) st.push_back(y); }
  memo[e] = r; return r;
}
static void collectLeaves(const std::vector<E>& es, std::vector<E>& leaves) {
  std::unordered_set<E> seen; std::vector<E> st(es.begin(), es.end());
  while (!st.empty()) { E x = st.back(); st.pop_back(); if (!seen.insert(x).second) continue;
    if (x->k == K_SYM || x->k == K_UF) leaves.push_back(x);
    for (E y : {x->a, x->b, x->c}) if (y && !y->isConst()) st.push_back(y); for (E y : x->args) if (!y->isConst()) st.push_back(y); }
}
static std::vector<E> slice(const std::vector<E>& cs, E cond) {
  std::vector<E> out; std::vector<char> used(cs.size(), 0);
  std::unordered_set<uint32_t> syms(symsOf(cond)->begin(), symsOf(cond)->end());
  bool fpLinked = g_fpUF && hasFp(cond);
  bool changed = true;
  while (changed) { changed = false;
    for (size_t i = 0; i < cs.size(); i++) if (!used[i]) {
      bool hit = false; for (uint32_t s : *symsOf(cs[i])) if (syms.count(s)) { hit = true; break; }
      if (!hit && fpLinked && hasFp(cs[i])) hit = true;
      if (hit) { used[i] = 1; changed = true; out.push_back(cs[i]); for (uint32_t s : *symsOf(cs[i])) syms.insert(s); if (g_fpUF && hasFp(cs[i])) fpLinked = true; } } }
  return out;
}
volatile int g_stop = 0;
static Z3_solver quickS = nullptr;
static Z3_solver mkSolver(bool fp) {
  Z3_solver s;
  if (!fp) { s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")); }
  else s = g_fpUF ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_UFBV")) : Z3_mk_solver(ctx);
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), g_queryTimeoutMs);
  Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  return s;
}
Res checkSat(const std::vector<E>& constraints, E cond, const Model& base, Model& out) {
  init();
  if (cond->isFalse()) return UNSAT;
  if (g_stop) return UNKNOWN;
  std::vector<E> cs = slice(constraints, cond);
  if (!cond->isConst()) cs.push_back(cond);
  std::vector<uint32_t> key; for (E c : cs) key.push_back(c->id); std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = cache.find(key);
  if (it != cache.end()) { g_sstats.cacheHits++; if (it->second.r == SAT) { out = base; for (auto& p : it->second.vals) out.v[p.first] = p.second; } return it->second.r; }
  bool fp = false; for (E c : cs) if (hasFp(c)) { fp = true; break; }
  g_sstats.queries++;
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = nullptr; Z3_lbool r = Z3_L_UNDEF; bool quick = false;
  if (!fp && cs.size() < 400) { // a persistent incremental solver answers the many small queries; hard ones go to a fresh one
    static unsigned uses = 0;
    if (quickS && ++uses > 20000) { Z3_solver_dec_ref(ctx, quickS); quickS = nullptr; uses = 0; }
    if (!quickS) { quickS = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, quickS); Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p); Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 300); Z3_solver_set_params(ctx, quickS, p); Z3_params_dec_ref(ctx, p); }
    Z3_solver_push(ctx, quickS); for (E c : cs) Z3_solver_assert(ctx, quickS, boolOf(c));
    r = Z3_solver_check(ctx, quickS); quick = r != Z3_L_UNDEF; s = quickS;
    if (!quick) { Z3_solver_pop(ctx, quickS, 1); Z3_solver_dec_ref(ctx, quickS); quickS = nullptr; }
  }
  if (!quick) {
    s = mkSolver(fp);
    for (E c : cs) Z3_solver_assert(ctx, s, boolOf(c));
    r = Z3_solver_check(ctx, s);
  }
  CacheEnt ent;
  if (r == Z3_L_TRUE) {
    ent.r = SAT; g_sstats.sat++;
    Z3_model m = Z3_solver_get_model(ctx, s); Z3_model_inc_ref(ctx, m);
    std::vector<E> leaves; collectLeaves(cs, leaves);
    for (E l : leaves) {
      u128 v = 0;
      auto getBits = [&](Z3_ast a) -> uint64_t { Z3_ast ev; if (!Z3_model_eval(ctx, m, a, true, &ev)) return 0; uint64_t u = 0; Z3_get_numeral_uint64(ctx, ev, &u); return u; };
      Z3_ast a = bvOf(l);
      if (l->w <= 64) v = getBits(a); else { Z3_ast hi = keep(Z3_mk_extract(ctx, l->w - 1, 64, a)), lo = keep(Z3_mk_extract(ctx, 63, 0, a)); v = ((u128)getBits(hi) << 64) | getBits(lo); }
      ent.vals.push_back({l->id, v});
    }
    Z3_model_dec_ref(ctx, m);
    out = base; for (auto& p : ent.vals) out.v[p.first] = p.second;
  } else if (r == Z3_L_FALSE) { ent.r = UNSAT; g_sstats.unsat++; }
  else { ent.r = UNKNOWN; g_sstats.unknown++; }
  if (quick) Z3_solver_pop(ctx, quickS, 1); else Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  g_sstats.time += dt; if (dt > g_sstats.maxTime) g_sstats.maxTime = dt;
  if (getenv("CLSYM_SLOW") && dt > atof(getenv("CLSYM_SLOW"))) { static int n = 0; char b[64]; snprintf(b, 64, "/tmp/slow%d.smt2", n++); fprintf(stderr, "slow query %.2fs -> %s\n", dt, b); dumpSmt(cs, b); }
  cache[key] = ent;
  return ent.r;
}
void dumpSmt(const std::vector<E>& cs, const std::string& path) {
  init(); Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s); for (E c : cs) Z3_solver_assert(ctx, s, boolOf(c));
  FILE* f = fopen(path.c_str(), "w"); if (f) { fprintf(f, "%s(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(f); } Z3_solver_dec_ref(ctx, s);
}
