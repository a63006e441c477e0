#include "expr.h"
#include <cmath>
#include <cstring>
#include <algorithm>
#include <sstream>
#include <deque>

std::vector<SymInfo> g_syms;
std::vector<UFInfo> g_ufs;
uint64_t g_exprCount = 0;
static std::unordered_map<std::string, uint32_t> ufIds;

struct EHash { size_t operator()(E e) const {
  size_t h = e->k * 0x9e3779b97f4a7c15ull + e->w * 1315423911u + e->aux * 2654435761u;
  h ^= (size_t)e->val * 0x9E3779B1u + (size_t)(e->val >> 64);
  h = (h ^ (size_t)e->a) * 0xff51afd7ed558ccdull; h ^= h >> 31;
  h = (h ^ (size_t)e->b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
  h = (h ^ (size_t)e->c) * 0xff51afd7ed558ccdull; h ^= h >> 33;
  for (E x : e->args) h = (h ^ (size_t)x) * 0x9e3779b97f4a7c15ull;
  return h; } };
struct EEq { bool operator()(E x, E y) const {
  return x->k == y->k && x->w == y->w && x->aux == y->aux && x->val == y->val && x->a == y->a && x->b == y->b && x->c == y->c && x->args == y->args; } };
static std::unordered_set<E, EHash, EEq> table;
static std::deque<Expr> arena;

static E intern(Expr&& t) {
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = (uint32_t)g_exprCount++;
  arena.push_back(std::move(t));
  E e = &arena.back(); table.insert(e); return e;
}
static E raw(Kind k, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
  Expr t; t.k = k; t.w = w; t.id = 0; t.aux = aux; t.val = 0; t.a = a; t.b = b; t.c = c; return intern(std::move(t));
}
E mkConst(u128 v, unsigned w) {
  static std::vector<std::vector<E>> small(129);
  v &= maskOf(w);
  if (w <= 128 && v < 512) {
    auto& s = small[w]; if (s.empty()) s.assign(512, nullptr);
    if (s[(size_t)v]) return s[(size_t)v];
    Expr t; t.k = K_CONST; t.w = w; t.aux = 0; t.val = v; t.a = t.b = t.c = nullptr;
    return s[(size_t)v] = intern(std::move(t));
  }
  Expr t; t.k = K_CONST; t.w = w; t.aux = 0; t.val = v; t.a = t.b = t.c = nullptr; return intern(std::move(t));
}
E mkSym(const std::string& name, unsigned w, bool uninit) {
  uint32_t id = g_syms.size(); g_syms.push_back({name, w, uninit});
  return raw(K_SYM, w, nullptr, nullptr, nullptr, id);
}
E mkUF(const std::string& name, unsigned w, const std::vector<E>& args) {
  std::string key = name; key += "/" + std::to_string(w); for (E a : args) key += "," + std::to_string(a->w);
  auto it = ufIds.find(key); uint32_t id;
  if (it == ufIds.end()) { id = g_ufs.size(); g_ufs.push_back({key}); ufIds[key] = id; } else id = it->second;
  Expr t; t.k = K_UF; t.w = w; t.aux = id; t.val = 0; t.a = t.b = t.c = nullptr; t.args = args; return intern(std::move(t));
}

static double asD(u128 v) { uint64_t x = (uint64_t)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

bool foldOp(Kind k, unsigned w, unsigned aw, unsigned aux, u128 a, u128 b, u128 c, u128& out) {
  u128 m = maskOf(w);
  switch (k) {
  case K_ADD: out = (a + b) & m; return true;
  case K_SUB: out = (a - b) & m; return true;
  case K_MUL: out = (a * b) & m; return true;
  case K_UDIV: out = b ? a / b : m; return true;
  case K_UREM: out = b ? a % b : a; return true;
  case K_SDIV: { s128 x = sx(a, w), y = sx(b, w); if (!y) out = x < 0 ? 1 : m; else if (y == -1) out = (u128)(-x) & m; else out = (u128)(x / y) & m; return true; }
  case K_SREM: { s128 x = sx(a, w), y = sx(b, w); if (!y) out = a; else if (y == -1) out = 0; else out = (u128)(x % y) & m; return true; }
  case K_AND: out = a & b; return true;
  case K_OR: out = a | b; return true;
  case K_XOR: out = a ^ b; return true;
  case K_SHL: out = b >= w ? 0 : (a << (unsigned)b) & m; return true;
  case K_LSHR: out = b >= w ? 0 : a >> (unsigned)b; return true;
  case K_ASHR: { s128 x = sx(a, w); out = (u128)(b >= w ? (x < 0 ? -1 : 0) : (x >> (unsigned)b)) & m; return true; }
  case K_EQ: out = a == b; return true;
  case K_ULT: out = a < b; return true;
  case K_ULE: out = a <= b; return true;
  case K_SLT: out = sx(a, aw) < sx(b, aw); return true;
  case K_SLE: out = sx(a, aw) <= sx(b, aw); return true;
  case K_ITE: out = a ? b : c; return true;
  case K_CONCAT: { out = 0; return false; }
  case K_EXTRACT: out = (a >> aux) & m; return true;
  case K_ZEXT: out = a; return true;
  case K_SEXT: out = (u128)sx(a, aw) & m; return true;
  case K_FADD: out = w == 32 ? fromF(asF(a) + asF(b)) : fromD(asD(a) + asD(b)); return true;
  case K_FSUB: out = w == 32 ? fromF(asF(a) - asF(b)) : fromD(asD(a) - asD(b)); return true;
  case K_FMUL: out = w == 32 ? fromF(asF(a) * asF(b)) : fromD(asD(a) * asD(b)); return true;
  case K_FDIV: out = w == 32 ? fromF(asF(a) / asF(b)) : fromD(asD(a) / asD(b)); return true;
  case K_FREM: out = w == 32 ? fromF(fmodf(asF(a), asF(b))) : fromD(fmod(asD(a), asD(b))); return true;
  case K_FSQRT: out = w == 32 ? fromF(sqrtf(asF(a))) : fromD(sqrt(asD(a))); return true;
  case K_FMA: out = w == 32 ? fromF(fmaf(asF(a), asF(b), asF(c))) : fromD(fma(asD(a), asD(b), asD(c))); return true;
  case K_FOEQ: out = aw == 32 ? asF(a) == asF(b) : asD(a) == asD(b); return true;
  case K_FOLT: out = aw == 32 ? asF(a) < asF(b) : asD(a) < asD(b); return true;
  case K_FOLE: out = aw == 32 ? asF(a) <= asF(b) : asD(a) <= asD(b); return true;
  case K_FUNO: out = aw == 32 ? (std::isnan(asF(a)) || std::isnan(asF(b))) : (std::isnan(asD(a)) || std::isnan(asD(b))); return true;
  case K_FPTOSI: { double d = aw == 32 ? asF(a) : asD(a);
      double lim = std::ldexp(1.0, w - 1);
      if (!(d > -lim - 1 && d < lim)) { // out of range: what cvttss2si gives
        unsigned ww = w <= 32 ? 32 : 64; if (w < 32 && d > -2147483649.0 && d < 2147483648.0) { out = (u128)(s128)(int32_t)d & m; return true; }
        out = ((u128)1 << (ww - 1)) & m; return true; }
      out = (u128)(s128)(int64_t)d & m; return true; }
  case K_FPTOUI: { double d = aw == 32 ? asF(a) : asD(a);
      if (!(d > -1.0 && d < std::ldexp(1.0, w))) {
        if (w <= 32) { if (d > -9.3e18 && d < 9.2e18) { out = (u128)(s128)(int64_t)d & m; return true; } out = 0; return true; }
        out = ((u128)1 << 63) & m; return true; }
      out = (u128)(uint64_t)d & m; return true; }
  case K_SITOFP: { s128 x = sx(a, aw); out = w == 32 ? fromF((float)(int64_t)x) : fromD((double)(int64_t)x); return true; }
  case K_UITOFP: out = w == 32 ? fromF((float)(uint64_t)a) : fromD((double)(uint64_t)a); return true;
  case K_FPEXT: out = fromD((double)asF(a)); return true;
  case K_FPTRUNC: out = fromF((float)asD(a)); return true;
  case K_FRINT: { double d = w == 32 ? asF(a) : asD(a), r = d;
      switch (aux) { case 0: r = std::nearbyint(d); break; case 1: r = std::floor(d); break; case 2: r = std::ceil(d); break; case 3: r = std::trunc(d); break; case 4: r = std::round(d); break; }
      out = w == 32 ? fromF((float)r) : fromD(r); return true; }
  default: return false;
  }
}

static bool isCommutative(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ || k == K_FADD || k == K_FMUL || k == K_FOEQ || k == K_FUNO; }
static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static bool isPow2(u128 v) { return v && !(v & (v - 1)); }
static unsigned log2u(u128 v) { unsigned n = 0; while (v >>= 1) n++; return n; }

unsigned trailingZeros(E e) {
  if (e->tz != 0xffffffff) return e->tz;
  unsigned r = 0;
  switch (e->k) {
  case K_CONST: if (e->val == 0) r = e->w; else { u128 v = e->val; while (!(v & 1)) { r++; v >>= 1; } } break;
  case K_ADD: case K_SUB: case K_OR: case K_XOR: r = std::min(trailingZeros(e->a), trailingZeros(e->b)); break;
  case K_AND: r = std::max(trailingZeros(e->a), trailingZeros(e->b)); break;
  case K_MUL: r = std::min<unsigned>(e->w, trailingZeros(e->a) + trailingZeros(e->b)); break;
  case K_SHL: r = e->b->isConst() ? (unsigned)std::min<u128>(e->w, trailingZeros(e->a) + e->b->val) : trailingZeros(e->a); break;
  case K_ITE: r = std::min(trailingZeros(e->b), trailingZeros(e->c)); break;
  case K_ZEXT: case K_SEXT: r = trailingZeros(e->a); if (r == e->a->w) r = e->w; break;
  case K_CONCAT: r = trailingZeros(e->b); if (r == e->b->w) r += trailingZeros(e->a); break;
  case K_EXTRACT: { unsigned t = trailingZeros(e->a); r = t > e->aux ? std::min<unsigned>(e->w, t - e->aux) : 0; break; }
  default: r = 0;
  }
  if (r > e->w) r = e->w;
  e->tz = r; return r;
}

// upper bound of the value (cheap interval)
static u128 umax(E e, int d = 4) {
  if (e->isConst()) return e->val;
  if (d == 0) return maskOf(e->w);
  switch (e->k) {
  case K_ZEXT: return umax(e->a, d - 1);
  case K_AND: return std::min(umax(e->a, d - 1), umax(e->b, d - 1));
  case K_ITE: return std::max(umax(e->b, d - 1), umax(e->c, d - 1));
  case K_UREM: if (e->b->isConst() && e->b->val) return std::min(umax(e->a, d - 1), e->b->val - 1); return umax(e->a, d - 1);
  case K_UDIV: if (e->b->isConst() && e->b->val) return umax(e->a, d - 1) / e->b->val; return maskOf(e->w);
  case K_LSHR: if (e->b->isConst()) return e->b->val >= e->w ? 0 : umax(e->a, d - 1) >> (unsigned)e->b->val; return umax(e->a, d - 1);
  case K_ADD: { u128 x = umax(e->a, d - 1), y = umax(e->b, d - 1); if (e->w < 128 && x + y <= maskOf(e->w)) return x + y; return maskOf(e->w); }
  case K_MUL: { u128 x = umax(e->a, d - 1), y = umax(e->b, d - 1); if (e->w <= 64 && x <= 0xffffffffffffffffull && y <= 0xffffffffffffffffull && x * y <= maskOf(e->w)) return x * y; return maskOf(e->w); }
  case K_SHL: if (e->b->isConst() && e->b->val < e->w && e->w <= 64) { u128 x = umax(e->a, d - 1) << (unsigned)e->b->val; if (x <= maskOf(e->w)) return x; } return maskOf(e->w);
  default: return maskOf(e->w);
  }
}

E mkNot(E a) { return mkBin(K_XOR, a, mkConst(maskOf(a->w), a->w)); }
static bool isNot(E e, E& x) { if (e->k == K_XOR && e->b->isConst() && e->b->val == maskOf(e->w)) { x = e->a; return true; } return false; }

E mkIte(E c, E t, E f) {
  if (c->isConst()) return c->val ? t : f;
  if (t == f) return t;
  E x; if (isNot(c, x)) return mkIte(x, f, t);
  if (t->w == 1) {
    if (t->isTrue() && f->isFalse()) return c;
    if (t->isFalse() && f->isTrue()) return mkNot(c);
    if (t->isTrue()) return mkOr(c, f);
    if (f->isFalse()) return mkAnd(c, t);
    if (t->isFalse()) return mkAnd(mkNot(c), f);
    if (f->isTrue()) return mkOr(mkNot(c), t);
  }
  if (t->k == K_ITE && t->a == c) t = t->b;
  if (f->k == K_ITE && f->a == c) f = f->c;
  if (t == f) return t;
  if (f->k == K_ITE && f->b == t) return mkIte(mkOr(c, f->a), t, f->c);
  return raw(K_ITE, t->w, c, t, f);
}

E mkZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst(a->val, w);
  if (a->k == K_ZEXT) return mkZExt(a->a, w);
  if (a->k == K_ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkZExt(a->b, w), mkZExt(a->c, w));
  return raw(K_ZEXT, w, a);
}
E mkSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((u128)sx(a->val, a->w), w);
  if (a->k == K_SEXT) return mkSExt(a->a, w);
  if (a->k == K_ZEXT && a->a->w < a->w) return mkZExt(a->a, w);
  if (a->k == K_ITE && (a->b->isConst() || a->c->isConst())) return mkIte(a->a, mkSExt(a->b, w), mkSExt(a->c, w));
  return raw(K_SEXT, w, a);
}
E mkExtract(E a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (a->isConst()) return mkConst(a->val >> off, w);
  switch (a->k) {
  case K_EXTRACT: return mkExtract(a->a, off + a->aux, w);
  case K_CONCAT:
    if (off + w <= a->b->w) return mkExtract(a->b, off, w);
    if (off >= a->b->w) return mkExtract(a->a, off - a->b->w, w);
    return mkConcat(mkExtract(a->a, 0, off + w - a->b->w), mkExtract(a->b, off, a->b->w - off));
  case K_ZEXT:
    if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    if (off >= a->a->w) return mkConst(0, w);
    return mkZExt(mkExtract(a->a, off, a->a->w - off), w);
  case K_SEXT:
    if (off + w <= a->a->w) return mkExtract(a->a, off, w);
    break;
  case K_ITE:
    if (a->b->isConst() || a->c->isConst() || a->b->k == K_CONCAT || a->c->k == K_CONCAT || a->b->k == K_ZEXT || a->c->k == K_ZEXT)
      return mkIte(a->a, mkExtract(a->b, off, w), mkExtract(a->c, off, w));
    break;
  case K_AND: case K_OR: case K_XOR:
    return mkBin(a->k, mkExtract(a->a, off, w), mkExtract(a->b, off, w));
  case K_ADD: case K_SUB: case K_MUL:
    if (off == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case K_SHL:
    if (a->b->isConst()) { unsigned s = (unsigned)a->b->val;
      if (off >= s) return mkExtract(a->a, off - s, w);
      if (off + w <= s) return mkConst(0, w);
      return mkConcat(mkExtract(a->a, 0, off + w - s), mkConst(0, s - off)); }
    break;
  case K_LSHR:
    if (a->b->isConst()) { unsigned s = (unsigned)a->b->val;
      if (off + s + w <= a->w) return mkExtract(a->a, off + s, w);
      if (off + s >= a->w) return mkConst(0, w);
      return mkZExt(mkExtract(a->a, off + s, a->w - off - s), w); }
    break;
  default: break;
  }
  return raw(K_EXTRACT, w, a, nullptr, nullptr, off);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst()) return mkConst((hi->val << lo->w) | lo->val, w);
  if (hi->isConst() && hi->val == 0) return mkZExt(lo, w);
  if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w) return mkExtract(hi->a, lo->aux, w);
  if (hi->k == K_EXTRACT && hi->a == lo && hi->aux == lo->w && hi->aux + hi->w == 0) return lo;
  // concat(extract(x,k..), zext?) patterns: ((hi:extract x) ++ (mid:extract x)) ++ lo
  if (hi->k == K_CONCAT && lo->k == K_EXTRACT && hi->b->k == K_EXTRACT && hi->b->a == lo->a && hi->b->aux == lo->aux + lo->w)
    return mkConcat(hi->a, mkExtract(lo->a, lo->aux, hi->b->w + lo->w));
  if (hi->k == K_ITE && lo->k == K_ITE && hi->a == lo->a) return mkIte(hi->a, mkConcat(hi->b, lo->b), mkConcat(hi->c, lo->c));
  if (hi->k == K_ZEXT && hi->a->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a->a == lo->a && hi->a->aux == lo->aux + lo->w)
    return mkZExt(mkExtract(lo->a, lo->aux, hi->a->w + lo->w), w);
  if (hi->k == K_ZEXT) return mkZExt(mkConcat(hi->a, lo), w);
  return raw(K_CONCAT, w, hi, lo);
}

E mkBin(Kind k, E a, E b) {
  unsigned w = isCmp(k) ? 1 : a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch kind %d: %u vs %u\n", k, a->w, b->w); abort(); }
  if (a->isConst() && b->isConst()) { u128 r; foldOp(k, w, a->w, 0, a->val, b->val, 0, r); return mkConst(r, w); }
  if (isCommutative(k)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
  u128 M = maskOf(a->w);
  auto constIte = [](E e) { return e->k == K_ITE && e->b->isConst() && e->c->isConst(); };
  switch (k) {
  case K_ADD:
    if (b->isConst()) {
      if (b->val == 0) return a;
      if (a->k == K_ADD && a->b->isConst()) return mkAdd(a->a, mkConst(a->b->val + b->val, w));
      if (a->k == K_SUB && a->a->isConst()) return mkSub(mkConst(a->a->val + b->val, w), a->b);
      if (constIte(a)) return mkIte(a->a, mkAdd(a->b, b), mkAdd(a->c, b));
    } else {
      if (w == 1) return mkBin(K_XOR, a, b);
      if (a->k == K_ADD && a->b->isConst()) return mkAdd(mkAdd(a->a, b), a->b);
      if (b->k == K_ADD && b->b->isConst()) return mkAdd(mkAdd(a, b->a), b->b);
      if (b->k == K_SUB && b->b == a) return b->a;
      if (a->k == K_SUB && a->b == b) return a->a;
    }
    break;
  case K_SUB:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) return mkAdd(a, mkConst(-b->val, w));
    if (w == 1) return mkBin(K_XOR, a, b);
    if (a->k == K_ADD && a->b->isConst()) { return mkAdd(mkSub(a->a, b), a->b); }
    if (b->k == K_ADD && b->b->isConst()) { return mkAdd(mkSub(a, b->a), mkConst(-b->b->val, w)); }
    if (a->k == K_ADD) { if (a->a == b) return a->b; if (a->b == b) return a->a; }
    if (b->k == K_ADD) { if (b->a == a) return mkSub(mkConst(0, w), b->b); if (b->b == a) return mkSub(mkConst(0, w), b->a); }
    if (b->k == K_SUB && b->a == a) return b->b;
    if (constIte(b) && a->isConst()) return mkIte(b->a, mkSub(a, b->b), mkSub(a, b->c));
    break;
  case K_MUL:
    if (b->isConst()) {
      if (b->val == 0) return b; if (b->val == 1) return a;
      if (isPow2(b->val)) return mkBin(K_SHL, a, mkConst(log2u(b->val), w));
      if (a->k == K_MUL && a->b->isConst()) return mkMul(a->a, mkConst(a->b->val * b->val, w));
      if (a->k == K_ADD && a->b->isConst()) return mkAdd(mkMul(a->a, b), mkConst(a->b->val * b->val, w));
      if (constIte(a)) return mkIte(a->a, mkMul(a->b, b), mkMul(a->c, b));
    }
    break;
  case K_UDIV:
    if (b->isConst()) {
      if (b->val == 1) return a;
      if (isPow2(b->val)) return mkBin(K_LSHR, a, mkConst(log2u(b->val), w));
      if (b->val && umax(a) < b->val) return mkConst(0, w);
    }
    break;
  case K_UREM:
    if (b->isConst()) {
      if (b->val == 1) return mkConst(0, w);
      if (isPow2(b->val)) return mkAnd(a, mkConst(b->val - 1, w));
      if (b->val && umax(a) < b->val) return a;
      if (constIte(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    }
    break;
  case K_SDIV: if (b->isConst() && b->val == 1) return a; break;
  case K_SREM: break;
  case K_AND:
    if (a == b) return a;
    if (b->isConst()) {
      if (b->val == 0) return b; if (b->val == M) return a;
      if (a->k == K_AND && a->b->isConst()) return mkAnd(a->a, mkConst(a->b->val & b->val, w));
      if (constIte(a)) return mkIte(a->a, mkAnd(a->b, b), mkAnd(a->c, b));
      // low mask -> zext(extract)
      if (((b->val + 1) & b->val) == 0) return mkZExt(mkExtract(a, 0, log2u(b->val + 1)), w);
      // contiguous mask x & (ones << s)
      { unsigned s = trailingZeros(b); u128 t = b->val >> s; if (s && ((t + 1) & t) == 0) { unsigned n = log2u(t + 1); if (t == maskOf(w)) n = w; 
          E mid = mkConcat(mkExtract(a, s, n), mkConst(0, s)); return mkZExt(mid, w); } }
    }
    if (w == 1) { E x; if (isNot(a, x) && x == b) return mkConst(0, 1); if (isNot(b, x) && x == a) return mkConst(0, 1);
      if (a->k == K_AND && (a->a == b || a->b == b)) return a; if (b->k == K_AND && (b->a == a || b->b == a)) return b;
      if (a->k == K_OR && (a->a == b || a->b == b)) return b; if (b->k == K_OR && (b->a == a || b->b == a)) return a; }
    break;
  case K_OR:
    if (a == b) return a;
    if (b->isConst()) { if (b->val == 0) return a; if (b->val == M) return b;
      if (a->k == K_OR && a->b->isConst()) return mkOr(a->a, mkConst(a->b->val | b->val, w));
      if (constIte(a)) return mkIte(a->a, mkOr(a->b, b), mkOr(a->c, b)); }
    if (w == 1) { E x; if (isNot(a, x) && x == b) return mkConst(1, 1); if (isNot(b, x) && x == a) return mkConst(1, 1); }
    // disjoint shifted pieces: concat(hi, 0s) | zext(lo)
    {
      auto asHi = [&](E e, unsigned& s) { s = trailingZeros(e); return s > 0 && s < e->w; };
      unsigned s;
      for (int i = 0; i < 2; i++) {
        E h = i ? b : a, l = i ? a : b;
        if (!h->isConst() && asHi(h, s) && l->k == K_ZEXT && l->a->w <= s) return mkConcat(mkExtract(h, s, w - s), mkExtract(l, 0, s));
      }
    }
    break;
  case K_XOR:
    if (a == b) return mkConst(0, w);
    if (b->isConst()) { if (b->val == 0) return a;
      if (a->k == K_XOR && a->b->isConst()) return mkBin(K_XOR, a->a, mkConst(a->b->val ^ b->val, w));
      if (constIte(a)) return mkIte(a->a, mkBin(K_XOR, a->b, b), mkBin(K_XOR, a->c, b));
      if (w == 1 && b->val == 1) {
        if (a->k == K_ULT) return mkUle(a->b, a->a);
        if (a->k == K_ULE) return mkUlt(a->b, a->a);
        if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
        if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
      } }
    if (a->k == K_XOR && (a->a == b)) return a->b;
    if (a->k == K_XOR && (a->b == b)) return a->a;
    if (b->k == K_XOR && (b->a == a)) return b->b;
    if (b->k == K_XOR && (b->b == a)) return b->a;
    break;
  case K_SHL:
    if (b->isConst()) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
      if (a->k == K_SHL && a->b->isConst()) return mkBin(K_SHL, a->a, mkConst(std::min<u128>(a->b->val + b->val, w), w));
      if (a->k == K_ADD && a->b->isConst()) return mkAdd(mkBin(K_SHL, a->a, b), mkConst(a->b->val << (unsigned)b->val, w));
      if (a->k == K_ZEXT || a->k == K_CONCAT || a->k == K_EXTRACT) { unsigned s = (unsigned)b->val; return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s)); }
      if (constIte(a)) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b)); }
    if (a->isConst() && a->val == 0) return a;
    break;
  case K_LSHR:
    if (b->isConst()) { if (b->val == 0) return a; if (b->val >= w) return mkConst(0, w);
      unsigned s = (unsigned)b->val; return mkZExt(mkExtract(a, s, w - s), w); }
    if (a->isConst() && a->val == 0) return a;
    break;
  case K_ASHR:
    if (b->isConst()) { if (b->val == 0) return a; unsigned s = (unsigned)std::min<u128>(b->val, w - 1); return mkSExt(mkExtract(a, s, w - s), w); }
    break;
  case K_EQ:
    if (a == b) return mkConst(1, 1);
    if (b->isConst()) {
      if (a->w == 1) return b->val ? a : mkNot(a);
      if (a->k == K_ZEXT) { if (b->val > maskOf(a->a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(b->val, a->a->w)); }
      if (a->k == K_SEXT) { u128 lo = b->val & maskOf(a->a->w); if (((u128)sx(lo, a->a->w) & maskOf(a->w)) != b->val) return mkConst(0, 1); return mkEq(a->a, mkConst(lo, a->a->w)); }
      if (a->k == K_ADD && a->b->isConst()) return mkEq(a->a, mkConst(b->val - a->b->val, a->w));
      if (a->k == K_SUB && a->a->isConst()) return mkEq(a->b, mkConst(a->a->val - b->val, a->w));
      if (a->k == K_XOR && a->b->isConst()) return mkEq(a->a, mkConst(b->val ^ a->b->val, a->w));
      if (a->k == K_CONCAT) { return mkAnd(mkEq(a->a, mkConst(b->val >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->val, a->b->w))); }
      if (a->k == K_ITE) {
        if (a->b->isConst()) return a->b->val == b->val ? mkOr(a->a, mkEq(a->c, b)) : mkAnd(mkNot(a->a), mkEq(a->c, b));
        if (a->c->isConst()) return a->c->val == b->val ? mkOr(mkNot(a->a), mkEq(a->b, b)) : mkAnd(a->a, mkEq(a->b, b));
      }
      if (a->k == K_SUB && b->val == 0) return mkEq(a->a, a->b);
      if (a->k == K_OR && b->val == 0) return mkAnd(mkEq(a->a, b), mkEq(a->b, b));
      if (umax(a) < b->val) return mkConst(0, 1);
    } else {
      if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned x = std::max(a->a->w, b->a->w); return mkEq(mkZExt(a->a, x), mkZExt(b->a, x)); }
      if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return mkAnd(mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->k == K_ADD && b->k == K_ADD) { if (a->a == b->a) return mkEq(a->b, b->b); if (a->b == b->b) return mkEq(a->a, b->a); }
      if (a->k == K_ADD && a->a == b) return mkEq(a->b, mkConst(0, a->w));
      if (a->k == K_ADD && a->b == b) return mkEq(a->a, mkConst(0, a->w));
      if (b->k == K_ADD && b->a == a) return mkEq(b->b, mkConst(0, a->w));
      if (b->k == K_ADD && b->b == a) return mkEq(b->a, mkConst(0, a->w));
      if (a->w == 1) return mkNot(mkBin(K_XOR, a, b));
    }
    break;
  case K_ULT:
    if (a == b) return mkConst(0, 1);
    if (b->isConst() && b->val == 0) return mkConst(0, 1);
    if (b->isConst() && b->val == 1) return mkEq(a, mkConst(0, a->w));
    if (a->isConst() && a->val == M) return mkConst(0, 1);
    if (b->isConst() && umax(a) < b->val) return mkConst(1, 1);
    if (a->isConst() && umax(b) <= a->val) return mkConst(0, 1);
    if (a->isConst() && a->val == 0) return mkNot(mkEq(b, a));
    if (a->k == K_ZEXT && b->isConst()) { return mkUlt(a->a, mkConst(b->val, a->a->w)); }
    if (b->k == K_ZEXT && a->isConst()) { return mkUlt(mkConst(a->val, b->a->w), b->a); }
    if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned x = std::max(a->a->w, b->a->w); return mkUlt(mkZExt(a->a, x), mkZExt(b->a, x)); }
    if (constIte(a) && b->isConst()) return mkIte(a->a, mkUlt(a->b, b), mkUlt(a->c, b));
    if (constIte(b) && a->isConst()) return mkIte(b->a, mkUlt(a, b->b), mkUlt(a, b->c));
    break;
  case K_ULE:
    if (a == b) return mkConst(1, 1);
    if (a->isConst() && a->val == 0) return mkConst(1, 1);
    if (b->isConst() && b->val == M) return mkConst(1, 1);
    if (b->isConst() && b->val == 0) return mkEq(a, b);
    if (b->isConst() && umax(a) <= b->val) return mkConst(1, 1);
    if (a->isConst() && umax(b) < a->val) return mkConst(0, 1);
    if (b->isConst()) return mkUlt(a, mkConst(b->val + 1, a->w));
    if (a->isConst()) return mkUlt(mkConst(a->val - 1, a->w), b);
    if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned x = std::max(a->a->w, b->a->w); return mkUle(mkZExt(a->a, x), mkZExt(b->a, x)); }
    break;
  case K_SLT:
    if (a == b) return mkConst(0, 1);
    if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned x = std::max(a->a->w, b->a->w); return mkUlt(mkZExt(a->a, x), mkZExt(b->a, x)); }
    if (a->k == K_ZEXT && b->isConst()) { s128 v = sx(b->val, b->w); if (v <= 0) return mkConst(0, 1); return mkUlt(a, b); }
    if (b->k == K_ZEXT && a->isConst()) { s128 v = sx(a->val, a->w); if (v < 0) return mkConst(1, 1); return mkUlt(a, b); }
    if (constIte(a) && b->isConst()) return mkIte(a->a, mkBin(k, a->b, b), mkBin(k, a->c, b));
    if (constIte(b) && a->isConst()) return mkIte(b->a, mkBin(k, a, b->b), mkBin(k, a, b->c));
    break;
  case K_SLE:
    if (a == b) return mkConst(1, 1);
    if (a->k == K_ZEXT && b->k == K_ZEXT) { unsigned x = std::max(a->a->w, b->a->w); return mkUle(mkZExt(a->a, x), mkZExt(b->a, x)); }
    if (a->k == K_ZEXT && b->isConst()) { s128 v = sx(b->val, b->w); if (v < 0) return mkConst(0, 1); return mkUle(a, b); }
    if (b->k == K_ZEXT && a->isConst()) { s128 v = sx(a->val, a->w); if (v <= 0) return mkConst(1, 1); return mkUle(a, b); }
    break;
  default: break;
  }
  return raw(k, w, a, b);
}

E mkFp(Kind k, E a, E b, E c, unsigned w, unsigned aux) {
  if (w == 0) w = a->w;
  if (k == K_FOEQ || k == K_FOLT || k == K_FOLE || k == K_FUNO) w = 1;
  if (a->isConst() && (!b || b->isConst()) && (!c || c->isConst())) {
    u128 r; if (foldOp(k, w, a->w, aux, a->val, b ? b->val : 0, c ? c->val : 0, r)) return mkConst(r, w);
  }
  if (isCommutative(k)) { if (a->isConst() || (!b->isConst() && a->id > b->id)) std::swap(a, b); }
  // x * 1.0 == x (quiet NaNs aside)
  if (k == K_FMUL && b->isConst() && b->val == (w == 32 ? (u128)0x3f800000u : (u128)0x3ff0000000000000ull)) return a;
  if (k == K_FPTRUNC && a->k == K_FPEXT) return a->a;
  return raw(k, w, a, b, c, aux);
}

static std::unordered_map<size_t, std::vector<const SymSet*>> symPool;
static const SymSet* internSet(SymSet&& s) {
  size_t h = 1469598103934665603ull; for (auto x : s) h = (h ^ x) * 1099511628211ull;
  auto& v = symPool[h]; for (auto p : v) if (*p == s) return p;
  auto* n = new SymSet(std::move(s)); v.push_back(n); return n;
}
static const SymSet* unite(const SymSet* a, const SymSet* b) {
  if (a == b || b->empty()) return a; if (a->empty()) return b;
  SymSet r; r.reserve(a->size() + b->size()); std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  if (r.size() == a->size()) return a; if (r.size() == b->size()) return b;
  return internSet(std::move(r));
}
const SymSet* symsOf(E e) {
  if (e->syms) return e->syms;
  // iterative for deep terms
  std::vector<E> st{e};
  static const SymSet* empty = internSet({});
  while (!st.empty()) {
    E x = st.back(); if (x->syms) { st.pop_back(); continue; }
    bool ready = true;
    auto need = [&](E y) { if (y && !y->syms) { st.push_back(y); ready = false; } };
    need(x->a); need(x->b); need(x->c); for (E y : x->args) need(y);
    if (!ready) continue;
    const SymSet* r = empty;
    if (x->k == K_SYM) r = internSet({x->aux});
    else if (x->k == K_UF) r = internSet({0x80000000u | x->aux});
    if (x->a) r = unite(r, x->a->syms); if (x->b) r = unite(r, x->b->syms); if (x->c) r = unite(r, x->c->syms);
    for (E y : x->args) r = unite(r, y->syms);
    x->syms = r; st.pop_back();
  }
  return e->syms;
}

static const char* kn[] = {"const","sym","uf","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","concat","extract","zext","sext","fadd","fsub","fmul","fdiv","frem","fsqrt","fma","foeq","folt","fole","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","frint"};
std::string toStr(E e, int d) {
  std::ostringstream o;
  if (e->isConst()) { o << (uint64_t)e->val << ":" << e->w; return o.str(); }
  if (e->k == K_SYM) { o << g_syms[e->aux].name << ":" << e->w; return o.str(); }
  if (d == 0) return "...";
  o << "(" << (e->k == K_UF ? g_ufs[e->aux].name : kn[e->k]);
  if (e->k == K_EXTRACT) o << "[" << e->aux << "+" << e->w << "]";
  for (E x : {e->a, e->b, e->c}) if (x) o << " " << toStr(x, d - 1);
  for (E x : e->args) o << " " << toStr(x, d - 1);
  o << ")"; return o.str();
}

std::optional<u128> evalModel(E root, const Model& m) {
  if (root->isConst()) return root->val;
  thread_local std::unordered_map<uint32_t, u128> memo; memo.clear();
  thread_local std::vector<E> st; st.clear(); st.push_back(root);
  auto get = [&](E x, u128& v) -> bool { if (x->isConst()) { v = x->val; return true; } auto it = memo.find(x->id); if (it == memo.end()) return false; v = it->second; return true; };
  while (!st.empty()) {
    E x = st.back(); u128 dummy;
    if (get(x, dummy)) { st.pop_back(); continue; }
    if (x->k == K_SYM) { auto it = m.v.find(x->id); memo[x->id] = it == m.v.end() ? 0 : it->second; st.pop_back(); continue; }
    if (x->k == K_UF) { auto it = m.v.find(x->id); if (it == m.v.end()) return std::nullopt; memo[x->id] = it->second; st.pop_back(); continue; }
    if (x->k == K_ITE) {
      u128 c; if (!get(x->a, c)) { st.push_back(x->a); continue; }
      E y = c ? x->b : x->c; u128 v; if (!get(y, v)) { st.push_back(y); continue; }
      memo[x->id] = v; st.pop_back(); continue;
    }
    u128 a = 0, b = 0, c = 0; bool ready = true;
    if (x->a && !get(x->a, a)) { st.push_back(x->a); ready = false; }
    if (x->b && !get(x->b, b)) { st.push_back(x->b); ready = false; }
    if (x->c && !get(x->c, c)) { st.push_back(x->c); ready = false; }
    if (!ready) continue;
    u128 r;
    if (x->k == K_CONCAT) r = (a << x->b->w) | b;
    else if (!foldOp(x->k, x->w, x->a->w, x->aux, a, b, c, r)) return std::nullopt;
    memo[x->id] = r & maskOf(x->w); st.pop_back();
  }
  u128 v; get(root, v); return v;
}
