#include "exec.h"
using namespace llvm;

static uint64_t alignUp(uint64_t a, uint64_t n) { return (a + n - 1) / n * n; }

Obj* Exec::newObj(State& s, uint64_t size, ObjKind k, uint64_t align, const std::string& name) {
  if (align < 16) align = 16;
  auto o = std::make_shared<Obj>();
  o->base = alignUp(s.nextAddr, align); o->size = size; o->kind = k; o->name = name;
  s.nextAddr = alignUp(o->base + std::max<uint64_t>(size, 1) + 64, 16);
  o->pages.resize((size + PAGE - 1) / PAGE);
  uint32_t id = s.nobj++; o->id = id;
  if (id / 64 >= s.chunks.size()) s.chunks.push_back(std::make_shared<Chunk>());
  auto& c = s.chunks[id / 64]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  c->o[id % 64] = o;
  return o.get();
}
Obj* Exec::objRO(State& s, uint32_t id) { return s.chunks[id / 64]->o[id % 64].get(); }
Obj* Exec::objRW(State& s, uint32_t id) {
  auto& c = s.chunks[id / 64]; if (c.use_count() > 1) c = std::make_shared<Chunk>(*c);
  auto& o = c->o[id % 64]; if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
  return o.get();
}
bool Exec::findObj(State& s, uint64_t addr, uint32_t& id) {   // greatest base <= addr
  if (!s.nobj) return false;
  uint32_t lo = 0, hi = s.nobj;
  while (lo < hi) { uint32_t m = (lo + hi) / 2; if (objRO(s, m)->base <= addr) lo = m + 1; else hi = m; }
  if (!lo) return false; id = lo - 1; return true;
}
MByte Exec::getByte(State& s, Obj* o, uint64_t off) {
  auto& p = o->pages[off / PAGE]; if (!p) return {nullptr, o->fill}; return p->b[off % PAGE];
}
void Exec::setByte(Obj* o, uint64_t off, MByte b) {
  auto& p = o->pages[off / PAGE];
  if (!p) { p = std::make_shared<Page>(); for (auto& x : p->b) x = {nullptr, o->fill}; }
  else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
  p->b[off % PAGE] = b;
}
static E byteExpr(const MByte& b) { return b.e ? mkExtract(b.e, b.v * 8, 8) : mkConst(b.v, 8); }

E Exec::readC(State& s, uint32_t id, uint64_t off, unsigned n, bool track) {
  Obj* o = objRO(s, id);
  if (track && s.everMulti) raceCheck(s, id, off, n, false);
  MByte b0 = getByte(s, o, off);
  if (b0.e && b0.v == 0 && b0.e->w == n * 8) {
    bool same = true; for (unsigned i = 1; i < n && same; i++) { MByte b = getByte(s, o, off + i); same = b.e == b0.e && b.v == i; }
    if (same) return b0.e;
  }
  bool allC = true; u128 v = 0; bool un = false;
  for (unsigned i = 0; i < n; i++) { MByte b = getByte(s, o, off + i); if (b.e) { allC = false; } else if (b.v > 255) { un = true; allC = false; } else if (n <= 16) v |= (u128)b.v << (8 * i); }
  if (allC) return mkConst(v, n * 8);
  if (un) { // materialise uninitialised bytes
    Obj* w = objRW(s, id);
    for (unsigned i = 0; i < n; ) { MByte b = getByte(s, w, off + i); if (!b.e && b.v > 255) {
        unsigned j = i; while (j < n) { MByte c = getByte(s, w, off + j); if (c.e || c.v <= 255) break; j++; }
        E sy = mkSym("uninit!" + w->name, (j - i) * 8, true); for (unsigned k = i; k < j; k++) setByte(w, off + k, {sy, k - i}); i = j;
      } else i++; }
    o = w; return readC(s, id, off, n, false);
  }
  E r = nullptr;
  for (unsigned i = n; i-- > 0; ) { MByte b = getByte(s, o, off + i); E x;
    // take maximal run going down
    unsigned j = i; if (b.e) { while (j > 0) { MByte c = getByte(s, o, off + j - 1); if (c.e == b.e && c.v + 1 == getByte(s, o, off + j).v) j--; else break; }
      x = mkExtract(b.e, getByte(s, o, off + j).v * 8, (i - j + 1) * 8); i = j; }
    else x = byteExpr(b);
    r = r ? mkConcat(r, x) : x; }
  return r;
}
void Exec::writeC(State& s, uint32_t id, uint64_t off, E v) {
  unsigned n = (v->w + 7) / 8; if (v->w % 8) v = mkZExt(v, n * 8);
  if (s.everMulti) raceCheck(s, id, off, n, true);
  Obj* o = objRW(s, id);
  if (v->isConst()) for (unsigned i = 0; i < n; i++) setByte(o, off + i, {nullptr, (uint32_t)((v->val >> (8 * i)) & 255)});
  else for (unsigned i = 0; i < n; i++) setByte(o, off + i, {v, i});
  if (s.everMulti && !s.atoms.empty()) { // plain store over an atomic location restarts its history
    uint64_t k = ((uint64_t)id << 32) | off; auto it = s.atoms.lower_bound(k > 15 ? k - 15 : 0);
    while (it != s.atoms.end() && it->first < k + n) { if (it->first + it->second.size > k) it = s.atoms.erase(it); else ++it; } }
}
// concrete address -> backing object and offset
bool Exec::translate(State& s, uint64_t addr, bool write, uint32_t& id, uint64_t& off) {
  if (addr >= 0x700000000000ull) {
    auto it = s.maps.upper_bound(addr); if (it == s.maps.begin()) return false; --it;
    if (addr >= it->first + it->second.len || !it->second.access || it->second.obj < 0) return false;
    id = it->second.obj; off = it->second.off + (addr - it->first); return off < objRO(s, id)->size;
  }
  if (!findObj(s, addr, id)) return false;
  Obj* o = objRO(s, id); if (!o->alive || addr - o->base >= o->size) return false;
  if (write && o->readonly) return false;
  if (o->kind == OK_FUNC || o->kind == OK_FILE) return false;
  off = addr - o->base; return true;
}
E Exec::simp(State& s, E e) { if (e->isConst() || s.known.empty()) return e; auto it = s.known.find(e); return it == s.known.end() ? e : it->second; }

Exec::Acc Exec::resolve(State& s, E addr, uint64_t n, bool write) {
  st.memChecks++;
  addr = simp(s, addr);
  uint64_t a0;
  if (addr->isConst()) a0 = (uint64_t)addr->val;
  else { auto v = evalModel(addr, *s.model); if (!v) a0 = concretize(s, addr); else a0 = (uint64_t)*v; }
  auto describe = [&](uint64_t a) { std::string d = write ? "write of " : "read of "; d += std::to_string(n) + " bytes at "; char b[40]; snprintf(b, 40, "0x%llx", (unsigned long long)a); d += b; uint32_t id;
    if (a < 4096) d += " (null pointer)"; else if (a >= 0x700000000000ull) d += " (outside mapping)"; else if (findObj(s, a, id)) { Obj* o = objRO(s, id); d += " (" + std::to_string((int64_t)(a - o->base)) + " into '" + o->name + "' of size " + std::to_string(o->size) + (o->alive ? "" : ", freed") + (o->readonly ? ", read-only" : "") + ")"; } return d; };
  Acc r; 
  if (a0 >= 0x700000000000ull) {
    auto it = s.maps.upper_bound(a0); 
    if (it != s.maps.begin()) --it; else error(s, "memory", describe(a0));
    Region& g = it->second;
    if (a0 >= it->first + g.len || !g.access || g.obj < 0) error(s, "memory", describe(a0));
    uint64_t objSize = objRO(s, g.obj)->size; uint64_t usable = g.off >= objSize ? 0 : std::min<uint64_t>(g.len, objSize - g.off);
    if (addr->isConst()) {
      if (a0 + n <= it->first + usable) { r.id = g.obj; r.off = mkConst(g.off + (a0 - it->first), 64); return r; }
      for (uint64_t i = 0; i < n; i++) { uint32_t id; uint64_t off; if (!translate(s, a0 + i, write, id, off)) error(s, "memory", describe(a0 + i)); }
      r.bytewise = true; r.caddr = a0; return r;
    }
    if (usable < n) { a0 = concretize(s, addr); return resolve(s, mkConst(a0, 64), n, write); }
    E rel = mkSub(addr, mkConst(it->first, 64)); E inb = mkUle(rel, mkConst(usable - n, 64));
    auto iv = evalModel(inb, *s.model);
    if (!iv || !*iv) { a0 = concretize(s, addr); return resolve(s, mkConst(a0, 64), n, write); }
    Model m; if (may(s, mkNot(inb), m)) { State* f = fork(s); addC(*f, mkNot(inb)); f->model = std::make_shared<Model>(m); }
    addC(s, inb); r.id = g.obj; r.off = mkAdd(rel, mkConst(g.off, 64)); r.lo = g.off; r.hi = g.off + usable; return r;
  }
  uint32_t id; if (!findObj(s, a0, id)) error(s, "memory", describe(a0));
  Obj* o = objRO(s, id);
  if (!o->alive) error(s, "memory", std::string("use after free: ") + describe(a0));
  if (a0 - o->base + n > o->size || (write && o->readonly) || o->kind == OK_FUNC || o->kind == OK_FILE) error(s, "memory", describe(a0));
  r.id = id;
  if (addr->isConst()) { r.off = mkConst(a0 - o->base, 64); return r; }
  E rel = mkSub(addr, mkConst(o->base, 64)); E inb = mkUle(rel, mkConst(o->size - n, 64));
  Model m; if (may(s, mkNot(inb), m)) { State* f = fork(s); addC(*f, mkNot(inb)); f->model = std::make_shared<Model>(m); }
  addC(s, inb); r.off = rel; r.lo = 0; r.hi = o->size; return r;
}
std::pair<u128, u128> Exec::range(State& s, E e) {
  auto v = evalModel(e, *s.model); u128 mid = v ? *v : 0; Model m;
  u128 lo = 0, hi = maskOf(e->w), cur = mid;
  u128 a = 0, b = cur; while (a < b) { u128 c = a + (b - a) / 2; if (may(s, mkUle(e, mkConst(c, e->w)), m)) { auto t = evalModel(e, m); b = t && *t < c ? *t : c; } else a = c + 1; } lo = a;
  // gallop upwards
  a = cur; b = hi; u128 stepv = 16; while (a < b) { u128 c = (b - a > stepv) ? a + stepv : b; if (may(s, mkUle(mkConst(c, e->w), e), m)) { auto t = evalModel(e, m); a = t && *t > c ? *t : c; if (a == b) break; stepv *= 4; } else { b = c - 1; break; } }
  while (a < b) { u128 c = a + (b - a + 1) / 2; if (may(s, mkUle(mkConst(c, e->w), e), m)) { auto t = evalModel(e, m); a = t && *t > c ? *t : c; } else b = c - 1; } hi = a;
  return {lo, hi};
}
static E treeRead(E off, const std::vector<std::pair<uint64_t, E>>& v, size_t l, size_t r) {
  bool same = true; for (size_t i = l + 1; i < r && same; i++) same = v[i].second == v[l].second;
  if (same) return v[l].second;
  size_t m = (l + r) / 2; return mkIte(mkUlt(off, mkConst(v[m].first, 64)), treeRead(off, v, l, m), treeRead(off, v, m, r));
}
E Exec::load(State& s, E addr, unsigned n) {
  Acc a = resolve(s, addr, n, false);
  if (a.bytewise) { E r = nullptr; for (unsigned i = n; i-- > 0; ) { uint32_t id; uint64_t off; translate(s, a.caddr + i, false, id, off); E b = readC(s, id, off, 1); r = r ? mkConcat(r, b) : b; } return r; }
  if (a.off->isConst()) return readC(s, a.id, (uint64_t)a.off->val, n);
  if (s.everMulti) { uint64_t c = concretize(s, a.off); return readC(s, a.id, c, n); }   // race records are per byte
  unsigned tz = trailingZeros(a.off); uint64_t step = tz >= 16 ? 65536 : (1ull << tz);
  uint64_t lo = a.lo, hi = a.hi - n;
  if ((hi - lo) / step > 32) { auto rg = range(s, a.off); lo = (uint64_t)rg.first; hi = (uint64_t)rg.second; }
  uint64_t rem = 0; if (step > 1) { lo = alignUp(lo, step); }
  (void)rem;
  if ((hi - lo) / step + 1 > opt.maxCand) { uint64_t c = concretize(s, a.off); return readC(s, a.id, c, n); }
  std::vector<std::pair<uint64_t, E>> v; for (uint64_t o = lo; o <= hi; o += step) v.push_back({o, readC(s, a.id, o, n)});
  if (v.empty()) throw PathEnd{};
  return treeRead(a.off, v, 0, v.size());
}
void Exec::store(State& s, E addr, E v) {
  unsigned n = (v->w + 7) / 8; if (v->w % 8) v = mkZExt(v, n * 8);
  Acc a = resolve(s, addr, n, true);
  if (a.bytewise) { for (unsigned i = 0; i < n; i++) { uint32_t id; uint64_t off; translate(s, a.caddr + i, true, id, off); writeC(s, id, off, mkExtract(v, i * 8, 8)); } return; }
  if (a.off->isConst()) { writeC(s, a.id, (uint64_t)a.off->val, v); return; }
  if (s.everMulti) { uint64_t c = concretize(s, a.off); writeC(s, a.id, c, v); return; }
  unsigned tz = trailingZeros(a.off); uint64_t step = tz >= 16 ? 65536 : (1ull << tz);
  uint64_t lo = a.lo, hi = a.hi - n;
  if ((hi - lo) / step > 8) { auto rg = range(s, a.off); lo = (uint64_t)rg.first; hi = (uint64_t)rg.second; }
  lo = alignUp(lo, step);
  if ((hi - lo) / step + 1 > opt.maxCand) { uint64_t c = concretize(s, a.off); writeC(s, a.id, c, v); return; }
  for (uint64_t o = lo; o <= hi; o += step) { E c = mkEq(a.off, mkConst(o, 64)); E old = readC(s, a.id, o, n, false); E nv = mkIte(c, v, old); if (nv != old) writeC(s, a.id, o, nv); }
}
Val Exec::loadT(State& s, E addr, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) {
    Val r; r.agg = std::make_shared<std::vector<Val>>(); Type* et = vt->getElementType(); uint64_t sz = DL.getTypeStoreSize(et); unsigned bits = DL.getTypeSizeInBits(et);
    if (bits == 1) { E x = load(s, addr, DL.getTypeStoreSize(t)); for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(mkExtract(x, i, 1)); return r; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) r.agg->push_back(loadT(s, mkAdd(addr, mkConst(i * sz, 64)), et)); return r; }
  if (auto* st_ = dyn_cast<StructType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); auto* sl = DL.getStructLayout(st_); for (unsigned i = 0; i < st_->getNumElements(); i++) r.agg->push_back(loadT(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), st_->getElementType(i))); return r; }
  if (auto* at = dyn_cast<ArrayType>(t)) { Val r; r.agg = std::make_shared<std::vector<Val>>(); uint64_t sz = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadT(s, mkAdd(addr, mkConst(i * sz, 64)), at->getElementType())); return r; }
  unsigned bits = DL.getTypeSizeInBits(t), n = DL.getTypeStoreSize(t);
  E e = load(s, addr, n); return bits < n * 8 ? mkExtract(e, 0, bits) : e;
}
void Exec::storeT(State& s, E addr, Val v, Type* t) {
  if (auto* vt = dyn_cast<FixedVectorType>(t)) { uint64_t sz = DL.getTypeStoreSize(vt->getElementType());
    if (DL.getTypeSizeInBits(vt->getElementType()) == 1) { E r = nullptr; for (unsigned i = vt->getNumElements(); i-- > 0; ) { E b = (*v.agg)[i].e ? (*v.agg)[i].e : mkConst(0, 1); r = r ? mkConcat(r, b) : b; } store(s, addr, r); return; }
    for (unsigned i = 0; i < vt->getNumElements(); i++) storeT(s, mkAdd(addr, mkConst(i * sz, 64)), (*v.agg)[i], vt->getElementType()); return; }
  if (auto* st_ = dyn_cast<StructType>(t)) { auto* sl = DL.getStructLayout(st_); for (unsigned i = 0; i < st_->getNumElements(); i++) storeT(s, mkAdd(addr, mkConst(sl->getElementOffset(i), 64)), (*v.agg)[i], st_->getElementType(i)); return; }
  if (auto* at = dyn_cast<ArrayType>(t)) { uint64_t sz = DL.getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeT(s, mkAdd(addr, mkConst(i * sz, 64)), (*v.agg)[i], at->getElementType()); return; }
  if (!v.e) v.e = mkSym("undef", DL.getTypeSizeInBits(t), true);
  store(s, addr, v.e);
}
std::string Exec::readStr(State& s, E addr) {
  uint64_t a = concretize(s, addr); std::string r;
  for (;;) { uint32_t id; uint64_t off; if (!translate(s, a, false, id, off)) error(s, "memory", "unterminated or invalid string"); E b = readC(s, id, off, 1, false); if (!b->isConst()) { b = mkConst(concretize(s, b), 8); } if (!b->val) return r; r.push_back((char)b->val); a++; }
}
void Exec::copyMem(State& s, E dst, E src, uint64_t n) {
  if (!n) return;
  dst = simp(s, dst); src = simp(s, src);
  if (!dst->isConst() && n > 16) dst = mkConst(concretize(s, dst), 64);
  if (!src->isConst() && n > 16) src = mkConst(concretize(s, src), 64);
  if (!dst->isConst() || !src->isConst()) {
    unsigned al = std::min(std::min(trailingZeros(dst), trailingZeros(src)), 3u); uint64_t u = 1ull << al; while (n % u) u /= 2;
    std::vector<E> tmp; for (uint64_t i = 0; i < n; i += u) tmp.push_back(load(s, mkAdd(src, mkConst(i, 64)), u));
    for (uint64_t i = 0; i < n; i += u) store(s, mkAdd(dst, mkConst(i, 64)), tmp[i / u]);
    return;
  }
  Acc a = resolve(s, src, n, false), b = resolve(s, dst, n, true);
  std::vector<MByte> tmp(n);
  if (!a.bytewise) { Obj* o = objRO(s, a.id); uint64_t f = (uint64_t)a.off->val; if (s.everMulti) raceCheck(s, a.id, f, n, false); for (uint64_t i = 0; i < n; i++) tmp[i] = getByte(s, o, f + i); }
  else for (uint64_t i = 0; i < n; i++) { uint32_t id; uint64_t off; translate(s, a.caddr + i, false, id, off); if (s.everMulti) raceCheck(s, id, off, 1, false); tmp[i] = getByte(s, objRO(s, id), off); }
  if (!b.bytewise) { uint64_t f = (uint64_t)b.off->val; if (s.everMulti) raceCheck(s, b.id, f, n, true); Obj* o = objRW(s, b.id); for (uint64_t i = 0; i < n; i++) setByte(o, f + i, tmp[i]); }
  else for (uint64_t i = 0; i < n; i++) { uint32_t id; uint64_t off; translate(s, b.caddr + i, true, id, off); if (s.everMulti) raceCheck(s, id, off, 1, true); setByte(objRW(s, id), off, tmp[i]); }
}
