// C11: a Result keeps what it was built from through every sequence of copies, moves and assignments; error codes are classified consistently.
#include "../env_vm.h"
#include "cler.hpp"
#include "cler_utils.hpp"
#include "cler_desktop_utils.hpp"
#include <new>
using cler::Error; using cler::Result;
#if WHAT == 0
static int64_t alive;
struct Obj { uint64_t v; int* mem; explicit Obj(uint64_t x) : v(x), mem(new int((int)x)) { alive++; } Obj(const Obj& o) : v(o.v), mem(o.mem ? new int(*o.mem) : nullptr) { alive++; } Obj(Obj&& o) noexcept : v(o.v), mem(o.mem) { o.mem = nullptr; alive++; }
  Obj& operator=(const Obj& o) { if (this != &o) { int* m = o.mem ? new int(*o.mem) : nullptr; delete mem; mem = m; v = o.v; } return *this; } Obj& operator=(Obj&& o) noexcept { if (this != &o) { delete mem; mem = o.mem; o.mem = nullptr; v = o.v; } return *this; } ~Obj() { delete mem; alive--; } };
#if ERRT == 0
typedef Error E; static E mkE() { return (E)(int)sym_bits("error", 32); } static uint64_t key(const E& e) { return (uint32_t)(int)e; }
#else
struct E { uint64_t a; uint16_t b; }; static E mkE() { E e; e.a = sym_bits("error", 64); e.b = (uint16_t)sym_bits("detail", 16); return e; } static uint64_t key(const E& e) { return e.a ^ ((uint64_t)e.b << 48); }
#endif
#if VALT == 0
typedef Obj T; static T mkT() { return Obj(sym_bits("value", 64)); } static uint64_t key(const Obj& o) { return o.v; } static bool sound(const Obj& o) { return o.mem && *o.mem == (int)o.v; }
#elif VALT == 1
typedef uint64_t T; static T mkT() { return sym_bits("value", 64); } static uint64_t key(uint64_t o) { return o; } static bool sound(uint64_t) { return true; }
#else
typedef cler::Empty T; static T mkT() { return {}; } static uint64_t key(const T&) { return 0; } static bool sound(const T&) { return true; }
#endif
typedef Result<T, E> R; struct M { bool ok; uint64_t k; bool moved = false; };
static bool throwsOk(R& r) { try { (void)r.unwrap(); return false; } catch (const std::runtime_error&) { return true; } } static bool throwsErr(R& r) { try { (void)r.unwrap_err(); return false; } catch (const std::runtime_error&) { return true; } }
static void look(R& r, M& m) {
  const R& c = r; CHECK(c.is_ok() == m.ok && c.is_err() == !m.ok, "success or failure, exactly one, as built");
  if (m.ok) { CHECK(throwsErr(r), "the error of a success is refused"); T& v = r.unwrap(); CHECK(m.moved || (key(v) == m.k && sound(v)), "the value is the one given"); }
  else { CHECK(throwsOk(r), "the value of a failure is refused"); CHECK(key(r.unwrap_err()) == m.k, "the error is the one given"); }
}
static R make(M& m) { m.moved = false; if (sym_choose("ok", 2)) { T v = mkT(); m.ok = true; m.k = key(v); return v; } E e = mkE(); m.ok = false; m.k = key(e); return e; }
extern "C" void harness() {
  uint64_t h0 = sym_live_heap(); { M m[2]; R r[2] = {make(m[0]), make(m[1])}; look(r[0], m[0]); look(r[1], m[1]);
  for (int i = 0; i < OPS; i++) {
    switch (sym_choose("op", 6)) {
    case 0: r[0] = r[1]; m[0] = m[1]; break;
    case 1: r[0] = std::move(r[1]); m[0] = m[1]; if (m[1].ok) m[1].moved = true; break;
    case 2: { R c(r[0]); M k = m[0]; look(c, k); r[1] = c; m[1] = k; break; }
    case 3: { R c(std::move(r[0])); M k = m[0]; if (m[0].ok) m[0].moved = true; look(c, k); r[1] = std::move(c); m[1] = k; break; }
    case 4: { R* self = &r[0]; r[0] = *self; break; }
    case 5: { M k; R c = make(k); std::swap(r[0], c); m[0] = k; break; }
    }
    look(r[0], m[0]); look(r[1], m[1]); if (m[0].ok != m[1].ok) sym_reach("mixed");
  } }
#if VALT == 0
  CHECK(alive == 0, "every value made was destroyed once"); CHECK(sym_live_heap() == h0, "nothing leaks");
#endif
  sym_reach("end");
}
#else
static const Error ALL[] = {Error::OK, Error::Unknown, Error::NotEnoughSamples, Error::NotEnoughSpace, Error::NotEnoughSpaceOrSamples, Error::ProcedureError, Error::BadData, Error::TERMINATE_FLOWGRAPH, Error::TERM_InvalidChannelIndex, Error::TERM_ProcedureError, Error::TERM_IOError, Error::TERM_EOFReached};
extern "C" void harness() {
  int n = sizeof ALL / sizeof *ALL; Error a = (Error)(int)sym_range("a", 0, n - 1), b = (Error)(int)sym_range("b", 0, n - 1); bool term = false; for (int i = 7; i < n; i++) term |= ALL[i] == a;
  CHECK(cler::is_fatal(a) == term, "terminating exactly for the terminating codes");
  a = (Error)(int)sym_concretize((int)a); b = (Error)(int)sym_concretize((int)b);
  const char *s = cler::to_str(a), *t = cler::to_str(b); CHECK(s && s[0] && strlen(s) < 64, "every code has a text"); CHECK(!strcmp(cler::error_to_cstring(a), s), "both helpers give the same text");
  if (a != b) { CHECK(strcmp(s, t), "different codes have different texts"); sym_reach("two codes"); } else CHECK(s == t || !strcmp(s, t), "one text per code");
  int w = a == b && a == Error::OK ? (int)sym_bits("w", 32) : (int)b; const char* u = cler::to_str((Error)w); CHECK(u && strlen(u) < 64, "any code has some text"); sym_reach("end");
}
#endif
