// C12: fixed-capacity strings hold the leading part that fits, terminated, for every source text and operation; sources are read up to their terminator.
#include "../env_vm.h"
#include "cler.hpp"
typedef cler::EmbeddableString<LEN> S;
struct Text { char* p; size_t cap; size_t n; };
// an exactly sized heap text of any length up to MAXT (every byte symbolic and not zero), or with a symbolic first terminator when ANY
static Text text(unsigned maxt) { Text t; t.n = sym_choose("len", maxt + 1); t.cap = t.n + 1; t.p = (char*)malloc(t.cap); for (size_t i = 0; i < t.n; i++) { uint64_t c = sym_bits("c", 8); sym_assume(c != 0); t.p[i] = (char)c; } t.p[t.n] = 0; return t; }
struct M { char b[LEN]; size_t n = 0; }; static void app(M& m, const char* p, size_t n) { for (size_t i = 0; i < n && m.n < LEN - 1; i++) m.b[m.n++] = p[i]; }
static void look(const S& s, const M& m) {
  CHECK(s.length() == m.n, "the length is that of the part that fits"); CHECK(s.empty() == (m.n == 0), "empty exactly when nothing is held"); const char* p = s.c_str(); CHECK(p == (const char*)s, "both accessors name the same text");
  CHECK((uint64_t)p >= (uint64_t)&s && (uint64_t)p + LEN <= (uint64_t)&s + sizeof s, "the text lies in the object"); CHECK(sym_is_init(p, m.n + 1), "the text is initialised"); for (size_t i = 0; i < m.n; i++) CHECK(p[i] == m.b[i], "the leading part of the source is held"); CHECK(p[m.n] == 0, "the text is terminated"); if (m.n == LEN - 1) sym_reach("full");
}
extern "C" void harness() {
  M m; alignas(S) static char mem[sizeof(S)]; sym_poison(mem, sizeof mem); S* a;
  switch (sym_choose("from", 4)) {
  case 0: a = new (mem) S(); break;
  case 1: { Text t = text(MAXT); a = new (mem) S((const char*)t.p); app(m, t.p, t.n); free(t.p); break; }
  case 2: { Text t = text(MAXT); { std::string q(t.p); a = new (mem) S(q); } app(m, t.p, t.n); free(t.p); break; }
  default: a = new (mem) S((const char*)nullptr); }
  look(*a, m);
  for (int i = 0; i < OPS; i++) {
    switch (sym_choose("op", 5)) {
    case 0: { Text t = text(MAXT); S c = *a + (const char*)t.p; M k = m; app(k, t.p, t.n); free(t.p); look(c, k); look(*a, m); *a = c; m = k; break; }
    case 1: { Text t = text(MAXT); S b((const char*)t.p); M kb; app(kb, t.p, t.n); free(t.p); S c = *a + b; M k = m; app(k, kb.b, kb.n); look(c, k); look(b, kb); *a = c; m = k; break; }
    case 2: { Text t = text(MAXT); S b((const char*)t.p); M kb; app(kb, t.p, t.n); free(t.p); S& r = (*a = b); CHECK(&r == a, "assignment gives back its target"); look(b, kb); m = kb; break; }
    case 3: { S c(*a); look(c, m); S* self = a; *a = *self; S d = *a + *a; M k = m; app(k, m.b, m.n); look(d, k); break; }
    case 4: { S c = *a + (const char*)nullptr; look(c, m); S d = *a + a->c_str(); M k = m; app(k, m.b, m.n); look(d, k); break; }
    }
    look(*a, m);
  }
  sym_reach("end");
}
