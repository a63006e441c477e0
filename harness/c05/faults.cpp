// C05: every sequence of up to FAULTS system-call failures (and mirrors that are not mirrors) while mirrored buffers are set up,
// moved, re-created and torn down.
#include "../env_vm.h"
#include "cler_spsc-queue.hpp"
#ifndef SZ
#define SZ 2048
#endif
#ifndef CAPN
#define CAPN 3
#endif
struct T { uint8_t b[SZ]; };
static void clean() { CHECK(sym_vm_mapped() == 0, "no mapping survives"); CHECK(venv::open_fds() == 0, "no descriptor survives"); CHECK(venv::meminfoOpen == 0, "no stream survives"); }
static void use(dro::SPSCQueue<T>& q) {
  uint64_t C = q.capacity(); CHECK(C >= CAPN, "capacity() is at least what was asked for");
  unsigned rot = sym_choose("rot", 4); for (unsigned i = 0; i < rot; i++) { T t; t.b[0] = 1; t.b[SZ - 1] = 1; CHECK(q.try_push(t), "rotate"); CHECK(q.try_pop(t), "rotate"); }
  static uint8_t v[64], u[64]; for (unsigned i = 0; i < C && i < 64; i++) { v[i] = (uint8_t)sym_bits("v", 8); u[i] = (uint8_t)sym_bits("u", 8); T t; t.b[0] = v[i]; t.b[SZ - 1] = u[i]; CHECK(q.try_push(t), "there is room for the whole capacity"); }
  { T t; t.b[0] = t.b[SZ - 1] = 0; CHECK(!q.try_push(t), "a full queue refuses"); }
  if (q.is_doubly_mapped()) { auto [p, n] = q.read_dbf(); CHECK(n == C, "window length"); for (unsigned i = 0; i < n; i++) CHECK(p[i].b[0] == v[i] && p[i].b[SZ - 1] == u[i], "a mirrored window shows the items in order"); sym_reach("mirrored"); } else sym_reach("plain");
  for (unsigned i = 0; i < C; i++) { T t; CHECK(q.try_pop(t) && t.b[0] == v[i] && t.b[SZ - 1] == u[i], "items come back in order"); }
}
extern "C" void harness() {
  uint64_t h0 = sym_live_heap();
#if MODE == 0
  { dro::SPSCQueue<T> q(CAPN); use(q); } clean();
  { dro::SPSCQueue<T> q(CAPN); use(q); }
#else
  { using A = cler::vmem::DoublyMappedAllocation; 
    auto good = [](A& a, bool ok, size_t sz) { CHECK(a.valid() == ok, "valid() is what create() reported"); if (!ok) { CHECK(!a.data() && !a.second_mapping() && !a.size(), "a failed allocation exposes nothing"); return; }
      CHECK(a.size() >= sz && (uint8_t*)a.second_mapping() == (uint8_t*)a.data() + a.size(), "the mirror follows the first mapping"); uint8_t x = (uint8_t)sym_bits("x", 8); uint64_t o = sym_range("o", 0, 1 << 15); sym_assume(o < a.size()); o = sym_choose("edge", 2) ? a.size() - 1 : 0; ((volatile uint8_t*)a.data())[o] = x; CHECK(((volatile uint8_t*)a.second_mapping())[o] == x, "a write shows in the mirror"); sym_reach("mirrored"); };
    A a; bool oa = a.create(5000); good(a, oa, 5000);
    A b; bool ob = false; if (sym_choose("second", 2)) { ob = b.create(9000); good(b, ob, 9000); }
    for (int i = 0; i < 2; i++) switch (sym_choose("op", 6)) {
    case 0: b = std::move(a); CHECK(b.valid() == oa && !a.valid() && !a.data(), "move assignment transfers"); ob = oa; oa = false; break;
    case 1: a = std::move(b); CHECK(a.valid() == ob && !b.valid() && !b.data(), "move assignment transfers"); oa = ob; ob = false; break;
    case 2: { A c(std::move(a)); CHECK(c.valid() == oa && !a.valid(), "move construction transfers"); oa = false; break; }
    case 3: oa = a.create(4096); good(a, oa, 4096); break;
    case 4: { A& r = a; a = std::move(r); CHECK(a.valid() == oa, "self move keeps"); break; }
    case 5: break; }
    if (!oa && !ob) { sym_reach("plain"); CHECK(!a.valid() && !b.valid(), "nothing is valid"); }
  }
#endif
  clean(); CHECK(sym_live_heap() == h0, "no heap block survives"); if (venv::faults_left == 0) sym_reach("all faults taken"); sym_reach("end");
}
