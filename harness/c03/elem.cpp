// C03: items with constructors, destructors and assignment: every one constructed is destroyed once, assignment only ever meets constructed items.
#include "../env_vm.h"
#include "cler_spsc-queue.hpp"
static long live; static unsigned made;
struct E { E* self; uint64_t v; uint8_t pad[PADB];
  E() : self(this), v(0) { live++; made++; } explicit E(uint64_t x) : self(this), v(x) { live++; made++; } E(const E& o) : self(this), v(o.v) { o.ok(); live++; made++; }
  E& operator=(const E& o) { ok(); o.ok(); v = o.v; return *this; } E& operator=(E&& o) noexcept { ok(); o.ok(); v = o.v; return *this; }
  ~E() { ok(); self = nullptr; live--; } void ok() const { CHECK(self == this, "only constructed, not yet destroyed items are touched"); } };
#if STACK
typedef dro::SPSCQueue<E, CAPN> Q;
#else
typedef dro::SPSCQueue<E> Q;
#endif
extern "C" void harness() {
  uint64_t h0 = sym_live_heap();
  {
#if STACK
    Q q;
#else
    Q q(CAPN);
#endif
    CHECK(live == (long)made && made > 0, "items exist once the queue does"); long base = live;
    uint64_t model[OPS + 1]; unsigned in = 0, out = 0;
    for (unsigned i = 0; i < OPS; i++) {
      unsigned k = sym_choose("op", 3); uint64_t x = sym_bits("item", 64);
      if (k == 0) { E e(x); if (q.try_push(e)) model[in++] = x; }
      else if (k == 1) { if (q.try_push(E(x))) model[in++] = x; }
      else { E e; if (q.try_pop(e)) { CHECK(out < in && e.v == model[out], "items come out in order"); out++; } }
      CHECK(live == base, "transfers neither make nor lose items");
    }
    if (q.is_doubly_mapped()) sym_reach("doubly mapped"); else sym_reach("plain");
  }
  CHECK(live == 0, "every constructed item is destroyed"); CHECK(sym_live_heap() == h0 && sym_vm_mapped() == 0, "all memory is returned"); sym_reach("end");
}
