// C03/C04: a heap (or in-object) queue of CAPLO..CAPHI items of SZ bytes, at every start index and fill level.
#include "../env_vm.h"
#include "cler_spsc-queue.hpp"
struct T { uint8_t b[SZ]; };
#if STACK
typedef dro::SPSCQueue<T, CAPLO> Q;
#else
typedef dro::SPSCQueue<T> Q;
#endif
static void windowAlias(const uint8_t* w, size_t n, const uint8_t* p1, size_t n1, const uint8_t* p2, size_t n2, bool wr) {
  CHECK(n == n1 + n2, "the window has one element per ring element"); if (n == 0 || n != n1 + n2) return;
  sym_touch(w, 1, wr); sym_touch(w + n * SZ - 1, 1, wr);                // the whole window is mapped
  uint64_t i = sym_range("i", 0, 1u << 20); sym_assume(i < n); uint64_t at = (uint64_t)w + i * SZ, ring = i < n1 ? (uint64_t)p1 + i * SZ : (uint64_t)p2 + (i - n1) * SZ;
  uint64_t a = at - venv::win_base, r = ring - venv::win_base;
  CHECK(r + SZ <= venv::win_len, "a ring element lies in the first mapping");
  // first byte and last byte name the same memory: equal, or exactly one mapping apart
  CHECK(a == r || a == r + venv::win_len, "element i of the window is ring element i");
}
static void touchSpan(const uint8_t* p, size_t n, bool wr) { if (!n) return; sym_touch(p, 1, wr); sym_touch(p + n * SZ - 1, 1, wr); }
static bool overlap(uint64_t a, uint64_t an, uint64_t b, uint64_t bn) { return an && bn && a < b + bn && b < a + an; }
extern "C" void harness() {
  uint64_t h0 = sym_live_heap();
  uint64_t cap = sym_concretize(sym_range("cap", CAPLO, CAPHI));
  {
#if STACK
  Q q;
#else
  Q q(cap);
#endif
  uint64_t C = q.capacity();
  CHECK(C >= cap, "capacity() is at least what was asked for");
  uint64_t rot = sym_range("rot", 0, 1u << 20); sym_assume(rot <= C);
  q.commit_write(rot); CHECK(q.size() == rot, "size() counts what was committed"); q.commit_read(rot); CHECK(q.size() == 0 && q.empty() && q.space() == C, "an emptied queue has all its room again");
  uint64_t fill = sym_range("fill", 0, 1u << 20); sym_assume(fill <= C); q.commit_write(fill);
  CHECK(q.size() == fill, "size() is the fill level"); CHECK(q.space() == C - fill, "space() is the rest of the capacity"); CHECK(q.empty() == (fill == 0), "empty() agrees with the fill level");
  T *w1, *w2; const T *r1, *r2; size_t wn1, wn2, rn1, rn2;
  size_t ws = q.peek_write(w1, wn1, w2, wn2), rs = q.peek_read(r1, rn1, r2, rn2);
  CHECK(ws == C - fill && wn1 + wn2 == ws, "the write spans cover the free room"); CHECK(rs == fill && rn1 + rn2 == rs, "the read spans cover the stored items");
  touchSpan((uint8_t*)w1, wn1, true); touchSpan((uint8_t*)w2, wn2, true); touchSpan((const uint8_t*)r1, rn1, false); touchSpan((const uint8_t*)r2, rn2, false);
  uint64_t W1 = wn1 ? (uint64_t)w1 : 0, W2 = wn2 ? (uint64_t)w2 : 0, R1 = rn1 ? (uint64_t)r1 : 0, R2 = rn2 ? (uint64_t)r2 : 0;
  CHECK(!overlap(W1, wn1 * SZ, R1, rn1 * SZ) && !overlap(W1, wn1 * SZ, R2, rn2 * SZ) && !overlap(W2, wn2 * SZ, R1, rn1 * SZ) && !overlap(W2, wn2 * SZ, R2, rn2 * SZ) && !overlap(W1, wn1 * SZ, W2, wn2 * SZ) && !overlap(R1, rn1 * SZ, R2, rn2 * SZ), "spans never overlap");
#if WIN
  auto [wp, wn] = q.write_dbf(); auto [rp, rn] = q.read_dbf();
  if (q.is_doubly_mapped()) {
    sym_reach("doubly mapped");
    CHECK(wn == ws, "the write window is all the free room"); CHECK(rn == rs, "the read window is all the stored items");
    windowAlias((uint8_t*)wp, wn, (uint8_t*)w1, wn1, (uint8_t*)w2, wn2, true); windowAlias((const uint8_t*)rp, rn, (const uint8_t*)r1, rn1, (const uint8_t*)r2, rn2, false);
    if (wn2) sym_reach("write window wraps"); if (rn2) sym_reach("read window wraps");
  } else { CHECK(!wp && !wn && !rp && !rn, "without a mirror no window is offered"); sym_reach("not mapped"); }
#endif
  }
  CHECK(sym_live_heap() == h0, "the queue frees its memory"); CHECK(sym_vm_mapped() == 0, "the queue unmaps its memory"); CHECK(venv::open_fds() == 0, "the queue closes its descriptors");
  sym_reach("end");
}
