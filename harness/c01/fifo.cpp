// C01: any bounded sequence of single-threaded calls against a list oracle, over symbolic data, counts and start positions.
#include "../sym.h"
#include "../env_vm.h"
#include "cler_spsc-queue.hpp"
#ifndef OPS
#define OPS 3
#endif
#ifndef CAPN
#define CAPN 3
#endif
#if STACK
typedef dro::SPSCQueue<uint32_t, CAPN> Q;
#define MAKE(q) Q q
#else
typedef dro::SPSCQueue<uint32_t> Q;
#define MAKE(q) Q q(CAPN)
#endif
struct Model { uint32_t v[CAPN + 8]; unsigned n = 0; };
static void op(Q& q, Model& m, unsigned k) {
  switch (k) {
  case 0: { uint32_t x = (uint32_t)sym_bits("x", 32); bool ok = q.try_push(x); CHECK(ok == (m.n < CAPN), "try_push succeeds exactly when the queue is not full"); if (ok && m.n < CAPN) m.v[m.n++] = x; break; }
  case 1: { uint32_t x = 0xdeadbeef; bool ok = q.try_pop(x); CHECK(ok == (m.n > 0), "try_pop succeeds exactly when the queue is not empty"); if (ok && m.n) { CHECK(x == m.v[0], "try_pop returns the oldest item"); for (unsigned i = 1; i < m.n; i++) m.v[i - 1] = m.v[i]; m.n--; } break; }
  case 2: { unsigned c = sym_range("count", 0, CAPN + 1); c = sym_concretize(c); uint32_t b[CAPN + 1]; for (unsigned i = 0; i < c; i++) b[i] = (uint32_t)sym_bits("x", 32); unsigned r = q.writeN(b, c); unsigned e = c < CAPN - m.n ? c : CAPN - m.n; CHECK(r == e, "writeN accepts min(count, space)"); for (unsigned i = 0; i < e; i++) m.v[m.n++] = b[i]; break; }
  case 3: { unsigned c = sym_range("count", 0, CAPN + 1); c = sym_concretize(c); uint32_t b[CAPN + 1]; unsigned r = q.readN(b, c); unsigned e = c < m.n ? c : m.n; CHECK(r == e, "readN delivers min(count, size)"); for (unsigned i = 0; i < e; i++) CHECK(b[i] == m.v[i], "readN delivers the oldest items in order"); for (unsigned i = e; i < m.n; i++) m.v[i - e] = m.v[i]; m.n -= e; break; }
  case 4: { uint32_t *p1, *p2; size_t n1, n2; size_t t = q.peek_write(p1, n1, p2, n2); CHECK(t == CAPN - m.n && n1 + n2 == t, "peek_write exposes exactly the free space"); if (n1 + n2 != CAPN - m.n) break; unsigned c = sym_range("commit", 0, CAPN); sym_assume(c <= t); c = sym_concretize(c);
      for (unsigned i = 0; i < c; i++) { uint32_t x = (uint32_t)sym_bits("x", 32); if (i < n1) p1[i] = x; else p2[i - n1] = x; m.v[m.n++] = x; } q.commit_write(c); break; }
  case 5: { const uint32_t *p1, *p2; size_t n1, n2; size_t t = q.peek_read(p1, n1, p2, n2); CHECK(t == m.n && n1 + n2 == t, "peek_read exposes exactly the stored items"); if (n1 + n2 != m.n) break; for (unsigned i = 0; i < t; i++) CHECK((i < n1 ? p1[i] : p2[i - n1]) == m.v[i], "peek_read shows the stored items in order"); unsigned c = sym_range("commit", 0, CAPN); sym_assume(c <= t); c = sym_concretize(c); q.commit_read(c); for (unsigned i = c; i < m.n; i++) m.v[i - c] = m.v[i]; m.n -= c; break; }
  case 6: { CHECK(q.size() == m.n, "size() is the number of stored items"); unsigned c = sym_range("commit", 0, CAPN); sym_assume(c <= m.n); c = sym_concretize(c); q.commit_read(c); for (unsigned i = c; i < m.n; i++) m.v[i - c] = m.v[i]; m.n -= c; break; }   // discard without peeking
  case 7: if (m.n < CAPN) { uint32_t x = (uint32_t)sym_bits("x", 32); q.push(x); m.v[m.n++] = x; } break;
  case 8: if (m.n) { uint32_t x = 0xdeadbeef; q.pop(x); CHECK(x == m.v[0], "pop returns the oldest item"); for (unsigned i = 1; i < m.n; i++) m.v[i - 1] = m.v[i]; m.n--; } break;
  }
  CHECK(q.size() == m.n, "size() is the number of stored items"); CHECK(q.empty() == (m.n == 0), "empty() agrees"); CHECK(q.space() == CAPN - m.n, "space() is the free room"); CHECK(q.capacity() == CAPN, "capacity() is the requested capacity");
}
extern "C" void harness() {
  uint64_t h0 = sym_live_heap();
  {
  MAKE(q); Model m;
  // rotate the indices and caches into an arbitrary start position
  unsigned rot = sym_choose("rot", CAPN + 1); for (unsigned i = 0; i < rot; i++) { uint32_t x = i; bool a = q.try_push(x), b = q.try_pop(x); CHECK(a && b && x == i, "rotation"); }
  unsigned fill = sym_choose("fill", CAPN + 1); for (unsigned i = 0; i < fill; i++) { uint32_t x = (uint32_t)sym_bits("f", 32); m.v[m.n++] = x; bool a = q.try_push(x); CHECK(a, "fill"); }
  for (int i = 0; i < OPS; i++) { unsigned k = sym_choose("op", 9); op(q, m, k); }
  if (m.n == 0) sym_reach("empty at the end"); if (m.n == CAPN) sym_reach("full at the end");
  for (unsigned i = 0; m.n && i < CAPN + 1; i++) { uint32_t x; bool ok = q.try_pop(x); CHECK(ok && x == m.v[i], "the drain returns the remaining items in order"); m.n--; }
  uint32_t x; CHECK(!q.try_pop(x), "a drained queue is empty");
  }
  CHECK(sym_live_heap() == h0, "the queue frees what it allocated"); sym_reach("end");
}
