// C02: one producer thread and one consumer thread on a real queue; every interleaving of their atomic operations and every
// value the memory model lets an atomic load return (release/acquire, stale reads included), with data-race detection on the slots.
#include "../env_vm.h"
#include "cler_spsc-queue.hpp"
#ifndef CAPN
#define CAPN 1
#endif
#ifndef NP
#define NP 2
#endif
#ifndef NC
#define NC 2
#endif
#if STACK
typedef dro::SPSCQueue<uint64_t, CAPN> Q;
#define MAKE(q) Q q
#else
typedef dro::SPSCQueue<uint64_t> Q;
#define MAKE(q) Q q(CAPN)
#endif
static const unsigned nb[] = {0, 2, 3};   // the non-blocking calls
static Q* q; static unsigned pushed, popped, seenSizeBad; static uint64_t sent[64], got[64];
static void producer(void*) {
  unsigned budget = NP;
  for (unsigned i = 0; i < NP; i++) {
    unsigned k = PK >= 0 ? PK : nb[sym_choose("pk", 3)];
    if (k == 0) { uint64_t x = sent[pushed]; if (q->try_push(x)) pushed++; }
    else if (k == 1) { uint64_t x = sent[pushed]; q->push(x); pushed++; }
    else if (k == 2) { unsigned r = q->writeN(sent + pushed, 2); CHECK(r <= 2, "writeN accepts at most what was offered"); pushed += r; }
    else { uint64_t *p1, *p2; size_t n1, n2; size_t t = q->peek_write(p1, n1, p2, n2); CHECK(t <= CAPN && n1 + n2 == t, "peek_write shows at most the capacity"); unsigned c = t < 2 ? t : 2; for (unsigned j = 0; j < c; j++) (j < n1 ? p1[j] : p2[j - n1]) = sent[pushed + j]; if (c) { q->commit_write(c); pushed += c; } }
    if (OBS) { size_t s = q->size(); CHECK(s <= CAPN, "size() seen by the producer never exceeds the capacity"); }
  }
  (void)budget;
}
static void consumer(void*) {
  for (unsigned i = 0; i < NC; i++) {
    unsigned k = CK >= 0 ? CK : nb[sym_choose("ck", 3)];
    if (k == 0) { uint64_t x; if (q->try_pop(x)) { CHECK(x == sent[popped], "items arrive unchanged and in order"); popped++; } }
    else if (k == 1) { uint64_t x; q->pop(x); CHECK(x == sent[popped], "items arrive unchanged and in order"); popped++; }
    else if (k == 2) { uint64_t b[2]; unsigned r = q->readN(b, 2); CHECK(r <= 2, "readN delivers at most what was asked"); for (unsigned j = 0; j < r && j < 2; j++) CHECK(b[j] == sent[popped + j], "items arrive unchanged and in order"); popped += r; }
    else { const uint64_t *p1, *p2; size_t n1, n2; size_t t = q->peek_read(p1, n1, p2, n2); CHECK(t <= CAPN && n1 + n2 == t, "peek_read shows at most the capacity"); unsigned c = t < 2 ? t : 2; for (unsigned j = 0; j < c; j++) CHECK((j < n1 ? p1[j] : p2[j - n1]) == sent[popped + j], "items arrive unchanged and in order"); if (c) { q->commit_read(c); popped += c; } }
    if (OBS) { size_t s = q->size(); CHECK(s <= CAPN, "size() seen by the consumer never exceeds the capacity"); }
  }
}
extern "C" void harness() {
  MAKE(qq); q = &qq; for (unsigned i = 0; i < 2 * NP + 4; i++) sent[i] = (uint64_t)sym_bits("v", 64);
#if SYMPOS   // any start position and fill level, as symbolic index values
  uint64_t rot = sym_range("rot", 0, CAPN); qq.commit_write(rot); qq.commit_read(rot);
  uint64_t fill = sym_range("fill", 0, CAPN); uint64_t *p1, *p2; size_t n1, n2; qq.peek_write(p1, n1, p2, n2); for (unsigned i = 0; i < CAPN; i++) if (i < n1) p1[i] = sent[i]; else p2[i - n1] = sent[i]; qq.commit_write(fill); pushed = fill;
#else        // any start position and fill level
  for (unsigned i = sym_choose("rot", CAPN + 1); i; i--) { uint64_t x = 0; qq.try_push(x); qq.try_pop(x); }
  if (FILL) for (unsigned i = sym_choose("fill", CAPN + 1); i; i--) { qq.try_push(sent[pushed]); pushed++; }
#endif
  int a = sym_thread_create(producer, nullptr), b = sym_thread_create(consumer, nullptr);
  sym_thread_join(a); sym_thread_join(b);
  CHECK(popped <= pushed, "nothing is received that was not sent"); CHECK(qq.size() == pushed - popped, "no item is lost or duplicated");
  if (popped == pushed && popped) sym_reach("all received"); if (pushed - popped == CAPN) sym_reach("full at the end");
  while (popped < pushed) { uint64_t x; bool ok = qq.try_pop(x); CHECK(ok && x == sent[popped], "items left in the queue arrive in order"); if (!ok) break; popped++; }
  sym_reach("end");
}
