// C19: every sequence of taking, writing, passing on and releasing the slots of a slab (THR=0); a source thread that takes, passes on and
// gives back slots while a sink thread releases others (THR=1).
#include "../env_vm.h"
#include "../clock.h"
static uint64_t clk; extern "C" uint64_t verif_clock_ns() { return clk += 1000; }
#include <mutex>
#include "desktop_blocks/blob.cpp"
static Slab* s; static size_t N, SIZE;
static bool apart(const Blob& a, const Blob& b) { return a.data + SIZE <= b.data || b.data + SIZE <= a.data; }
static bool good(const Blob& b) { sym_touch(b.data, SIZE, 1); CHECK(b.len == SIZE && b.slot_idx < N && b.owner_slab == s, "a handle describes its slot"); return true; }
#if THR
static dro::SPSCQueue<Blob>* q; static uint8_t mark[16]; 
static void source(void*) { for (unsigned i = 0; i < NT; i++) { auto r = s->take_slot(); if (r.is_err()) continue; Blob b = r.unwrap(); good(b); b.data[0] = mark[i]; b.data[SIZE - 1] = (uint8_t)i; unsigned k = sym_choose("pass on", 2); CHECK(b.data[0] == mark[i] && b.data[SIZE - 1] == i, "a slot in use belongs to its holder"); if (!k || !q->try_push(b)) b.release(); else sym_progress(); } }
static void sink(void*) { for (unsigned i = 0; i < NR; i++) { Blob b; if (!q->try_pop(b)) continue; CHECK(b.data[SIZE - 1] < NT && b.data[0] == mark[b.data[SIZE - 1] % NT], "what was passed on arrives as it was"); b.release(); sym_reach("passed on"); } }
#endif
extern "C" void harness() {
  N = NS; SIZE = THR ? 4 : sym_concretize(sym_range("size", 1, MAXSIZE)); uint64_t live = sym_live_heap(); s = new Slab(N, SIZE);
  CHECK(s->capacity() == N && s->available_slots() == N && s->max_blob_size() == SIZE, "a new slab is all free");
#if THR
  dro::SPSCQueue<Blob> qq(N); q = &qq; for (auto& m : mark) m = (uint8_t)sym_bits("mark", 8); int a = sym_thread_create(source, nullptr), b = sym_thread_create(sink, nullptr); sym_thread_join(a); sym_thread_join(b);
  Blob x; while (qq.try_pop(x)) x.release();
#else
  Blob h[NS + 1]; uint8_t first[NS + 1], last[NS + 1]; unsigned held = 0; 
  for (int o = 0; o < OPS; o++) {
    unsigned k = sym_choose("op", 2 + held); if (k == 0) { break; }
    if (k == 1) { auto r = s->take_slot(); CHECK(r.is_ok() == (held < N), "a slot is given exactly when one is free"); if (r.is_err()) { CHECK(!cler::is_fatal(r.unwrap_err()), "an exhausted slab is no reason to end"); sym_reach("exhausted"); } else if (held < N) { Blob b = r.unwrap(); good(b); for (unsigned i = 0; i < held; i++) CHECK(b.slot_idx != h[i].slot_idx && apart(b, h[i]), "no slot is handed out twice"); for (unsigned i = 0; i < SIZE; i++) b.data[i] = 0; first[held] = (uint8_t)sym_bits("first", 8); last[held] = SIZE > 1 ? (uint8_t)sym_bits("last", 8) : first[held]; b.data[0] = first[held]; b.data[SIZE - 1] = last[held]; h[held++] = b; } }
    else { unsigned i = k - 2; for (unsigned j = 0; j < held; j++) CHECK(h[j].data[0] == first[j] && h[j].data[SIZE - 1] == last[j], "what a holder wrote stays as long as it holds the slot"); Blob moved = h[i]; moved.len = sym_choose("len", 2); moved.release(); CHECK(!moved.owner_slab, "a released handle knows it"); moved.release(); held--; h[i] = h[held]; first[i] = first[held]; last[i] = last[held]; sym_reach("released"); }
    CHECK(s->available_slots() == N - held, "every slot is free or held");
  }
  while (held) h[--held].release();
#endif
  CHECK(s->available_slots() == N, "all slots are free again"); Blob all[NS]; for (unsigned i = 0; i < N; i++) { auto r = s->take_slot(); CHECK(r.is_ok(), "all slots can be taken again"); if (r.is_err()) return; all[i] = r.unwrap(); good(all[i]); for (unsigned j = 0; j < i; j++) CHECK(all[j].slot_idx != all[i].slot_idx && apart(all[j], all[i]), "no slot is handed out twice"); } CHECK(s->take_slot().is_err(), "and no more");
  delete s; sym_reach("end");
#if !THR
  CHECK(sym_live_heap() == live, "the slab's memory is given back");
#endif
}
