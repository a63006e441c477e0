// Harness interface: in the symbolic executor these calls create symbolic values, assumptions and assertions;
// in a native replay they read the solver's witness (native.cpp).
#pragma once
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
int sym_in_engine(void);
uint64_t sym_bits(const char* name, unsigned width);
void sym_bytes(void* p, uint64_t n, const char* name);
void sym_assume(int c);
void sym_check(int c, const char* msg);
void sym_fail(const char* msg);
unsigned sym_choose(const char* name, unsigned n);      // forks: one path per value
void sym_part(unsigned n, uint64_t v);                  // splits the work over engine processes
uint64_t sym_concretize(uint64_t v);
void sym_reach(const char* label);                      // recorded when a path through here completes
void sym_note(const char* name, uint64_t v);
uint64_t sym_live_heap(void);                           // blocks allocated and not freed
uint64_t sym_heap_bytes(void);
int sym_is_init(const void* p, uint64_t n);
void sym_poison(void* p, uint64_t n);
uint64_t sym_uf(const char* name, unsigned width, unsigned nargs, ...);
void sym_touch(const void* p, uint64_t n, int write);   // checks that the n bytes at p may be read (written)
uint64_t sym_vm_reserve(uint64_t len, uint64_t align);
uint64_t sym_vm_file(uint64_t len);
int sym_vm_map(uint64_t addr, uint64_t len, uint64_t file, uint64_t off);   // file -1: unmap
uint64_t sym_vm_mapped(void);
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int id);
int sym_thread_self(void);
int sym_thread_finished(int id);
unsigned sym_live_threads(void);
void sym_yield(void);
void sym_progress(void);                                // the thread did something new (not a repeated wait)
void sym_point(void);
void harness(void);
#ifdef __cplusplus
}
static inline uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi) { // symbolic value in [lo,hi]
  unsigned w = 1; while (w < 64 && (hi >> w)) w++;
  uint64_t v = sym_bits(name, w); sym_assume(v >= lo && v <= hi); return v;
}
static inline bool sym_bool(const char* name) { return sym_bits(name, 1) != 0; }
static inline float sym_float(const char* name) { uint32_t u = (uint32_t)sym_bits(name, 32); float f; __builtin_memcpy(&f, &u, 4); return f; }
static inline double sym_double(const char* name) { uint64_t u = sym_bits(name, 64); double f; __builtin_memcpy(&f, &u, 8); return f; }
static inline uint32_t fbits(float f) { uint32_t u; __builtin_memcpy(&u, &f, 4); return u; }
static inline uint64_t dbits(double f) { uint64_t u; __builtin_memcpy(&u, &f, 8); return u; }
#define CHECK(c, m) sym_check(!!(c), m)
#endif
