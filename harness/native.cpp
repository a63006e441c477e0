// Native side of the harness interface: replays a solver witness (file named by REPLAY) against the real, compiled code.
// Exit codes: 66 a check failed (or deadlock/livelock), 77 the witness does not fit this run, 0 no violation; sanitizers use 99.
#include "sym.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <map>
#include <unistd.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <pthread.h>
#if defined(VERIF_TSAN)
extern "C" { void __tsan_acquire(void*); void __tsan_release(void*); void* __tsan_get_current_fiber(void); void AnnotateIgnoreReadsBegin(const char*, int); void AnnotateIgnoreReadsEnd(const char*, int); void AnnotateIgnoreWritesBegin(const char*, int); void AnnotateIgnoreWritesEnd(const char*, int); void* __tsan_create_fiber(unsigned); void __tsan_switch_to_fiber(void*, unsigned); }
#endif
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)); extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
#endif
#if defined(VERIF_TSAN)   // this file is compiled without instrumentation; ignore what the interceptors see of it
struct Quiet { Quiet() { AnnotateIgnoreReadsBegin(__FILE__, __LINE__); AnnotateIgnoreWritesBegin(__FILE__, __LINE__); } ~Quiet() { AnnotateIgnoreWritesEnd(__FILE__, __LINE__); AnnotateIgnoreReadsEnd(__FILE__, __LINE__); } };
#else
struct Quiet {};
#endif
struct In { std::string name; unsigned w; uint64_t hi, lo; };
static std::vector<In>& ins() { static auto* v = new std::vector<In>; return *v; } static size_t pos; static bool loaded; static bool quiet = false;
static void mismatch(const char* what, const char* got) { fprintf(stderr, "REPLAY-MISMATCH %s (%s) at input %zu\n", what, got, pos); fflush(stderr); _exit(77); }
static void loadAll() { if (loaded) return; loaded = true; const char* f = getenv("REPLAY"); FILE* p = f ? fopen(f, "r") : nullptr; if (!p) { fprintf(stderr, "no REPLAY file\n"); _exit(78); }
  char nm[512]; unsigned w; unsigned long long h, l; while (fscanf(p, "%511s %u %llx %llx", nm, &w, &h, &l) == 4) ins().push_back({nm, w, h, l}); fclose(p); }
static std::string san(const char* n) { std::string s; for (; *n; n++) s += (*n == ' ' || *n == '\t' || *n == '\n') ? '_' : *n; return s.empty() ? "_" : s; }
static uint64_t next(const char* name) { Quiet qq; loadAll(); if (pos >= ins().size()) { // past the violation point recorded by the executor
    return 0; } std::string s = san(name); if (ins()[pos].name != s) mismatch(name, ins()[pos].name.c_str()); return ins()[pos++].lo; }
static void die(const char* m) { fprintf(stderr, "REPLAY-VIOLATION %s\n", m); fflush(stderr); _exit(66); }
extern "C" {
int sym_in_engine(void) { return 0; }
uint64_t sym_bits(const char* n, unsigned w) { uint64_t v = next(n); if (w < 64) v &= (1ull << w) - 1; return v; }
void sym_bytes(void* p, uint64_t n, const char* nm) { for (uint64_t i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(nm); }
void sym_assume(int c) { if (!c) mismatch("an assumption is false", "-"); }
void sym_check(int c, const char* m) { if (!c) die(m); }
void sym_fail(const char* m) { die(m); }
unsigned sym_choose(const char* nm, unsigned n) { return (unsigned)next(nm) % (n ? n : 1); }
void sym_part(unsigned, uint64_t) {}
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_reach(const char*) {}
void sym_note(const char* n, uint64_t v) { if (getenv("REPLAY_VERBOSE")) fprintf(stderr, "note %s=%llu\n", n, (unsigned long long)v); }
uint64_t sym_uf(const char* nm, unsigned w, unsigned, ...) { std::string s = std::string("uf:") + nm; uint64_t v = next(s.c_str()); if (w < 64) v &= (1ull << w) - 1; return v; }
int sym_is_init(const void* p, uint64_t n) { const uint8_t* b = (const uint8_t*)p; for (uint64_t i = 0; i < n; i++) if (b[i] != 0xa5) return 1; return 0; }
void sym_poison(void* p, uint64_t n) { memset(p, 0xa5, n); }
void sym_touch(const void* p, uint64_t n, int w) { volatile uint8_t* b = (volatile uint8_t*)p; for (uint64_t i = 0; i < n; i++) { uint8_t x = b[i]; if (w) b[i] = x; } }
// heap accounting
static int64_t live, bytes; 
#if defined(__SANITIZE_ADDRESS__)
static void onMalloc(const volatile void*, size_t n) { if (quiet) return; __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&bytes, n, __ATOMIC_RELAXED); }
static void onFree(const volatile void* p) { if (quiet) return; if (p) { __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&bytes, __sanitizer_get_allocated_size((const void*)p), __ATOMIC_RELAXED); } }
#endif
uint64_t sym_live_heap(void) { return live; } uint64_t sym_heap_bytes(void) { return bytes; }
// virtual memory
static uint64_t mapped; static std::vector<int> files; static std::map<uint64_t, int> pages;   // page -> present
uint64_t sym_vm_reserve(uint64_t len, uint64_t align) { quiet = true; len = (len + 4095) / 4096 * 4096; if (align < 4096) align = 4096; char* p = (char*)mmap(nullptr, len + align, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); uint64_t b = ((uint64_t)p + align - 1) / align * align; for (uint64_t o = 0; o < len; o += 4096) pages[b + o] = 1; quiet = false; return b; }
uint64_t sym_vm_file(uint64_t len) { quiet = true; int fd = memfd_create("verif", 0); if (ftruncate(fd, len)) mismatch("ftruncate", "-"); files.push_back(fd); quiet = false; return files.size() - 1; }
int sym_vm_map(uint64_t a, uint64_t len, uint64_t f, uint64_t off) { quiet = true; len = (len + 4095) / 4096 * 4096; if ((int64_t)f >= 0) { mmap((void*)a, len, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, files[f], off); for (uint64_t o = 0; o < len; o += 4096) pages[a + o] = 1; } else { mmap((void*)a, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0); for (uint64_t o = 0; o < len; o += 4096) pages.erase(a + o); } quiet = false; return 0; }
uint64_t sym_vm_mapped(void) { return pages.size() * 4096; }
}
// cooperative threads following the recorded schedule
struct Co { ucontext_t uc; void (*fn)(void*); void* arg; bool fin = false, atPoint = false; int joinOn = -1; pthread_mutex_t* lockOn = nullptr; char* stack = nullptr; void* fiber = nullptr; };
static std::vector<Co*>& cos() { static auto* v = new std::vector<Co*>; return *v; } static int curCo = 0; static bool everMulti;
static void initCo() { if (cos().empty()) { quiet = true; auto* c = new Co; cos().push_back(c);
#if defined(VERIF_TSAN)
  c->fiber = __tsan_get_current_fiber();
#endif
  quiet = false; } }
static void swtch(int to) { if (to == curCo) return; Co *a = cos()[curCo], *b = cos()[to]; curCo = to;
#if defined(VERIF_TSAN)
  __tsan_switch_to_fiber(b->fiber, 1);
#endif
  swapcontext(&a->uc, &b->uc); }
static unsigned liveCount() { unsigned n = 0; for (auto* c : cos()) n += !c->fin; return n; }
static std::map<pthread_mutex_t*, int>& owners() { static auto* m = new std::map<pthread_mutex_t*, int>; return *m; }
static void pickNext() { // called when the current thread is at a point or finished
  for (size_t i = 0; i < cos().size(); i++) if (!cos()[i]->fin && !cos()[i]->atPoint) { swtch((int)i); return; }
  if (liveCount() <= 1) { for (size_t i = 0; i < cos().size(); i++) if (!cos()[i]->fin) { swtch((int)i); return; } _exit(0); }
  loadAll();
  if (pos >= ins().size()) { // end of the recorded schedule: is anything able to run?
    for (size_t i = 0; i < cos().size(); i++) { Co* c = cos()[i]; if (c->fin) continue; if (c->joinOn >= 0 && !cos()[c->joinOn]->fin) continue; if (c->lockOn && owners().count(c->lockOn)) continue; static int spins; if (++spins > 20000) die("livelock: the threads spin without progress after the recorded schedule"); static unsigned rr; unsigned n = cos().size(); for (unsigned k = 0; k < n; k++) { Co* d = cos()[++rr % n]; if (d->fin || (d->joinOn >= 0 && !cos()[d->joinOn]->fin) || (d->lockOn && owners().count(d->lockOn))) continue; d->atPoint = false; swtch(rr % n); return; } }
    die("deadlock: every thread is blocked"); }
  int t = (int)next("sched"); if (t < 0 || t >= (int)cos().size() || cos()[t]->fin) mismatch("schedule names a finished thread", "-");
  cos()[t]->atPoint = false; swtch(t);
}
#if defined(VERIF_TSAN)
#define TACQ(p) __tsan_acquire(p)
#define TREL(p) __tsan_release(p)
#else
#define TACQ(p) (void)0
#define TREL(p) (void)0
#endif
static std::map<const void*, std::vector<unsigned long long>>& hist() { static auto* m = new std::map<const void*, std::vector<unsigned long long>>; return *m; }
extern "C" { void verif_hist_new(const void* p) { Quiet q; bool z = quiet; quiet = true; hist()[p].clear(); quiet = z; } void verif_hist_put(const void* p, unsigned long long v) { Quiet q; bool z = quiet; quiet = true; hist()[p].push_back(v); quiet = z; }
int verif_hist_get(const void* p, unsigned c, unsigned long long* v) { Quiet q; auto& h = hist()[p]; if (c >= h.size()) return 0; *v = h[h.size() - 1 - c]; return 1; } }
static void entry() { Co* c = cos()[curCo]; TACQ(c); c->fn(c->arg); TREL(&c->fin); c->fin = true; pickNext(); }
extern "C" {
void verif_point(void) { if (cos().size() < 2 || liveCount() < 2) return; cos()[curCo]->atPoint = true; pickNext(); cos()[curCo]->atPoint = false; }
unsigned verif_readfrom(void) { if (!everMulti) return 0; return (unsigned)next("readfrom"); }
int sym_thread_create(void (*fn)(void*), void* arg) { initCo(); quiet = true; Co* c = new Co; c->fn = fn; c->arg = arg; size_t sz = 1 << 20; c->stack = (char*)mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); getcontext(&c->uc); c->uc.uc_stack.ss_sp = c->stack; c->uc.uc_stack.ss_size = sz; c->uc.uc_link = nullptr; makecontext(&c->uc, entry, 0);
#if defined(VERIF_TSAN)
  c->fiber = __tsan_create_fiber(0);
#endif
  TREL(c); { Quiet q; cos().push_back(c); } quiet = false; everMulti = true; return (int)cos().size() - 1; }
void sym_thread_join(int id) { if (id < 0 || id >= (int)cos().size()) die("join of an unknown thread"); if (id == curCo) die("a thread joins itself"); if (liveCount() >= 2) { cos()[curCo]->joinOn = id; verif_point(); cos()[curCo]->joinOn = -1; } if (!cos()[id]->fin) die("join can never return"); TACQ(&cos()[id]->fin); }
int sym_thread_self(void) { return curCo; }
int sym_thread_finished(int id) { return cos()[id]->fin; }
unsigned sym_live_threads(void) { initCo(); return liveCount(); }
void sym_yield(void) { verif_point(); }
void sym_progress(void) {}
void sym_point(void) { verif_point(); }
int __real_pthread_mutex_lock(pthread_mutex_t*); int __real_pthread_mutex_unlock(pthread_mutex_t*); int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { if (!everMulti) return __real_pthread_mutex_lock(m); cos()[curCo]->lockOn = m; verif_point(); cos()[curCo]->lockOn = nullptr; if (owners().count(m)) die("mutex locked twice"); { Quiet q; owners()[m] = curCo; } TACQ(m); return __real_pthread_mutex_trylock(m), 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { if (!everMulti) return __real_pthread_mutex_unlock(m); verif_point(); TREL(m); { Quiet q; owners().erase(m); } return __real_pthread_mutex_unlock(m); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (!everMulti) return __real_pthread_mutex_trylock(m); verif_point(); if (owners().count(m)) return 16; { Quiet q; owners()[m] = curCo; } TACQ(m); return __real_pthread_mutex_trylock(m), 0; }
#if defined(__SANITIZE_ADDRESS__)
const char* __asan_default_options() { return "exitcode=99:detect_leaks=0:handle_abort=1:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:use_sigaltstack=0:alloc_dealloc_mismatch=1"; }
#endif
const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
const char* __tsan_default_options() { return "exitcode=99:halt_on_error=1"; }
}
#ifdef REPLAY_THREADS
#include <thread>
#endif
int main() {
  loadAll(); initCo();
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);
#endif
  alarm(60);
  harness();
  fprintf(stderr, "REPLAY-CLEAN\n"); fflush(stderr); _exit(0);
}
