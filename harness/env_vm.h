// Operating-system model for the doubly mapped buffers: memfd/shm, mmap/munmap, ftruncate, sysconf, /proc/meminfo.
// Mappings are real aliases (executor regions or native MAP_SHARED pages); with FAULTS every call may fail.
#pragma once
#include "sym.h"
#include "allstd.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <pthread.h>
#include <sched.h>
#include <cstdio>
#include <cstring>
#include <ctime>
#include <chrono>
#include <string>
#include <cstdlib>
#ifndef PAGE_SZ
#define PAGE_SZ 4096
#endif
#ifndef HUGE_KB
#define HUGE_KB 0
#endif
#ifndef FAULTS
#define FAULTS 0
#endif
namespace venv {
struct Fd { bool open = false; bool sized = false; uint64_t len = 0; uint64_t file = 0; };
static unsigned nmaps; struct Map { bool used = false; uint64_t addr = 0, len = 0; };
static Map maps[32]; static Fd fds[64]; static unsigned nfds; static int bad_calls; static unsigned faults_left = FAULTS; static bool broken_alias; static unsigned fault_calls;
static uint64_t win_base, win_len; static bool second;   // the last pair of fixed mappings
static uint64_t open_fds() { uint64_t n = 0; for (unsigned i = 0; i < nfds; i++) n += fds[i].open; return n; }
static bool fault(const char* what);
static bool fault(const char* what) { fault_calls++; if (!faults_left) return false; if (sym_choose(what, 2) == 0) return false; faults_left--; errno = ENOMEM; return true; }
static Fd* get(int fd) { if (fd < 100 || fd >= 100 + (int)nfds || !fds[fd - 100].open) { CHECK(false, "a system call is given a file descriptor that is not open"); return nullptr; } return &fds[fd - 100]; }
static int newfd(const char* what) { if (fault(what)) return -1; CHECK(nfds < 64, "descriptor table"); fds[nfds].open = true; fds[nfds].sized = false; return 100 + (int)nfds++; }
static long v_syscall(long n, ...) { if (n != SYS_memfd_create) { sym_fail("unexpected system call"); return -1; } return newfd("memfd_create"); }
static int v_shm_open(const char*, int, mode_t) { return newfd("shm_open"); }
static int v_shm_unlink(const char*) { return 0; }
static int v_ftruncate(int fd, off_t len) { Fd* f = get(fd); if (!f) return -1; if (fault("ftruncate")) return -1; f->len = len; f->file = sym_vm_file(len); f->sized = true; return 0; }
static int v_close(int fd) { Fd* f = get(fd); if (!f) return -1; f->open = false; return 0; }
static void* v_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off) {
  if (fault("mmap")) return MAP_FAILED;
  uint64_t r = (len + PAGE_SZ - 1) / PAGE_SZ * PAGE_SZ;
  if (flags & MAP_FIXED) { CHECK((uint64_t)a % PAGE_SZ == 0, "a fixed mapping is page aligned"); Fd* f = get(fd); if (!f) return MAP_FAILED; CHECK(f->sized, "the file is sized before it is mapped"); sym_vm_map((uint64_t)a, r, second && fault("mirror maps other memory") ? sym_vm_file(r) : f->file, off); if (!second) { win_base = (uint64_t)a; win_len = 0; } else win_len = (uint64_t)a - win_base; second = !second; return a; }
  second = false;
  uint64_t b = sym_vm_reserve(r, (flags & MAP_HUGETLB) && HUGE_KB ? HUGE_KB * 1024 : PAGE_SZ);
  CHECK(nmaps < 32, "mapping table"); if (nmaps < 32) { maps[nmaps].used = true; maps[nmaps].addr = b; maps[nmaps++].len = r; } return (void*)b;
}
static int v_munmap(void* a, size_t len) { CHECK((uint64_t)a % PAGE_SZ == 0 && a, "munmap gets a page-aligned address"); uint64_t r = (len + PAGE_SZ - 1) / PAGE_SZ * PAGE_SZ; bool found = false; for (unsigned i = 0; i < nmaps; i++) if (maps[i].used && maps[i].addr == (uint64_t)a) { found = true; CHECK(maps[i].len == r, "the whole reservation is unmapped at once"); maps[i].used = false; } CHECK(found, "only a live reservation is unmapped, and only once"); sym_vm_map((uint64_t)a, (len + PAGE_SZ - 1) / PAGE_SZ * PAGE_SZ, (uint64_t)-1, 0); return 0; }
static long v_sysconf(int n) { if (n == _SC_PAGESIZE) return PAGE_SZ; return -1; }
static int meminfoOpen; static bool lineGiven;
static FILE* v_fopen(const char* n, const char*) { if (HUGE_KB == 0) return nullptr; (void)n; meminfoOpen++; lineGiven = false; return (FILE*)(void*)&meminfoOpen; }
static char* v_fgets(char* b, int n, FILE*) { if (lineGiven) return nullptr; lineGiven = true; strncpy(b, "Hugepagesize", n); return b; }
static int v_sscanf(const char*, const char*, size_t* o) { *o = HUGE_KB; return 1; }
static int v_fclose(FILE*) { meminfoOpen--; return 0; }
static time_t v_time(time_t*) { return 1; }
static int v_getpid() { return 1; }
}
#define sysconf venv::v_sysconf
#define mmap venv::v_mmap
#define munmap venv::v_munmap
#define ftruncate venv::v_ftruncate
#define close venv::v_close
#define syscall venv::v_syscall
#define shm_open venv::v_shm_open
#define shm_unlink venv::v_shm_unlink
#ifndef ENV_KEEP_STDIO
#define fopen venv::v_fopen
#define fgets venv::v_fgets
#define sscanf venv::v_sscanf
#define fclose venv::v_fclose
#endif
#define time venv::v_time
#define getpid venv::v_getpid
