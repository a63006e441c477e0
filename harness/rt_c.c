// libc functions for the symbolic executor
#include <stddef.h>
#include <stdarg.h>
#include <stdbool.h>
#include <string.h>
#include <ctype.h>
#include <stdlib.h>
#undef isdigit
#undef isspace
#undef toupper
#undef tolower
#undef atoi
#define nullptr NULL
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; for (size_t i = 0; i < n; i++) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, size_t n) { const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b; unsigned char d = 0; for (size_t i = 0; i < n; i++) d |= p[i] ^ q[i]; return d != 0; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; if (n <= 16) { size_t r = 0; for (size_t i = n; i-- > 0;) { size_t hit = -(size_t)(p[i] == (unsigned char)c); r = ((size_t)(p + i) & hit) | (r & ~hit); } return (void*)r; } for (size_t i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (; *h; h++) if (!strncmp(h, n, l)) return (char*)h; return l ? nullptr : (char*)h; }
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u < 5u); }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
char* strerror(int) { return (char*)"error"; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
static int g_errno; int* __errno_location(void) { return &g_errno; }
long long strtoll(const char* s, char** end, int base) {
  const char* p = s; while (isspace((unsigned char)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if (base == 0) { if (*p == '0' && (p[1] | 32) == 'x') base = 16; else base = *p == '0' ? 8 : 10; }
  if (base == 16 && *p == '0' && (p[1] | 32) == 'x') p += 2;
  const char* d0 = p; unsigned long long v = 0; bool ov = false; unsigned long long lim = neg ? 0x8000000000000000ull : 0x7fffffffffffffffull; unsigned long long cut = lim / base, cutd = lim % base;
  for (;; p++) { unsigned c = (unsigned char)*p, u = c - '0', l = (c | 32) - 'a'; unsigned long long m = -(unsigned long long)(u < 10), k = -(unsigned long long)(l < 26), d = (u & m) | ((l + 10) & ~m & k) | (99 & ~m & ~k); if (d >= (unsigned long long)base) break; ov = ov | (v > cut) | ((v == cut) & (d > cutd)); v = v * base + d; }
  if (end) *end = (char*)(p == d0 ? s : p); if (ov) { g_errno = 34; return neg ? (long long)0x8000000000000000ull : (long long)0x7fffffffffffffffull; } return neg ? -(long long)v : (long long)v; }
unsigned long long strtoull(const char* s, char** end, int base) { return (unsigned long long)strtoll(s, end, base); }
long strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { return (unsigned long)strtoll(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return (unsigned long)strtoll(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoull(s, e, b); }
int atoi(const char* s) { return (int)strtoll(s, nullptr, 10); }
int __gxx_personality_v0(int x, ...) { return 0; }
int printf(const char*, ...) { return 0; }
int puts(const char*) { return 0; }
int putchar(int c) { return c; }
int vsnprintf(char* b, size_t n, const char* f, va_list ap) {
  size_t o = 0;
#define put(ch) do { char c_ = (ch); if (o + 1 < n) b[o] = c_; o++; } while (0)

  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    f++; bool zero = false, left = false; int width = 0, prec = -1; 
    for (;; f++) { if (*f == '0') zero = true; else if (*f == '-') left = true; else if (*f == '+' || *f == ' ' || *f == '#') {} else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + *f++ - '0';
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + *f++ - '0'; }
    int l = 0; while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j') { if (*f == 'l') l++; else if (*f == 'z' || *f == 'j') l = 2; f++; }
    char tmp[24]; int k = 0; bool neg = false; unsigned long long v; 
    switch (*f) {
    case '%': put('%'); continue;
    case 'c': put((char)va_arg(ap, int)); continue;
    case 's': { const char* s = va_arg(ap, const char*); int len = 0; while ((prec < 0 || len < prec) && s[len]) len++; if (!left) for (int i = len; i < width; i++) put(' '); for (int i = 0; i < len; i++) put(s[i]); if (left) for (int i = len; i < width; i++) put(' '); continue; }
    case 'd': case 'i': { long long x = l ? va_arg(ap, long long) : va_arg(ap, int); neg = x < 0; v = neg ? 0ull - x : x; do { tmp[k++] = '0' + v % 10; v /= 10; } while (v); break; }
    case 'u': v = l ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); do { tmp[k++] = '0' + v % 10; v /= 10; } while (v); break;
    case 'x': case 'X': case 'p': v = (l || *f == 'p') ? va_arg(ap, unsigned long long) : va_arg(ap, unsigned); do { tmp[k++] = (*f == 'X' ? "0123456789ABCDEF" : "0123456789abcdef")[v & 15]; v >>= 4; } while (v); break;
    case 'f': case 'g': case 'e': case 'F': case 'G': (void)va_arg(ap, double); tmp[k++] = 'F'; break;   // digits of floating-point numbers are not modelled
    default: put('?'); continue;
    }
    int tot = k + neg; if (!left && !zero) for (int i = tot; i < width; i++) put(' '); if (neg) put('-'); if (!left && zero) for (int i = tot; i < width; i++) put('0'); while (k) put(tmp[--k]); if (left) for (int i = tot; i < width; i++) put(' ');
  }
  if (n) b[o < n ? o : n - 1] = 0; return (int)o; }
int snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, n, f, ap); va_end(ap); return r; }
int sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }
struct timespec; __attribute__((weak)) int nanosleep(const struct timespec* a, struct timespec* b) { (void)a; (void)b; return 0; }
