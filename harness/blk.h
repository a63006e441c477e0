// Channels and external libraries for checking signal blocks: a model output channel of exact size, DSP library stubs that are
// deterministic per-sample state machines over the sample bits, and substitutes for random numbers and libm calls.
#pragma once
#include "env_vm.h"
#include "clock.h"
#include <vector>
#include <complex>
#include <random>
typedef std::complex<float> cf;
static inline uint32_t rotl(uint32_t x, int k) { return (x << k) | (x >> (32 - k)); }
static inline float bitsf(uint32_t u) { float f; __builtin_memcpy(&f, &u, 4); return f; }
// a stateful per-sample machine: what "the library" computes from the k-th sample
struct Mach { uint32_t s = 0x1234567; uint32_t step(uint32_t x) { uint32_t y = rotl(x, 7) ^ s; s = rotl(s, 3) + x + 1; return y; } };
template <class T> static T symSample() { if constexpr (std::is_same_v<T, cf>) { float a = sym_float("re"), b = sym_float("im"); return cf(a, b); } else if constexpr (std::is_same_v<T, float>) return sym_float("x"); else return T{(uint32_t)sym_bits("x", 32)}; }
template <class T> static bool same(const T& a, const T& b) { return !__builtin_memcmp(&a, &b, sizeof(T)); }
template <> bool same<float>(const float& a, const float& b) { return fbits(a) == fbits(b); }
template <> bool same<cf>(const cf& a, const cf& b) { return (fbits(a.real()) == fbits(b.real())) & (fbits(a.imag()) == fbits(b.imag())); }
#include "cler.hpp"
// an output with room for exactly `room` items, in its own exactly sized memory; every way of writing is counted and bounded
template <class T> struct Out : cler::ChannelBase<T> {
  T* buf = nullptr; size_t room = 0, n = 0, split = 0; bool dbf = true;
  void reset(size_t r) { free(buf); buf = (T*)malloc(r ? r * sizeof(T) : 1); room = r; n = 0; split = r / 2; }
  size_t any(const char* nm, size_t most) { size_t r = (size_t)sym_range(nm, 0, 1ull << 40); size_t lim = (size_t)sym_concretize(r <= most ? r : most + 1); reset(lim); room = r; return r; }   // any room; the memory is exact up to most + 1 items
  ~Out() { free(buf); }
  size_t size() const override { return 0; } size_t space() const override { return room - n; }
  void push(const T& v) override { CHECK(n < room, "no push beyond the space of the output"); if (n < room) buf[n++] = v; } void pop(T&) override { sym_fail("a block must not read its output"); }
  bool try_push(const T& v) override { if (n >= room) return false; buf[n++] = v; return true; } bool try_pop(T&) override { sym_fail("a block must not read its output"); return false; }
  size_t writeN(const T* d, size_t k) override { CHECK(k <= room - n, "no write beyond the space of the output"); if (k > room - n) k = room - n; for (size_t i = 0; i < k; i++) buf[n + i] = d[i]; n += k; return k; }
  size_t readN(T*, size_t) override { sym_fail("a block must not read its output"); return 0; }
  size_t peek_write(T*& a, size_t& an, T*& b, size_t& bn) override { an = n < split ? split - n : room - n; bn = room - n - an; a = buf + n; b = bn ? buf + n + an : nullptr; return an + bn; }
  size_t peek_read(const T*& a, size_t& an, const T*& b, size_t& bn) override { a = b = nullptr; an = bn = 0; return 0; }
  void commit_read(size_t) override { sym_fail("a block must not read its output"); } void commit_write(size_t k) override { CHECK(k <= room - n, "no commit beyond the space of the output"); if (k > room - n) k = room - n; n += k; }
  std::pair<const T*, size_t> read_dbf() override { return {nullptr, 0}; } std::pair<T*, size_t> write_dbf() override { if (!dbf) return {nullptr, 0}; return {buf + n, room - n}; }
};
template <class C> static void rotate(C& c, size_t k) { c.commit_write(k); c.commit_read(k); }
// normal random numbers: the k-th draw is mean + stddev * unit(k)
namespace std { struct verif_rd { typedef unsigned result_type; unsigned operator()() { return 7; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } };
static unsigned verif_draws; template <class T> static T verif_unit(unsigned k) { return (T)(int)(k % 5) - (T)2; }
template <class T = double> struct verif_normal { T m, d; explicit verif_normal(T a = 0, T b = 1) : m(a), d(b) {} template <class G> T operator()(G&) { return m + d * verif_unit<T>(verif_draws++); } void reset() {} };
struct verif_mt { typedef unsigned result_type; void seed(unsigned) {} verif_mt() {} explicit verif_mt(unsigned) {} unsigned operator()() { return 1; } static constexpr unsigned min() { return 0; } static constexpr unsigned max() { return ~0u; } }; }
