// Force-included in native replays of concurrent witnesses: std::atomic becomes a cell whose accesses follow the witness
// (schedule and read-from choices).  Everything else of the code under test is compiled unchanged.
#pragma once
#include "allstd.h"
extern "C" { void verif_point(void); unsigned verif_readfrom(void); void verif_hist_put(const void*, unsigned long long); int verif_hist_get(const void*, unsigned, unsigned long long*); void verif_hist_new(const void*); }
namespace std {
template <class T> class verif_atomic {
  atomic<T> r;
  static unsigned long long enc(T v) { unsigned long long u = 0; static_assert(sizeof(T) <= 8); memcpy(&u, &v, sizeof(T)); return u; }
  void put(T v) { verif_hist_put(this, enc(v)); }
public:
  verif_atomic() noexcept : r(T()) { verif_hist_new(this); put(T()); } verif_atomic(T v) noexcept : r(v) { verif_hist_new(this); put(v); } verif_atomic(const verif_atomic&) = delete; verif_atomic& operator=(const verif_atomic&) = delete;
  T load(memory_order o = memory_order_seq_cst) const noexcept { verif_point(); unsigned c = verif_readfrom(); unsigned long long u; if (c && verif_hist_get(this, c, &u)) { T v; memcpy((void*)&v, &u, sizeof(T)); return v; } return r.load(o); }
  void store(T v, memory_order o = memory_order_seq_cst) noexcept { verif_point(); r.store(v, o); put(v); }
  operator T() const noexcept { return load(); } T operator=(T v) noexcept { store(v); return v; }
  T exchange(T v, memory_order o = memory_order_seq_cst) noexcept { verif_point(); T x = r.exchange(v, o); put(v); return x; }
  bool compare_exchange_strong(T& e, T v, memory_order o = memory_order_seq_cst, memory_order f = memory_order_seq_cst) noexcept { (void)f; verif_point(); bool k = r.compare_exchange_strong(e, v, o); if (k) put(v); return k; }
  bool compare_exchange_weak(T& e, T v, memory_order o = memory_order_seq_cst, memory_order f = memory_order_seq_cst) noexcept { return compare_exchange_strong(e, v, o, f); }
  template <class U> T fetch_add(U v, memory_order o = memory_order_seq_cst) noexcept { verif_point(); T x = r.load(memory_order_relaxed); r.store(x + v, o); put(x + v); return x; }
  template <class U> T fetch_sub(U v, memory_order o = memory_order_seq_cst) noexcept { return fetch_add(-v, o); }
  T operator++() noexcept { return fetch_add(1) + 1; } T operator++(int) noexcept { return fetch_add(1); } T operator--() noexcept { return fetch_sub(1) - 1; } T operator--(int) noexcept { return fetch_sub(1); }
  T operator+=(T v) noexcept { return fetch_add(v) + v; }
  bool is_lock_free() const noexcept { return true; } static constexpr bool is_always_lock_free = true;
};
}
#define atomic verif_atomic
