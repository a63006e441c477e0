// Run-time library for the symbolic executor: the parts of libc/libstdc++ that live in shared objects.
#include "sym.h"
#include <cstdarg>
#include <cstring>
#include <cstdio>
#include <new>
#include <exception>
#include <stdexcept>
#include <thread>
#include <system_error>
#include <chrono>
#include <functional>
#include <string>
#include <map>
// exception classes
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
static char* dupmsg(const char* s) { static char pool[8][128]; static unsigned n; char* d = pool[n++ % 8]; size_t i = 0; for (; i < 127 && s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
__cow_string::__cow_string() { _M_p = nullptr; } __cow_string::__cow_string(const std::string& s) { _M_p = dupmsg(s.c_str()); } __cow_string::__cow_string(const char* s, size_t) { _M_p = dupmsg(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; } __cow_string::~__cow_string() {} __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; } __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define CSTR(m) (*(const char* const*)&(m))
runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {} runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {} runtime_error::runtime_error(const runtime_error& o) noexcept : _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; } runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return CSTR(_M_msg); }
logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s, 0) {} logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {} logic_error::logic_error(const logic_error& o) noexcept : _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; } logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return CSTR(_M_msg); }
#define LE(c, b) c::c(const string& s) : b(s) {} c::c(const char* s) : b(s) {} c::~c() noexcept {}
LE(invalid_argument, logic_error) LE(out_of_range, logic_error) LE(length_error, logic_error) LE(domain_error, logic_error) LE(range_error, runtime_error) LE(overflow_error, runtime_error) LE(underflow_error, runtime_error)
void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_length_error(const char* s) { throw length_error(s); } void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
struct bfc : std::exception { const char* what() const noexcept override { return "bad_function_call"; } };
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_bad_function_call() { throw bad_function_call(); }
// threads
struct LaunchArg { thread::_State* s; };
static void launch(void* a) { LaunchArg* l = (LaunchArg*)a; thread::_State* s = l->s; delete l; s->_M_run(); delete s; }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)()) { auto* l = new LaunchArg{s.release()}; int id = sym_thread_create(launch, l); *(unsigned long*)&_M_id = (unsigned long)id; }
void thread::join() { if (!joinable()) sym_fail("join of a thread that is not joinable (std::system_error)"); sym_thread_join((int)*(unsigned long*)&_M_id); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 4; }
// hash tables and trees
namespace __detail {
struct _Prime_rehash_policy;
}
}
extern "C" unsigned long _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(void* self, unsigned long n) { static const unsigned long p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727, 62233}; unsigned i = 0; while (i < 14 && p[i] < n) i++; *(unsigned long*)((char*)self + 8) = p[i]; return p[i]; }
struct PR { bool b; unsigned long n; };
extern "C" PR _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(void* self, unsigned long nb, unsigned long ne, unsigned long ni) { if (ne + ni > nb) return {true, _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(self, ne + ni > nb * 2 ? ne + ni : nb * 2)}; return {false, 0}; }
extern "C" size_t _ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char*)p)[i]; return h; }
// ordered maps: the same nodes and links as libstdc++'s, without the rebalancing
namespace std {
typedef _Rb_tree_node_base NB_; static NB_* mn(NB_* x) { while (x->_M_left) x = x->_M_left; return x; } static NB_* mx(NB_* x) { while (x->_M_right) x = x->_M_right; return x; }
NB_* _Rb_tree_increment(NB_* x) throw() { if (x->_M_right) return mn(x->_M_right); NB_* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const NB_* _Rb_tree_increment(const NB_* x) throw() { return _Rb_tree_increment(const_cast<NB_*>(x)); }
NB_* _Rb_tree_decrement(NB_* x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) return mx(x->_M_left); NB_* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const NB_* _Rb_tree_decrement(const NB_* x) throw() { return _Rb_tree_decrement(const_cast<NB_*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, NB_* x, NB_* p, NB_& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
NB_* _Rb_tree_rebalance_for_erase(NB_* const z, NB_& h) throw() {
  auto put = [&](NB_* a, NB_* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (!z->_M_left) put(z, z->_M_right); else if (!z->_M_right) put(z, z->_M_left);
  else { NB_* y = mn(z->_M_right); if (y->_M_parent != z) { put(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } put(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  if (h._M_parent) { h._M_left = mn(h._M_parent); h._M_right = mx(h._M_parent); } else { h._M_left = h._M_right = &h; } return z;
}
}
// clocks: any non-decreasing sequence would do for callers that only measure; harnesses that decide timing define their own
static uint64_t g_now; extern "C" __attribute__((weak)) uint64_t verif_clock_ns() { return g_now += 1000; }
namespace std { namespace chrono { inline namespace _V2 { steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(verif_clock_ns())); } system_clock::time_point system_clock::now() noexcept { return time_point(duration(verif_clock_ns())); } } } }
template class std::basic_string<char>;
