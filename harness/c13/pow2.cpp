// C13: the power-of-two helpers for every machine word; FALLBACK takes the portable code path.
#include "../env_vm.h"
#include "cler.hpp"
#if FALLBACK
#undef __GNUC__
#undef __clang__
#endif
#include "cler_utils.hpp"
static bool pow2(uint64_t v) { unsigned c = 0; for (int i = 0; i < 64; i++) c += (v >> i) & 1; return c == 1; }
extern "C" void harness() {
  uint64_t x = sym_bits("x", 64); CHECK(cler::is_power_of_2(x) == pow2(x), "true exactly for powers of two");
  size_t f = cler::floor2p2(x); if (x == 0) { CHECK(f == 0, "zero rounds down to zero"); sym_reach("zero"); } else { CHECK(pow2(f) && f <= x && x - f < f, "the greatest power of two not above"); sym_reach("positive"); }
  if (x <= (1ull << 63)) { size_t c = cler::ceil2p2(x); CHECK(pow2(c) && c >= x && (c == 1 || c / 2 < x), "the least power of two not below"); sym_reach("end"); }
}
