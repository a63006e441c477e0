// The clocks read verif_clock_ns(), which the harness defines (both in the executor and natively).
#pragma once
#include <stdint.h>
#include <chrono>
extern "C" uint64_t verif_clock_ns();
#ifndef SYM_ENGINE
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(verif_clock_ns())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(verif_clock_ns())); }
} } }
#endif
