#include <ce/clock.h>
#include <../os_posix.cpp>
#include <stddef.h>
using namespace ce;
#define API(S, ...) using clk##S = ce::clock<__VA_ARGS__>; \
    extern "C" { size_t lay##S[] = { sizeof(clk##S), offsetof(clk##S, frequency), offsetof(clk##S, timestamp), offsetof(clk##S, residual), offsetof(clk##S, tick) }; } \
    extern "C" void w_reset##S(clk##S* c) { c->reset(); } \
    extern "C" uint64_t w_elapsed##S(clk##S* c) { return c->elapsed(); } \
    extern "C" uint64_t w_current##S(clk##S* c) { return c->current(); }
API(A, 60)
API(B, 1000)
API(C, 1000000000)
API(D, 24000, 1001)
API(E, 1, 60)
extern "C" uint64_t w_ts() { return os::monotonic_timestamp(); }
extern "C" uint64_t w_freq() { return os::monotonic_frequency(); }
extern "C" void w_sleep(uint64_t ns) { os::sleep_ns(ns); }
