#include <ce/ce.h>
using namespace ce;
#define API(N) \
    extern "C" bool w_get##N(bitset<N> const* b, size_t i) { return (*b)[i]; } \
    extern "C" void w_set##N(bitset<N>* b, size_t i) { b->set(i); } \
    extern "C" void w_reset##N(bitset<N>* b, size_t i) { b->reset(i); } \
    extern "C" void w_put##N(bitset<N>* b, size_t i, bool v) { b->set(i, v); } \
    extern "C" void w_setall##N(bitset<N>* b) { b->set(); } \
    extern "C" void w_resetall##N(bitset<N>* b) { b->reset(); } \
    extern "C" size_t w_size##N(bitset<N> const* b) { return b->get_size(); } \
    static_assert(sizeof(bitset<N>) == (N + 7) / 8, "a bitset of N bits takes ceil(N/8) bytes");
API(1) API(7) API(8) API(13) API(64) API(100) API(1000) API(4294967297)
