#include <ce/sort.h>
#include <ce/zorder.h>
using namespace ce;
struct rec { int key; unsigned tag; friend bool operator<(rec const& a, rec const& b) { return a.key < b.key; } };
#define API(S, T) \
    extern "C" T const* w_lower##S(T const* a, T const* b, T const* k) { return lower_bound(a, b, *k); } \
    extern "C" T const* w_upper##S(T const* a, T const* b, T const* k) { return upper_bound(a, b, *k); }
API(I, int)
API(U, unsigned long)
API(B, unsigned char)
API(R, rec)
extern "C" uint64_t const* w_lowerZ(uint64_t const* a, uint64_t const* b, uint64_t const* k) { return z_lower_bound(a, b, *k); }
