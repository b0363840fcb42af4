#include <ce/sort.h>
using namespace ce;
struct rec { int key; unsigned tag; friend bool operator<(rec const& a, rec const& b) { return a.key < b.key; } };
#define API(S, T, N) \
    extern "C" void w_ins##S(T* a, T* b) { insertion_sort(a, b); } \
    extern "C" void w_med##S(T* a, T* b, T* c) { median(*a, *b, *c); } \
    extern "C" T* w_part##S(T* a, T* b) { return partition(a, b); } \
    extern "C" void w_rec##S(T* a, T* b, size_t n) { intro_sort<N, T>(a, b, n); } \
    extern "C" void w_sort##S(T* a, T* b) { intro_sort<N>(a, b); }
API(I, int, 128)
API(U, unsigned long, 2)
API(R, rec, 16)
extern "C" void w_default(int* a, int* b) { intro_sort(a, b); }
