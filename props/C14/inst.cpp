#include <ce/dictionary.h>
using namespace ce;
#define API(S, N, T, K) \
    using D##S = dictionary<N, T, K>; \
    extern "C" void w_init##S(D##S* d) { *d = D##S{}; } \
    extern "C" unsigned w_find##S(D##S const* d, K n) { return unsigned(d->find(n)); } \
    extern "C" unsigned w_bind##S(D##S* d, K n, T v) { return unsigned(d->bind(n, v)); } \
    extern "C" T w_at##S(D##S const* d, unsigned p) { return (*d)[D##S::ptr_t(p)]; } \
    extern "C" void w_set##S(D##S* d, unsigned p, T v) { (*d)[D##S::ptr_t(p)] = v; } \
    extern "C" T w_key##S(D##S const* d, K n) { return (*d)[n]; } \
    extern "C" void w_setkey##S(D##S* d, K n, T v) { (*d)[n] = v; } \
    extern "C" size_t lay##S[5]; size_t lay##S[5] = { sizeof(D##S), __builtin_offsetof(D##S, size), __builtin_offsetof(D##S, data), __builtin_offsetof(D##S, heap), __builtin_offsetof(D##S, names) };
API(A, 50, unsigned, unsigned)
API(B, 3, unsigned long, unsigned long)
