#include <ce/pool.h>
using namespace ce;
#define API(S, N, T, X) \
    using P##S = pool<N, T, X>; using Q##S = P##S::queue_t; \
    extern "C" void w_reset##S(P##S* p) { p->reset(); } \
    extern "C" void w_qreset##S(Q##S* q) { q->reset(); } \
    extern "C" X w_alloc##S(P##S* p) { return p->alloc_index(); } \
    extern "C" void w_free##S(P##S* p, X i) { p->free_index(i); } \
    extern "C" bool w_empty##S(P##S const* p, Q##S const* q) { return p->is_empty(*q); } \
    extern "C" T* w_head##S(P##S* p, Q##S q) { return &p->head(q); } \
    extern "C" T* w_tail##S(P##S* p, Q##S q) { return &p->tail(q); } \
    extern "C" bool w_remove##S(P##S* p, Q##S* q) { return p->remove_head(*q); } \
    extern "C" bool w_insert##S(P##S* p, Q##S* q, T const* v) { return p->insert_head(*q, *v); } \
    extern "C" bool w_append##S(P##S* p, Q##S* q, T const* v) { return p->append_tail(*q, *v); } \
    extern "C" size_t w_cap##S() { return P##S::capacity(); } \
    extern "C" size_t lay##S[6]; size_t lay##S[6] = { sizeof(P##S), __builtin_offsetof(P##S, next), __builtin_offsetof(P##S, size), __builtin_offsetof(P##S, data), sizeof(Q##S), N };
API(A, 100, unsigned long, uint16_t)
API(B, 256, unsigned, uint8_t)
API(C, 2, unsigned, uint32_t)
