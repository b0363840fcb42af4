#include <ce/ce.h>
#include <stddef.h>
using namespace ce;
struct rec { int key; unsigned tag; friend bool operator<(rec const& a, rec const& b) { return a.key < b.key; } };
#define API(S, N, T) using q##S = min_priority_queue<N, T>; \
    extern "C" { size_t lay##S[] = { sizeof(q##S), offsetof(q##S, size), offsetof(q##S, data) }; } \
    extern "C" bool w_enq##S(q##S* q, T const* v) { return q->enqueue(*v); } \
    extern "C" void w_deq##S(q##S* q, T* o) { *o = q->dequeue(); } \
    extern "C" void w_head##S(q##S const* q, T* o) { *o = q->head(); } \
    extern "C" bool w_empty##S(q##S const* q) { return q->empty(); }
API(I, 1000, int)
API(U, 3, unsigned long)
API(B, 1, unsigned char)
API(R, 64, rec)
API(H, 0x40000000, int)
