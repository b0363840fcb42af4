#include <ce/ce.h>
#include <stddef.h>
using namespace ce;
// element with observable lifetime: its special members are declared only, their contracts keep the `live` mark
struct obj { int v; int live; obj(); obj(int); obj(obj const&); obj(obj&&); obj& operator=(obj const&); obj& operator=(obj&&); ~obj(); };
// default constructible and assignable, but not copy constructible
struct asg { int v; int live; asg(); asg(asg const&) = delete; asg& operator=(asg const&); asg& operator=(asg&&); ~asg(); };
#define BASE(S, N, T) using b##S = bulk<N, T>; using B##S = b##S; \
    extern "C" { size_t lay##S[] = { sizeof(b##S), offsetof(b##S, size), offsetof(b##S, data), sizeof(T), N }; } \
    extern "C" void w_ctor##S(B##S* b) { CE_CONSTRUCT_AT(b) b##S(); } \
    extern "C" void w_dtor##S(B##S* b) { b->~bulk(); } \
    extern "C" void w_copy##S(B##S* b, B##S const* o) { CE_CONSTRUCT_AT(b) b##S(*o); } \
    extern "C" B##S* w_assign##S(B##S* b, B##S const* o) { return &(*b = *o); } \
    extern "C" void w_clear##S(B##S* b) { b->clear(); } \
    extern "C" bool w_resize##S(B##S* b, size_t n) { return b->resize(n); } \
    extern "C" bool w_appendn##S(B##S* b, size_t n) { return b->append_n(n); } \
    extern "C" bool w_remove##S(B##S* b, size_t i) { return b->remove_at(i); } \
    extern "C" bool w_removeo##S(B##S* b, size_t i) { return b->remove_at<true>(i); } \
    extern "C" size_t w_room##S(B##S const* b) { return b->room(); } \
    extern "C" size_t w_cap##S() { return b##S::capacity(); } \
    extern "C" T* w_begin##S(B##S* b) { return b->begin(); } \
    extern "C" T* w_end##S(B##S* b) { return b->end(); } \
    extern "C" T* w_back##S(B##S* b) { return &b->back(); } \
    extern "C" T* w_at##S(B##S* b, size_t i) { return &(*b)[i]; } \
    extern "C" T const* w_cbegin##S(B##S const* b) { return b->begin(); } \
    extern "C" T const* w_cend##S(B##S const* b) { return b->end(); } \
    extern "C" T const* w_cback##S(B##S const* b) { return &b->back(); } \
    extern "C" T const* w_cat##S(B##S const* b, size_t i) { return &(*b)[i]; } \
    extern "C" T* w_spand##S(B##S* b) { return make_span(*b).data; } \
    extern "C" size_t w_spans##S(B##S* b) { return make_span(*b).size; }
#define API(S, N, T) BASE(S, N, T) \
    extern "C" bool w_append##S(B##S* b, int v) { return b->append(v); } \
    extern "C" bool w_appendc##S(B##S* b, T const* v) { return b->append(*v); }
API(A, 1000, obj)
API(B, 1, obj)
API(C, 0x100000000, obj)
API(I, 37, int)
BASE(D, 16, asg)
