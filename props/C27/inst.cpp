#include <ce/ce.h>
using namespace ce; using namespace ce::math;
struct tag; struct big { char c[12]; };
#define VEC(S, D, T, ...) using V##S = vec##D<__VA_ARGS__>; extern "C" { size_t lay##S[] = { sizeof(V##S), sizeof(T), D }; \
    bool w_eq##S(V##S const& a, V##S const& b) { return a == b; } \
    bool w_ne##S(V##S const& a, V##S const& b) { return a != b; } \
    bool w_eqs##S(V##S const& a, T const& b) { return a == b; } \
    bool w_nes##S(V##S const& a, T const& b) { return a != b; } \
    void w_add##S(V##S* o, V##S const& a, V##S const& b) { *o = a + b; } \
    void w_sub##S(V##S* o, V##S const& a, V##S const& b) { *o = a - b; } \
    void w_mul##S(V##S* o, V##S const& a, T const& b) { *o = a * b; } \
    void w_div##S(V##S* o, V##S const& a, T const& b) { *o = a / b; } \
    V##S* w_addto##S(V##S& a, V##S const& b) { return &(a += b); } \
    V##S* w_subto##S(V##S& a, V##S const& b) { return &(a -= b); } \
    V##S* w_multo##S(V##S& a, T const& b) { return &(a *= b); } \
    V##S* w_divto##S(V##S& a, T const& b) { return &(a /= b); } }
VEC(i2, 2, int, int) VEC(i3, 3, int, int) VEC(u2, 2, unsigned, unsigned) VEC(u3, 3, unsigned, unsigned) VEC(l2, 2, int64_t, int64_t) VEC(l3, 3, int64_t, int64_t) VEC(m2, 2, uint64_t, uint64_t) VEC(m3, 3, uint64_t, uint64_t) VEC(t2, 2, int, int, tag) VEC(t3, 3, int, int, tag)
VEC(f2, 2, double, double) VEC(f3, 3, double, double)
extern "C" { long w_sqi(int a) { return sqrx(int32_t(a)); } long w_doti(int a, int b) { return dotx(int32_t(a), int32_t(b)); } long w_sql(long a) { return sqrx(int64_t(a)); } long w_dotl(long a, long b) { return dotx(int64_t(a), int64_t(b)); } }
#define PROD(S, T) extern "C" long w_sqrx##S(vec2<T> const& a) { return sqrx(a); } \
    extern "C" long w_dotx2##S(vec2<T> const& a, vec2<T> const& b) { return dotx(a, b); } \
    extern "C" long w_dotx3##S(vec3<T> const& a, vec3<T> const& b) { return dotx(a, b); } \
    extern "C" long w_cross##S(vec2<T> const& a, vec2<T> const& b) { return crossx(a, b); } \
    extern "C" void w_cross3##S(vec3<int64_t>* o, vec3<T> const& a, vec3<T> const& b) { auto r = crossx(a, b); o->x = r.x; o->y = r.y; o->z = r.z; }
PROD(i, int) PROD(l, int64_t)
#define SPAN(S, T) extern "C" { size_t elt##S = sizeof(T); \
    void w_skip##S(span<T>* o, span<T> const& s, size_t n) { *o = skip(s, n); } \
    void w_trim##S(span<T>* o, span<T> const& s, size_t n) { *o = trim(s, n); } \
    T* w_begin##S(span<T>& s) { return s.begin(); } T* w_end##S(span<T>& s) { return s.end(); } T const* w_cbegin##S(span<T> const& s) { return s.begin(); } T const* w_cend##S(span<T> const& s) { return s.end(); } }
SPAN(b, unsigned char) SPAN(i, int) SPAN(s, big) SPAN(c, char const)
