#include <ce/ce.h>
using namespace ce; using namespace ce::math;
struct rec { short tag; int x; int y; char rest[9]; };
#define API(S, V) extern "C" { size_t lay##S[] = { sizeof(V), __builtin_offsetof(V, x), __builtin_offsetof(V, y), sizeof(V::x) }; size_t w_in##S(vec2<decltype(V::x)> const& p, size_t n, V const* ps) { return in_polygon(p, n, ps); } }
API(i, vec2<int>) API(l, vec2<int64_t>) API(t, vec3<int>) API(r, rec)
extern "C" size_t w_xy(int64_t x, int64_t y, size_t n, vec2<int> const* ps) { return in_polygon_xy(x, y, n, ps); }
