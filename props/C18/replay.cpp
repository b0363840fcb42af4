#include <rp.h>
#include <ce/ce.h>
using namespace rp; using namespace ce::math;
using i128 = __int128;
struct rec { short tag; int x; int y; char rest[9]; };
struct pt { i64 x, y; };
/* signed crossings of the horizontal ray, and, when no edge contains the point, of the vertical ray too */
static void expect(R& r, std::vector<pt> const& v, pt p, i64& w)
{
    w = 0; i64 wv = 0; bool on = false; size_t n = v.size();
    for (size_t i = 0; i < n; ++i)
    {
        pt a = v[(i + n - 1) % n], b = v[i]; i128 ax = a.x - p.x, ay = a.y - p.y, bx = b.x - p.x, by = b.y - p.y, l = ax * by - bx * ay;
        if (ay <= 0 && by > 0 && l > 0) ++w; if (ay > 0 && by <= 0 && l < 0) --w;
        if (ax <= 0 && bx > 0 && l < 0) --wv; if (ax > 0 && bx <= 0 && l > 0) ++wv;
        if (l == 0 && std::min(ax, bx) <= 0 && std::max(ax, bx) >= 0 && std::min(ay, by) <= 0 && std::max(ay, by) >= 0) on = true;
    }
    if (!on) RP_CHECK(w == wv, "oracle rays disagree %lld %lld", (long long)w, (long long)wv);
}
void run_case(R& r, u64)
{
    size_t n = r.chance(12) ? 0 : r.len(r.chance(20) ? 300 : 12); int mode = int(r.below(4)); i64 lim = mode == 0 ? 2 : mode == 1 ? 5 : mode == 2 ? 40 : (1 << 30) - 1;
    auto g = [&]() -> i64 { if (mode == 3) { i64 k = i64(r.below(5)); return k == 0 ? lim : k == 1 ? -lim : k == 2 ? 0 : i64(r.val() % (2 * u64(lim) + 1)) - lim; } return r.irange(-lim, lim); };
    std::vector<pt> v(n); for (auto& q : v) q = { g(), g() };
    if (n > 1 && r.chance(6)) v[n - 1] = v[0];
    if (n > 2 && r.chance(6)) { size_t k = size_t(r.below(n - 1)); v[k + 1].y = v[k].y; }
    pt p = { g(), g() }; if (n && r.chance(4)) p.y = v[size_t(r.below(n))].y; if (n && r.chance(6)) p = v[size_t(r.below(n))];
    note("n %zu p (%lld, %lld)", n, (long long)p.x, (long long)p.y); for (size_t i = 0; i < n && i < 12; ++i) noteadd(" (%lld, %lld)", (long long)v[i].x, (long long)v[i].y);
    i64 w; expect(r, v, p, w);
    vec2<int>* a = new vec2<int>[n + !n]; vec2<ce::int64_t>* b = new vec2<ce::int64_t>[n + !n]; vec3<int>* c = new vec3<int>[n + !n]; rec* d = new rec[n + !n];
    for (size_t i = 0; i < n; ++i) { a[i] = { int(v[i].x), int(v[i].y) }; b[i] = { v[i].x, v[i].y }; c[i] = { int(v[i].x), int(v[i].y), int(i) }; d[i].x = int(v[i].x); d[i].y = int(v[i].y); d[i].tag = short(i); }
    if (n) { vec2<int>* e = (vec2<int>*)malloc(n * sizeof *a); memcpy(e, a, n * sizeof *a); delete[] a; a = nullptr; i64 s = i64(in_polygon(vec2<int>{ int(p.x), int(p.y) }, n, e)); free(e); RP_CHECK(s == w, "vec2<int>: %lld, expected %lld", (long long)s, (long long)w); }
    else { i64 s = i64(in_polygon(vec2<int>{ int(p.x), int(p.y) }, n, a)); RP_CHECK(s == w, "empty polygon: %lld", (long long)s); delete[] a; }
    i64 s = i64(in_polygon(vec2<ce::int64_t>{ p.x, p.y }, n, b)); RP_CHECK(s == w, "vec2<int64>: %lld, expected %lld", (long long)s, (long long)w);
    s = i64(in_polygon(vec2<int>{ int(p.x), int(p.y) }, n, c)); RP_CHECK(s == w, "vec3<int>: %lld, expected %lld", (long long)s, (long long)w);
    s = i64(in_polygon(vec2<int>{ int(p.x), int(p.y) }, n, d)); RP_CHECK(s == w, "record: %lld, expected %lld", (long long)s, (long long)w);
    delete[] b; delete[] c; delete[] d;
}
