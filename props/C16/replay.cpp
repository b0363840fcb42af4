#include <rp.h>
#include <ce/zorder.h>
#include <algorithm>
using namespace rp;
static u64 enc(u32 x, u32 y) { u64 z = 0; x ^= 0x80000000u; y ^= 0x80000000u; for (int i = 0; i < 32; ++i) z |= u64(x >> i & 1) << 2 * i | u64(y >> i & 1) << (2 * i + 1); return z; }
static int coord(R& r, int B)
{
    u32 v = u32(r.raw());
    if (B < 32) v = v % (1u << B) + (r.chance(2) ? 0x7fffff00u : r.chance(2) ? 0x80000000u - (1u << (B - 1)) : 0xffffffffu - (1u << B) + 1);
    if (r.chance(8)) v = r.chance(2) ? 0xffffffffu : r.chance(2) ? 0x80000000u : 0x7fffffffu; return int(v);
}
static void query(R& r)
{
    int B = r.chance(3) ? 9 : r.chance(2) ? 12 : 32; int x0 = coord(r, B), x1 = coord(r, B), y0 = coord(r, B), y1 = coord(r, B); if (x0 > x1) std::swap(x0, x1); if (y0 > y1) std::swap(y0, y1);
    if (r.chance(16)) { x0 = y0 = int(0x80000000u); x1 = y1 = 0x7fffffff; }
    size_t n = r.below(r.chance(8) ? 400 : 40); std::vector<u64> d; note("box (%d,%d)..(%d,%d), %zu points:", x0, y0, x1, y1, n);
    for (size_t i = 0; i < n; ++i)
    {
        int x = r.chance(2) ? coord(r, B) : r.chance(2) ? x0 : x1, y = r.chance(2) ? coord(r, B) : r.chance(2) ? y0 : y1; if (r.chance(3) && x > -2147483640) x -= int(r.below(3)); if (r.chance(3) && y < 2147483640) y += int(r.below(3));
        if (r.chance(4)) { x = int(x0 + i64(r.below(u64(i64(x1) - x0) + 1))); y = int(y0 + i64(r.below(u64(i64(y1) - y0) + 1))); }
        noteadd(" (%d,%d)", x, y); d.push_back(enc(u32(x), u32(y)));
    }
    std::sort(d.begin(), d.end()); u64 lo = enc(u32(x0), u32(y0)), hi = enc(u32(x1), u32(y1)); std::vector<u64> h(d), o(n);
    size_t k = ce::z_query((ce::uint64_t*)o.data(), lo, hi, n, (ce::uint64_t const*)h.data()); RP_CHECK(k <= n, "more results than stored codes"); o.resize(k);
    RP_CHECK(h == d, "the data changed");
    RP_CHECK(std::is_sorted(o.begin(), o.end()), "results out of order"); RP_CHECK(std::includes(d.begin(), d.end(), o.begin(), o.end()), "a result that is no stored code (or appears too often)");
    for (u64 z : o) RP_CHECK(z >= lo && z <= (hi | 0xffff), "a result outside the corners");
    u64 X = 0x5555555555555555ull; std::vector<u64> in; for (u64 z : d) if ((z & X) >= (lo & X) && (z & X) <= (hi & X) && (z & ~X) >= (lo & ~X) && (z & ~X) <= (hi & ~X)) in.push_back(z);
    RP_CHECK(std::includes(o.begin(), o.end(), in.begin(), in.end()), "a stored code inside the box is missing");
}
static void split(R& r)
{
    u64 X = 0x5555555555555555ull, a = r.chance(2) ? r.raw() : r.val(), b = r.chance(2) ? r.raw() : r.val(); if (r.chance(2)) b = a ^ (r.raw() >> r.below(64));
    u64 lo = std::min(a & X, b & X) | std::min(a & ~X, b & ~X), hi = std::max(a & X, b & X) | std::max(a & ~X, b & ~X); ce::uint64_t jo = 0, ji = 0; note("split [%llx, %llx]", (long long)lo, (long long)hi);
    if (!ce::z_split(lo, hi, jo, ji)) return;
    RP_CHECK((jo | 0xffff) < ji && lo <= ji && ji <= (hi | 0xffff) && jo <= (hi | 0xffff), "parts");
    auto box = [&](u64 l, u64 h, u64 z) { h |= 0xffff; return (z & X) >= (l & X) && (z & X) <= (h & X) && (z & ~X) >= (l & ~X) && (z & ~X) <= (h & ~X); };
    for (int k = 0; k < 20; ++k)
    {
        u64 z = r.raw(); u64 e = hi | 0xffff; if (k & 1) z = lo + (e == ~0ull && !lo ? z : z % (e - lo + 1)); if (k & 2) { z = (z & X & hi) | (lo & X) | (((z & hi) | lo) & ~X); }
        if (box(lo, hi, z)) { noteadd(" z=%llx", (long long)z); RP_CHECK(z <= (jo | 0xffff) ? box(lo, jo, z) : box(ji, hi, z), "a split lost a code"); }
    }
}
void run_case(R& r, u64 i)
{
    if (i % 4 == 0)
    {
        u32 x = u32(r.val(32)), y = u32(r.val(32)); note("encode %d %d", int(x), int(y)); RP_CHECK(ce::z_encode(int(x), int(y)) == enc(x, y), "z_encode"); RP_CHECK(ce::z_expand(x) == (enc(x ^ 0x80000000u, 0x80000000u)), "z_expand");
        int c[6]; for (int& v : c) v = r.chance(3) ? coord(r, 9) : int(r.val(32)); if (r.chance(2)) c[4] = int(u32(c[r.below(2) * 2]) + u32(r.below(3)) - 1u); if (r.chance(2)) c[5] = int(u32(c[1 + r.below(2) * 2]) + u32(r.below(3)) - 1u); if (r.chance(4)) c[4] = c[0];
        note("box (%d,%d)..(%d,%d) point (%d,%d)", c[0], c[1], c[2], c[3], c[4], c[5]); RP_CHECK(ce::z_inside(ce::z_encode(c[0], c[1]), ce::z_encode(c[2], c[3]), ce::z_encode(c[4], c[5])) == (c[0] <= c[4] && c[4] <= c[2] && c[1] <= c[5] && c[5] <= c[3]), "z_inside");
    }
    else if (i % 4 == 1) split(r); else query(r);
}
