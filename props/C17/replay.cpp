#include <rp.h>
#include <ce/math.h>
using namespace rp; using namespace ce; using namespace ce::math;
using i128 = __int128;
void run_case(R& r, u64)
{
    int small = int(r.below(3)); auto g = [&](int b) -> int { i64 m = (1ll << b) - 1; i64 v = small == 0 ? r.irange(-12, 12) : small == 1 ? r.irange(-1000, 1000) : i64(r.val(40)) - (1ll << 39); return int(v > m || v < -m ? (v % m) : v); };
    bool full = r.chance(2); int B = full ? 31 : 30;
    int px = g(B), py = g(B), dx = g(B), dy = g(B); if (r.chance(4)) { px = dx; py = r.chance(2) ? dy : py; } if (r.chance(5)) { px = -dx; py = -dy; } if (r.chance(5) && small) { int k = int(r.below(4)); px = int(i64(dx) * k / 2); py = int(i64(dy) * k / 2); if (!full && (px >= 1 << 30 || px <= -(1 << 30) || py >= 1 << 30 || py <= -(1 << 30))) px = dx, py = dy; }
    i128 X = px, Y = py, U = dx, V = dy, pp = X * X + Y * Y, dp = X * U + Y * V, dd = U * U + V * V, uu = (X - U) * (X - U) + (Y - V) * (Y - V), cr = X * V - Y * U;
    i128 t = i128(r.val() >> 1); if (r.chance(3)) t = pp; if (r.chance(4)) t = pp + r.irange(-2, 2); if (r.chance(4) && dd > 0) t = i64(u64(r.val()) % 3) - 1 + i128((cr < 0 ? -cr : cr) / dd) * (cr < 0 ? -cr : cr) ; if (r.chance(5)) t = uu + r.irange(-1, 1);
    i64 rr = t < 0 ? 0 : t > i128(~0ull >> 1) ? i64(~0ull >> 1) : i64(t);
    note("p (%d, %d) d (%d, %d) rr %lld", px, py, dx, dy, (long long)rr);
    vec2<int> a{ px, py }, b{ dx, dy };
    bool want = cr < 0 || (cr == 0 && (dy < py || (dy == py && px < dx)));
    RP_CHECK(inside(a, b) == want, "inside gives %d", inside(a, b)); RP_CHECK((inside(a, b) != inside(b, a)) == (px != dx || py != dy), "inside is not antisymmetric");
    i64 q[4]; for (auto& x : q) x = i64(r.val()); if (r.chance(3)) q[2] = q[1], q[3] = q[0]; if (r.chance(4)) q[2] = i64(u64(q[0]) + 1), q[3] = i64(u64(q[1]) - 1);
    RP_CHECK(ab_less_cd(q[0], q[1], q[2], q[3]) == (i128(q[0]) * q[1] < i128(q[2]) * q[3]), "ab_less_cd(%lld, %lld, %lld, %lld)", (long long)q[0], (long long)q[1], (long long)q[2], (long long)q[3]);
    // dd * (pp - rr) < dp * dp without overflow: dp^2 = pp * dd - cr^2
    bool near_line = dd > 0 ? cr * cr < i128(rr) * dd || false : pp < rr;
    RP_CHECK(in_range_rr(px, py, rr) == (pp < rr), "in_range_rr");
    RP_CHECK(in_range_rr_line(px, py, rr, dx, dy) == near_line, "in_range_rr_line, expected %d", near_line);
    bool e = dp >= 0 && dp <= dd && near_line, y = dp >= 0 ? near_line : pp < rr;
    RP_CHECK(in_range_rr_edge(px, py, rr, dx, dy) == e, "in_range_rr_edge, expected %d", e);
    RP_CHECK(in_range_rr_ray(px, py, rr, dx, dy) == y, "in_range_rr_ray, expected %d", y);
    if (!full)
    {
        bool s = dp < 0 ? pp < rr : dp > dd ? uu < rr : near_line;
        RP_CHECK(in_range_rr_segment(px, py, rr, dx, dy) == s, "in_range_rr_segment, expected %d", s);
        int ox = int(r.irange(-(1 << 29), 1 << 29)), oy = int(r.irange(-(1 << 29), 1 << 29));
        if (small < 2) { vec2<int> o{ ox, oy }, p{ ox + px, oy + py }, d{ ox + dx, oy + dy }; RP_CHECK(ball_hits_edge(p, rr, o, d) == e, "ball_hits_edge, expected %d", e); RP_CHECK(ball_hits_ray(p, rr, o, d) == y, "ball_hits_ray, expected %d", y); }
    }
    int n = g(31), d = g(31); if (d) { auto m = muldiv(a, n, d); i64 mx = i64(px) * n / d, my = i64(py) * n / d; if (mx == int(mx) && my == int(my)) RP_CHECK(m.x == mx && m.y == my, "muldiv by %d / %d", n, d); }
}
