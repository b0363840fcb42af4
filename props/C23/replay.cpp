#include <rp.h>
#include <ce/cdt.h>
using namespace rp; using M = ce::cdt<0>; using i128 = __int128; using size = ce::size_t;
struct V { i64 x, y; };
static i64 orient(V a, V b, V c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static i128 circle(V a, V b, V c, V v)
{
    auto d = [&](V p) { return V{ p.x - v.x, p.y - v.y }; }; a = d(a), b = d(b), c = d(c);
    auto n = [](V p) { return i128(p.x) * p.x + i128(p.y) * p.y; }; auto k = [](V p, V q) { return i128(p.x) * q.y - i128(p.y) * q.x; };
    return n(a) * k(b, c) + n(b) * k(c, a) + n(c) * k(a, b);
}
static V at(M const& m, size v) { return { m.vs[v].x, m.vs[v].y }; }
static V of(M const& m, size n) { return at(m, m.es[n].p); }
static bool ins(V a, V b, bool tie) { i64 c = a.x * b.y - a.y * b.x; return tie ? c < 0 || (c == 0 && (b.y < a.y || (b.y == a.y && a.x < b.x))) : c <= 0; }
static bool holds(M const& m, size f, V p, bool tie) { V q[3]; for (int k = 0; k < 3; ++k) { V w = of(m, f * 4 + k); q[k] = { w.x - p.x, w.y - p.y }; } for (int k = 0; k < 3; ++k) if (!ins(q[k], q[(k + 1) % 3], tie)) return false; return true; }
static M m, w;
static size pick(R& r) { return (6 + r.below(m.size * 2 - 6)) * 4 + r.below(3); }
static size nx(size n) { return n % 4 < 2 ? n + 1 : n - 2; }
static void same(M const& a, M const& b, char const* what) { RP_CHECK(a.size == b.size, "%s: size", what); for (size n = 0; n < a.size * 8; ++n) RP_CHECK(memcmp(&a.es[n], &b.es[n], 4) == 0, "%s: node %llu is (c %u, p %u, twin %u), expected (c %u, p %u, twin %u)", what, (unsigned long long)n, a.es[n].c, a.es[n].p, a.es[n].e, b.es[n].c, b.es[n].p, b.es[n].e); }
static void flipped(M& k, size a)
{
    size b = k.es[a].e, a1 = nx(a), a2 = nx(a1), b1 = nx(b), b2 = nx(b1), u = k.es[a2].e, v = k.es[b2].e;
    k.es[a1].p = k.es[b].p; k.es[b1].p = k.es[a].p; k.es[a].e = v; if (v) k.es[v].e = a; k.es[b].e = u; if (u) k.es[u].e = b; k.es[a].c = k.es[b2].c; k.es[b].c = k.es[a2].c; k.es[a2].c = 0; k.es[b2].c = 0; k.es[a2].e = b2; k.es[b2].e = a2;
}
// a flip that leaves a corner of the mesh with a single face (two border edges) is rejected by validate_face; it never is a delaunay flip
static bool corner(size a) { static M k; memcpy(&k, &m, sizeof k); size b = k.es[a].e; flipped(k, a); for (size n : { a, b }) { n &= ~size(3); if ((k.es[n].e == 0) + (k.es[n + 1].e == 0) + (k.es[n + 2].e == 0) > 1) return true; } return false; }
void run_case(R& r, u64)
{
    signal(SIGTRAP, on_sig); int mode = int(r.below(3)), n = int(r.below(12)); i64 sz = mode == 0 ? 32767 : 2ll << r.below(8);
    auto rc = [&]() -> int { if (mode == 0 && r.chance(5)) return r.chance(2) ? -32768 : 32766; return int(r.irange(-sz, sz)) & ~1; };
    note("points:"); m.reset();
    for (int k = 0; k < n; ++k) { int x = rc(), y = rc(); noteadd(" (%d, %d)", x, y); m.insert_point(ce::vec2<int>{ x, y }, r.chance(3) ? 0 : r.below(m.size * 8 + 8)); }
    for (int k = int(r.below(4)); k > 0; --k) { size e = pick(r); unsigned c = r.chance(2) ? 1 : 1 + unsigned(r.below(7)); noteadd(" flag %d = %u", int(e), c); if (m.es[e].e) { m.es[e].c = c; m.es[m.es[e].e].c = c; } }
    for (int k = 0; k < 12; ++k)
    {
        size e = pick(r); if (m.es[e].e) { size t = m.es[e].e; bool want = m.es[e].c == 0 && orient(of(m, e), of(m, nx(e)), of(m, t)) < 0 && orient(of(m, e), of(m, t), of(m, nx(t))) < 0; RP_CHECK(m.can_flip(e) == want, "can_flip(%llu), expected %d", (unsigned long long)e, want); }
        size f = 6 + r.below(m.size * 2 - 6), v = r.below(m.size); i128 d = circle(of(m, f * 4), of(m, f * 4 + 1), of(m, f * 4 + 2), at(m, v)); RP_CHECK(m.incircle(f, v) == (d < 0), "incircle(%llu, %llu), expected %d", (unsigned long long)f, (unsigned long long)v, d < 0);
    }
    for (int k = 0; k < 12; ++k)
    {
        int x = rc(), y = rc(); if (r.chance(3)) { V q = at(m, r.below(m.size)); x = int(q.x); y = int(q.y); } if (r.chance(6)) x += int(r.irange(-70000, 70000)); if (r.chance(3)) { size e = pick(r); V p = of(m, e), q = of(m, nx(e)); x = int((p.x + q.x) / 2), y = int((p.y + q.y) / 2); }
        unsigned h = unsigned(r.chance(4) ? r.raw() : r.below(m.size * 8 + 8)); V p{ x, y };
        size a = m.locate_insertion_node(x, y, h), b = m.locate(x, y, h);
        if (x >= -32768 && x <= 32767 && y >= -32768 && y <= 32767) RP_CHECK(a != 0, "locate_insertion_node(%d, %d, %u) finds nothing", x, y, h);
        RP_CHECK(a == 0 || (a >= 24 && a < m.size * 8 && a % 4 < 3 && holds(m, a / 4, p, false)), "locate_insertion_node(%d, %d, %u) gives %llu", x, y, h, (unsigned long long)a);
        RP_CHECK(b == 0 || (b >= 24 && b < m.size * 8 && b % 4 == 3 && holds(m, b / 4, p, true)), "locate(%d, %d, %u) gives %llu", x, y, h, (unsigned long long)b);
        size f = 6 + r.below(m.size * 2 - 6); V q[3]; for (int i = 0; i < 3; ++i) { V u = of(m, f * 4 + i); q[i] = { u.x - x, u.y - y }; } auto c = [](V a, V b) { return a.x * b.y - a.y * b.x < 0; };
        int s = (c(q[1], q[2]) ? 1 : 0) + (c(q[2], q[0]) ? 2 : 0) + (c(q[0], q[1]) ? 4 : 0); unsigned want = unsigned(s == 3 ? f * 4 + 2 : s == 5 ? f * 4 + 1 : s == 6 ? f * 4 : s == 7 ? f * 4 + 3 : 0); RP_CHECK(m.refine(x, y, ce::uint16_t(f * 4)) == want, "refine(%d, %d, %llu), expected %u", x, y, (unsigned long long)f * 4, want);
    }
    i64 z[6]; for (auto& x : z) { x = i64(r.val(30)) - (1 << 29); if (r.chance(3)) x = r.irange(-4, 4); } V A{ z[0], z[1] }, B{ z[2], z[3] }, C{ z[4], z[5] }; if (r.chance(3)) C = { A.x / 2 * 3, A.y / 2 * 3 };
    RP_CHECK(M::on(A.x, A.y, B.x, B.y) == (i128(A.x) * B.y == i128(A.y) * B.x), "on"); RP_CHECK(M::in({ A.x, A.y }, { B.x, B.y }) == (i128(A.x) * B.y <= i128(A.y) * B.x), "in"); RP_CHECK(M::collinear(A.x, A.y, B.x, B.y, C.x, C.y) == (i128(B.x - A.x) * (C.y - A.y) == i128(B.y - A.y) * (C.x - A.x)), "collinear");
    size e = pick(r); RP_CHECK(M::next_edge(e) == nx(e), "next_edge(%llu)", (unsigned long long)e);
    for (int k = 0; k < 6; ++k)
    {
        size e = pick(r); if (!m.es[e].e || corner(e)) continue; memcpy(&w, &m, sizeof w); bool want = w.can_flip(e); if (want) flipped(w, e); bool got = m.try_flip(e); RP_CHECK(got == want, "try_flip(%llu), expected %d", (unsigned long long)e, want); same(m, w, "try_flip");
        e = pick(r); if (!m.es[e].e || corner(e)) continue; bool free = m.es[e].c == 0 && m.incircle(e / 4, m.es[m.es[e].e].p); memcpy(&w, &m, sizeof w); got = m.flip(e); RP_CHECK(got == free, "flip(%llu), expected %d", (unsigned long long)e, free); if (!free) same(m, w, "flip of an edge that stays");
    }
}
