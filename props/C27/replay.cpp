#include <rp.h>
#include <ce/ce.h>
#include <memory>
using namespace rp; using namespace ce; using namespace ce::math;
template<class V, class T, class U> static void go(R& r, int d)
{
    auto c = [&](V& v, int i) -> T& { return (&v.x)[i]; };
    V a{}, b{}; T s = T(r.val(sizeof(T) * 8)); for (int i = 0; i < d; ++i) { c(a, i) = T(r.val(sizeof(T) * 8)); c(b, i) = r.chance(3) ? c(a, i) : T(r.val(sizeof(T) * 8)); }
    if (r.chance(4)) s = c(a, 0);
    bool al = r.chance(4);
    if (T(-1) < T(0)) { for (int i = 0; i < d; ++i) { c(a, i) = T(i64(c(a, i)) % (1 << 15)); c(b, i) = T(i64(c(b, i)) % (1 << 15)); } s = T(i64(s) % (1 << 15)); }
    note("%d components of %zu bytes: a %lld %lld b %lld %lld s %lld %s", d, sizeof(T), (long long)c(a, 0), (long long)c(a, 1), (long long)c(b, 0), (long long)c(b, 1), (long long)s, al ? "(scalar or operand is part of a)" : "");
    bool eq = true, eqs = true; for (int i = 0; i < d; ++i) { eq = eq && c(a, i) == c(b, i); eqs = eqs && c(a, i) == s; }
    RP_CHECK((a == b) == eq && (a != b) == !eq, "comparison of vectors"); RP_CHECK((a == s) == eqs && (a != s) == !eqs, "comparison with a scalar");
    V x = a + b, y = a - b, z = a * s;
    for (int i = 0; i < d; ++i) { RP_CHECK(c(x, i) == T(U(c(a, i)) + U(c(b, i))) && c(y, i) == T(U(c(a, i)) - U(c(b, i))), "sum or difference, component %d", i); RP_CHECK(c(z, i) == T(U(c(a, i)) * U(s)), "product, component %d", i); }
    { V p = a; V& q = (p += b); RP_CHECK(&q == &p && p == x, "+= differs from +"); } { V p = a; V& q = (p -= b); RP_CHECK(&q == &p && p == y, "-= differs from -"); } { V p = a; V& q = (p *= s); RP_CHECK(&q == &p && p == z, "*= differs from *"); }
    if (al) { V p = a, w = a * c(a, 0); p *= c(p, 0); RP_CHECK(p == w, "v *= v.x"); p = a; p += p; RP_CHECK(p == a + a, "v += v"); }
    if (s) { V q = a / s; for (int i = 0; i < d; ++i) RP_CHECK(c(q, i) == T(c(a, i) / s), "quotient, component %d", i); V p = a; p /= s; RP_CHECK(p == q, "/= differs from /"); }
    if (al && c(a, 0)) { V p = a, w = a / c(a, 0); p /= c(p, 0); RP_CHECK(p == w, "v /= v.x"); }
}
struct big { char c[12]; };
template<class T> static void spans(R& r)
{
    size_t n = r.len(300), k = r.chance(4) ? size_t(r.val()) : r.len(400); std::unique_ptr<T[]> m(new T[n + 1]); span<T> s{ n, m.get() }; note("span of %zu, count %zu", n, k);
    auto a = skip(s, k), b = trim(s, k); size_t w = k < n ? n - k : 0;
    RP_CHECK(a.size == w && b.size == w, "sizes %zu %zu, expected %zu", a.size, b.size, w);
    RP_CHECK(a.data >= s.data && a.data + a.size <= s.data + n && b.data >= s.data && b.data + b.size <= s.data + n, "leaves the span");
    RP_CHECK(!w || (a.data == s.data + k && b.data == s.data), "wrong items kept"); RP_CHECK(s.begin() == m.get() && s.end() == m.get() + n, "begin or end");
}
void run_case(R& r, u64)
{
    using i128 = __int128;
    switch (r.below(12))
    {
    case 0: go<vec2<int>, int, unsigned>(r, 2); break; case 1: go<vec3<int>, int, unsigned>(r, 3); break; case 2: go<vec2<unsigned>, unsigned, unsigned>(r, 2); break; case 3: go<vec3<unsigned>, unsigned, unsigned>(r, 3); break;
    case 4: go<vec2<ce::int64_t>, ce::int64_t, u64>(r, 2); break; case 5: go<vec3<ce::int64_t>, ce::int64_t, u64>(r, 3); break; case 6: go<vec2<ce::uint64_t>, ce::uint64_t, u64>(r, 2); break; case 7: go<vec3<ce::uint64_t>, ce::uint64_t, u64>(r, 3); break;
    case 8: spans<u8>(r); break; case 9: spans<int>(r); break; case 10: spans<big>(r); break;
    default:
    {
        bool big_ = r.chance(2); auto g = [&]() { i64 v = i64(int(r.val(32))); return big_ ? v : v % (1 << 30); }; i64 a[3], b[3]; for (int i = 0; i < 3; ++i) a[i] = g(), b[i] = g(); note("a %lld %lld %lld b %lld %lld %lld", (long long)a[0], (long long)a[1], (long long)a[2], (long long)b[0], (long long)b[1], (long long)b[2]);
        auto I = [](i64 v) { return int(v); }; vec2<int> u{ I(a[0]), I(a[1]) }, v{ I(b[0]), I(b[1]) }; vec3<int> U{ I(a[0]), I(a[1]), I(a[2]) }, V{ I(b[0]), I(b[1]), I(b[2]) };
        i128 d2 = i128(a[0]) * b[0] + i128(a[1]) * b[1]; if (d2 == i64(d2)) RP_CHECK(dotx(u, v) == i64(d2), "dotx"); i128 s2 = i128(a[0]) * a[0] + i128(a[1]) * a[1]; if (s2 == i64(s2)) RP_CHECK(sqrx(u) == i64(s2), "sqrx");
        RP_CHECK(crossx(u, v) == a[0] * b[1] - a[1] * b[0], "crossx"); auto w = crossx(U, V); RP_CHECK(w.x == a[1] * b[2] - a[2] * b[1] && w.y == a[2] * b[0] - a[0] * b[2] && w.z == a[0] * b[1] - a[1] * b[0], "crossx of vec3");
        if (!big_) RP_CHECK(dotx(U, V) == i64(d2 + i128(a[2]) * b[2]), "dotx of vec3");
    }
    }
}
