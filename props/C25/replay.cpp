#include <rp.h>
#include <type_traits>
#include <ce/nameof.h>
#include "enums.h"
using namespace rp;
template<class T> struct entry { char name[16]; T v; };
template<class T> static void one(R& r, std::vector<entry<T>> const& t)
{
    using U = std::underlying_type_t<T>; U u = U(r.chance(2) ? r.val(64) : r.below(257)); if (r.chance(3)) u = U(t[r.below(t.size())].v); if (r.chance(6)) u = U(u64(u) + (r.chance(2) ? 1ull << 32 : 256)); char const* got = ce::nameof(T(u)); char const* want = "???"; note("nameof %lld", (long long)u);
    for (auto& e : t) if (u64(U(e.v)) < 256 && U(e.v) == u) want = e.name;
    RP_CHECK(strcmp(got, want) == 0, "nameof(%lld) is %s, not %s", (long long)u, got, want);
    std::string s = r.chance(4) ? std::string("???") : t[r.below(t.size())].name; if (r.chance(2)) { if (r.chance(2)) s += char(r.range(1, 255)); else if (!s.empty()) { if (r.chance(2)) s.pop_back(); else s[r.below(s.size())] = char(r.range(1, 255)); } } char* p = new char[s.size() + 1]; memcpy(p, s.c_str(), s.size() + 1); note("as_enum '%s'", p);
    T un = T(r.chance(2) ? U(r.raw()) : u), w = un, g = ce::as_enum<T>(p, un); for (auto& e : t) if (u64(U(e.v)) < 256 && s == e.name) w = e.v; delete[] p; RP_CHECK(g == w, "as_enum gave %lld, not %lld", (long long)U(g), (long long)U(w));
}
void run_case(R& r, u64)
{
    switch (r.below(9))
    {
    case 0: { one<plain>(r, { { "zero", plain::zero }, { "a", plain::a }, { "ab", plain::ab }, { "abc", plain::abc }, { "abd", plain::abd }, { "m127", plain::m127 }, { "m128", plain::m128 }, { "b_", plain::b_ }, { "top", plain::top } }); break; }
    case 1: { using s = outer::scoped; one<s>(r, { { "x", s::x }, { "xy", s::xy }, { "last", s::last } }); break; }
    case 2: { using s = outer::loose; one<s>(r, { { "first", s::first }, { "l1", s::l1 }, { "l2", s::l2 }, { "far", s::far }, { "neg", s::neg } }); break; }
    case 3: { using s = outer::inner::owner::deep; one<s>(r, { { "d0", s::d0 }, { "d1", s::d1 }, { "past", s::past }, { "minus", s::minus } }); break; }
    case 4: { using s = outer::inner::made<outer::scoped>::of; one<s>(r, { { "o", s::o }, { "oo", s::oo } }); break; }
    case 5: { one<hidden>(r, { { "h", hidden::h }, { "hh", hidden::hh } }); break; }
    case 6: { one<bare>(r, { { "b1", b1 }, { "b2", b2 }, { "bn", bn } }); break; }
    case 7: { one<flag>(r, { { "off", flag::off }, { "on", flag::on } }); break; }
    default: { RP_CHECK(strcmp(ce::nameof(red), "red") == 0 && strcmp(ce::nameof(blue), "blue") == 0 && ce::as_enum("green", red) == green && ce::as_enum("greens", red) == red, "enum without a name"); note("texts"); std::string a, b; size_t n = r.chance(4) ? r.below(400) : r.below(6); for (size_t k = 0; k < n; ++k) a += char(r.range(1, 3)); b = a; if (r.chance(2) && n) b[r.below(n)] ^= 4; if (r.chance(3)) b += 'x'; char c = char(r.range(1, 4));
        unsigned i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; RP_CHECK(ce::nameof_detail::same(a.c_str(), b.c_str()) == i, "same");
        size_t f = 0, l = 0; for (size_t k = 0; k < a.size(); ++k) if (a[k] == c) { l = k + 1; if (!f && (k + 1 == a.size() || a[k + 1] != c)) f = k + 1; } RP_CHECK(ce::nameof_detail::skip(c, a.c_str()) == f, "skip"); RP_CHECK(ce::nameof_detail::skip_last(c, a.c_str()) == l, "skip_last"); }
    }
}
