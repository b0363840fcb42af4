#include <rp.h>
#include <ce/ce.h>
#include <memory>
using namespace rp; using namespace ce;
using std::string;
enum class en : short { a };
struct odd { int x; };
static void fill(R& r, char* p, size_t n, bool term) { for (size_t i = 0; i < n; ++i) { p[i] = char(r.val(8)); if (!p[i]) p[i] = 'q'; } if (term && n) p[r.below(n)] = 0; }
template<size_t N> struct arr { char v[N]; string s() const { size_t n = 0; while (n < N && v[n]) ++n; return string(v, n); } };
template<size_t N> static std::unique_ptr<arr<N>> mk(R& r) { std::unique_ptr<arr<N>> a(new arr<N>); fill(r, a->v, N, r.chance(2)); if (r.chance(4)) a->v[0] = 0; return a; }
struct cstr { std::vector<char> v; cstr(R& r) { size_t n = r.chance(3) ? 1015 + r.below(20) : r.len(3000); v.resize(n + 1); fill(r, v.data(), n, false); v[n] = 0; } char* p() { return v.data(); } string s(size_t cap = 1024) { string t(v.data()); return t.substr(0, cap); } };
template<class S> static void same(S const& got, string const& want, char const* what)
{
    size_t n = strnlen(got.as, sizeof got.as);
    RP_CHECK(n < sizeof got.as, "%s: no terminator inside the object", what);
    RP_CHECK(string(got.as, n) == want, "%s: got \"%.200s\" (%zu), expected \"%.200s\" (%zu)", what, got.as, n, want.c_str(), want.size());
}
#define MK(...) auto q = std::unique_ptr<decltype(as_string{ __VA_ARGS__ })>(new decltype(as_string{ __VA_ARGS__ }){ __VA_ARGS__ })
static string num(long long v) { char b[32]; snprintf(b, 32, "%lld", v); return b; }
static string unum(unsigned long long v) { char b[32]; snprintf(b, 32, "%llu", v); return b; }
void run_case(R& r, u64)
{
    int k = int(r.below(18)); note("list %d", k);
    auto a5 = mk<5>(r); auto a16 = mk<16>(r); auto a1 = mk<1>(r); cstr p(r), m(r); char const* pp = p.p(); char* mm = m.p(); int i = int(r.val()); unsigned long long u = r.val(); char c = char(r.val(8)); if (!c) c = 'c'; bool b = r.chance(2); en e = en(short(r.val())); int* ip = r.chance(3) ? nullptr : (int*)r.val(); vec2<int> v2{ int(r.val()), int(r.val()) };
    noteadd(" int %d ull %llu strings %zu %zu arrays %zu %zu %zu", i, u, p.s().size(), m.s().size(), a5->s().size(), a16->s().size(), a1->s().size());
    string enm = "#<enum " + num(short(e)) + ">", ptr = ip ? "#<ptr " + unum((unsigned long long)ip) + ">" : "#<nil>", vec = "[" + num(v2.x) + ", " + num(v2.y) + "]", bo = b ? "#<T>" : "#<F>";
    switch (k)
    {
    case 0: { MK(i); same(*q, num(i), "int"); break; }
    case 1: { MK(pp, i); same(*q, p.s() + num(i), "text, int"); break; }
    case 2: { MK(a5->v, i); same(*q, a5->s() + num(i), "char[5], int"); break; }
    case 3: { MK(pp, a16->v); same(*q, p.s() + a16->s(), "text, char[16]"); break; }
    case 4: { MK(mm, pp); same(*q, m.s() + p.s(), "mutable text, text"); break; }
    case 5: { MK(c, b, c); same(*q, string(1, c) + bo + c, "char, bool, char"); break; }
    case 6: { MK(e, nullptr, ip); same(*q, enm + "#<nil>" + ptr, "enum, nullptr, pointer"); break; }
    case 7: { MK(v2, pp); same(*q, vec + p.s(), "vec2, text"); break; }
    case 8: { signed char sc = (signed char)u; unsigned char uc = (unsigned char)i; short s = short(i); unsigned short us = (unsigned short)u; MK(sc, uc, s, us, u, (long long)u, (unsigned)i); same(*q, num(sc) + num(uc) + num(s) + num(us) + unum(u) + num((long long)u) + unum((unsigned)i), "integers"); break; }
    case 9: { MK(a1->v, a1->v); same(*q, a1->s() + a1->s(), "char[1], char[1]"); break; }
    case 10: { MK(a5->v, u, pp, c); same(*q, a5->s() + unum(u) + p.s() + c, "char[5], ull, text, char"); break; }
    case 11: { odd* o = (odd*)malloc(sizeof(odd)); MK(*o, a5->v); string t(q->as, strnlen(q->as, sizeof q->as)); size_t d = 6; while (d < t.size() && t[d] >= '0' && t[d] <= '9') ++d; RP_CHECK(t.size() < sizeof q->as && t.substr(0, 6) == "#<ref " && d > 6 && t.substr(d) == ">" + a5->s(), "struct, char[5]: got \"%.200s\"", t.c_str()); free(o); break; }
    case 12: { RP_CHECK((void const*)as_string{ pp }.as == pp && (void const*)as_string{ a16->v }.as == a16->v, "a single text is not passed through"); break; }
    case 13: { size_t n = r.len(1100); size_t l = strlen(pp); string w(pp, l < n ? l : n); std::vector<char> t(w.size()), src(pp, pp + (l < n ? l + 1 : n)); char* x = to_text_s(t.data(), n, src.data()); RP_CHECK(x == t.data() + w.size() && string(t.begin(), t.end()) == w, "to_text_s(%zu) of %zu characters wrote %td", n, l, x - t.data()); break; }
    case 14: { string w = p.s(~size_t{ 0 } >> 1) + num(i) + a16->s() + c; std::vector<char> t(w.size()); char* x = to_text(t.data(), pp, i, a16->v, c); RP_CHECK(x == t.data() + w.size() && string(t.begin(), t.end()) == w, "to_text of four values"); break; }
    case 15: { size_t n = r.len(50); std::vector<int> v(n); string w = "["; for (size_t k = 0; k < n; ++k) { v[k] = int(r.val()); w += (k ? ", " : "") + num(v[k]); } w += "]"; std::vector<char> t(w.size()); char* x = to_text_n(t.data(), n, v.data()); RP_CHECK(x == t.data() + w.size() && string(t.begin(), t.end()) == w, "to_text_n of %zu ints", n); break; }
    case 16: { int v[3] = { i, v2.x, v2.y }; string w = "[" + num(i) + ", " + num(v2.x) + ", " + num(v2.y) + "]"; std::vector<char> t(w.size()); char* x = to_text(t.data(), v); RP_CHECK(x == t.data() + w.size() && string(t.begin(), t.end()) == w, "to_text of int[3]"); break; }
    default: { size_t n = r.len(50); std::vector<char> v(n); string w = "["; for (size_t k = 0; k < n; ++k) { v[k] = char(r.val(8)); w += k ? ", " : ""; w += v[k]; } w += "]"; std::vector<char> t(w.size()); char* x = to_text_n(t.data(), n, v.data()); RP_CHECK(x == t.data() + w.size() && string(t.begin(), t.end()) == w, "to_text_n of %zu chars", n); break; }
    }
}
