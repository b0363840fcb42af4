#include <ce/io.h>
#include <rp.h>
#include <new>
using namespace rp; using std::string;
static bool sp(char c) { return (unsigned char)c <= ' '; }
// names of the expressions of a text: start, commas outside brackets and quotes, trimmed; the last one takes the rest
static std::vector<string> split(string const& t, size_t count)
{
    std::vector<string> v; size_t p = 0;
    for (size_t k = 0; k < (count ? count : 1); ++k)
    {
        while (p < t.size() && sp(t[p])) ++p;
        size_t s = p; int nest = k + 1 == count; char q = 0; bool esc = false;
        for (; p < t.size(); ++p) { char c = t[p]; if (q) { if (esc) esc = false; else if (c == '\\') esc = true; else if (c == q) q = 0; } else if (c == ',' && (nest == 0 || p + 1 == t.size())) break; else if (c == '"' || c == '\'') q = c; else if (strchr("([{", c)) ++nest; else if (strchr(")]}", c)) --nest; }
        size_t m = p; while (m > s && sp(t[m - 1])) --m; v.push_back(t.substr(s, m - s)); if (p < t.size()) ++p;
    }
    return v;
}
template<size_t N, size_t C> static void names(R& r)
{
    string t; size_t n = r.chance(3) ? r.below(8) : r.below(N); static char const pick[] = "  ,,,,(())[]{}\"\"''\\\\ab\t"; bool odd = r.chance(4); while (t.size() < n) t += r.chance(odd ? 3 : 12) ? char(r.range(1, 255)) : pick[r.below(sizeof pick - 1)]; note("names<%zu, %zu> of '%s'", N, C, t.c_str());
    auto src = new char[t.size() + 1]; memcpy(src, t.c_str(), t.size() + 1); auto p = new ce::names<N, C>(src); auto w = split(t, C);
    for (size_t k = 0; k < w.size(); ++k) { char const* d = p->data[k]; RP_CHECK(d >= p->text && d < p->text + N, "entry %zu not in the table", k); RP_CHECK(memchr(d, 0, size_t(p->text + N - d)) && w[k] == d, "name %zu is '%s', not '%s'", k, d, w[k].c_str()); }
    delete p; delete[] src;
}
template<int N, int C> static void fields(R& r)
{
    string t; std::vector<string> w; size_t room = N - 1 - 2 * C; for (int k = 0; k < C; ++k) { string id; for (size_t n = r.below(room / C / 3 + 1); n; --n) { char c = char(r.range(33, 255)); id += c == ',' ? '_' : c; } auto pad = [&] { string s; for (size_t n = r.below(room / C / 3 + 1); n; --n) s += r.chance(2) ? ' ' : char(r.range(1, 32)); return s; }; if (k) t += ','; t += pad() + id + pad(); w.push_back(id); }
    note("names_t<%d, %d> of '%s'", N, C, t.c_str()); char src[N] = { }; memcpy(src, t.c_str(), t.size()); auto p = new ce::names_t<N, C>(src);
    for (int k = 0; k < C; ++k) { char const* d = p->names[k]; RP_CHECK(d >= p->text && d < p->text + N, "entry %d not in the table", k); RP_CHECK(memchr(d, 0, size_t(p->text + N - d)) && w[size_t(k)] == d, "name %d is '%s', not '%s'", k, d, w[size_t(k)].c_str()); }
    delete p;
}
struct part { short u; char v[3]; };
struct whole { int a; double b_long; part p[2]; ce::vec2<int> d; ce::vec3<float> e; unsigned char last; };
struct alias { int q; };
CE_IO_BIND(part, u, v);
CE_IO_BIND(whole, a,b_long , p,  d,e, last);
CE_IO_AS(alias, int)
struct rec : ce::io<rec>
{
    string s; char* base; long reads = -1; template<class... T> void add(char const* f, T... x) { char b[100]; snprintf(b, sizeof b, f, x...); s += b; }
    void name(char const* n) { s += n; s += '='; } template<class T> void atom(T& x) { add("%ld:%zu ", long(reinterpret_cast<char*>(&x) - base), sizeof x); }
    void enter_array(ce::size_t& n, bool v) { if (v && reads >= 0) n = ce::size_t(reads); add(v ? "[+%zu " : "[%zu ", size_t(n)); } void leave_array(ce::size_t&, bool v) { s += v ? "+] " : "] "; } void enter_class() { s += "{ "; } void leave_class() { s += "} "; }
};
static string parts(long o) { char b[200]; snprintf(b, sizeof b, "{ u=%ld:2 v=[3 %ld:1 %ld:1 %ld:1 ] } ", o, o + 2, o + 3, o + 4); return b; }
static void visits(R& r)
{
    note("visits"); whole w{ }; rec a; a.base = reinterpret_cast<char*>(&w); a.item(w); string want = "{ a=0:4 b_long=8:8 p=[2 " + parts(16) + parts(22) + "] d={ x=28:4 y=32:4 } e=[3 36:4 40:4 44:4 ] last=48:1 } "; RP_CHECK(a.s == want, "visited %s, not %s", a.s.c_str(), want.c_str());
    alias l{ 1 }; rec c; c.base = reinterpret_cast<char*>(&l); c.item(l); RP_CHECK(c.s == "0:4 ", "visited %s", c.s.c_str());
    ce::list<part, 40> q; size_t n = r.below(41); q.size = n; rec d; d.base = reinterpret_cast<char*>(&q); if (r.chance(2)) d.reads = long(n = r.below(41)); d.item(q); RP_CHECK(q.size == n, "size changed"); char b[40]; snprintf(b, sizeof b, "[+%zu ", n); want = b; for (size_t k = 0; k < n; ++k) want += parts(long(8 + 6 * k)); want += "+] "; RP_CHECK(d.s == want, "visited %s, not %s", d.s.c_str(), want.c_str()); q.size = 0;
}
void run_case(R& r, u64)
{
    switch (r.below(10)) { case 0: names<40, 0>(r); break; case 1: names<30, 1>(r); break; case 2: names<40, 2>(r); break; case 3: names<40, 3>(r); break; case 4: names<100, 3>(r); break; case 5: names<64, 5>(r); break; case 6: fields<40, 1>(r); break; case 7: fields<60, 3>(r); break; case 8: fields<100, 6>(r); break; default: visits(r); }
}
