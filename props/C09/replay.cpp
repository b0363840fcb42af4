#include <rp.h>
#include <ce/sort.h>
#include <algorithm>
using namespace rp;
struct rec { int key; unsigned tag; friend bool operator<(rec const& a, rec const& b) { return a.key < b.key; } };
template<class F> void fill(R& r, size_t n, F f)
{
    int mode = int(r.below(7)); u64 span = r.chance(2) ? r.range(1, 6) : r.chance(2) ? n + 1 : 1ull << 31;
    for (size_t i = 0; i < n; ++i)
    {
        u64 v = r.below(span);
        switch (mode) { case 0: v = i; break; case 1: v = n - i; break; case 2: v = i < n / 2 ? i : n - i; break; case 3: v = r.chance(10) ? v : i; break; case 4: v = r.val(); break; case 5: v = i % 2 ? i : n - i; break; }
        f(i, v);
    }
    note("n=%zu mode=%d span=%llu", n, mode, (unsigned long long)span);
}
template<size_t N, class T> void one(R& r)
{
    size_t n = r.chance(3) ? r.range(0, 8) : r.chance(2) ? r.range(110, 300) : r.range(0, 700);
    std::vector<T> v(n + 2), w; fill(r, n, [&](size_t i, u64 x) { v[i + 1] = T(x); }); v[0] = T(77); v[n + 1] = T(5); w = v;
    std::sort(w.begin() + 1, w.end() - 1);
    if (r.chance(5) && n < 300) ce::insertion_sort(v.data() + 1, v.data() + 1 + n); else ce::intro_sort<N>(v.data() + 1, v.data() + 1 + n);
    for (size_t i = 0; i < n + 2; ++i) RP_CHECK(v[i] == w[i], "element %zu of %zu", i, n);
}
void run_case(R& r, u64 i)
{
    if (i % 4 == 0) return one<128, int>(r);
    if (i % 4 == 1) return one<2, u64>(r);
    if (i % 4 == 2) return one<128, unsigned short>(r);
    size_t n = r.range(0, 200); std::vector<rec> v(n); fill(r, n, [&](size_t i, u64 x) { v[i] = { int(x), unsigned(i) }; }); auto w = v;
    ce::intro_sort<16>(v.data(), v.data() + n); std::vector<char> seen(n);
    for (size_t k = 0; k < n; ++k) { RP_CHECK(k == 0 || !(v[k] < v[k - 1]), "order at %zu", k); RP_CHECK(v[k].tag < n && !seen[v[k].tag]++ && w[v[k].tag].key == v[k].key, "record %zu lost", k); }
}
