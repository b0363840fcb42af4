#include <rp.h>
#include <ce/dictionary.h>
#include <map>
using namespace rp;
template<int N, class T, class K> void history(R& r)
{
    auto* d = new ce::dictionary<N, T, K>{}; using D = ce::dictionary<N, T, K>; using P = typename D::ptr_t;
    std::map<K, std::pair<unsigned, T>> m; std::map<unsigned, K> slots;
    std::vector<K> pool; for (size_t i = 0, n = r.range(1, N + 4); i < n; ++i) pool.push_back(r.chance(6) ? K(0) : r.chance(2) ? K(r.below(8)) : K(r.val(8 * sizeof(K))));
    for (size_t ops = r.range(1, 3 * N); ops; --ops)
    {
        K k = pool[r.below(pool.size())]; T v = T(r.val(8 * sizeof(T)));
        if (r.chance(2))
        {
            unsigned p = unsigned(d->bind(k, v)); note("bind(%llu) -> %u", (unsigned long long)k, p);
            auto it = m.find(k);
            if (it != m.end()) { RP_CHECK(p == it->second.first, "rebinding moved the key"); it->second.second = v; }
            else if (m.size() == N - 1) RP_CHECK(p == 0, "bind beyond capacity returned a slot");
            else { RP_CHECK(p != 0 && p < unsigned(N) && !slots.count(p), "new key got slot %u", p); m[k] = { p, v }; slots[p] = k; }
        }
        unsigned p = unsigned(d->find(k)); auto it = m.find(k);
        RP_CHECK(p == (it == m.end() ? 0u : it->second.first), "find(%llu) = %u", (unsigned long long)k, p);
        if (p && r.chance(3)) { T w = T(r.val()); if (r.chance(2)) (*d)[P(p)] = w; else (*d)[k] = w; it->second.second = w; note("set %u", p); }
        auto const& c = *d;
        for (auto& x : m) { RP_CHECK(unsigned(d->find(x.first)) == x.second.first, "lost key %llu", (unsigned long long)x.first); RP_CHECK(c[x.first] == x.second.second && c[P(x.second.first)] == x.second.second, "wrong value for %llu", (unsigned long long)x.first); }
    }
    delete d;
}
void run_case(R& r, u64 i) { if (i % 3 == 0) history<50, unsigned, unsigned>(r); else if (i % 3 == 1) history<3, u64, u64>(r); else history<9, unsigned short, unsigned char>(r); }
