#include <rp.h>
#include <ce/ce.h>
#include <set>
#include <memory>
using namespace rp;
struct rec { int key; unsigned tag; friend bool operator<(rec const& a, rec const& b) { return a.key < b.key; } };
template<class T> u64 id(T const& v) { return u64(v); }
u64 id(rec const& v) { return u64(u32(v.key)) << 32 | v.tag; }
template<class T> T mk(R& r, u64 m) { return T(m ? r.below(m) : r.val()); }
template<> rec mk<rec>(R& r, u64 m) { return { int(m ? r.below(m) : r.val()), unsigned(r.raw()) }; }
template<size_t N, class T> void one(R& r)
{
    struct box { u64 a; ce::min_priority_queue<N, T> q; u64 z; }; auto p = std::make_unique<box>(); auto& q = p->q; p->a = p->z = 0x5a5a5a5a5a5a5a5aull; q.size = 0;
    std::multiset<u64> all; std::multiset<T> m; u64 span = r.chance(2) ? 0 : 1 + r.below(20); int bias = int(r.range(1, 9)); std::string h;
    for (int k = 0, n = int(r.below(r.chance(8) ? 3 * N + 4 : 40)); k < n; ++k)
    {
        RP_CHECK(q.size == m.size() && q.empty() == m.empty(), "size %zu, model %zu", q.size, m.size());
        if (int(r.below(10)) < bias)
        {
            T v = mk<T>(r, span); noteadd(" +%lld", (long long)id(v)); bool ok = q.enqueue(v); RP_CHECK(ok == (m.size() < N), "enqueue reports %d at size %zu", ok, m.size());
            if (ok) m.insert(v), all.insert(id(v));
        }
        else if (!m.empty())
        {
            noteadd(" -"); T h = q.head(); T v = q.dequeue(); RP_CHECK(id(h) == id(v), "head differs from dequeue");
            RP_CHECK(!(*m.begin() < v) && !(v < *m.begin()), "dequeued %lld is not a minimum", (long long)id(v));
            auto it = all.find(id(v)); RP_CHECK(it != all.end(), "dequeued an item that is not held"); all.erase(it);
            auto e = m.equal_range(v); for (auto i = e.first; i != e.second; ++i) if (id(*i) == id(v)) { m.erase(i); break; }
        }
    }
    RP_CHECK(p->a == 0x5a5a5a5a5a5a5a5aull && p->z == p->a, "wrote outside the queue");
}
void run_case(R& r, u64 i) { note("ops:"); switch (i % 5) { case 0: one<1000, int>(r); break; case 1: one<3, u64>(r); break; case 2: one<1, u8>(r); break; case 3: one<64, rec>(r); break; default: one<20, short>(r); } }
