#include <rp.h>
#include <ce/pool.h>
#include <deque>
#include <set>
using namespace rp;
template<size_t N, class T, class I> void history(R& r)
{
    using P = ce::pool<N, T, I>; auto* p = new P; for (auto& x : p->data) x = T(); memset(p->next, 0xa5, sizeof p->next); p->reset();
    typename P::queue_t q[3]; std::deque<T> m[3]; std::set<I> mine; size_t used = 0;
    RP_CHECK(P::capacity() == N, "capacity");
    for (size_t ops = r.range(1, r.chance(4) ? 4 * N : 40); ops; --ops)
    {
        int k = int(r.below(3)); T v = T(r.val());
        switch (r.below(6))
        {
        case 0: case 1: { bool ok = p->append_tail(q[k], v); note("append q%d -> %d", k, ok); RP_CHECK(ok == (used < N - 1), "append with %zu of %zu used", used, N - 1); if (ok) m[k].push_back(v), ++used; break; }
        case 2: { bool ok = p->insert_head(q[k], v); note("insert q%d -> %d", k, ok); RP_CHECK(ok == (used < N - 1), "insert with %zu of %zu used", used, N - 1); if (ok) m[k].push_front(v), ++used; break; }
        case 3: { bool ok = p->remove_head(q[k]); note("remove q%d -> %d", k, ok); RP_CHECK(ok == !m[k].empty(), "remove"); if (ok) m[k].pop_front(), --used; break; }
        case 4: { I i = p->alloc_index(); note("alloc -> %u", unsigned(i)); RP_CHECK((i != 0) == (used < N - 1), "alloc gave %u with %zu used", unsigned(i), used); if (i) { RP_CHECK(i < N && mine.insert(i).second, "index %u handed out twice", unsigned(i)); ++used; p->data[i] = T(i); } break; }
        default: if (!mine.empty() && r.chance(2)) { auto it = mine.begin(); std::advance(it, r.below(mine.size())); note("free %u", unsigned(*it)); RP_CHECK(p->data[*it] == T(*it), "an owned node changed"); p->free_index(*it); mine.erase(it); --used; } else p->free_index(0);
        }
        if (r.chance(40)) { note("reset"); p->reset(); for (int j = 0; j < 3; ++j) q[j].reset(), m[j].clear(); mine.clear(); used = 0; }
        for (int j = 0; j < 3; ++j) { RP_CHECK(p->is_empty(q[j]) == m[j].empty(), "is_empty q%d", j); if (!m[j].empty()) RP_CHECK(p->head(q[j]) == m[j].front() && p->tail(q[j]) == m[j].back(), "ends of q%d", j); }
    }
    for (int j = 0; j < 3; ++j) { while (!m[j].empty()) { RP_CHECK(p->head(q[j]) == m[j].front(), "order of q%d", j); RP_CHECK(p->remove_head(q[j]), "drain q%d", j); m[j].pop_front(); } RP_CHECK(!p->remove_head(q[j]), "q%d has extra items", j); }
    delete p;
}
void run_case(R& r, u64 i) { switch (i % 4) { case 0: history<100, u64, unsigned short>(r); break; case 1: history<256, unsigned, unsigned char>(r); break; case 2: history<2, unsigned, unsigned>(r); break; default: history<5, unsigned, unsigned char>(r); } }
