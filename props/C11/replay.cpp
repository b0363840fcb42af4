#include <rp.h>
#include <ce/ce.h>
#include <memory>
#include <set>
using namespace rp;
static std::set<void const*> alive; static int made;
struct obj
{
    int v; int live;
    void born() { RP_CHECK(alive.insert(this).second, "constructed over a live object"); live = 1; }
    void check() const { RP_CHECK(alive.count(this), "use of an object that is not alive"); }
    obj() : v(7) { born(); } obj(int a) : v(a) { born(); } obj(obj const& o) : v(o.v) { o.check(); born(); } obj(obj&& o) : v(o.v) { o.check(); o.v = -12345; born(); }
    obj& operator=(obj const& o) { check(); o.check(); v = o.v; return *this; }
    obj& operator=(obj&& o) { check(); o.check(); RP_CHECK(this != &o, "self-move"); v = o.v; o.v = -12345; return *this; }
    ~obj() { RP_CHECK(alive.erase(this) == 1, "destroyed an object that is not alive"); }
};
int val(obj const& o) { return o.v; } int val(int o) { return o; }
template<size_t N, class T> void one(R& r)
{
    using B = ce::bulk<N, T>; alive.clear();
    struct raw { alignas(16) u8 a[16]; alignas(16) u8 b[2][sizeof(B) + 16]; u8 z[16]; }; auto p = std::make_unique<raw>(); memset((void*)p.get(), 0x77, sizeof(raw));
    B* b[2]; std::vector<int> m[2]; for (int k = 0; k < 2; ++k) b[k] = new ((void*)p->b[k]) B();
    auto check = [&](int k) { RP_CHECK(b[k]->size == m[k].size() && b[k]->room() == N - m[k].size() && B::capacity() == N, "size %zu, model %zu", b[k]->size, m[k].size()); for (size_t i = 0; i < m[k].size(); ++i) RP_CHECK(val((*b[k])[i]) == m[k][i], "element %zu is %d, expected %d", i, val((*b[k])[i]), m[k][i]);
        RP_CHECK(size_t(b[k]->end() - b[k]->begin()) == m[k].size() && make_span(*b[k]).size == m[k].size(), "range"); if (!m[k].empty()) RP_CHECK(val(b[k]->back()) == m[k].back(), "back"); };
    for (int n = int(r.below(30)); n > 0; --n)
    {
        int k = int(r.below(2)), v = int(r.below(1000)); auto& c = *b[k]; auto& w = m[k]; u64 op = r.below(11); size_t i = size_t(r.chance(8) ? r.val() : r.below(N + 3));
        noteadd(" %d:%d(%zu,%d)", k, int(op), i, v); bool ok;
        switch (op)
        {
        case 0: case 1: ok = c.append(v); RP_CHECK(ok == (w.size() < N), "append reports %d", ok); if (ok) w.push_back(v); break;
        case 2: { T t(v); ok = c.append(t); RP_CHECK(ok == (w.size() < N), "append reports %d", ok); if (ok) w.push_back(v); } break;
        case 3: ok = c.remove_at(i); RP_CHECK(ok == (i < w.size()), "remove_at reports %d", ok); if (ok) { w[i] = w.back(); w.pop_back(); } break;
        case 4: ok = c.template remove_at<true>(i); RP_CHECK(ok == (i < w.size()), "remove_at reports %d", ok); if (ok) w.erase(w.begin() + long(i)); break;
        case 5: ok = c.resize(i); RP_CHECK(ok == (i <= N), "resize reports %d", ok); if (ok) { size_t o = w.size(); w.resize(i, 7); if (sizeof(T) == sizeof(int)) for (size_t j = o; j < i; ++j) w[j] = val(c[j]); } break;
        case 6: { size_t o = w.size(); ok = c.append_n(i); RP_CHECK(ok == (i <= N - o), "append_n reports %d", ok); if (ok) { w.resize(o + i, 7); if (sizeof(T) == sizeof(int)) for (size_t j = o; j < o + i; ++j) w[j] = val(c[j]); } } break;
        case 7: if (r.chance(3)) c.clear(), w.clear(); break;
        case 8: { int j = int(r.below(2)); RP_CHECK(&(c = *b[j]) == &c, "assignment result"); m[k] = std::vector<int>(m[j]); } break;
        case 9: { B t(c); RP_CHECK(t.size == w.size(), "copy size"); for (size_t j = 0; j < w.size(); ++j) RP_CHECK(val(t[j]) == w[j], "copy element"); } break;
        default: if (!w.empty()) { size_t j = size_t(r.below(w.size())); int x = w[j]; ok = c.append(c[j]); RP_CHECK(ok == (w.size() < N), "append reports %d", ok); if (ok) w.push_back(x); } break;
        }
        check(0); check(1); if (sizeof(T) != sizeof(int)) RP_CHECK(alive.size() == m[0].size() + m[1].size(), "%zu objects alive, %zu held", alive.size(), m[0].size() + m[1].size());
    }
    for (auto c : b) c->~B();
    RP_CHECK(alive.empty(), "%zu objects leaked", alive.size()); for (auto q : { p->a, p->z }) for (int k = 0; k < 16; ++k) RP_CHECK(q[k] == 0x77, "wrote outside the bulk");
}
void run_case(R& r, u64 i) { note("ops k:op(i,v):"); switch (i % 4) { case 0: one<4, obj>(r); break; case 1: one<1, obj>(r); break; case 2: one<5, int>(r); break; default: one<20, obj>(r); } }
