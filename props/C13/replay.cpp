#include <rp.h>
#include <ce/ce.h>
#include <memory>
using namespace rp;
template<size_t N> void one(R& r)
{
    struct box { u8 a[8]; ce::bitset<N> b; u8 z[8]; }; auto p = std::make_unique<box>(); auto& b = p->b;
    memset((void*)p.get(), 0xa5, sizeof(box)); bool any = r.chance(2); if (any) b.set(); else b.reset();
    std::vector<bool> m(N, any);
    for (size_t i = 0; i < N; ++i) RP_CHECK(b[i] == any, "set()/reset()");
    for (int k = 0, n = int(r.below(40)); k < n; ++k)
    {
        size_t i = size_t(r.below(N)); u64 op = r.below(4); note("N=%zu op=%d i=%zu", N, int(op), i);
        if (op == 0) b.set(i), m[i] = true; else if (op == 1) b.reset(i), m[i] = false; else if (op == 2) b.set(i, true), m[i] = true; else b.set(i, false), m[i] = false;
        for (size_t j = 0; j < N; ++j) RP_CHECK(b[j] == m[j], "a bit differs from the model");
    }
    RP_CHECK(b.get_size() == N, "size");
    for (int k = 0; k < 8; ++k) RP_CHECK(p->a[k] == 0xa5 && p->z[k] == 0xa5, "wrote outside the set");
}
template<size_t N> void big(R& r)
{
    static auto b = std::make_unique<ce::bitset<N>>(); static bool init = (b->reset(), true); (void)init;
    size_t i = size_t(r.below(N)), j[6] = { size_t(r.below(N)), i % 256, i % 65536, i % 524288, (i / 8 % 256) * 8 + i % 8, (i / 8 % 65536) * 8 + i % 8 }; u64 op = r.below(2);
    note("N=%zu set then clear bit %zu", N, i);
    if (op) b->set(i); else b->set(i, true);
    RP_CHECK((*b)[i], "bit not set"); for (auto k : j) RP_CHECK((*b)[k] == (k == i), "bit %zu changed", k);
    for (auto k : j) b->set(k);
    if (op) b->reset(i); else b->set(i, false);
    RP_CHECK(!(*b)[i], "bit not cleared"); for (auto k : j) RP_CHECK((*b)[k] == (k != i), "bit %zu changed", k);
    for (auto k : j) b->reset(k);
}
void run_case(R& r, u64 i) { if (i % 16 == 7) return big<1000>(r); if (i % 16 == 9) return big<10000000>(r);  switch (i % 6) { case 0: one<1>(r); break; case 1: one<7>(r); break; case 2: one<8>(r); break; case 3: one<13>(r); break; case 4: one<64>(r); break; default: one<100>(r); } }
