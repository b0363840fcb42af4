#include <rp.h>
#include <ce/sort.h>
#include <ce/zorder.h>
#include <algorithm>
using namespace rp;
template<class T> void one(R& r)
{
    size_t n = r.chance(4) ? r.below(5) : r.below(300); u64 span = r.chance(2) ? 1 + r.below(n + 3) : ~0ull;
    std::vector<T> v(n); for (auto& x : v) x = T(span == ~0ull ? r.val() : r.below(span)); std::sort(v.begin(), v.end());
    T k = n && r.chance(2) ? T(u64(v[r.below(n)]) + r.below(3) - 1) : T(r.val());
    note("n=%zu k=%lld", n, (long long)k);
    RP_CHECK(ce::lower_bound(v.data(), v.data() + n, k) - v.data() == std::lower_bound(v.begin(), v.end(), k) - v.begin(), "lower_bound");
    RP_CHECK(ce::upper_bound(v.data(), v.data() + n, k) - v.data() == std::upper_bound(v.begin(), v.end(), k) - v.begin(), "upper_bound");
    if constexpr (sizeof(T) == 8 && T(-1) > T(0)) RP_CHECK(ce::z_lower_bound((ce::uint64_t*)v.data(), (ce::uint64_t*)v.data() + n, k) - (ce::uint64_t*)v.data() == std::lower_bound(v.begin(), v.end(), k) - v.begin(), "z_lower_bound");
}
#include <sys/mman.h>
// ranges longer than 2^32: a sparse mapping that is zero but for its last elements
static void wide(R& r)
{
    static size_t cap = (size_t(1) << 32) + (size_t(1) << 16); static u8* p = (u8*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if ((void*)p == MAP_FAILED) return;
    size_t n = (size_t(1) << 32) + r.below(1 << 16), k = r.below(200); for (size_t i = 0; i < k; ++i) p[n - k + i] = u8(1 + i);
    u8 key = u8(r.below(202)); note("%zu elements: zeros, then 1..%zu; key %d", n, k, key); size_t lo = key == 0 ? 0 : n - k + (key - 1 < k ? key - 1 : k), up = key >= k ? n : n - k + key;
    RP_CHECK(size_t(ce::lower_bound<u8>(p, p + n, key) - p) == lo, "lower_bound"); RP_CHECK(size_t(ce::upper_bound<u8>(p, p + n, key) - p) == up, "upper_bound");
    for (size_t i = 0; i < k; ++i) p[n - k + i] = 0;
}
void run_case(R& r, u64 i) { if (i % 64 == 9) return wide(r); if (i % 4 == 0) one<int>(r); else if (i % 4 == 1) one<u64>(r); else if (i % 4 == 2) one<u8>(r); else one<short>(r); }
