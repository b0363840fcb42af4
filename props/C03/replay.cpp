#include <rp.h>
#include <ce/ce.h>
using namespace rp;
static u32 ref(u32 P, u32 c, size_t n, u8 const* p)
{
    u32 v = ~c;
    for (size_t i = 0; i < n; ++i) { v ^= p[i]; for (int k = 0; k < 8; ++k) v = v & 1 ? v >> 1 ^ P : v >> 1; }
    return ~v;
}
template<u32 P> void go(R& r)
{
    using C = ce::crc32_t<P>;
    size_t n = r.len(300); std::vector<u64> w(n); for (auto& x : w) x = r.val();
    u32 c = r.chance(3) ? u32(C::initial) : u32(r.val(32));
    u8 const* b = (u8 const*)w.data();
    note("poly %08x c %08x words %zu first %016llx", P, c, n, n ? (unsigned long long)w[0] : 0ull);
    std::vector<u32> h(2 * n); if (n) memcpy(h.data(), w.data(), 8 * n);
    u32 want = ref(P, c, 8 * n, b);
    RP_CHECK(u32(C::initial) == 0, "initial value");
    RP_CHECK(u32(ce::crc32(C(c), n, (ce::uint64_t const*)w.data())) == want, "crc of 64-bit words differs from the definition");
    RP_CHECK(u32(ce::crc32(C(c), 2 * n, (ce::uint32_t const*)h.data())) == want, "crc of 32-bit words differs from the definition");
    size_t k = r.below(8 * n + 1);
    RP_CHECK(u32(ce::crc32(C(c), k, b)) == ref(P, c, k, b), "crc of %zu bytes differs from the definition", k);
    RP_CHECK(u32(ce::crc32(ce::crc32(C(c), k, b), 8 * n - k, b + k)) == want, "chained crc differs (split %zu)", k);
}
template<size_t N> void lit(R& r)
{
    char s[N]; for (auto& c : s) c = char(r.val(8)); s[N - 1] = 0;
    note("literal of %zu", N);
    RP_CHECK(ce::crc32c(s) == ref(0x82f63b78, 0, N - 1, (u8*)s), "crc32c(char[%zu]) differs", N);
}
void run_case(R& r, u64)
{
    switch (r.below(5)) { case 0: case 1: go<0x82f63b78>(r); break; case 2: go<0xedb88320>(r); break; case 3: go<0xeb31d82e>(r); break;
    default: lit<1>(r); lit<2>(r); lit<3>(r); lit<5>(r); lit<9>(r); lit<10>(r); lit<17>(r); lit<44>(r); }
}
