#include <rp.h>
#include <ce/ce.h>
using namespace rp;
template<class H> static H ref(H h, H prime, size_t n, u8 const* p) { for (size_t i = 0; i < n; ++i) h = H((h ^ p[i]) * prime); return h; }
template<class U> void go(R& r)
{
    size_t n = r.len(200); std::vector<U> w(n); for (auto& x : w) x = U(r.val());
    u32 b = u32(r.val(32)); u64 c = r.val();
    note("elements %zu of %zu bytes, first %lld, basis %08x", n, sizeof(U), n ? (long long)w[0] : 0ll, b);
    u8 const* p = (u8 const*)w.data();
    RP_CHECK(ce::hash::fnv1a32(n, w.data(), b) == ref<u32>(b, 0x01000193u, n * sizeof(U), p), "fnv1a32 differs from FNV-1a");
    RP_CHECK(ce::hash::fnv1a64(n, w.data(), c) == ref<u64>(c, 0x100000001B3ull, n * sizeof(U), p), "fnv1a64 differs from FNV-1a");
    RP_CHECK(ce::hash::fnv1a32(n, w.data()) == ref<u32>(0x811c9dc5u, 0x01000193u, n * sizeof(U), p), "fnv1a32 default basis");
    RP_CHECK(ce::hash::fnv1a64(n, w.data()) == ref<u64>(0xcbf29ce484222325ull, 0x100000001B3ull, n * sizeof(U), p), "fnv1a64 default basis");
}
void run_case(R& r, u64)
{
    switch (r.below(10))
    {
    case 0: go<u8>(r); break; case 1: go<char>(r); break; case 2: go<std::int8_t>(r); break; case 3: go<u16>(r); break; case 4: go<std::int16_t>(r); break;
    case 5: go<u32>(r); break; case 6: go<i32>(r); break; case 7: go<ce::uint64_t>(r); break; case 8: go<ce::int64_t>(r); break;
    default:
        size_t n = r.len(200); std::vector<char> s(n + 1); for (size_t i = 0; i < n; ++i) { s[i] = char(r.val(8)); if (!s[i]) s[i] = 'z'; } s[n] = 0;
        note("text of %zu", n);
        RP_CHECK(ce::hash::fnv1a(s.data()) == ref<u32>(0x811c9dc5u, 0x01000193u, n, (u8*)s.data()), "fnv1a(text) differs");
    }
}
