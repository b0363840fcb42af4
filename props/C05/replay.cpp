#include <rp.h>
#include <ce/ce.h>
using namespace rp;
static u32 rl(u32 x, int k) { return k ? x << k | x >> (32 - k) : x; }
static u64 rl(u64 x, int k) { return k ? x << k | x >> (64 - k) : x; }
static u32 n64(u32* s) { u32 a = s[0], b = s[1], o = rl(u32(a * 0x9E3779BBu), 5) * 5; b ^= a; s[0] = rl(a, 26) ^ b ^ (b << 9); s[1] = rl(b, 13); return o; }
static u64 n128(u64* s) { u64 a = s[0], b = s[1], o = rl(a + b, 17) + a; b ^= a; s[0] = rl(a, 49) ^ b ^ (b << 21); s[1] = rl(b, 28); return o; }
static u64 pst(u64 s) { return s * 6364136223846793005ull + 0xda3e39cb94b95bdbull; }
static u32 po(u64 s) { u32 x = u32(((s >> 18) ^ s) >> 27), r = u32(s >> 59); return r ? x >> r | x << (32 - r) : x; }
static u32 crc(u32 c, size_t n, u8 const* p) { u32 v = ~c; for (size_t i = 0; i < n; ++i) { v ^= p[i]; for (int k = 0; k < 8; ++k) v = v & 1 ? v >> 1 ^ 0x82f63b78u : v >> 1; } return ~v; }
static u64 fnv(u64 h, size_t n, u8 const* p) { for (size_t i = 0; i < n; ++i) h = (h ^ p[i]) * 0x100000001B3ull; return h; }
void run_case(R& r, u64)
{
    u32 s[2]{ u32(r.val(32)), u32(r.val(32)) }; u64 t[2]{ r.val(), r.val() }, p = r.chance(3) ? r.val() >> 5 : r.val();
    note("state %08x %08x / %016llx %016llx / %016llx", s[0], s[1], (unsigned long long)t[0], (unsigned long long)t[1], (unsigned long long)p);
    ce::xoroshiro64ss g{ s[0], s[1] }; ce::xoroshiro128pp h{ t[0], t[1] }; ce::pcg32_64_t q{ ce::uint64_t(p) };
    for (int i = 0; i < 4; ++i)
    {
        switch (r.below(3)) { case 0: RP_CHECK(next(g) == n64(s), "xoroshiro64** next"); break; case 1: RP_CHECK(next32(g) == n64(s), "next32"); break;
        default: { u64 hi = n64(s), lo = n64(s); RP_CHECK(next64(g) == (hi << 32 | lo), "xoroshiro64** next64"); } }
        RP_CHECK(g.a == s[0] && g.b == s[1], "xoroshiro64** state");
        switch (r.below(3)) { case 0: RP_CHECK(next(h) == n128(t), "xoroshiro128++ next"); break; case 1: RP_CHECK(next32(h) == u32(n128(t)), "next32"); break; default: RP_CHECK(next64(h) == n128(t), "next64"); }
        RP_CHECK(h.a == t[0] && h.b == t[1], "xoroshiro128++ state");
        RP_CHECK(ce::random::read(q) == po(p), "pcg32 output for state %016llx", (unsigned long long)p);
        RP_CHECK(next(q) == po(p), "pcg32 next"); p = pst(p); RP_CHECK(u64(q) == p, "pcg32 state");
        RP_CHECK(u64(ce::random::step(q)) == pst(p), "pcg32 step");
    }
    u64 k = r.val(); seed(q, k); RP_CHECK(u64(q) == pst(pst(0) + k), "pcg32 seed %llx", (unsigned long long)k);
    size_t n = r.len(200); std::vector<u8> d(n); for (auto& x : d) x = u8(r.val(8));
    note("seed bytes %zu", n);
    seed(g, n, d.data()); u32 a = crc(0, n / 2, d.data()), b = crc(a, n - n / 2, d.data() + n / 2); RP_CHECK(g.a == a && g.b == b, "xoroshiro64** seed from bytes");
    seed(h, n, d.data()); u64 f = fnv(0xcbf29ce484222325ull, n, d.data()); RP_CHECK(h.a == f && h.b == fnv(f, n, d.data()), "xoroshiro128++ seed from bytes");
    seed(q, n, d.data()); RP_CHECK(u64(q) == pst(pst(0) + f), "pcg32 seed from bytes");
}
