#include <rp.h>
#include <ce/ce.h>
using namespace rp;
static u64 pst(u64 s) { return s * 6364136223846793005ull + 0xda3e39cb94b95bdbull; }
static u32 po(u64 s) { u32 x = u32(((s >> 18) ^ s) >> 27), r = u32(s >> 59); return r ? x >> r | x << (32 - r) : x; }
void run_case(R& r, u64)
{
    u64 s = r.val(); u32 n = u32(r.val(32)); if (r.chance(3)) n |= 0x80000000u; if (!n) n = 1;
    if (r.chance(4)) { // choose a state whose draw makes a chosen output (invert XSH-RR with rotation 0)
        u32 want = u32(r.val(32)); u64 x = u64(want) << 27; x ^= x >> 18; s = x & 0x07ffffffffffffffull;
    }
    note("state %016llx n %u", (unsigned long long)s, n);
    ce::pcg32_64_t g{ ce::uint64_t(s) };
    u64 q = s; for (int i = 0; i < 3; ++i)
    {
        u32 v = next_ranged(g, n); RP_CHECK(v == u32((u64(n) * po(q)) >> 32), "next_ranged"); RP_CHECK(v < n, "next_ranged out of range"); q = pst(q); RP_CHECK(u64(g) == q, "next_ranged state");
    }
    u32 t = u32(0u - n) % n;
    for (int i = 0; i < 6; ++i)
    {
        u32 v = next_unbiased(g, n); u64 m;
        do { m = u64(n) * po(q); q = pst(q); } while (u32(m) < t);
        RP_CHECK(v == u32(m >> 32), "next_unbiased returned %u, unbiased draw is %u", v, u32(m >> 32)); RP_CHECK(v < n, "range"); RP_CHECK(u64(g) == q, "next_unbiased state");
    }
}
