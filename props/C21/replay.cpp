#include <rp.h>
#include <ce/atomic.h>
#include <thread>
using namespace rp;
template<class T> T lift(R& r) { T v; u64 b = r.val(); if constexpr (sizeof(T) == 4 && T(0.5) != T(0)) return T(i64(b % 2000001) - 1000000); else if constexpr (T(0.5) != T(0)) return T(i64(b >> 12)); memcpy(&v, &b, sizeof v); return v; }
template<class T> void single(R& r)
{
    struct { T pre; ce::atomic<T> a; T post; } s{ T(77), {}, T(78) }; T m{}, v, e; RP_CHECK(ce::atomic_load(s.a) == T(0), "a default atomic is zero");
    { v = lift<T>(r); ce::atomic<T> b(v); RP_CHECK(ce::atomic_load(b) == v, "initial value"); }
    note("single thread, %zu byte type:", sizeof(T));
    for (int k = 0; k < 30; ++k)
    {
        v = lift<T>(r); int op = int(r.below(9)); noteadd(" %d(%lld)", op, (long long)v); constexpr bool in = T(0.5) == T(0);
        if (op == 0) { ce::atomic_store(s.a, v); m = v; }
        else if (op == 1) { RP_CHECK(ce::atomic_exchange(s.a, v) == m, "exchange returns the old value"); m = v; }
        else if (op == 2 || op == 3) { e = op == 2 ? m : lift<T>(r); T e0 = e; bool ok = ce::atomic_compare_exchange(s.a, e, v); RP_CHECK(ok == (e0 == m), "compare_exchange result"); RP_CHECK(e == (ok ? e0 : m), "compare_exchange expected value"); if (ok) m = v; }
        else if (op == 4) { RP_CHECK(ce::atomic_fetch_add(s.a, v) == m, "fetch_add returns the old value"); if constexpr (in) m = T(u64(m) + u64(v)); else m = m + v; }
        else if (op == 5) { RP_CHECK(ce::atomic_fetch_sub(s.a, v) == m, "fetch_sub returns the old value"); if constexpr (in) m = T(u64(m) - u64(v)); else m = m - v; }
        else if constexpr (in)
        {
            if (op == 6) { RP_CHECK(ce::atomic_fetch_xor(s.a, v) == m, "fetch_xor returns the old value"); m = T(m ^ v); }
            else if (op == 7) { RP_CHECK(ce::atomic_fetch_and(s.a, v) == m, "fetch_and returns the old value"); m = T(m & v); }
            else { RP_CHECK(ce::atomic_fetch_or(s.a, v) == m, "fetch_or returns the old value"); m = T(m | v); }
        }
        RP_CHECK(ce::atomic_load(s.a) == m, "value after the operation"); RP_CHECK(s.pre == T(77) && s.post == T(78), "memory next to the atomic");
    }
}
static void pointers(R& r)
{
    static int mem[64]; ce::atomic<int*> a(mem + 32); long at = 32; note("pointer:");
    for (int k = 0; k < 20; ++k) { long d = long(r.below(64)) - at; noteadd(" %ld", d); bool s = r.chance(2); RP_CHECK((s ? ce::atomic_fetch_sub(a, -d) : ce::atomic_fetch_add(a, d)) == mem + at, "pointer fetch_add returns the old value"); at += d; RP_CHECK(ce::atomic_load(a) == mem + at, "pointer value"); }
    int* e = mem + (at ? 0 : 1); RP_CHECK(!ce::atomic_compare_exchange(a, e, mem) && e == mem + at, "pointer compare_exchange"); RP_CHECK(ce::atomic_exchange(a, mem + 3) == mem + at, "pointer exchange");
}
// several threads, each with updates whose total is known
static void threads(R& r)
{
    int kind = int(r.below(6)), n = 4000; note("threads, kind %d", kind); ce::atomic<int> i(0); ce::atomic<float> f(0.0f); ce::atomic<double> d(0.0); ce::atomic<unsigned> b(0); ce::atomic<unsigned> go(0); bool bad[2] = { false, false };
    auto run = [&](int t)
    {
        unsigned bit = t ? 0xffff0000u : 0x0000ffffu, last = 0; ce::atomic_fetch_add(go, 1u); while (ce::atomic_load(go) < 2) std::this_thread::yield();
        for (int k = 0; k < n; ++k) switch (kind)
        {
        case 0: ce::atomic_fetch_add(i, 1); break;
        case 1: t ? ce::atomic_fetch_sub(i, -1) : ce::atomic_fetch_add(i, 1); break;
        case 2: ce::atomic_fetch_add(f, 1.0f); break;
        case 3: t ? ce::atomic_fetch_sub(d, -1.0) : ce::atomic_fetch_add(d, 1.0); break;
        case 4: { unsigned o = ce::atomic_fetch_xor(b, bit & unsigned(k * 2654435761u)); if ((o & bit) != last) bad[t] = true; last = (o ^ unsigned(k * 2654435761u)) & bit; } break;
        case 5: { unsigned o = k & 1 ? ce::atomic_fetch_and(b, ~bit) : ce::atomic_fetch_or(b, bit); if ((o & bit) != (k & 1 ? bit : 0)) bad[t] = true; } break;
        }
    };
    std::thread x(run, 0), y(run, 1); x.join(); y.join();
    if (kind < 2) RP_CHECK(ce::atomic_load(i) == 2 * n, "lost update"); if (kind == 2) RP_CHECK(ce::atomic_load(f) == 2.0f * n, "lost update"); if (kind == 3) RP_CHECK(ce::atomic_load(d) == 2.0 * n, "lost update"); RP_CHECK(!bad[0] && !bad[1], "an update of the other thread's bits was lost or undone");
}
// store then load of the other flag: with sequential consistency at least one thread sees the other's store
static void dekker(R&)
{
    note("store buffering litmus"); ce::atomic<int> x(0), y(0), go(0); int n = 400; std::vector<int> a(n), b(n);
    auto run = [&](ce::atomic<int>& p, ce::atomic<int>& q, std::vector<int>& o) { for (int k = 0; k < n; ++k) { ce::atomic_fetch_add(go, 1); while (ce::atomic_load(go) < 2 * (k + 1)) std::this_thread::yield(); ce::atomic_store(p, k + 1); o[k] = ce::atomic_load(q); } };
    std::thread s([&] { run(x, y, a); }), t([&] { run(y, x, b); }); s.join(); t.join();
    for (int k = 0; k < n; ++k) RP_CHECK(a[k] == k + 1 || b[k] == k + 1 || a[k] > k + 1 || b[k] > k + 1, "both threads missed the other's store");
}
void run_case(R& r, u64 i)
{
    if (i % 512 == 1) return threads(r); if (i % 512 == 2) return dekker(r);
    switch (r.below(9)) { case 0: single<int>(r); break; case 1: single<unsigned>(r); break; case 2: single<short>(r); break; case 3: single<u8>(r); break; case 4: single<u64>(r); break; case 5: single<long>(r); break; case 6: single<float>(r); break; case 7: single<double>(r); break; default: pointers(r); }
}
