#include <time.h>
#include <unistd.h>
static timespec fake_now, slept; static int sleeps, gets, gfail;
static int fake_gettime(clockid_t, timespec* t) { ++gets; if (gfail) return -1; *t = fake_now; return 0; }
static int fake_sleep(timespec const* t, timespec*) { slept = *t; ++sleeps; return 0; }
#define clock_gettime fake_gettime
#define nanosleep fake_sleep
#include <../os_posix.cpp>
#undef clock_gettime
#undef nanosleep
#include <rp.h>
#include <ce/clock.h>
using namespace rp; using u128 = unsigned __int128;
template<u64 Fn, u64 Fd> void one(R& r)
{
    u64 t = r.below(1000000000000ull); auto set = [&](u64 x) { fake_now.tv_sec = time_t(x / 1000000000); fake_now.tv_nsec = long(x % 1000000000); };
    ce::clock<Fn, Fd> c; set(t); gfail = 0; c.reset(); u64 t0 = t;
    RP_CHECK(c.tick == 0 && c.residual == 0 && c.timestamp == t && c.frequency == 1000000000, "reset");
    if (r.chance(3)) c.frequency = 1 + r.below(r.chance(2) ? 100 : 5000000000ull);
    u128 fd = u128(c.frequency) * Fd; if ((fd * (Fn + 1)) >> 64) c.frequency = 7, fd = u128(7) * Fd; u64 prev = 0;
    for (int k = 0, n = int(r.below(60)); k < n; ++k)
    {
        u64 dt = r.chance(3) ? r.below(20) : r.chance(2) ? r.below(100000000) : r.below(100000000000ull); t += dt; set(t);
        u128 want = u128(t - t0) * Fn / fd; if (want >> 63) return;
        note("Fn=%llu Fd=%llu frequency=%llu reading %d after +%llu (total %llu)", (unsigned long long)Fn, (unsigned long long)Fd, (unsigned long long)c.frequency, k, (unsigned long long)dt, (unsigned long long)(t - t0));
        gets = 0; bool cur = r.chance(2); u64 v = cur ? c.current() : c.elapsed();
        RP_CHECK(gets == 1, "time read %d times", gets);
        RP_CHECK(c.tick == u64(want), "tick %llu, exact %llu", (unsigned long long)c.tick, (unsigned long long)want);
        RP_CHECK(v == (cur ? c.tick : c.tick - prev), "returned %llu", (unsigned long long)v); prev = c.tick;
    }
}
void run_case(R& r, u64 i)
{
    if (i % 16 == 0)
    {
        u64 ns = r.chance(2) ? r.below(3000000000ull) : r.val(); note("sleep_ns %llu", (unsigned long long)ns); sleeps = 0; ce::os::sleep_ns(ns);
        RP_CHECK(sleeps == 1 && slept.tv_nsec >= 0 && slept.tv_nsec < 1000000000 && u64(slept.tv_sec) * 1000000000u + u64(slept.tv_nsec) == ns, "sleeps for another time");
        gfail = 1; RP_CHECK(ce::os::monotonic_timestamp() == 0, "failed clock"); gfail = 0; RP_CHECK(ce::os::monotonic_frequency() == 1000000000, "frequency"); return;
    }
    switch (i % 5) { case 0: one<60, 1>(r); break; case 1: one<1000, 1>(r); break; case 2: one<1000000000, 1>(r); break; case 3: one<24000, 1001>(r); break; default: one<1, 60>(r); }
}
