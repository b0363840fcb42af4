#include <rp.h>
#include <ce/mutex.h>
#include <thread>
#include <atomic>
#include <mutex>
#include <shared_mutex>
#include <unistd.h>
#include <sys/wait.h>
using namespace rp;
// what another thread finds when it tries
template<class M> static int probe(M& q, int how)
{
    int r = 0;
    std::thread t([&] { if (how == 0) { if (ce::try_acquire_mutex(q)) { r = 1; ce::release_mutex(q); } } else if constexpr (sizeof(M) == sizeof(ce::thread_shared_mutex)) { if (ce::try_acquire_mutex_shared(q)) { r = 1; ce::release_mutex_shared(q); } } });
    t.join(); return r;
}
// an acquire in another thread while the lock is held: it must wait until the release
template<class M, class A, class R0, class R1> static void waits(M& q, A acquire, R0 release_theirs, R1 release_ours, char const* what)
{
    std::atomic<int> state(0); std::thread t([&] { state = 1; acquire(q); state = 2; release_theirs(q); });
    while (state == 0) std::this_thread::yield(); for (int k = 0; k < 50; ++k) { std::this_thread::yield(); RP_CHECK((usleep(20), state == 1), "%s returned while the lock was held", what); }
    release_ours(q); t.join(); RP_CHECK(state == 2, "%s", what);
}
static void simple(R& r)
{
    struct { u64 a; ce::thread_mutex q; u64 b; } s; s.a = s.b = 0x55; memset(&s.q, int(r.raw()), sizeof s.q); note("mutex"); auto& q = s.q;
    ce::construct_mutex(q); RP_CHECK(probe(q, 0) == 1, "a new mutex is free");
    for (int k = 0; k < 4; ++k) { if (r.chance(2)) ce::acquire_mutex(q); else RP_CHECK(ce::try_acquire_mutex(q), "try_acquire of a free mutex"); RP_CHECK(probe(q, 0) == 0, "held mutex acquired by another thread"); ce::release_mutex(q); RP_CHECK(probe(q, 0) == 1, "mutex still held after release"); }
    using M = ce::thread_mutex; void (*a)(M&) = ce::acquire_mutex, (*e)(M&) = ce::release_mutex; ce::acquire_mutex(q); waits(q, a, e, e, "acquire");
    RP_CHECK(probe(q, 0) == 1, "mutex not free at the end"); ce::destroy_mutex(q); RP_CHECK(s.a == 0x55 && s.b == 0x55, "memory next to the mutex");
}
static void shared(R& r)
{
    struct { u64 a; ce::thread_shared_mutex q; u64 b; } s; s.a = s.b = 0x55; memset(&s.q, int(r.raw()), sizeof s.q); note("shared mutex"); auto& q = s.q; using M = ce::thread_shared_mutex; void (*a)(M&) = ce::acquire_mutex, (*e)(M&) = ce::release_mutex, (*as)(M&) = ce::acquire_mutex_shared, (*es)(M&) = ce::release_mutex_shared;
    ce::construct_mutex(q); RP_CHECK(probe(q, 0) == 1 && probe(q, 1) == 1, "a new shared mutex is free");
    for (int k = 0; k < 3; ++k)
    {
        if (r.chance(2)) ce::acquire_mutex(q); else RP_CHECK(ce::try_acquire_mutex(q), "try_acquire of a free shared mutex"); RP_CHECK(probe(q, 0) == 0 && probe(q, 1) == 0, "exclusive hold shared with another thread"); ce::release_mutex(q);
        if (r.chance(2)) ce::acquire_mutex_shared(q); else RP_CHECK(ce::try_acquire_mutex_shared(q), "try_acquire_shared of a free shared mutex"); RP_CHECK(probe(q, 0) == 0, "exclusive hold next to a shared hold"); RP_CHECK(probe(q, 1) == 1, "shared holds exclude each other"); ce::release_mutex_shared(q);
        RP_CHECK(probe(q, 0) == 1 && probe(q, 1) == 1, "shared mutex still held after release");
    }
    ce::acquire_mutex(q); waits(q, as, es, e, "acquire_shared"); ce::acquire_mutex_shared(q); waits(q, a, e, es, "acquire"); ce::acquire_mutex(q); waits(q, a, e, e, "acquire");
    RP_CHECK(probe(q, 0) == 1 && probe(q, 1) == 1, "shared mutex not free at the end"); ce::destroy_mutex(q); RP_CHECK(s.a == 0x55 && s.b == 0x55, "memory next to the mutex");
}
void run_case(R& r, u64 i) { i & 1 ? simple(r) : shared(r); }
