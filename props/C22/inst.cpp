#include <../mutex_std.cpp>
using namespace ce;
#define API(N, M) \
    extern "C" void N##_construct(M& q) { construct_mutex(q); } \
    extern "C" void N##_destroy(M& q) { destroy_mutex(q); } \
    extern "C" bool N##_try(M& q) { return try_acquire_mutex(q); } \
    extern "C" void N##_acquire(M& q) { acquire_mutex(q); } \
    extern "C" void N##_release(M& q) { release_mutex(q); }
API(m, thread_mutex) API(s, thread_shared_mutex)
extern "C" bool s_try_shared(thread_shared_mutex& q) { return try_acquire_mutex_shared(q); }
extern "C" void s_acquire_shared(thread_shared_mutex& q) { acquire_mutex_shared(q); }
extern "C" void s_release_shared(thread_shared_mutex& q) { release_mutex_shared(q); }
extern "C" { size_t layM[] = { sizeof(thread_mutex), sizeof(thread_shared_mutex), sizeof(pthread_mutex_t), sizeof(pthread_rwlock_t) }; }
