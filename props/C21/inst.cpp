#include <ce/atomic.h>
using namespace ce;
#define MEM(N, T) \
    extern "C" T N##_load(atomic<T> const& a) { return atomic_load(a); } \
    extern "C" void N##_store(atomic<T>& a, T v) { atomic_store(a, v); } \
    extern "C" T N##_exchange(atomic<T>& a, T v) { return atomic_exchange(a, v); } \
    extern "C" bool N##_cas(atomic<T>& a, T& e, T v) { return atomic_compare_exchange(a, e, v); } \
    extern "C" T N##_init(T v) { atomic<T> a{ v }; return atomic_load(a); } \
    extern "C" T N##_zero() { atomic<T> a{}; return atomic_load(a); }
#define VAL(N, T, D) \
    extern "C" T N##_add(atomic<T>& a, D v) { return atomic_fetch_add(a, v); } \
    extern "C" T N##_sub(atomic<T>& a, D v) { return atomic_fetch_sub(a, v); }
#define INT(N, T) MEM(N, T) VAL(N, T, T) \
    extern "C" T N##_xor(atomic<T>& a, T v) { return atomic_fetch_xor(a, v); } \
    extern "C" T N##_and(atomic<T>& a, T v) { return atomic_fetch_and(a, v); } \
    extern "C" T N##_or(atomic<T>& a, T v) { return atomic_fetch_or(a, v); }
INT(i8, signed char) INT(u8, unsigned char) INT(i16, short) INT(u16, unsigned short) INT(i32, int) INT(u32, unsigned) INT(i64, long) INT(u64, unsigned long)
MEM(f32, float) VAL(f32, float, float) MEM(f64, double) VAL(f64, double, double)
MEM(ptr, int*) VAL(ptr, int*, long)
