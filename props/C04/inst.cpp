#include <ce/ce.h>
using namespace ce;
#define H(U, S) \
    extern "C" uint32_t w_32_##S(size_t n, U const* p, uint32_t b) { return hash::fnv1a32(n, p, b); } \
    extern "C" uint64_t w_64_##S(size_t n, U const* p, uint64_t b) { return hash::fnv1a64(n, p, b); }
H(uint8_t, u8) H(char, c) H(int8_t, i8) H(uint16_t, u16) H(int16_t, i16) H(uint32_t, u32) H(int32_t, i32) H(uint64_t, u64) H(int64_t, i64)
extern "C" uint32_t w_32_default(size_t n, uint8_t const* p) { return hash::fnv1a32(n, p); }
extern "C" uint64_t w_64_default(size_t n, uint8_t const* p) { return hash::fnv1a64(n, p); }
extern "C" uint32_t w_text(char const* s) { return hash::fnv1a(s); }
