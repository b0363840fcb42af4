// instantiations of the public CRC API (nothing here but calls)
#include <ce/ce.h>
using namespace ce;
#define POLY(P, S) \
    extern "C" uint32_t w_crc8_##S(uint32_t c, size_t n, uint8_t const* p) { return uint32_t(ce::crc32(crc32_t<P>(c), n, p)); } \
    extern "C" uint32_t w_crc32_##S(uint32_t c, size_t n, uint32_t const* p) { return uint32_t(ce::crc32(crc32_t<P>(c), n, p)); } \
    extern "C" uint32_t w_crc64_##S(uint32_t c, size_t n, uint64_t const* p) { return uint32_t(ce::crc32(crc32_t<P>(c), n, p)); } \
    extern "C" uint32_t w_init_##S() { return uint32_t(crc32_t<P>::initial); }
POLY(0x82f63b78, c)
POLY(0xedb88320, i)
POLY(0xeb31d82e, k)
extern "C" uint32_t w_crcT(uint32_t c, size_t n, uint8_t const* p) { return uint32_t(ce::crc32(crc32c_t(c), n, p)); }
#define LIT(N) extern "C" uint32_t w_lit_##N(char const (&s)[N]) { return ce::crc32c(s); }
LIT(1) LIT(2) LIT(3) LIT(5) LIT(9) LIT(10) LIT(17) LIT(44)
