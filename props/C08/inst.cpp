#include <ce/lziii.h>
using namespace ce;
extern "C" size_t w_size(size_t n, uint8_t const* data) { return lziii::size(n, data); }
extern "C" void w_decode(size_t n, uint8_t* dst, uint8_t const* src) { lziii::decode(n, dst, src); }
