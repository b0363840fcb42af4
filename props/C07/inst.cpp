#include <ce/ce.h>
using namespace ce;
extern "C" size_t w_size(size_t n) { return base64::size(n); }
extern "C" size_t w_size_text(char const* s) { return base64::size(s); }
extern "C" void w_decode(size_t n, uint8_t* dst, char const* src) { base64::decode(n, dst, src); }
extern "C" bool w_is64(char c) { return ascii::is_base64(c); }
