#include <ce/zorder.h>
using namespace ce;
extern "C" uint64_t w_expand(uint32_t n) { return z_expand(n); }
extern "C" uint64_t w_encode(int32_t x, int32_t y) { return z_encode(x, y); }
extern "C" bool w_inside(uint64_t lo, uint64_t hi, uint64_t z) { return z_inside(lo, hi, z); }
extern "C" bool w_box(int32_t x0, int32_t y0, int32_t x1, int32_t y1, int32_t x, int32_t y) { return z_inside(z_encode(x0, y0), z_encode(x1, y1), z_encode(x, y)); }
extern "C" bool w_split(uint64_t lo, uint64_t hi, uint64_t& jo, uint64_t& ji) { return z_split(lo, hi, jo, ji); }
extern "C" uint64_t const* w_lower(uint64_t const* a, uint64_t const* b, uint64_t z) { return z_lower_bound(a, b, z); }
extern "C" size_t w_query(uint64_t* out, uint64_t lo, uint64_t hi, size_t size, uint64_t const* data) { return z_query(out, lo, hi, size, data); }
