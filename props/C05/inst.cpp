#include <ce/ce.h>
using namespace ce;
extern "C" {
uint32_t w_x64_next(xoroshiro64ss* g) { return next(*g); }
uint32_t w_x64_next32(xoroshiro64ss* g) { return next32(*g); }
uint64_t w_x64_next64(xoroshiro64ss* g) { return next64(*g); }
uint64_t w_x128_next(xoroshiro128pp* g) { return next(*g); }
uint32_t w_x128_next32(xoroshiro128pp* g) { return next32(*g); }
uint64_t w_x128_next64(xoroshiro128pp* g) { return next64(*g); }
uint32_t w_pcg_next(pcg32_64_t* g) { return next(*g); }
uint32_t w_pcg_read(uint64_t g) { return read(pcg32_64_t{ g }); }
uint64_t w_pcg_step(uint64_t g) { return uint64_t(step(pcg32_64_t{ g })); }
void w_pcg_seed(pcg32_64_t* g, uint64_t s) { seed(*g, s); }
void w_pcg_seed_bytes(pcg32_64_t* g, size_t n, uint8_t const* p) { seed(*g, n, p); }
void w_x64_seed(xoroshiro64ss* g, size_t n, uint8_t const* p) { seed(*g, n, p); }
void w_x128_seed(xoroshiro128pp* g, size_t n, uint8_t const* p) { seed(*g, n, p); }
}
