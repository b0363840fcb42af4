#include <ce/ce.h>
using namespace ce;
extern "C" uint32_t w_ranged(pcg32_64_t* g, uint32_t n) { return next_ranged(*g, n); }
extern "C" uint32_t w_unbiased(pcg32_64_t* g, uint32_t n) { return next_unbiased(*g, n); }
