#include <ce/math.h>
using namespace ce; using namespace ce::math;
extern "C" {
bool w_cmp(int64_t a, int64_t b, int64_t c, int64_t d) { return ab_less_cd(a, b, c, d); }
bool w_inside(vec2<int32_t> const& a, vec2<int32_t> const& b) { return inside(a, b); }
bool w_insideb(vec2<int16_t> const& a, vec2<int16_t> const& b) { return inside(vec2<int32_t>{ a.x, a.y }, vec2<int32_t>{ b.x, b.y }); }
bool w_both(vec2<int32_t> const& a, vec2<int32_t> const& b) { return inside(a, b) != inside(b, a); }
bool w_disc(int32_t x, int32_t y, int64_t rr) { return in_range_rr(x, y, rr); }
bool w_line(int32_t x, int32_t y, int64_t rr, int32_t dx, int32_t dy) { return in_range_rr_line(x, y, rr, dx, dy); }
bool w_edge(int32_t x, int32_t y, int64_t rr, int32_t dx, int32_t dy) { return in_range_rr_edge(x, y, rr, dx, dy); }
bool w_ray(int32_t x, int32_t y, int64_t rr, int32_t dx, int32_t dy) { return in_range_rr_ray(x, y, rr, dx, dy); }
bool w_segment(int32_t x, int32_t y, int64_t rr, int32_t dx, int32_t dy) { return in_range_rr_segment(x, y, rr, dx, dy); }
bool w_bedge(vec2<int32_t> const& p, int64_t rr, vec2<int32_t> const& a, vec2<int32_t> const& b) { return ball_hits_edge(p, rr, a, b); }
bool w_bray(vec2<int32_t> const& p, int64_t rr, vec2<int32_t> const& a, vec2<int32_t> const& b) { return ball_hits_ray(p, rr, a, b); }
void w_muldiv(vec2<int32_t>* o, vec2<int32_t> const& b, int32_t n, int32_t d) { *o = muldiv(b, n, d); }
}
