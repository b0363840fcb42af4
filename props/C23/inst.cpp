#include <ce/cdt.h>
using M = ce::cdt<0>;
using size = ce::size_t;
struct acc : M { using M::flip; };
extern "C" bool w_incircle(M const& m, size f, size v) { return m.incircle(f, v); }
extern "C" bool w_can_flip(M const& m, size e) { return m.can_flip(e); }
extern "C" ce::uint16_t w_refine(M const& m, long long x, long long y, ce::uint16_t n) { return m.refine(x, y, n); }
extern "C" bool w_in(ce::vec2<ce::int64_t> const& a, ce::vec2<ce::int64_t> const& b) { return M::in(a, b); }
extern "C" bool w_on(long long ax, long long ay, long long bx, long long by) { return M::on(ax, ay, bx, by); }
extern "C" bool w_collinear(long long ax, long long ay, long long bx, long long by, long long cx, long long cy) { return M::collinear(ax, ay, bx, by, cx, cy); }
extern "C" size w_next_edge(size e) { return M::next_edge(e); }
extern "C" void w_do_flip(M& m, size n) { m.do_flip<false>(n); }
extern "C" void w_do_flips(M& m, size n) { m.do_flip<true>(n); }
extern "C" bool w_try_flip(M& m, size n) { return m.try_flip(n); }
extern "C" bool w_flip(M& m, size n) { return m.flip(n); }
extern "C" size w_locate_node(M const& m, long long x, long long y, size h) { return m.locate_insertion_node(x, y, h); }
extern "C" size w_insert_at(M& m, long long x, long long y, size n) { return m.insert_point_at_node(x, y, n); }
extern "C" size w_insert_point(M& m, long long x, long long y, size n) { return m.insert_point(x, y, n); }
extern "C" void w_constrain(M& m, size n) { m.constrain_edge(n); }
extern "C" bool w_insert_edge(M& m, long long a, long long b, long long c, long long d, size n) { return m.insert_edge(a, b, c, d, n); }
extern "C" bool w_insert_edge32(M& m, ce::vec2<ce::int32_t> const& p, ce::vec2<ce::int32_t> const& q, size n) { return m.insert_edge(p, q, n); }
extern "C" bool w_insert_point32(M& m, ce::vec2<ce::int32_t> const& p, size n) { return m.insert_point(p, n); }
extern "C" ce::uint w_locate(M const& m, ce::int32_t x, ce::int32_t y, ce::uint n) { return m.locate(x, y, n); }
extern "C" void w_fill(M& m, ce::uint n, ce::uint16_t i) { m.fill(n, i); }
extern "C" void w_reset(M& m) { m.reset(); }
extern "C" bool w_inside(ce::vec2<ce::int32_t> const& a, ce::vec2<ce::int32_t> const& b) { return ce::inside(a, b); }
extern "C" void w_validate(M const& m, size n) { m.validate_face(n); }
