#include <ce/io.h>
using size = ce::size_t;
inline void* operator new(size, void* p) noexcept { return p; }
extern "C" void w_names0(void* p, char const* s) { new (p) ce::names<4096, 0>(s); }
extern "C" void w_names1(void* p, char const* s) { new (p) ce::names<4096, 1>(s); }
extern "C" void w_names2(void* p, char const* s) { new (p) ce::names<4096, 2>(s); }
extern "C" void w_names3(void* p, char const* s) { new (p) ce::names<4096, 3>(s); }
extern "C" void w_io1(void* p, char const (&s)[4096]) { new (p) ce::names_t<4096, 1>(s); }
extern "C" void w_io2(void* p, char const (&s)[4096]) { new (p) ce::names_t<4096, 2>(s); }
extern "C" void w_io3(void* p, char const (&s)[4096]) { new (p) ce::names_t<4096, 3>(s); }
extern "C" { void x_name(char const*); void x_atom(void*, size); size x_enter(size, bool); void x_leave(size, bool); void x_class(); void x_unclass(); }
struct rec : ce::io<rec>
{
    void name(char const* n) { x_name(n); } template<class T> void atom(T& x) { x_atom(&x, sizeof x); }
    void enter_array(size& n, bool v) { n = x_enter(n, v); } void leave_array(size& n, bool v) { x_leave(n, v); } void enter_class() { x_class(); } void leave_class() { x_unclass(); }
};
struct part { short u; char v[3]; };
struct whole { int a; double b_long; part p[2]; ce::vec2<int> d; ce::vec3<float> e; unsigned char last; };
struct alias { int q; };
CE_IO_BIND(part, u, v);
CE_IO_BIND(whole, a,b_long , p,  d,e, last);
CE_IO_AS(alias, int)
extern "C" void w_whole(whole& w) { rec r; r.item(w); }
extern "C" void w_alias(alias& w) { rec r; r.item(w); }
extern "C" void w_list(ce::list<int, 1000>& w) { rec r; r.item(w); }
extern "C" void w_parts(ce::list<part, 1000>& w) { rec r; r.item(w); }
