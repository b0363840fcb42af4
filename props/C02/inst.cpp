#include <ce/ce.h>
#include <stddef.h>
using namespace ce;
enum class en : short { a };
struct odd { int x; };
using ints3 = int[3];

// constructors of the deduced type for a list of arguments
template<class T> struct box { T v; };
#define W1(K, A) extern "C" { using t##K = decltype(as_string{ *(A*)0 }); size_t lay##K[] = { sizeof(t##K) }; void w_##K(void* o, A const& a) { CE_CONSTRUCT_AT(o) t##K{ a }; } }
#define W2(K, A, B) extern "C" { using t##K = decltype(as_string{ *(A*)0, *(B*)0 }); size_t lay##K[] = { sizeof(t##K) }; void w_##K(void* o, A const& a, B const& b) { CE_CONSTRUCT_AT(o) t##K{ a, b }; } }
#define W3(K, A, B, C) extern "C" { using t##K = decltype(as_string{ *(A*)0, *(B*)0, *(C*)0 }); size_t lay##K[] = { sizeof(t##K) }; void w_##K(void* o, A const& a, B const& b, C const& c) { CE_CONSTRUCT_AT(o) t##K{ a, b, c }; } }
#define W4(K, A, B, C, D) extern "C" { using t##K = decltype(as_string{ *(A*)0, *(B*)0, *(C*)0, *(D*)0 }); size_t lay##K[] = { sizeof(t##K) }; void w_##K(void* o, A const& a, B const& b, C const& c, D const& d) { CE_CONSTRUCT_AT(o) t##K{ a, b, c, d }; } }
using v2 = vec2<int>; using v3 = vec3<int>; using p_ = char const*; using m_ = char*; using a5 = char[5]; using a16 = char[16]; using a1 = char[1]; using a3k = char[3000]; using ip = int*; using nil = decltype(nullptr); using schar = signed char; using uchar = unsigned char; using ullong = unsigned long long; using llong = long long; using ulong = unsigned long; using ushort = unsigned short; using uint = unsigned int;
W1(i, int) W1(c, char) W1(b, bool) W1(ull, ullong) W1(en, en) W1(np, nil) W1(ip, ip)
W1(odd, odd) W2(podd, p_, odd) W2(pi, p_, int) W2(ip2, int, p_) W2(pp, p_, p_) W2(mp, m_, p_) W2(a5i, a5, int) W2(a1a1, a1, a1) W2(a3ka16, a3k, a16) W2(a16p, a16, p_) W2(pa5, p_, a5)
W3(cbc, char, bool, char) W3(enpi, en, nil, ip) W3(scucs, schar, uchar, short) W3(usuil, ushort, uint, long) W3(ulllull, ulong, llong, ullong) W3(ppp, p_, m_, p_) W3(a5a16a1, a5, a16, a1) W3(vv, v2, v3, char) W3(pvp, p_, v2, p_)
W4(mix, a5, ullong, p_, char) W4(mix2, char, a16, en, p_)
extern "C" char const* w_lit(char const (&a)[9]) { return as_string{ a }.as; }
extern "C" char const* w_ptr(char const* a) { return as_string{ a }.as; }
extern "C" char* w_copy(char* t, size_t n, char const* v) { return to_text_s(t, n, v); }
extern "C" char* w_copyp(char* t, char const* v) { return to_text_p(t, v); }
extern "C" char* w_all(char* t, char const* const& a, int const& b, char const (&c)[16], char const& d) { return to_text(t, a, b, c, d); }
extern "C" char* w_nint(char* t, size_t n, int const* v) { return to_text_n(t, n, v); }
extern "C" char* w_nchar(char* t, size_t n, char const* v) { return to_text_n(t, n, v); }
extern "C" char* w_arr3(char* t, ints3 const& v) { return to_text(t, v); }
