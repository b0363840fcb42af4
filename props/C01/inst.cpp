#include <../to_text.cpp>
using namespace ce;
#define API(S, T) extern "C" char* w_##S(char* b, T v) { return to_text(b, v); } \
    extern "C" char* w_ref##S(char* b, T const& v) { return to_text_m<T const&>(b, v); } \
    extern "C" { size_t lay##S[] = { sizeof(T), bool((T)-1 < (T)0), measure<T>::value }; }
API(sc, signed char) API(uc, unsigned char) API(s, short) API(us, unsigned short) API(i, int) API(ui, unsigned int) API(l, long) API(ul, unsigned long) API(ll, long long) API(ull, unsigned long long)
