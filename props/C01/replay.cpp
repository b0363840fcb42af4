#include <rp.h>
#include <ce/ce.h>
using namespace rp;
template<class T> void one(R& r)
{
    T v; u64 k = r.below(4); u64 raw = r.val();
    if (k == 0) v = T(raw); else if (k == 1) { u64 p = 1; for (u64 i = r.below(20); i; --i) p *= 10; v = T(p + r.below(5) - 2); if (r.chance(2)) v = T(0 - u64(v)); } else if (k == 2) v = T(raw >> r.below(64)); else { u64 a = 0; for (u64 n = r.below(20); n; --n) a = a * 10 + r.below(10); v = T(a); }
    std::string want = T(-1) < T(0) ? std::to_string((long long)v) : std::to_string((unsigned long long)v);
    note("value %s (%zu-byte %s)", want.c_str(), sizeof(T), T(-1) < T(0) ? "signed" : "unsigned");
    constexpr size_t M = ce::measure<T>::value; char b[M + 16]; memset(b, 0x7e, sizeof b); char* e = ce::to_text(b + 8, v);
    RP_CHECK(size_t(e - (b + 8)) == want.size() && !memcmp(b + 8, want.data(), want.size()), "text '%.*s'", int(e - (b + 8) > 0 && e - (b + 8) < 40 ? e - (b + 8) : 0), b + 8);
    for (size_t i = 0; i < sizeof b; ++i) if (i < 8 || i >= 8 + want.size()) RP_CHECK(b[i] == 0x7e, "wrote outside the text at %d", int(i) - 8);
    RP_CHECK(want.size() <= M, "longer than measured"); ce::as_string s{ v }; RP_CHECK(want == s.as, "as_string gives '%s'", s.as);
}
void run_case(R& r, u64 i) { switch (i % 10) { case 0: one<signed char>(r); break; case 1: one<unsigned char>(r); break; case 2: one<short>(r); break; case 3: one<unsigned short>(r); break; case 4: one<int>(r); break; case 5: one<unsigned>(r); break; case 6: one<long>(r); break; case 7: one<unsigned long>(r); break; case 8: one<long long>(r); break; default: one<unsigned long long>(r); } }
