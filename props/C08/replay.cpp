#include <rp.h>
#include <ce/lziii.h>
using namespace rp;
struct source_t { ce::size_t size = 6; ce::uint8_t data[6]{ 0x07, 'a', 'b', 'c', 0xfd, 0x2f }; };
void run_case(R& r, u64 i)
{
    if (i == 0) { ce::lziii::decoder<source_t> d; note("decoder<abc>"); RP_CHECK(sizeof d == 8 && memcmp(d.data, "abcabcab", 8) == 0, "constant decoder"); return; }
    std::vector<u8> s, o; size_t n = r.chance(8) ? r.below(4000) : r.below(r.chance(3) ? 5 : 120); int mode = int(r.below(4)), far = int(r.below(3)); size_t ctl = 0, bit = 8; note("%zu tokens:", n);
    for (size_t k = 0; k < n; ++k)
    {
        if (bit == 8) { ctl = s.size(); s.push_back(0); bit = 0; }
        bool lit = o.empty() || (mode == 0 ? r.chance(2) : mode == 1 ? true : !r.chance(6) ? false : true);
        if (lit) { s[ctl] |= u8(1 << bit); u8 c = u8(r.raw()); s.push_back(c); o.push_back(c); noteadd(" L%02x", c); }
        else
        {
            size_t dmax = o.size() < 4096 ? o.size() : 4096, d = far == 0 ? 1 + r.below(dmax) : far == 1 ? 1 + r.below(dmax < 20 ? dmax : 20) : dmax - r.below(dmax < 3 ? dmax : 3), len = 3 + r.below(16); u32 off = u32(4096 - d);
            s.push_back(u8(off)); s.push_back(u8((len - 3) * 16 + off / 256)); for (size_t q = 0; q < len; ++q) o.push_back(o[o.size() - d]); noteadd(" S%zu,%zu", d, len);
        }
        ++bit;
    }
    if (n && bit < 8) s[ctl] |= u8(r.raw() << bit);       // the unused control bits mean nothing
    std::vector<u8> src(s); src.shrink_to_fit(); RP_CHECK(ce::lziii::size(src.size(), src.data()) == o.size(), "size: %zu, encoded %zu", size_t(ce::lziii::size(src.size(), src.data())), o.size());
    std::vector<u8> dst(o.size(), 0xaa); dst.shrink_to_fit(); ce::lziii::decode(dst.size(), dst.data(), src.data()); RP_CHECK(src == s, "source changed");
    for (size_t k = 0; k < o.size(); ++k) RP_CHECK(dst[k] == o[k], "byte %zu is %02x, encoded %02x", k, dst[k], o[k]);
}
