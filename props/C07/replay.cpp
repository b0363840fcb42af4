#include <rp.h>
#include <ce/ce.h>
using namespace rp;
static char const* AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
void run_case(R& r, u64)
{
    size_t n = r.len(300); std::string s; for (size_t i = 0; i < n; ++i) s += AL[r.chance(4) ? (r.chance(2) ? 63 : 62) : r.below(64)];
    note("text of %zu: %.200s", n, s.c_str());
    size_t want = n * 6 / 8;
    u64 big = r.val(); RP_CHECK(ce::base64::size(big) == (u64)((unsigned __int128)big * 6 / 8), "size(%llu)", (unsigned long long)big);
    for (int c = 0; c < 256; ++c) RP_CHECK(ce::ascii::is_base64(char(c)) == (c && strchr(AL, c)), "is_base64(%d)", c);
    std::vector<char> text(s.begin(), s.end()); char const ends[] = { 0, '=', '\n', '-', '@', '[', '`', '{', ':', char(0xc1) }; text.push_back(ends[r.below(sizeof ends)]);
    RP_CHECK(ce::base64::size(text.data()) == want, "size(text)");
    size_t d = r.chance(3) ? r.below(want + 1) : want;
    std::vector<char> exact(s.begin(), s.end()); std::vector<u8> out(d, 0xa5), ref;
    ce::base64::decode(d, out.data(), exact.data());
    u32 acc = 0; int bits = 0; for (char c : s) { acc = acc << 6 | u32(strchr(AL, c) - AL); bits += 6; if (bits >= 8) { bits -= 8; ref.push_back(u8(acc >> bits)); } }
    for (size_t i = 0; i < d; ++i) RP_CHECK(out[i] == ref[i], "byte %zu is %02x, standard decoding gives %02x", i, out[i], ref[i]);
}
