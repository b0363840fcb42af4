// Native oracle harness shared by every property: derives each case from one 64-bit seed (plus a dictionary of hint values taken from
// the solver's models and from the constants in the code under test), runs it against the real code, and reports the first failing case.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <chrono>
#include <csignal>
#include <unistd.h>
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
namespace rp {
    using u64 = std::uint64_t; using u32 = std::uint32_t; using i64 = std::int64_t; using i32 = std::int32_t; using u8 = std::uint8_t; using u16 = std::uint16_t;
    inline std::vector<u64> hints;
    inline u64 cur_seed = 0; inline char desc[8192]; inline u64 cases = 0; inline double limit = 0;
    inline std::chrono::steady_clock::time_point t0;
    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }
    inline void say(char const* s) { size_t n = strlen(s); while (n) { ssize_t k = write(1, s, n); if (k <= 0) break; s += k; n -= size_t(k); } }
    inline void death() { char b[8400]; snprintf(b, sizeof b, "\nCASE %llu\nFAIL abnormal end: %s\n", (unsigned long long)cur_seed, desc); say(b); }
    inline void on_sig(int s) { char b[8400]; snprintf(b, sizeof b, "\nCASE %llu\nFAIL signal %d (%s): %s\n", (unsigned long long)cur_seed, s, s == SIGALRM ? "no progress for 20 s" : "crash", desc); say(b); _exit(1); }
    [[noreturn]] inline void fail(char const* fmt, ...)
    {
        char m[4096]; va_list a; va_start(a, fmt); vsnprintf(m, sizeof m, fmt, a); va_end(a);
        char b[16384]; snprintf(b, sizeof b, "\nCASE %llu\nFAIL %s\nFAIL case: %s\n", (unsigned long long)cur_seed, m, desc); say(b); _exit(1);
    }
    // describe the current case (kept for crash reports)
    inline void note(char const* fmt, ...) { va_list a; va_start(a, fmt); vsnprintf(desc, sizeof desc, fmt, a); va_end(a); }
    inline void noteadd(char const* fmt, ...) { size_t n = strlen(desc); if (n + 64 > sizeof desc) return; va_list a; va_start(a, fmt); vsnprintf(desc + n, sizeof desc - n, fmt, a); va_end(a); }
    struct R
    {
        u64 s;
        explicit R(u64 seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) { raw(); }
        u64 raw() { u64 z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ z >> 30) * 0xbf58476d1ce4e5b9ull; z = (z ^ z >> 27) * 0x94d049bb133111ebull; return z ^ z >> 31; }
        u64 below(u64 n) { return n ? raw() % n : 0; }
        u64 range(u64 a, u64 b) { return a + below(b - a + 1); }
        i64 irange(i64 a, i64 b) { return a + i64(below(u64(b - a) + 1)); }
        bool chance(int n) { return below(u64(n)) == 0; }
        // a value with interesting structure
        u64 val(int bits = 64)
        {
            u64 m = bits >= 64 ? ~0ull : (1ull << bits) - 1, v;
            switch (below(10))
            {
            case 0: v = raw(); break;
            case 1: v = raw() >> below(64); break;
            case 2: v = 1ull << below(64); break;
            case 3: v = (1ull << below(64)) - 1; break;
            case 4: v = (1ull << below(64)) + below(3) - 1; break;
            case 5: v = below(16); break;
            case 6: v = ~below(16); break;
            case 7: case 8: if (!hints.empty()) { v = hints[below(hints.size())]; if (chance(2)) v += below(5) - 2; if (chance(8)) v = 0 - v; break; } [[fallthrough]];
            default: { v = 1; for (u64 k = below(20); k; --k) v *= 10; v += below(5) - 2; if (chance(3)) v *= 1 + below(9); }
            }
            return v & m;
        }
        size_t len(size_t max)
        {
            size_t n;
            switch (below(6))
            {
            case 0: n = below(4); break;
            case 1: n = below(max + 1); break;
            case 2: if (!hints.empty()) { n = size_t(hints[below(hints.size())] + below(3) - 1); if (n <= max) break; } [[fallthrough]];
            case 3: n = (size_t(1) << below(12)) + below(3) - 1; break;
            default: n = below(20);
            }
            return n > max ? n % (max + 1) : n;
        }
    };
}
void run_case(rp::R& r, rp::u64 index);   // provided by the property
#define RP_CHECK(c, ...) do { if (!(c)) ::rp::fail(__VA_ARGS__); } while (0)
#ifndef RP_NO_MAIN
int main(int argc, char** argv)
{
    using namespace rp;
    if (argc < 4) return 3;
    u64 seed = strtoull(argv[2], nullptr, 10); limit = atof(argv[3]);
    if (argc > 4) if (FILE* f = fopen(argv[4], "r")) { unsigned long long v; while (fscanf(f, "%llu", &v) == 1) hints.push_back(v); fclose(f); }
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
    else { signal(SIGSEGV, on_sig); signal(SIGABRT, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig); signal(SIGILL, on_sig); signal(SIGTRAP, on_sig); }
    signal(SIGALRM, on_sig);
    t0 = std::chrono::steady_clock::now();
    if (!strcmp(argv[1], "case")) { cur_seed = seed; alarm(30); R r(seed); run_case(r, seed & 0xffffffff); say("case passed\n"); return 0; }
    double next = 0; u64 i = 0;
    for (;; ++i)
    {
        double e = elapsed();
        if (e >= limit && i >= 64) break;
        if (e >= next) { alarm(20); next = e + 1; }
        cur_seed = (seed << 32) + i; desc[0] = 0; R r(cur_seed); run_case(r, i); ++cases;
    }
    char b[64]; snprintf(b, sizeof b, "CASES %llu\n", (unsigned long long)cases); say(b);
    return 0;
}
#endif
