#include <string>
#include <vector>
namespace hk
{
    struct call { int kind, level; std::vector<std::pair<std::string, std::string>> t; bool ended; };
    inline std::vector<call> calls; inline bool answer = false;
    inline void add(int kind, int level, int argc, char const* const t[][2]) { call c{ kind, level, {}, t[argc][0] == nullptr && t[argc][1] == nullptr }; for (int k = 0; k < argc; ++k) c.t.push_back({ t[k][0], t[k][1] }); calls.push_back(c); }
    inline void log(int level, int argc, char const* const t[][2]) { add(0, level, argc, t); }
    inline bool error(int level, int argc, char const* const t[][2]) { add(1, level, argc, t); return answer; }
}
#define CE_USER_LOG_HOOK(L, N, ...) hk::log(L, N, __VA_ARGS__)
#define CE_USER_ERROR_HOOK(L, N, ...) hk::error(L, N, __VA_ARGS__)
#include <ce/ce.h>
#include <rp.h>
#include <sys/mman.h>
using namespace rp; using std::string; using rows = std::vector<std::pair<string, string>>;
static string bt(bool b) { return b ? "#<T>" : "#<F>"; }
static void expect(int kind, int level, rows const& t, char const* what, size_t calls, size_t i)
{
    RP_CHECK(hk::calls.size() == calls, "%s: %zu hook calls, not %zu", what, hk::calls.size(), calls); auto& c = hk::calls[i];
    RP_CHECK(c.kind == kind && c.level == level && c.ended && c.t.size() == t.size(), "%s: kind %d level %d ended %d entries %zu", what, c.kind, c.level, int(c.ended), c.t.size());
    for (size_t k = 0; k < t.size(); ++k) RP_CHECK((t[k].first == "*" || c.t[k].first == t[k].first) && (t[k].second == "*" || c.t[k].second == t[k].second), "%s: entry %zu is (%s, %s), not (%s, %s)", what, k, c.t[k].first.c_str(), c.t[k].second.c_str(), t[k].first.c_str(), t[k].second.c_str());
}
static string str(R& r) { string s; for (size_t n = r.len(40); n; --n) s += char(r.range(1, 255)); return s; }
static volatile int traps;
static void macros(R& r)
{
    int x = int(r.below(3)), y = int(r.below(3)); string s0 = str(r), t0 = str(r); char const* s = s0.c_str(); char const* t = t0.c_str(); char c = char(r.range(1, 127)), d = char(r.range(1, 127)); bool b = r.chance(2), bb = r.chance(2);
    string C(1, c), D(1, d); hk::calls.clear(); signal(SIGTRAP, [](int) { ++traps; }); traps = 0; int want_traps = 0; hk::answer = r.chance(2); note("x %d y %d s '%s' t '%s' c %d d %d b %d", x, y, s, t, c, d, b);
    auto failed = [&](char const* kind, char const* what, char const* names, rows more, char const* lab, bool bad = true) { rows w{ { kind, "*" }, { what, names } }; for (auto& m : more) w.push_back({ "...", m.second }); if (bad == (x < y)) { RP_CHECK(hk::calls.empty() && traps == 0, "%s: hooks ran for a condition that holds", lab); return; } want_traps = hk::answer; expect(0, 0, w, lab, 2, 0); expect(1, 0, w, lab, 2, 1); };
    auto logged = [&](int level, rows w, char const* lab) { expect(0, level, w, lab, 1, 0); };
    switch (r.below(16))
    {
    case 0: CE_ASSERT(x < y); failed("CE_ASSERT", "x < y", "", {}, "CE_ASSERT of nothing"); break;
    case 1: CE_ASSERT(x < y, s, c, b); failed("CE_ASSERT", "x < y", "s, c, b", { { "s", s0 }, { "c", C }, { "b", bt(b) } }, "CE_ASSERT of three"); break;
    case 2: { bool v = CE_VERIFY(x < y, t, d); RP_CHECK(v == (x < y), "CE_VERIFY gave %d", int(v)); failed("CE_VERIFY", "x < y", "t, d", { { "t", t0 }, { "d", D } }, "CE_VERIFY of two"); break; }
    case 3: { y = 0; x = 1; want_traps = 1; CE_ERROR(s, t, c, d); hk::answer = true; failed("CE_ERROR", "", "s, t, c, d", { { "s", s0 }, { "t", t0 }, { "c", C }, { "d", D } }, "CE_ERROR of four"); break; }
    case 4: CE_LOG(fatal); logged(0, { { "$", "fatal" } }, "CE_LOG of nothing"); break;
    case 5: CE_LOG(error, s); logged(1, { { "$", "error" }, { "s", s0 } }, "CE_LOG error"); break;
    case 6: CE_LOG(warn, s, c, b, t, d); logged(2, { { "$", "warn" }, { "s", s0 }, { "c", C }, { "b", bt(b) }, { "t", t0 }, { "d", D } }, "CE_LOG warn"); break;
    case 7: CE_LOG(note, b, bb); logged(3, { { "$", "note" }, { "b", bt(b) }, { "bb", bt(bb) } }, "CE_LOG note"); break;
    case 8: CE_LOG(info, (c ? x : y), t); logged(4, { { "$", "info" }, { "(c ? x : y)", std::to_string(x) }, { "t", t0 } }, "CE_LOG info"); break;
    case 9: CE_LOG(debug, c, d); logged(5, { { "$", "debug" }, { "c", C }, { "d", D } }, "CE_LOG debug"); break;
    case 10: CE_LOG(spam, s, s); logged(6, { { "$", "spam" }, { "s", s0 }, { "s", s0 } }, "CE_LOG spam"); break;
    case 11: CE_LOG(more, x, y); logged(7, { { "$", "more" }, { "x", std::to_string(x) }, { "y", std::to_string(y) } }, "CE_LOG more"); break;
    case 12: CE_LOG_MSG(warn, c, '-', d); logged(2, { { "$", "warn" }, { "$msg", C + "-" + D } }, "CE_LOG_MSG"); break;
    case 13: { bool v = CE_REJECT(x < y, bb, s); RP_CHECK(v == (x < y), "CE_REJECT gave %d", int(v)); failed("CE_REJECT", "x < y", "bb, s", { { "", bt(bb) }, { "", s0 } }, "CE_REJECT of two", false); break; }
    case 14: { string q[4] = { str(r), str(r), str(r), str(r) }, i(1, char(r.raw())); for (auto& w : q) i += w + string(1, '\0'); bool a = ce::call_error_hook(i.c_str(), s, t); int l = static_cast<signed char>(i[0]); rows w{ { q[0], q[2] }, { q[1], q[3] }, { "...", s0 }, { "...", t0 } }; expect(0, l, w, "call_error_hook", 2, 0); expect(1, l, w, "call_error_hook", 2, 1); RP_CHECK(a == hk::answer, "call_error_hook gave %d", int(a)); break; }
    default: { char const* keys[] = { "one", "two", "three" }; int l = int(r.val(32)); ce::call_log_hook(l, keys, s, b, d); logged(l, { { "one", s0 }, { "two", bt(b) }, { "three", D } }, "call_log_hook"); break; }
    }
    RP_CHECK(traps == want_traps, "%d debugger stops, not %d", int(traps), want_traps);
}
static void printed(R& r)
{
    rows t; std::vector<char const*> p; size_t n = r.below(7); for (size_t k = 0; k < n; ++k) t.push_back({ str(r), str(r) });
    for (auto& x : t) { p.push_back(x.first.c_str()); p.push_back(x.second.c_str()); } p.push_back(nullptr); p.push_back(nullptr); auto argv = reinterpret_cast<char const*(*)[2]>(p.data());
    int level = r.chance(3) ? int(r.val(32)) : int(r.irange(-2, 9)); bool log = r.chance(2), null = !log && r.chance(8), b = false; note("%s level %d entries %zu%s", log ? "os::log" : "os::error", level, n, null ? " null table" : "");
    int fd = memfd_create("out", 0), old = dup(2); dup2(fd, 2); if (log) ce::os::log(level, int(n), argv); else b = ce::os::error(level, int(n), null ? nullptr : argv); if (r.chance(4)) ce::os::debug_out(nullptr); dup2(old, 2); close(old);
    string got(size_t(lseek(fd, 0, SEEK_END)), 0), want; lseek(fd, 0, SEEK_SET); got.resize(size_t(read(fd, got.data(), got.size()))); close(fd);
    if (log) { want = string(1, "FEWNIDSM"[level < 0 ? 0 : level > 7 ? 7 : level]) + ": {"; for (size_t k = 0; k < n; ++k) want += (k ? ", \"" : " \"") + t[k].first + "\": \"" + t[k].second + "\""; want += " }\n"; }
    else { want = "******** FAILED ********\n"; if (!null && n > 1) { want += t[0].second + ": " + t[0].first + ": " + t[1].first + ": (" + t[1].second + ") = ("; for (size_t k = 2; k < n; ++k) want += (k > 2 ? ", " : "") + t[k].second; want += ")\n"; } RP_CHECK(b == (level == 0), "os::error(%d) gave %d", level, int(b)); }
    RP_CHECK(got == want, "printed '%s', not '%s'", got.c_str(), want.c_str());
}
void run_case(R& r, u64) { r.below(3) ? macros(r) : printed(r); }
