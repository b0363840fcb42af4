#include <../os.cpp>
#include <../os_posix.cpp>
using namespace ce;
extern "C" bool w_hook0(char const* e) { return call_error_hook(e); }
extern "C" bool w_hook1(char const* e, char const* a) { return call_error_hook(e, a); }
extern "C" bool w_hook2(char const* e, char const* a, char const* b) { return call_error_hook(e, a, b); }
extern "C" bool w_hook3(char const* e, char const* a, char const* b, char const* c) { return call_error_hook(e, a, b, c); }
extern "C" void w_assert0(int x, int y) { CE_ASSERT(x < y); }
extern "C" void w_assert1(int x, int y, char const* s) { CE_ASSERT(x < y, s); }
extern "C" void w_assert3(int x, int y, char const* s, char c, bool b) { CE_ASSERT(x < y, s, c, b); }
extern "C" bool w_verify2(int x, int y, char const* s, char c) { return CE_VERIFY(x < y, s, c); }
extern "C" bool w_reject2(int x, int y, char const* s, char c) { return CE_REJECT(x < y, s, c); }
extern "C" void w_error2(char const* s, char c) { CE_ERROR(s, c); }
extern "C" void w_loghook(int level, char const* const* keys, char const* s, char c, bool b) { call_log_hook(level, keys, s, c, b); }
extern "C" void w_log_fatal() { CE_LOG(fatal); }
extern "C" void w_log_error(char const* s) { CE_LOG(error, s); }
extern "C" void w_log_warn(char c) { CE_LOG(warn, c); }
extern "C" void w_log_note(char const* s, char c) { CE_LOG(note, s, c); }
extern "C" void w_log_info(char const* s, char c, bool b) { CE_LOG(info, s, c, b); }
extern "C" void w_log_debug(char const* s, char const* t) { CE_LOG(debug, s, t); }
extern "C" void w_log_spam(bool b, bool d) { CE_LOG(spam, b, d); }
extern "C" void w_log_more(char c, char d) { CE_LOG(more, c, d); }
extern "C" void w_log_msg(char c, char d) { CE_LOG_MSG(warn, c, '-', d); }
extern "C" void w_log(int level, int argc, char const* argv[][2]) { os::log(level, argc, argv); }
extern "C" bool w_error(int level, int argc, char const* argv[][2]) { return os::error(level, argc, argv); }
extern "C" void w_out(char const* text) { os::debug_out(text); }
