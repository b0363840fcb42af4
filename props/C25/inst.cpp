#include <ce/nameof.h>
#include "enums.h"
#define X(N, T, ...) extern "C" char const* w_name_##N(T n) { return ce::nameof(n); } extern "C" T w_as_##N(char const* t, T u) { return ce::as_enum(t, u); }
ENUMS(X)
extern "C" unsigned w_same(char const* a, char const* b) { return ce::nameof_detail::same(a, b); }
extern "C" unsigned w_skip(char c, char const* t) { return ce::nameof_detail::skip(c, t); }
extern "C" unsigned w_skip_last(char c, char const* t) { return ce::nameof_detail::skip_last(c, t); }
