// the enumerations nameof is instantiated with: X(type, enumerators)
enum class plain : int { zero = 0, a = 1, ab = 2, abc = 63, abd = 64, m127 = 127, m128 = 128, b_ = 200, top = 255 };
namespace outer { enum class scoped : unsigned char { x = 3, xy = 65, last = 255 }; enum loose : unsigned { first = 0, l1 = 129, l2 = 130, far = 256, neg = 0xffffffffu }; namespace inner { struct owner { enum class deep : long long { d0 = 0, d1 = 192, past = 300, minus = -1 }; }; template<class T> struct made { enum class of { o = 5, oo = 6 }; }; } }
namespace { enum class hidden { h = 2, hh = 191 }; enum bare : short { b1 = 1, b2 = 128, bn = -3 }; }
enum class flag : bool { off, on };
enum : int { red, green, blue }; using color = decltype(red);
#define ENUMS(X) \
    X(plain, plain, zero, a, ab, abc, abd, m127, m128, b_, top) X(scoped, outer::scoped, x, xy, last) X(loose, outer::loose, first, l1, l2, far, neg) X(deep, outer::inner::owner::deep, d0, d1, past, minus) \
    X(made, outer::inner::made<outer::scoped>::of, o, oo) X(hidden, hidden, h, hh) X(bare, bare, b1, b2, bn) X(flag, flag, off, on)
static_assert(int(outer::inner::made<outer::scoped>::of::o) == 5);     // the definition of a member enum is instantiated when it is used
