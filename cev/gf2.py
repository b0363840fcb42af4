"""Decision procedure for equalities of bit-vectors that are GF(2)-affine in their atoms (CRC, xor/shift/rotate networks):
normalises every bit to an affine form over atom bits; equal normal forms prove the equality.  Incomplete, sound: anything it
does not understand becomes an atom."""
import z3

class GF2:
    def __init__(s): s.ids = {}; s.keep = []; s.cache = {}; s.rules = {}; s.active = set()
    def atom(s, e, b):
        k = (e.get_id(), b); i = s.ids.get(k)
        if i is None: i = s.ids[k] = len(s.ids) + 1; s.keep.append(e)
        return 1 << i          # bit 0 of the mask = constant 1
    def bits(s, e):
        k = e.get_id()
        r = s.cache.get(k)
        if r is None:
            r = s.cache[k] = s._bits(e); s.keep.append(e)
            assert len(r) == e.size()
        return r
    def boolean(s, c):
        """affine form of a Bool, or None"""
        if z3.is_true(c): return 1
        if z3.is_false(c): return 0
        if z3.is_not(c):
            r = s.boolean(c.arg(0)); return None if r is None else r ^ 1
        if z3.is_eq(c) and z3.is_bv(c.arg(0)):
            x, y = s.bits(c.arg(0)), s.bits(c.arg(1))
            d = [a ^ b for a, b in zip(x, y)]
            nz = [t for t in d if t]
            if not nz: return 1
            if any(t == 1 for t in nz): return 0
            if len(nz) == 1: return nz[0] ^ 1
        if z3.is_distinct(c) and c.num_args() == 2:
            r = s.boolean(c.arg(0) == c.arg(1)); return None if r is None else r ^ 1
        if (z3.is_eq(c) or c.decl().kind() == z3.Z3_OP_XOR) and z3.is_bool(c.arg(0)):
            x, y = s.boolean(c.arg(0)), s.boolean(c.arg(1))
            if x is None or y is None: return None
            return x ^ y ^ (1 if z3.is_eq(c) else 0)
        if z3.is_and(c) or z3.is_or(c):
            v = [s.boolean(x) for x in c.children()]
            if None in v: return None
            z, u = (0, 1) if z3.is_and(c) else (1, 0)
            if z in v: return z
            v = set(x for x in v if x != u)
            if not v: return u
            if len(v) == 1: return v.pop()
        if c.decl().kind() == z3.Z3_OP_UNINTERPRETED and not c.children(): return s.atom(c, 0)
        return None
    def _bits(s, e):
        w = e.size()
        if isinstance(e, z3.BitVecNumRef):
            v = e.as_long(); return [v >> i & 1 for i in range(w)]
        k = e.decl().kind(); ch = e.children()
        if k == z3.Z3_OP_BXOR:
            r = s.bits(ch[0])
            for c in ch[1:]: r = [a ^ b for a, b in zip(r, s.bits(c))]
            return r
        if k == z3.Z3_OP_BNOT: return [a ^ 1 for a in s.bits(ch[0])]
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params(); return s.bits(ch[0])[lo:hi + 1]
        if k == z3.Z3_OP_CONCAT:
            r = []
            for c in reversed(ch): r = r + s.bits(c)
            return r
        if k == z3.Z3_OP_ZERO_EXT: return s.bits(ch[0]) + [0] * (w - ch[0].size())
        if k == z3.Z3_OP_SIGN_EXT:
            b = s.bits(ch[0]); return b + [b[-1]] * (w - len(b))
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR) and isinstance(ch[1], z3.BitVecNumRef):
            n = min(ch[1].as_long(), w); b = s.bits(ch[0])
            if k == z3.Z3_OP_BSHL: return [0] * n + b[:w - n]
            return b[n:] + [0 if k == z3.Z3_OP_BLSHR else b[-1]] * n
        if k in (z3.Z3_OP_ROTATE_LEFT, z3.Z3_OP_ROTATE_RIGHT):
            n = e.params()[0] % w; b = s.bits(ch[0])
            if k == z3.Z3_OP_ROTATE_RIGHT: n = (w - n) % w
            return b[w - n:] + b[:w - n]
        if k in (z3.Z3_OP_BAND, z3.Z3_OP_BOR) :
            xs = [s.bits(c) for c in ch]; r = []
            for i in range(w):
                col = [x[i] for x in xs]
                if k == z3.Z3_OP_BAND:
                    if 0 in col: r.append(0); continue
                    col = [c for c in col if c != 1]
                    if not col: r.append(1); continue
                else:
                    if 1 in col: r.append(1); continue
                    col = [c for c in col if c != 0]
                    if not col: r.append(0); continue
                if all(c == col[0] for c in col): r.append(col[0])
                else: r.append(s.atom(e, i))
            return r
        if k == z3.Z3_OP_ITE:
            c = s.boolean(ch[0])
            if c is not None:
                x, y = s.bits(ch[1]), s.bits(ch[2])
                if c == 1: return x
                if c == 0: return y
                r = []
                for i, (a, b) in enumerate(zip(x, y)):
                    d = a ^ b
                    if d == 0: r.append(a)
                    elif d == 1: r.append(b ^ c)
                    elif d == c: r.append(b ^ c)     # c*c = c
                    elif d == c ^ 1: r.append(b)     # c*(c+1) = 0
                    else: r.append(s.atom(e, i))
                return r
        if k == z3.Z3_OP_BMUL and len(ch) == 2 and isinstance(ch[0], z3.BitVecNumRef) and bin(ch[0].as_long()).count('1') == 1:
            n = ch[0].as_long().bit_length() - 1; b = s.bits(ch[1]); return [0] * n + b[:w - n]
        if k == z3.Z3_OP_BADD and len(ch) == 2:
            x, y = s.bits(ch[0]), s.bits(ch[1])
            if all(a == 0 or b == 0 for a, b in zip(x, y)): return [a ^ b for a, b in zip(x, y)]
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
            # canonicalise the arguments so that equal arithmetic over equal arguments is one atom
            key = (k,) + tuple(tuple(s.bits(c)) for c in ch)
            if k != z3.Z3_OP_BSUB: key = (k,) + tuple(sorted(key[1:]))
            e0 = s.cache.setdefault(('arith', key), e)
            return [s.atom(e0, i) for i in range(w)]
        if k == z3.Z3_OP_SELECT:
            key = ('sel', ch[0].get_id(), tuple(s.bits(ch[1])) if z3.is_bv(ch[1]) else ch[1].get_id())
            e0 = s.cache.setdefault(key, e); s.keep.append(ch[0])
            return [s.atom(e0, i) for i in range(w)]
        if k == z3.Z3_OP_UNINTERPRETED and ch and all(z3.is_bv(c) for c in ch):
            key = ('uf', e.decl().name(), tuple(tuple(s.bits(c)) for c in ch))
            r = s.rewrite(key)
            if r is not None: return r
            e0 = s.cache.setdefault(key, e)
            return [s.atom(e0, i) for i in range(w)]
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            r = s.rewrite(('c', e.get_id()))
            if r is not None: return r
        return [s.atom(e, i) for i in range(w)]
    def rewrite(s, key):
        r = s.rules.get(key)
        if r is None or key in s.active: return None
        s.active.add(key)
        try: return s.bits(r)
        finally: s.active.discard(key)
    def key(s, e):
        if e.decl().kind() != z3.Z3_OP_UNINTERPRETED: return None
        if not e.children(): return ('c', e.get_id())
        if all(z3.is_bv(c) for c in e.children()): return ('uf', e.decl().name(), tuple(tuple(s.bits(c)) for c in e.children()))
        return None


def gauss(facts, goal):
    """linear algebra over GF(2): the goal's bit differences must lie in the span of the path facts' bit equations"""
    d = GF2(); piv = {}
    def red(v):
        # eliminate highest-index atoms first
        while v > 1:
            h = v.bit_length() - 1
            p = piv.get(h)
            if p is None: return v, h
            v ^= p
        return v, 0
    want = [a ^ b for a, b in zip(d.bits(goal.arg(0)), d.bits(goal.arg(1)))]
    if not any(want): return True
    def full(v):
        for h in range(v.bit_length() - 1, 0, -1):
            if v >> h & 1 and h in piv: v ^= piv[h]
        return v
    for f in facts:
        if z3.is_eq(f) and z3.is_bv(f.arg(0)): eqs = [a ^ b for a, b in zip(d.bits(f.arg(0)), d.bits(f.arg(1)))]
        else:
            b = d.boolean(f) if z3.is_bool(f) and not z3.is_quantifier(f) else None
            if b is None: continue
            eqs = [b ^ 1]
        for v in eqs:
            v = full(v)
            if v == 1: return True          # contradictory path
            if v: piv[v.bit_length() - 1] = v
    return all(full(v) == 0 for v in want)


def prove_eq(facts, goal):
    """facts: path equalities, used as rewrite rules  term -> definition"""
    if not z3.is_eq(goal) or not z3.is_bv(goal.arg(0)): return False
    eqs = [f for f in facts if z3.is_eq(f) and z3.is_bv(f.arg(0))]
    if gauss(facts, goal): return True
    for orient, rev in ((0, 0), (1, 0), (0, 1), (1, 1)):
        d0 = GF2(); d = GF2(); d.rules = {}
        for f in (eqs[::-1] if rev else eqs):
            for a, b in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0)))[:: 1 if orient == 0 else -1]:
                k = d0.key(a)
                if k is not None and k not in d.rules: d.rules[k] = b; d.keep.append(b); break
        d.ids, d.keep2 = d0.ids, d0.keep
        d.cache = {k: v for k, v in d0.cache.items() if not isinstance(k, int)}
        if d.bits(goal.arg(0)) == d.bits(goal.arg(1)): return True
        if DEBUG: report(d, goal)
    return False

DEBUG = False
def report(d, goal):
    a, b = d.bits(goal.arg(0)), d.bits(goal.arg(1))
    ex = {e.get_id(): e for e in d.keep + d.keep2}; inv = {v: k for k, v in d.ids.items()}
    print(str(goal)[-60:].replace(chr(10),' '),'gf2 differs in', [i for i in range(len(a)) if a[i] != b[i]][:4])
    i = [i for i in range(len(a)) if a[i] != b[i]][0]
    for j in range((a[i] ^ b[i]).bit_length()):
        if (a[i] ^ b[i]) >> j & 1: print('   ', j, inv.get(j) and (str(ex.get(inv[j][0]))[:200].replace(chr(10),' '), inv[j][1]))


