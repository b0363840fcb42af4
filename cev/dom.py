"""Value domains of the verifier.

IntDom: machine integers as mathematical integers with explicit, lazily discharged wrap-around.  A value of width w is a linear
        form t over integer atoms that is CONGRUENT to the machine value mod 2^w; unsigned/signed readings are produced on demand
        and introduce an exact div/mod atom unless the range facts show the reading is t itself.  No operation assumes absence of
        overflow; partial operators (bitwise on two symbolic operands) are over-approximated by sound axioms.
BVDom:  machine integers as z3 bit-vectors (exact).

Concrete machine integers are Python ints (unsigned canonical) in both."""
import z3
from functools import reduce

INF = None

def isb(x): return isinstance(x, bool)
def Not(a): return (not a) if isb(a) else z3.Not(a)
def And(*xs):
    r = []
    for x in xs:
        if isb(x):
            if not x: return False
        else: r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        if isb(x):
            if x: return True
        else: r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Implies(a, b): return Or(Not(a), b)
def Iff(a, b):
    if isb(a): return b if a else Not(b)
    if isb(b): return a if b else Not(a)
    return a == b
def B(x): return z3.BoolVal(x) if isb(x) else x


class Unsupported(Exception): pass


_cnt = [0]
def fresh_name(p='v'):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])


class Atoms:
    """global table of atoms (z3 terms treated as opaque unknowns of linear forms)"""
    exprs = []; ids = {}; lo = []; hi = []; prod = {}; prods = set(); fac = {}      # fac: product atom -> its factors (sorted base atoms)
    @classmethod
    def of(cls, e, lo=None, hi=None):
        k = e.get_id(); i = cls.ids.get(k)
        if i is None:
            i = len(cls.exprs); cls.ids[k] = i; cls.exprs.append(e); cls.lo.append(lo); cls.hi.append(hi)
        else:
            if lo is not None and (cls.lo[i] is None or lo > cls.lo[i]): cls.lo[i] = lo
            if hi is not None and (cls.hi[i] is None or hi < cls.hi[i]): cls.hi[i] = hi
        return i


class Lin:
    """c + sum m[a]*atom(a); immutable"""
    __slots__ = ('c', 'm', '_z', '_k')
    absmul = False        # products of two unknowns as unknowns of their own (one per unordered pair): only their ranges are used
    def __init__(s, c=0, m=None): s.c = c; s.m = m or {}; s._z = None; s._k = None
    @staticmethod
    def atom(e, lo=None, hi=None): return Lin(0, {Atoms.of(e, lo, hi): 1})
    def key(s):
        if s._k is None: s._k = (s.c, tuple(sorted(s.m.items())))
        return s._k
    @property
    def const(s): return not s.m
    def __add__(s, o):
        if isinstance(o, int): return Lin(s.c + o, s.m)
        if not o.m: return Lin(s.c + o.c, s.m)
        m = dict(s.m)
        for a, k in o.m.items():
            v = m.get(a, 0) + k
            if v: m[a] = v
            else: m.pop(a, None)
        return Lin(s.c + o.c, m)
    __radd__ = __add__
    def __neg__(s): return s.scale(-1)
    def __sub__(s, o): return s + (-o)
    def scale(s, k):
        if k == 0: return Lin(0)
        if k == 1: return s
        return Lin(s.c * k, {a: v * k for a, v in s.m.items()})
    def mul(s, o):
        if not s.m: return o.scale(s.c)
        if not o.m: return s.scale(o.c)
        r = Lin(s.c * o.c) + Lin(0, o.m).scale(s.c) + Lin(0, s.m).scale(o.c)
        for a, k in s.m.items():
            for b, j in o.m.items():
                p, q = (a, b) if a <= b else (b, a); key = tuple(sorted(Atoms.fac.get(p, (p,)) + Atoms.fac.get(q, (q,))))
                i = Atoms.prod.get(key)
                if i is None:
                    los = (Atoms.lo[p], Atoms.hi[p], Atoms.lo[q], Atoms.hi[q])
                    lo = hi = None
                    if None not in los:
                        ps = [x * y for x in los[:2] for y in los[2:]]; lo, hi = min(ps), max(ps)
                        if p == q: lo = max(lo, 0)
                    elif p == q: lo = 0
                    if not Lin.absmul:
                        e = Atoms.exprs[key[0]]
                        for x in key[1:]: e = e * Atoms.exprs[x]
                    i = Atoms.of(e if not Lin.absmul else z3.Int(fresh_name('mul')), lo, hi); Atoms.prod[key] = i; Atoms.prods.add(i); Atoms.fac[i] = key
                r = r + Lin(0, {i: k * j})
        return r
    def divisible(s, k): return s.c % k == 0 and all(v % k == 0 for v in s.m.values())
    def exact(s, k): return Lin(s.c // k, {a: v // k for a, v in s.m.items()})
    def bounds(s, st=None):
        lo = hi = s.c
        bd = st.bounds if st is not None else None
        for a, k in s.m.items():
            l, h = Atoms.lo[a], Atoms.hi[a]
            if bd:
                x = bd.get(a)
                if x:
                    if x[0] is not None and (l is None or x[0] > l): l = x[0]
                    if x[1] is not None and (h is None or x[1] < h): h = x[1]
            if k < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    def z(s):
        """z3 integer term"""
        if s._z is None:
            ts = []
            for a, k in sorted(s.m.items()):
                e = Atoms.exprs[a]
                ts.append(e if k == 1 else z3.IntVal(k) * e)
            if s.c or not ts: ts.append(z3.IntVal(s.c))
            s._z = ts[0] if len(ts) == 1 else z3.Sum(ts)
        return s._z
    def bv(s, w=64):
        ts = []
        for a, k in sorted(s.m.items()):
            e = Atoms.exprs[a]
            ts.append(e if k == 1 else z3.BitVecVal(k, w) * e)
        if s.c or not ts: ts.append(z3.BitVecVal(s.c, w))
        return reduce(lambda x, y: x + y, ts)
    def __repr__(s): return 'Lin(%s)' % s.z()


class IV:
    __slots__ = ('w', 'lin', 'parts')
    def __init__(s, w, lin, parts=None): s.w, s.lin, s.parts = w, lin, parts
    def __repr__(s): return 'i%d<%r>' % (s.w, s.lin)


class PInt:
    """a pointer converted to an integer (lazily: only differences within one region have meaning)"""
    __slots__ = ('p', 'w')
    def __init__(s, p, w=64): s.p = p; s.w = w


def mask(w): return (1 << w) - 1
def sgn(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v


def cbin(op, w, a, b):
    M = mask(w)
    if op == 'add': return (a + b) & M
    if op == 'sub': return (a - b) & M
    if op == 'mul': return (a * b) & M
    if op == 'and': return a & b
    if op == 'or': return a | b
    if op == 'xor': return a ^ b
    if op == 'shl': return (a << b) & M if b < w else None
    if op == 'lshr': return a >> b if b < w else None
    if op == 'ashr': return (sgn(a, w) >> b) & M if b < w else None
    if b == 0: return None
    if op == 'udiv': return a // b
    if op == 'urem': return a % b
    x, y = sgn(a, w), sgn(b, w)
    q = abs(x) // abs(y); q = q if (x < 0) == (y < 0) else -q
    if op == 'sdiv': return q & M
    if op == 'srem': return (x - q * y) & M


def cicmp(pred, w, a, b):
    if pred[0] == 's': a, b = sgn(a, w), sgn(b, w)
    p = pred[-2:]
    return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p]


# ------------------------------------------------------------------------------------------------ integers
class IntDom:
    name = 'int'
    div = {}
    def fresh(s, w, name='v', signed=False):
        e = z3.Int(fresh_name(name))
        lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, mask(w))
        return IV(w, Lin.atom(e, lo, hi))
    def of_lin(s, w, lin): return lin.c & mask(w) if lin.const else IV(w, lin)
    def lin(s, v):
        return Lin(v) if isinstance(v, int) else v.lin
    def atom_facts(s, lin): return []
    def divmod(s, lin, c, st):
        """floor division by a positive constant; exact, through definitional atoms"""
        if lin.const: return Lin(lin.c // c), Lin(lin.c % c)
        A = Lin(lin.c // c, {a: v // c for a, v in lin.m.items() if v // c}); R = Lin(lin.c % c, {a: v % c for a, v in lin.m.items() if v % c})
        # symmetric residues help negative coefficients
        lo, hi = R.bounds(st)
        if lo is not None and hi is not None and lo >= 0 and hi < c: return A, R
        R2 = Lin(lin.c % c, {}); A2 = Lin(lin.c // c)
        for a, v in lin.m.items():
            r = v % c; q = v // c
            if r * 2 > c: r -= c; q += 1
            if r: R2 = R2 + Lin(0, {a: r})
            if q: A2 = A2 + Lin(0, {a: q})
        lo2, hi2 = R2.bounds(st)
        if lo2 is not None and hi2 is not None:
            if lo2 >= 0 and hi2 < c: return A2, R2
            if lo2 // c == hi2 // c: return A2 + lo2 // c, R2 - Lin(lo2 // c * c)
            if lo is None or hi is None or hi2 - lo2 < hi - lo: A, R, lo, hi = A2, R2, lo2, hi2
        if lo is not None and hi is not None and lo // c == hi // c: return A + lo // c, R - Lin(lo // c * c)
        k = (R.key(), c)
        d = s.div.get(k)
        if d is None:
            glo, ghi = R.bounds(None)
            qe = z3.Int(fresh_name('q')); re = z3.Int(fresh_name('r'))
            q = Lin.atom(qe, None if glo is None else glo // c, None if ghi is None else ghi // c); r = Lin.atom(re, 0, c - 1)
            d = s.div[k] = (q, r, [R.z() == c * qe + re, re >= 0, re < c])
        q, r, facts = d
        st.define(k, facts)
        if lo is not None or hi is not None:
            st.bound(next(iter(q.m)), None if lo is None else lo // c, None if hi is None else hi // c)
        return A + q, r
    def inrange(s, lin, lo, hi, st):
        l, h = lin.bounds(st)
        if l is not None and h is not None and lo <= l and h <= hi: return True
        if st is None: return False
        return st.known_range(lin, lo, hi, l, h)
    def cu(s, w, v, st):
        """unsigned reading"""
        if isinstance(v, int): return Lin(v)
        if s.inrange(v.lin, 0, mask(w), st): return v.lin
        return s.divmod(v.lin, 1 << w, st)[1]
    def cs(s, w, v, st):
        if isinstance(v, int): return Lin(sgn(v, w))
        h = 1 << (w - 1)
        if s.inrange(v.lin, -h, h - 1, st): return v.lin
        return s.divmod(v.lin + h, 1 << w, st)[1] - Lin(h)
    def trunc(s, w, v, fw, st):
        if isinstance(v, int): return v & mask(w)
        if v.parts:
            acc = 0; keep = []
            for p, pw in v.parts:
                if acc + pw <= w: keep.append((p, pw)); acc += pw
                else: break
            if acc == w: return keep[0][0] if len(keep) == 1 else s.concat(keep, st)
        return IV(w, v.lin)
    def zext(s, w, v, fw, st):
        if isinstance(v, int): return v
        return s.of_lin(w, s.cu(fw, v, st))
    def sext(s, w, v, fw, st):
        if isinstance(v, int): return sgn(v, fw) & mask(w)
        return s.of_lin(w, s.cs(fw, v, st))
    def concat(s, parts, st):
        """low part first"""
        if all(isinstance(p, int) for p, _ in parts):
            r = 0; sh = 0
            for p, w in parts: r |= p << sh; sh += w
            return r
        l = Lin(0); sh = 0
        for p, w in parts: l = l + s.cu(w, p, st).scale(1 << sh); sh += w
        return IV(sh, l, list(parts))
    def extract(s, v, fw, lo, w, st):
        if isinstance(v, int): return v >> lo & mask(w)
        if v.parts:
            pos = 0; keep = []
            for p, pw in v.parts:
                if pos <= lo and lo + w <= pos + pw:
                    return p if (pos == lo and pw == w) else s.extract(p, pw, lo - pos, w, st)
                if lo <= pos and pos + pw <= lo + w: keep.append((p, pw))
                pos += pw
            if sum(x for _, x in keep) == w: return s.concat(keep, st)
        if lo == 0: return s.of_lin(w, v.lin) if not v.lin.const else v.lin.c & mask(w)
        q, _ = s.divmod(s.cu(fw, v, st), 1 << lo, st)
        return s.of_lin(w, q)
    def fixed(s, v):
        """normalise constant IVs to python ints"""
        if isinstance(v, IV) and v.lin.const: return v.lin.c & mask(v.w)
        return v
    def binop(s, op, w, a, b, st, I=None):
        if isinstance(a, int) and isinstance(b, int):
            r = cbin(op, w, a, b)
            if r is None: raise Unsupported('concrete %s by zero/oversize shift' % op)
            return r
        la, lb = s.lin(a), s.lin(b)
        if op == 'add':
            if isinstance(b, int) and I is not None: lb = Lin(sgn(b, w))
            if isinstance(a, int) and I is not None: la = Lin(sgn(a, w))
            return s.squeeze(w, la + lb, st)
        if op == 'sub':
            if isinstance(b, int): lb = Lin(sgn(b, w))
            return s.squeeze(w, la - lb, st)
        if op == 'mul':
            if isinstance(a, int): return s.squeeze(w, lb.scale(sgn(a, w)), st)
            if isinstance(b, int): return s.squeeze(w, la.scale(sgn(b, w)), st)
            sg = I is not None and (I.nsw)
            x = s.cs(w, a, st) if sg else s.cu(w, a, st); y = s.cs(w, b, st) if sg else s.cu(w, b, st)
            # keep the readings that are already plain
            if s.inrange(la, -(1 << w), (1 << w), st): x = la
            if s.inrange(lb, -(1 << w), (1 << w), st): y = lb
            r = x.mul(y)
            if Lin.absmul:
                for i in r.m:
                    if i in Atoms.prods and Atoms.lo[i] is not None: st.define(('prod', i), [Atoms.exprs[i] >= Atoms.lo[i], Atoms.exprs[i] <= Atoms.hi[i]])
            return s.squeeze(w, r, st)
        if op in ('udiv', 'urem'):
            x = s.cu(w, a, st)
            if isinstance(b, int):
                q, r = s.divmod(x, b, st)
            else:
                y = s.cu(w, b, st)
                k = ('udiv', x.key(), y.key()); d = s.div.get(k)
                if d is None:
                    qe = z3.Int(fresh_name('q')); re = z3.Int(fresh_name('r'))
                    q = Lin.atom(qe, 0, mask(w)); r = Lin.atom(re, 0, mask(w))
                    d = s.div[k] = (q, r, [z3.Implies(y.z() > 0, z3.And(x.z() == y.z() * qe + re, re >= 0, re < y.z(), qe >= 0, qe <= x.z()))])
                q, r, facts = d; st.define(k, facts)
            return s.of_lin(w, q if op == 'udiv' else r)
        if op in ('sdiv', 'srem'):
            x = s.cs(w, a, st)
            if isinstance(b, int):
                c = sgn(b, w)
                if op == 'sdiv' and I is not None and x.divisible(abs(c)): return s.of_lin(w, x.exact(c) if c > 0 else -x.exact(-c))
                lo, hi = x.bounds(st)
                if c > 0 and lo is not None and lo >= 0:
                    q, r = s.divmod(x, c, st); return s.of_lin(w, q if op == 'sdiv' else r)
                y = Lin(c)
            else: y = s.cs(w, b, st)
            k = ('sdiv', x.key(), y.key()); d = s.div.get(k)
            if d is None:
                qe = z3.Int(fresh_name('q')); re = z3.Int(fresh_name('r')); h = 1 << (w - 1)
                q = Lin.atom(qe, -h, h); r = Lin.atom(re, -h, h)
                X, Y = x.z(), y.z()
                absy = z3.If(Y < 0, -Y, Y)
                d = s.div[k] = (q, r, [z3.Implies(Y != 0, z3.And(X == Y * qe + re, z3.If(X >= 0, z3.And(re >= 0, re < absy), z3.And(re <= 0, re > -absy))))])
            q, r, facts = d; st.define(k, facts)
            return s.of_lin(w, q if op == 'sdiv' else r)
        if op in ('shl', 'lshr', 'ashr'):
            if not isinstance(b, int):
                y = s.cu(w, b, st)
                lo, hi = y.bounds(st)
                lo = max(lo or 0, 0); hi = w - 1 if hi is None or hi >= w else hi
                # exact case split over the (at most w) shift amounts
                if hi - lo > 64: raise Unsupported('symbolic shift')
                vals = [s.binop(op, w, a, k, st) for k in range(lo, hi + 1)]
                r = vals[-1]
                for k in range(hi - 1, lo - 1, -1): r = s.ite(y.z() == k, vals[k - lo], r, w, st)
                return r
            if b >= w: raise Unsupported('oversize shift')
            if op == 'shl': return s.squeeze(w, la.scale(1 << b), st)
            x = s.cu(w, a, st) if op == 'lshr' else s.cs(w, a, st)
            return s.of_lin(w, s.divmod(x, 1 << b, st)[0])
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int): a, b = b, a; la, lb = lb, la
            if isinstance(b, int):
                if b == 0: return 0 if op == 'and' else a
                if b == mask(w): return a if op == 'and' else b if op == 'or' else s.squeeze(w, Lin(-1) - la, st)
                if op == 'and': return s.of_lin(w, s.masked(s.cu(w, a, st), b, st))
                if op == 'xor' and b == 1 << (w - 1): return s.squeeze(w, la + b, st)
                x = s.cu(w, a, st)
                if op == 'or': return s.of_lin(w, x - s.masked(x, b, st) + b)
                # xor = x + c - 2*(x & c)
                return s.of_lin(w, x + b - s.masked(x, b, st).scale(2))
            x, y = s.cu(w, a, st), s.cu(w, b, st)
            if op in ('or', 'xor'):
                for p, q in ((x, y), (y, x)):
                    g = s.twos(p); lo, hi = q.bounds(st)
                    if g and hi is not None and lo is not None and lo >= 0 and hi < g: return s.of_lin(w, p + q)
            if x.key() == y.key(): return 0 if op == 'xor' else a
            if y.key() < x.key(): x, y = y, x
            k = (op, w, x.key(), y.key()); d = s.div.get(k)
            if d is None:
                e = z3.Int(fresh_name(op)); X, Y = x.z(), y.z(); H = 1 << (w - 1)
                r = Lin.atom(e, 0, mask(w)); f = [e >= 0, e <= mask(w)]
                if op == 'and': f += [e <= X, e <= Y, (e >= H) == z3.And(X >= H, Y >= H), e >= X + Y - mask(w)]
                if op == 'or': f += [e >= X, e >= Y, e <= X + Y, (e >= H) == z3.Or(X >= H, Y >= H), e <= mask(w)]
                if op == 'xor': f += [(e >= H) == ((X >= H) != (Y >= H)), (e == 0) == (X == Y), e <= X + Y, X <= e + Y, Y <= e + X]
                d = s.div[k] = (r, f)
            st.define(k, d[1])
            return IV(w, d[0])
        raise Unsupported('int binop ' + op)
    def twos(s, lin):
        """largest power of two dividing every coefficient"""
        g = lin.c
        for v in lin.m.values():
            import math; g = math.gcd(g, v)
        return g & -g if g else 1 << 64
    def masked(s, x, m, st):
        """x & m for unsigned reading x: sum over the runs of ones of m"""
        r = Lin(0); i = 0
        while m >> i:
            if m >> i & 1:
                j = i
                while m >> j & 1: j += 1
                hi = s.divmod(x, 1 << j, st)[1]
                lo = s.divmod(hi, 1 << i, st)[0] if i else hi
                r = r + lo.scale(1 << i)
                i = j
            else: i += 1
        return r
    def squeeze(s, w, lin, st):
        """keep representatives from drifting: if far outside the representable range, renormalise"""
        if lin.const: return lin.c & mask(w)
        lo, hi = lin.bounds(st)
        M = 1 << w
        if lo is not None and hi is not None:
            if lo >= M: return s.of_lin(w, lin - Lin(lo // M * M))
            if hi < -M: return s.of_lin(w, lin + ((-hi) // M * M))
            if hi - lo <= M << 8: return IV(w, lin)
        elif lo is None and hi is None and len(lin.m) <= 4: return IV(w, lin)
        return IV(w, lin)
    def icmp(s, pred, w, a, b, st):
        if isinstance(a, int) and isinstance(b, int): return cicmp(pred, w, a, b)
        if pred in ('eq', 'ne'):
            la, lb = s.lin(a), s.lin(b)
            d = la - lb
            if d.const: r = d.c % (1 << w) == 0
            else:
                lo, hi = d.bounds(st)
                ok = lo is not None and hi is not None and lo > -(1 << w) and hi < (1 << w)
                if not ok:
                    if isinstance(b, int) and b >> (w - 1): la, lb = s.cs(w, a, st), Lin(sgn(b, w))
                    else: la, lb = s.cu(w, a, st), s.cu(w, b, st)
                    d = la - lb; lo, hi = d.bounds(st)
                if d.const: r = d.c == 0
                elif (lo is not None and lo > 0) or (hi is not None and hi < 0): r = False
                else: r = la.z() == lb.z()
            return r if pred == 'eq' else Not(r)
        f = s.cs if pred[0] == 's' else s.cu
        x, y = f(w, a, st), f(w, b, st)
        p = pred[-2:]
        return lcmp(p, x, y, st)
    def ite(s, c, a, b, w, st):
        if isb(c): return a if c else b
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        la, lb = s.lin(a), s.lin(b)
        if la.key() == lb.key(): return a
        # choose a common reading for concrete operands
        if isinstance(a, int) and lb.bounds(st)[0] is not None and lb.bounds(st)[0] < 0: la = Lin(sgn(a, w))
        if isinstance(b, int) and la.bounds(st)[0] is not None and la.bounds(st)[0] < 0: lb = Lin(sgn(b, w))
        l1, h1 = la.bounds(st); l2, h2 = lb.bounds(st)
        lo = None if l1 is None or l2 is None else min(l1, l2); hi = None if h1 is None or h2 is None else max(h1, h2)
        e = z3.If(c, la.z(), lb.z())
        i = Atoms.of(e)
        st.bound(i, lo, hi)
        r = IV(w, Lin(0, {i: 1}))
        pa = a.parts if isinstance(a, IV) else None; pb = b.parts if isinstance(b, IV) else None
        if pa and pb and [x for _, x in pa] == [x for _, x in pb]:
            r.parts = [(s.ite(c, p, q, pw, st), pw) for (p, pw), (q, _) in zip(pa, pb)]
        return r
    def to_off(s, v, w, st):
        if isinstance(v, int): return Lin(sgn(v, w))
        return s.cs(w, v, st)
    def of_off(s, off): return s.of_lin(64, off)
    def idx(s, lin): return lin.z()
    def idx_sort(s): return z3.IntSort()
    def val_sort(s, w): return z3.IntSort()
    def u(s, v, w, st):
        """z3 term, unsigned reading"""
        return s.cu(w, v, st).z()
    def sg(s, v, w, st): return s.cs(w, v, st).z()
    def from_z(s, e, w, lo, hi): return IV(w, Lin.atom(e, lo, hi))


def lcmp(p, x, y, st):
    """comparison of two integer linear forms (plain readings)"""
    d = x - y
    lo, hi = d.bounds(st)
    if p == 'lt':
        if hi is not None and hi < 0: return True
        if lo is not None and lo >= 0: return False
        return x.z() < y.z()
    if p == 'le':
        if hi is not None and hi <= 0: return True
        if lo is not None and lo > 0: return False
        return x.z() <= y.z()
    if p == 'gt': return lcmp('lt', y, x, st)
    if p == 'ge': return lcmp('le', y, x, st)
    if p == 'eq':
        if d.const: return d.c == 0
        if (lo is not None and lo > 0) or (hi is not None and hi < 0): return False
        return x.z() == y.z()
    return Not(lcmp('eq', x, y, st))


# ------------------------------------------------------------------------------------------------ bit-vectors
class BVDom:
    name = 'bv'
    def fresh(s, w, name='v', signed=False): return z3.BitVec(fresh_name(name), w)
    def z(s, v, w): return z3.BitVecVal(v, w) if isinstance(v, int) else v
    def norm(s, v):
        if isinstance(v, z3.BitVecNumRef): return v.as_long()
        return v
    def binop(s, op, w, a, b, st, I=None):
        if isinstance(a, int) and isinstance(b, int):
            r = cbin(op, w, a, b)
            if r is None: raise Unsupported('concrete %s by zero/oversize shift' % op)
            return r
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'): return a
            if b == 0 and op in ('and', 'mul'): return 0
            if b == 1 and op == 'mul': return a
            if b == mask(w) and op == 'and': return a
            if op in ('udiv', 'urem') and b and b & (b - 1) == 0:
                k = b.bit_length() - 1
                if k == 0: return a if op == 'udiv' else 0
                return s.binop('lshr', w, a, k, st) if op == 'udiv' else s.binop('and', w, a, b - 1, st)
        if isinstance(a, int):
            if a == 0 and op in ('add', 'or', 'xor'): return b
            if a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'urem'): return 0
        x, y = s.z(a, w), s.z(b, w)
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul': return x * y
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return x << y
        if op == 'lshr': return z3.LShR(x, y)
        if op == 'ashr': return x >> y
        if op == 'udiv': return z3.UDiv(x, y)
        if op == 'urem': return z3.URem(x, y)
        if op == 'sdiv': return x / y
        if op == 'srem': return z3.SRem(x, y)
        raise Unsupported(op)
    def icmp(s, pred, w, a, b, st):
        if isinstance(a, int) and isinstance(b, int): return cicmp(pred, w, a, b)
        x, y = s.z(a, w), s.z(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'sgt': lambda: x > y, 'sge': lambda: x >= y, 'slt': lambda: x < y, 'sle': lambda: x <= y}[pred]()
        r = z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r
    def trunc(s, w, v, fw, st):
        if isinstance(v, int): return v & mask(w)
        return s.norm(z3.simplify(z3.Extract(w - 1, 0, v)))
    def zext(s, w, v, fw, st): return v if isinstance(v, int) else z3.ZeroExt(w - fw, v)
    def sext(s, w, v, fw, st): return sgn(v, fw) & mask(w) if isinstance(v, int) else z3.SignExt(w - fw, v)
    def concat(s, parts, st):
        if all(isinstance(p, int) for p, _ in parts):
            r = 0; sh = 0
            for p, w in parts: r |= p << sh; sh += w
            return r
        if len(parts) == 1: return parts[0][0]
        return s.norm(z3.simplify(z3.Concat(*[s.z(p, w) for p, w in reversed(parts)])))
    def extract(s, v, fw, lo, w, st):
        if isinstance(v, int): return v >> lo & mask(w)
        return s.norm(z3.simplify(z3.Extract(lo + w - 1, lo, v)))
    def ite(s, c, a, b, w, st):
        if isb(c): return a if c else b
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        return z3.If(c, s.z(a, w), s.z(b, w))
    def to_off(s, v, w, st):
        if isinstance(v, int): return Lin(sgn(v, w))
        if w < 64: v = z3.SignExt(64 - w, v)
        return s.declin(v)
    def declin(s, v):
        v = z3.simplify(v, som=True) if v.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB) else z3.simplify(v)
        def go(e):
            k = e.decl().kind()
            if isinstance(e, z3.BitVecNumRef): return Lin(sgn(e.as_long(), 64))
            if k == z3.Z3_OP_BADD: return reduce(lambda x, y: x + y, [go(c) for c in e.children()])
            if k == z3.Z3_OP_BMUL and e.num_args() == 2 and isinstance(e.arg(0), z3.BitVecNumRef): return go(e.arg(1)).scale(sgn(e.arg(0).as_long(), 64))
            if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and isinstance(e.arg(1), z3.BitVecNumRef) and e.arg(1).as_long() == 0:
                # (x << k) written as concat(extract(x), 0): scale
                lo = e.arg(1).size(); x = e.arg(0)
                if x.decl().kind() == z3.Z3_OP_EXTRACT and x.params()[1] == 0 and x.arg(0).size() == 64: return go(x.arg(0)).scale(1 << lo)
                return go(z3.simplify(z3.ZeroExt(64 - x.size(), x))).scale(1 << lo)
            if k == z3.Z3_OP_CONCAT and isinstance(e.arg(0), z3.BitVecNumRef) and isinstance(e.children()[-1], z3.BitVecNumRef) and e.children()[-1].as_long() == 0:
                lo = e.children()[-1].size()
                mid = z3.Concat(*e.children()[:-1])
                return go(z3.simplify(z3.ZeroExt(lo, mid))).scale(1 << lo)
            return Lin.atom(e)
        r = go(v)
        M = 1 << 64
        def red(x):
            x %= M
            return x - M if x >> 63 else x
        return Lin(red(r.c), {a: red(k) for a, k in r.m.items() if red(k)})
    def of_off(s, off): return sgn(off.c, 64) & mask(64) if off.const else off.bv(64)
    def of_lin(s, w, lin): return lin.c & mask(w) if lin.const else lin.bv(w)
    def idx(s, lin): return z3.simplify(lin.bv(64)) if not lin.const else z3.BitVecVal(lin.c, 64)
    def idx_sort(s): return z3.BitVecSort(64)
    def val_sort(s, w): return z3.BitVecSort(w)
    def u(s, v, w, st): return s.z(v, w)
    def sg(s, v, w, st): return s.z(v, w)
    def from_z(s, e, w, lo, hi): return e
