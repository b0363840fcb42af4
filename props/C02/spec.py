from spec import *
from dom import PInt
BUDGET = 300
ASSUMPTIONS = ['to_text of an integer meets its contract, which C01 proves: between 1 and measure<T>::value characters at the destination, the end returned', 'std::to_chars for float and double is external and not covered', 'argument lists instantiated: the ones in inst.cpp (each parameter kind alone and in combinations of two to four)', 'a C string has at most 2^40 characters']
MEAS = {('signed char'): 4, 'unsigned char': 3, 'short': 6, 'unsigned short': 5, 'int': 11, 'unsigned int': 10, 'long': 20, 'unsigned long': 20, 'long long': 20, 'unsigned long long': 20}
WID = {'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}
ABBR = dict(i='int', sc='signed char', uc='unsigned char', s='short', us='unsigned short', ui='unsigned int', l='long', ul='unsigned long', ll='long long', ull='unsigned long long')
I = z3.IntSort(); LEN = {t: z3.Function('LEN ' + t, I, I) for t in MEAS}; DIG = {t: z3.Function('DIG ' + t, I, I, I) for t in MEAS}
class X: pass
class Piece:
    """one part of the expected text: its length and its characters"""
    def __init__(s, n, at, arr=None): s.n, s.at, s.arr = n, at, arr
def lit(t): 
    def at(j):
        r = z3.IntVal(0)
        for i, c in enumerate(t): r = z3.If(j == i, ord(c), r)
        return r
    return Piece(z3.IntVal(len(t)), at)
def num(t, v): return Piece(LEN[t](v), lambda j: DIG[t](v, j))
def start(T):
    x = X(); e = x.e = T.engine('int', houd_timeout=4000, name_ite=True); e.unroll_all = True; x.st = e.new_state(); x.pieces = []; x.str = []; x.addr = z3.Int('address')
    x.J = e.sym(x.st, 'J', 64, hi=(1 << 60)).lin.z()
    def mk(t):
        def h(e, st, a, I):
            V = x.addr if isinstance(a[1], PInt) else e.zv(a[1], WID[t], st, not t.startswith('unsigned')); n = LEN[t](V); st.assume(z3.And(n >= 1, n <= MEAS[t]))
            k = IV(64, Lin.atom(n, 1, MEAS[t])) if False else e.fresh(st, 64, 'len'); st.pc.append(k.lin.z() == n); st.bound(k.lin.t[0][0] if False else None, 1, MEAS[t]) if False else None
            s, idx, cnt = e.block(st, a[0], k, 'number text'); e.block_put(st, a[0].r, s, idx, cnt, lambda i: DIG[t](V, i - idx.z()))
            return [(st, Ptr(a[0].r, a[0].off + k.lin))]
        return h
    for t in MEAS: e.contracts.append((r'^ce::to_text\(char\*, %s\)$' % t, mk(t)))
    return x
def string(x, nm, cap=None, size=None, limit=None):
    """cap: most characters copied; size: an array of that many characters, terminated or not; otherwise a C string"""
    e, st = x.e, x.st; L = e.sym(st, nm + '_len', 64, hi=size if size is not None else 1 << 40); l = L.lin.z()
    r = e.array(st, nm, 1, size if size is not None else L.lin + 1, const=True); A = e.arr(st, r)
    i = z3.Int('si'); st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < l), z3.Select(A, i) != 0), patterns=[z3.Select(A, i)]))
    st.assume(z3.ForAll([i], z3.And(z3.Select(A, i) >= 0, z3.Select(A, i) < 256), patterns=[z3.Select(A, i)]))
    st.pc.append(z3.Select(A, l) == 0 if size is None else z3.Implies(l < size, z3.Select(A, l) == 0))
    M = l
    if cap is not None: m = e.sym(st, nm + '_cut', 64, hi=1 << 40); M = m.lin.z(); cz = cap if isinstance(cap, int) else cap; st.pc.append(M == z3.If(l < cz, l, cz))
    x.str.append((r, l, M)); p = Piece(M, lambda j: z3.Select(A, j), A)
    return r, p
def finish(x, out, base=0):
    """loop candidates for copying the pieces to `out` from index base on"""
    e = x.e; ends = [z3.IntVal(base)]
    for p in x.pieces: ends.append(z3.simplify(ends[-1] + p.n))
    x.ends = ends
    for p in x.pieces: x.st.pc.append(p.n >= 0)
    def want(j):
        r = z3.IntVal(0)
        for p, s in reversed(list(zip(x.pieces, ends))): r = z3.If(z3.And(j >= s, j < s + p.n), p.at(j - s), r)
        return r
    x.want = want; T = lambda c: z3.Select(e.arr(c.st, out), x.J)
    starts = []
    for p, s in zip(x.pieces, ends):
        if p.arr is not None: starts.append((s, p))
    def cands(c0):
        outl = []; ix = [(nm, (lambda c, f=f: None if f(c) is None else f(c).z())) for nm, f in intidx(e, c0)]; V = lambda F, *fs: (lambda c: None if any(f(c) is None for f in fs) else F(c, *[f(c) for f in fs]))
        for nm, p in ix:
            outl.append(('text below %s' % nm, V(lambda c, P: z3.Implies(z3.And(x.J >= base, x.J < P), T(c) == want(x.J)), p)))
            for k, (s, q) in enumerate(starts):
                outl.append(('%s within part %d' % (nm, k), V(lambda c, P, q=q: P <= q.n, p)))
                outl.append(('%s within the text of part %d' % (nm, k), V(lambda c, P, q=q, s=s: P <= s + q.n, p)))
                outl.append(('%s from part %d on' % (nm, k), V(lambda c, P, s=s: P >= s, p)))
                for nm2, p2 in ix:
                    if nm != nm2: outl.append(('%s is %s in part %d' % (nm, nm2, k), V(lambda c, P, P2, s=s: P == s + P2, p, p2)))
        return outl
    e.loop_cands = cands
    e.measures = lambda c: [('part %d - %s' % (k, nm), lambda c, f=f, l=l: None if f(c) is None else Lin(1 << 41) - f(c)) for k, (r, l, M) in enumerate(x.str[:1] or [(0, 0, 0)]) for nm, f in intidx(e, c)]
# ---- as_string of an argument list
KINDS = dict(p='cstr', m='cstr')
def asstr(T, K, args):
    x = start(T); e, st = x.e, x.st; size = e.mod.globals['lay' + K].init.v[0].v
    out = e.array(st, 'as', 1, size); a = [Ptr(out)]
    for n, k in enumerate(args):
        nm = 'a%d' % n
        def ref(v, w): r = e.region(st, nm + '_ref', w, const=True); st.mem[r.id].cells[0] = (w, v); return Ptr(r)
        if k in ABBR: t = ABBR[k]; sg = not t.startswith('unsigned'); v = e.sym(st, nm, WID[t], signed=sg); a.append(ref(v, WID[t] // 8)); x.pieces.append(num(t, e.zv(v, WID[t], st, sg)))
        elif k == 'c': v = e.sym(st, nm, 8); a.append(ref(v, 1)); x.pieces.append(Piece(z3.IntVal(1), lambda j, v=v: v.lin.z()))
        elif k == 'b': v = e.sym(st, nm, 8, hi=1); a.append(ref(v, 1)); x.pieces += [lit('#<'), Piece(z3.IntVal(1), lambda j, v=v: z3.If(v.lin.z() == 1, ord('T'), ord('F'))), lit('>')]
        elif k == 'en': v = e.sym(st, nm, 16, signed=True); a.append(ref(v, 2)); x.pieces += [lit('#<enum '), num('short', e.zv(v, 16, st, True)), lit('>')]
        elif k == 'np': a.append(ref(0, 8)); x.pieces.append(lit('#<nil>'))
        elif k == 'odd': a.append(Ptr(e.region(st, nm, 4, const=True))); x.pieces += [lit('#<ref '), num('unsigned long', x.addr), lit('>')]
        elif k == 'ip':
            v = e.sym(st, nm, 64); a.append(ref(Ptr(None, v.lin), 8)); z = v.lin.z(); n1, n2 = lit('#<nil>'), num('unsigned long', z); st.pc += [n2.n >= 1, n2.n <= 20]
            x.pieces += [Piece(z3.If(z == 0, 6, 0), n1.at), Piece(z3.If(z == 0, 0, 6), lit('#<ptr ').at), Piece(z3.If(z == 0, 0, n2.n), n2.at), Piece(z3.If(z == 0, 0, 1), lit('>').at)]
        elif k[0] == 'v':
            d = int(k[1]); r = e.region(st, nm + '_vec', 4 * d, const=True); x.pieces.append(lit('['))
            for i in range(d):
                v = e.sym(st, '%s_%d' % (nm, i), 32, signed=True); st.mem[r.id].cells[4 * i] = (4, v); x.pieces += ([lit(', ')] if i else []) + [num('int', e.zv(v, 32, st, True))]
            x.pieces.append(lit(']')); a.append(Ptr(r))
        elif k in ('p', 'm'): r, q = string(x, nm, 1024); a.append(ref(Ptr(r), 8)); x.pieces.append(q)
        elif k[0] == 'a': r, q = string(x, nm, None, int(k[1:])); a.append(Ptr(r)); x.pieces.append(q)
        else: raise KeyError(k)
    for p in x.pieces:
        if z3.is_app(p.n) and p.n.decl().name().startswith('LEN '): st.pc += [p.n >= 1, p.n <= MEAS[p.n.decl().name()[4:]]]
    finish(x, out); end = x.ends[-1]; g = lambda st, j: z3.Select(e.arr(st, out), j)
    T.post(e, None, 'w_' + K, a, st, [('the text fits its object', lambda st, r: end < size), ('is the concatenation of its parts', lambda st, r: z3.Implies(x.J < end, g(st, x.J) == x.want(x.J))), ('is NUL terminated', lambda st, r: g(st, end) == 0)])
LISTS = dict(odd='odd', podd='p odd', i='i', c='c', b='b', ull='ull', en='en', np='np', ip='ip', pi='p i', ip2='i p', pp='p p', mp='m p', a5i='a5 i', a1a1='a1 a1', a3ka16='a3000 a16', a16p='a16 p', pa5='p a5', cbc='c b c', enpi='en np ip', scucs='sc uc s', usuil='us ui l', ulllull='ul ll ull', ppp='p m p', a5a16a1='a5 a16 a1', vv='v2 v3 c', pvp='p v2 p', mix='a5 ull p c', mix2='c a16 en p')
for K, A in LISTS.items(): task('as_string_' + K)(lambda T, K=K, A=A: asstr(T, K, A.split()))
@task('views')
def _(T):
    for fn in ('w_lit', 'w_ptr'):
        x = start(T); r, q = string(x, 'a', None, 9 if fn == 'w_lit' else None)
        T.post(x.e, None, fn, [Ptr(r)], x.st, [('is the argument itself', lambda st, p: z3.BoolVal(isinstance(p, Ptr) and p.r is r and p.off.const and p.off.c == 0))])
def copy(T, fn):
    x = start(T); e, st = x.e, x.st; a = []
    if fn == 'w_copy': n = e.sym(st, 'n', 64); r, q = string(x, 'a', n.lin.z()); a = [n]
    else: r, q = string(x, 'a')
    if fn == 'w_all':
        v = e.sym(st, 'v', 32, signed=True); r2, q2 = string(x, 'b', None, 16); d = e.sym(st, 'd', 8); n = num('int', e.zv(v, 32, st, True)); st.pc += [n.n >= 1, n.n <= 11]
        x.pieces = [q, n, q2, Piece(z3.IntVal(1), lambda j: d.lin.z())]; tot = e.sym(st, 'total', 64); st.pc.append(tot.lin.z() == q.n + n.n + q2.n + 1)
        def ref(nm, v, w): rr = e.region(st, nm, w, const=True); st.mem[rr.id].cells[0] = (w, v); return Ptr(rr)
        a = [ref('ra', Ptr(r), 8), ref('rv', v, 4), Ptr(r2), ref('rd', d, 1)]
    else: x.pieces = [q]; tot = e.sym(st, 'total', 64); st.pc.append(tot.lin.z() == q.n); a = a + [Ptr(r)]
    out = e.array(st, 'text', 1, tot.lin); finish(x, out)
    T.post(e, None, fn, [Ptr(out)] + a, st, [('returns the end of the text', lambda st, p: z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r is out), p.off.z() == x.ends[-1])), ('is the concatenation of its parts', lambda st, p: z3.Implies(x.J < x.ends[-1], z3.Select(e.arr(st, out), x.J) == x.want(x.J)))])
for f in ('w_copy', 'w_copyp', 'w_all'): task(f)(lambda T, f=f: copy(T, f))
# ---- arrays: [v0, v1, ...] of any length
def arr(T, fn):
    x = start(T); e, st = x.e, x.st; ch = fn == 'w_nchar'; fixed = 3 if fn == 'w_arr3' else None
    n = e.sym(st, 'n', 64, hi=1 << 40) if fixed is None else fixed; nz = n.lin.z() if fixed is None else z3.IntVal(fixed)
    r = e.array(st, 'v', 1 if ch else 4, n, signed=not ch, const=True); A = e.arr(st, r); i, k = z3.Ints('pi pk')
    ln = (lambda i: z3.IntVal(1)) if ch else (lambda i: LEN['int'](z3.Select(A, i))); at = (lambda i, j: z3.Select(A, i)) if ch else (lambda i, j: DIG['int'](z3.Select(A, i), j))
    POS = z3.Function('POS', I, I); first = lambda i: POS(i) + z3.If(i > 0, 2, 0); step = lambda i: POS(i + 1) == first(i) + ln(i)
    st.pc.append(POS(0) == 1); rng = z3.And(z3.Select(A, i) >= (0 if ch else -(1 << 31)), z3.Select(A, i) < (256 if ch else 1 << 31))
    st.assume(z3.ForAll([i], z3.And(rng, step(i), ln(i) >= 1, ln(i) <= 11), patterns=[z3.Select(A, i)]))
    # prefix sums of positive lengths grow: one step proved here, the induction over the distance is the lemma
    s0 = st.clone(); s0.pc += [k >= 0, step(k), ln(k) >= 1]; e.prove(s0, POS(k) < POS(k + 1), 'prefix sums grow in one step')
    mono = lambda a, b: z3.Implies(a < b, z3.And(POS(a) < POS(b), POS(a + 1) <= POS(b)))
    K = e.sym(st, 'K', 64, hi=1 << 40).lin.z(); st.pc += [K < nz, step(K), mono(K, nz), mono(0, K), mono(z3.IntVal(0), nz), POS(0) <= POS(nz), POS(K + 1) <= POS(nz), ln(K) >= 1, POS(K) >= 1]
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < nz), z3.And(POS(i) < POS(nz), POS(i) >= 1)), patterns=[POS(i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(i > K, i <= nz), POS(K + 1) <= POS(i)), patterns=[POS(i)]))
    tot = e.sym(st, 'total', 64); st.pc.append(tot.lin.z() == POS(nz) + 1); out = e.array(st, 'text', 1, tot.lin); J = x.J; g = lambda st, j: z3.Select(e.arr(st, out), j)
    part = lambda st: z3.And(z3.Implies(z3.And(J >= 0, J < ln(K)), g(st, first(K) + J) == at(K, J)), z3.Implies(K > 0, z3.And(g(st, POS(K)) == ord(','), g(st, POS(K) + 1) == ord(' '))))
    def cands(c0):
        out_ = []; ix = [(nm, (lambda c, f=f: None if f(c) is None else f(c).z())) for nm, f in intidx(e, c0)]; V = lambda F, *fs: (lambda c: None if any(f(c) is None for f in fs) else F(c, *[f(c) for f in fs]))
        for nm, p in ix:
            out_ += [('%s <= n' % nm, V(lambda c, P: P <= nz, p)), ('element K is written by %s' % nm, V(lambda c, P: z3.Implies(P > K, z3.And(POS(K + 1) <= POS(P), part(c.st))), p)), ('opening bracket', lambda c: g(c.st, 0) == ord('['))]
            for nm2, p2 in ix:
                if nm != nm2: out_.append(('%s at element %s' % (nm, nm2), V(lambda c, P, P2: P == POS(P2), p, p2)))
        return out_
    e.loop_cands = cands; e.measures = lambda c: [('n - ' + nm, lambda c, f=f: None if f(c) is None else (n.lin if fixed is None else Lin(fixed)) - f(c)) for nm, f in intidx(e, c)]
    T.post(e, None, fn, [Ptr(out)] + ([n] if fixed is None else []) + [Ptr(r)], st, [('returns the end of the text', lambda st, p: z3.And(z3.BoolVal(isinstance(p, Ptr) and p.r is out), p.off.z() == POS(nz) + 1)),
        ('brackets', lambda st, p: z3.And(g(st, 0) == ord('['), g(st, POS(nz)) == ord(']'))), ('element K and its separator', lambda st, p: part(st))])
for f in ('w_nint', 'w_nchar', 'w_arr3'): task(f)(lambda T, f=f: arr(T, f))
