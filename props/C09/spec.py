from spec import *
ASSUMPTIONS = ['element comparison is the built-in < (int, unsigned long) or a key comparison of a record; instantiated thresholds 2, 16 and 128 (the default)',
               'multiset equality is stated as an equal count for an arbitrary predicate; that every element then has a source element is the lemma task']
CFG = dict(I=([(0, 4, True)], 4), U=([(0, 8, False)], 8), R=([(0, 4, True), (4, 4, False)], 8))
Z = z3.IntVal

class X: pass
def setup(T, S):
    fl, z = CFG[S]
    x = X(); e = x.e = T.engine('int', houd_timeout=4000); st = x.st = e.new_state()
    n = e.sym(st, 'n', 64, hi=(1 << 58)); a = e.sym(st, 'a', 64, hi=1 << 58); b = e.sym(st, 'b', 64, hi=1 << 58)
    x.a, x.b = a.lin.z(), b.lin.z(); st.pc += [x.a <= x.b, x.b <= n.lin.z()]
    r = x.r = Region('arr', n.lin.scale(z), step=z); st.mem[r.id] = RegMem(); e.add_seg(st, r, 0, z, n.lin, fl, ['arr_%d' % i for i in range(len(fl))])
    x.pa, x.pb = Ptr(r, a.lin.scale(z)), Ptr(r, b.lin.scale(z)); x.z = z; x.fl = fl
    x.al, x.bl, x.nl = a.lin, b.lin, n.lin
    srt = [z3.IntSort()] * len(fl)
    PR = z3.Function('Pr', *srt, z3.BoolSort()); AS = z3.ArraySort(z3.IntSort(), z3.IntSort()); CNT = z3.Function('CNT', *([AS] * len(fl)), z3.IntSort())
    x.arrs = lambda st: [e.arr(st, r, 0, i) for i in range(len(fl))]
    x.cnt = lambda st: CNT(*x.arrs(st))
    x.cnt_of = lambda arrs: CNT(*arrs)
    x.key = lambda A: (lambda i: z3.Select(A[0] if isinstance(A, list) else e.arr(A, r, 0, 0), i))
    x.el = lambda st, i: [z3.Select(q, i) for q in x.arrs(st)]
    def on_store(st, rr, k, f, m, old, new):
        if rr is not r: return
        A1 = [m.arrs[(0, i)] for i in range(len(fl))]; A0 = list(A1); A0[f] = old
        i = new.arg(1); p0 = PR(*[z3.Select(q, i) for q in A0]); p1 = PR(*[z3.simplify(z3.Select(q, i)) for q in A1])
        st.assume(CNT(*A1) == CNT(*A0) - z3.If(p0, 1, 0) + z3.If(p1, 1, 0))
    e.on_store = on_store; x.PR = PR
    x.A0 = x.arrs(st); x.cnt0 = x.cnt(st)
    x.K = z3.Int('K'); st.pc += [x.K >= 0, x.K < n.lin.z()]
    # machine range of the elements
    def rng(A, q=None):
        i = z3.Int('ri'); return z3.ForAll([i], z3.And(*[z3.And(z3.Select(a, i) >= (-(1 << 8 * w - 1) if sg else 0), z3.Select(a, i) < (1 << (8 * w - 1 if sg else 8 * w))) for a, (o, w, sg) in zip(A, fl)]), patterns=[z3.Select(A[0], i)])
    x.rng = rng
    return x

def sorted_on(A, lo, hi, hole=None):
    i, j = z3.Ints('si sj'); c = [lo <= i, i < j, j < hi]
    if hole is not None: c += [i != hole, j != hole]
    return z3.ForAll([i, j], z3.Implies(z3.And(c), z3.Select(A, i) <= z3.Select(A, j)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))])
def all_on(A, lo, hi, f):
    i = z3.Int('ai'); return z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), f(z3.Select(A, i))), patterns=[z3.Select(A, i)])

def positions(x, c):
    """positions in the array known at the loop: [(name, fn(ctx)->z3 int)]"""
    out = []; seen = set()
    ph = {p.I for p in c.phis}
    for p in c.phis:
        if isinstance(p.entry, Ptr) and p.entry.r is x.r: out.append((p.name, lambda c, p=p: c.vals[p.name].off.exact(x.z).z() if c.vals[p.name].off.divisible(x.z) else None))
    for I, v in c.frame.env.items():
        if I in ph or not isinstance(v, Ptr) or v.r is not x.r or not v.off.divisible(x.z): continue
        l = v.off.exact(x.z)
        if l.key() in seen: continue
        seen.add(l.key()); out.append((getattr(I, 'name', '?'), lambda c, l=l: l.z()))
    return out
def elems(x, c):
    """element values known at the loop (scalars, or record copies in local memory): [(name, fn(ctx)->[terms])]"""
    out = []; seen = set(); w = x.fl[0][1] * 8; e = x.e
    if len(x.fl) == 1:
        ph = {p.I for p in c.phis}
        def tz(v, st): return e.zv(v, w, st, x.fl[0][2])
        for p in c.phis:
            if p.ty.k == 'int' and p.w == w and w < 64: out.append((p.name, lambda c, p=p: [tz(c.vals[p.name], c.st)]))
        for I, v in c.frame.env.items():
            if I in ph or not isinstance(v, (IV, int)) or isinstance(v, bool): continue
            ty = getattr(I, 'ty', None)
            if ty is None or ty.k != 'int' or ty.w != w or getattr(I, 'op', '') not in ('load', 'phi', 'call', 'select'): continue
            k = str(v.lin.key()) if isinstance(v, IV) else v
            if k in seen: continue
            seen.add(k); out.append((getattr(I, 'name', '?'), lambda c, v=v: [tz(v, c.st)]))
    # local copies in memory
    for I, v in c.frame.env.items():
        if isinstance(v, Ptr) and v.r is not None and v.r is not x.r and v.r.size == x.z and v.off.const and v.off.c == 0 and v.r.id not in seen:
            seen.add(v.r.id)
            def f(c, r=v.r):
                if r.id not in c.st.mem: return None
                cl = c.st.mem[r.id].cells
                if not all(o in cl and cl[o][0] == s for o, s, sg in x.fl): return None
                return [e.zv(cl[o][1], 8 * s, c.st, sg) for o, s, sg in x.fl]
            out.append((v.r.name, f))
    return out

def frame_cands(x, c0):
    e = x.e; out = [('count kept', lambda c: x.cnt(c.st) == x.cnt0)]
    out.append(('outside unchanged', lambda c: z3.Implies(z3.Or(x.K < x.a, x.K >= x.b), z3.And(*[z3.Select(u, x.K) == z3.Select(v, x.K) for u, v in zip(x.arrs(c.st), x.A0)]))))
    pos = positions(x, c0); el = elems(x, c0)
    for pn, pf in pos:
        for en, ef in el:
            def g(c, pf=pf, ef=ef):
                p, v = pf(c), ef(c)
                return None if p is None or v is None else x.cnt(c.st) - z3.If(x.PR(*x.el(c.st, p)), 1, 0) + z3.If(x.PR(*v), 1, 0) == x.cnt0
            out.append(('count kept with %s in hole %s' % (en, pn), g))
            def g2(c, pf=pf, ef=ef):
                p, v = pf(c), ef(c)
                return None if p is None or v is None else z3.And(*[u == w for u, w in zip(x.el(c.st, p), v)])
            out.append(('*%s == %s' % (pn, en), g2))
        for pn2, pf2 in pos:
            if pn2 != pn: out.append(('%s <= %s' % (pn, pn2), lambda c, f=pf, g=pf2: None if f(c) is None or g(c) is None else f(c) <= g(c)))
    return out

def with_posts(x, T, fn, args, posts):
    T.post(x.e, None, fn, args, x.st, posts)
def perm_posts(x):
    return [('permutation (count of every predicate kept)', lambda st, v: x.cnt(st) == x.cnt0),
            ('elements outside [a,b) unchanged', lambda st, v: z3.Implies(z3.Or(x.K < x.a, x.K >= x.b), z3.And(*[z3.Select(u, x.K) == z3.Select(v, x.K) for u, v in zip(x.arrs(st), x.A0)])))]
def sorted_post(x, I, J):
    return ('ordered', lambda st, v: z3.Implies(z3.And(x.a <= I, I < J, J < x.b), z3.Select(x.arrs(st)[0], I) <= z3.Select(x.arrs(st)[0], J)))

def ins(T, S):
    x = setup(T, S); e = x.e; I, J = z3.Ints('I J')
    def cands(c0):
        out = frame_cands(x, c0); pos = positions(x, c0); el = elems(x, c0)
        for pn, pf in pos:
            out.append(('sorted [a,%s)' % pn, lambda c, f=pf: None if f(c) is None else sorted_on(x.arrs(c.st)[0], x.a, f(c))))
            out.append(('sorted [a,%s]' % pn, lambda c, f=pf: None if f(c) is None else sorted_on(x.arrs(c.st)[0], x.a, f(c) + 1)))
            for hn, hf in pos:
                if hn != pn:
                    out.append(('sorted [a,%s] but hole %s' % (pn, hn), lambda c, f=pf, h=hf: None if f(c) is None or h(c) is None else sorted_on(x.arrs(c.st)[0], x.a, f(c) + 1, h(c))))
                    for en, ef in el:
                        out.append(('(%s,%s] above %s' % (hn, pn, en), lambda c, f=pf, h=hf, g=ef: None if f(c) is None or h(c) is None or g(c) is None else all_on(x.arrs(c.st)[0], h(c) + 1, f(c) + 1, lambda t: g(c)[0] <= t)))
        return out
    e.loop_cands = cands
    with_posts(x, T, 'w_ins' + S, [x.pa, x.pb], perm_posts(x) + [sorted_post(x, I, J)])

def med(T, S):
    x = setup(T, S); e = x.e; p = [e.sym(x.st, 'p%d' % i, 64, hi=1 << 58) for i in range(3)]
    pz = [q.lin.z() for q in p]
    for q in pz: x.st.pc += [q >= x.a, q < x.b]
    def k(st, i): return z3.Select(x.arrs(st)[0], pz[i])
    distinct = z3.And(pz[0] != pz[1], pz[1] != pz[2], pz[0] != pz[2])       # otherwise the three places are not a triple
    T.post(e, None, 'w_med' + S, [Ptr(x.r, q.lin.scale(x.z)) for q in p], x.st, perm_posts(x) + [
        ('middle value ends in the second place', lambda st, v: z3.Implies(distinct, z3.Or(z3.And(k(st, 0) <= k(st, 1), k(st, 1) <= k(st, 2)), z3.And(k(st, 2) <= k(st, 1), k(st, 1) <= k(st, 0))))),
        ('only the three places change', lambda st, v: z3.Implies(z3.And(*[x.K != q for q in pz]), z3.And(*[z3.Select(u, x.K) == z3.Select(w, x.K) for u, w in zip(x.arrs(st), x.A0)])))])

def part(T, S):
    x = setup(T, S); e = x.e; x.st.pc.append(x.a < x.b); I = z3.Int('I')
    def cands(c0):
        out = frame_cands(x, c0); pos = positions(x, c0); el = elems(x, c0)
        for pn, pf in pos:
            for qn, qf in pos:
                if pn == qn: continue
                for en, ef in el:
                    for lab, rel in (('<', lambda u, v: u < v), ('>=', lambda u, v: u >= v)):
                        out.append(('[%s,%s) %s %s' % (pn, qn, lab, en), lambda c, f=pf, h=qf, g=ef, rel=rel: None if f(c) is None or h(c) is None or g(c) is None else all_on(x.arrs(c.st)[0], f(c), h(c), lambda t: rel(t, g(c)[0]))))
        return out
    e.loop_cands = cands
    def P(v): return v.off.exact(x.z).z()
    def key(st, i): return z3.Select(x.arrs(st)[0], i)
    with_posts(x, T, 'w_part' + S, [x.pa, x.pb], perm_posts(x) + [
        ('returns a place in the range', lambda st, v: z3.And(x.a <= P(v), P(v) < x.b)),
        ('left of it is not greater', lambda st, v: z3.Implies(z3.And(x.a <= I, I < P(v)), key(st, I) <= key(st, P(v)))),
        ('right of it is not less', lambda st, v: z3.Implies(z3.And(P(v) < I, I < x.b), key(st, I) >= key(st, P(v))))])

# contracts used by the recursion
def havoc(x, st, lo, hi):
    """an arbitrary permutation of [lo,hi)"""
    e, r = x.e, x.r; A = x.arrs(st); c0 = x.cnt(st)
    B_ = [z3.Array(fresh_name('arr'), z3.IntSort(), z3.IntSort()) for _ in A]
    for f, b in enumerate(B_): e.set_arr(st, r, b, 0, f); e.wlog(r, ('arr', 0, f))
    st.assume(x.cnt(st) == c0)
    i = z3.Int('hi_'); src = z3.Function(fresh_name('src'), z3.IntSort(), z3.IntSort())
    same = z3.And(*[z3.Select(b, i) == z3.Select(a, i) for a, b in zip(A, B_)])
    st.assume(z3.ForAll([i], z3.Implies(z3.Or(i < lo, i >= hi), same), patterns=[z3.Select(B_[0], i)]))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(lo <= i, i < hi), z3.And(lo <= src(i), src(i) < hi, *[z3.Select(b, i) == z3.Select(a, src(i)) for a, b in zip(A, B_)])), patterns=[z3.Select(B_[0], i)]))
    return B_
def at(x, p): return p.off.exact(x.z).z()
def contract_sort(x, measure=True):
    def h(e, st, a, I):
        if not (isinstance(a[0], Ptr) and a[0].r is x.r and isinstance(a[1], Ptr) and a[1].r is x.r): return None
        lo, hi = at(x, a[0]), at(x, a[1])
        e.prove(st, z3.And(0 <= lo, lo <= hi, hi <= x.nl.z()), 'callee sorts a range of the array')
        e.prove(st, z3.And(x.a <= lo, hi <= x.b), 'callee stays inside [a,b)')
        if measure: e.prove(st, hi - lo < x.b - x.a, 'recursion on a shorter range')
        B_ = havoc(x, st, lo, hi); st.assume(sorted_on(B_[0], lo, hi)); return [(st, None)]
    return h
def contract_part(x):
    def h(e, st, a, I):
        lo, hi = at(x, a[0]), at(x, a[1]); e.prove(st, z3.And(0 <= lo, lo < hi, hi <= x.nl.z()), 'partition of a non-empty range')
        B_ = havoc(x, st, lo, hi); p = Lin.atom(z3.Int(fresh_name('piv')), 0, 1 << 58); st.assume(z3.And(lo <= p.z(), p.z() < hi))
        k = z3.Select(B_[0], p.z()); st.assume(all_on(B_[0], lo, p.z(), lambda t: t <= k)); st.assume(all_on(B_[0], p.z() + 1, hi, lambda t: t >= k))
        return [(st, Ptr(x.r, p.scale(x.z)))]
    return h
def contract_ins(x):
    def h(e, st, a, I):
        lo, hi = at(x, a[0]), at(x, a[1]); e.prove(st, z3.And(0 <= lo, lo <= hi, hi <= x.nl.z()), 'insertion sort of a range'); B_ = havoc(x, st, lo, hi); st.assume(sorted_on(B_[0], lo, hi)); return [(st, None)]
    return h

def rec(T, S, fn, top=False):
    x = setup(T, S); e = x.e; I, J = z3.Ints('I J')
    e.contracts += [(r' ce::partition<|^ce::partition<', contract_part(x)), (r'ce::insertion_sort<', contract_ins(x))]
    first = []
    def h(e, st, a, I_):
        if not top and not first: first.append(1); return None          # the wrapper's own call is the function under proof
        return contract_sort(x, True)(e, st, a, I_)
    e.contracts.append((r'ce::intro_sort<.*>\(.*\*, .*\*, (unsigned long|size_t)\)', h))
    args = [x.pa, x.pb] + ([] if top else [e.sym(x.st, 'limit', 64)])
    with_posts(x, T, fn, args, perm_posts(x) + [sorted_post(x, I, J)])

@task('lemma count')
def _(T):
    """counts over [0,n): step cases of the inductions behind the store rule and the source rule"""
    e = T.engine('int'); st = e.new_state()
    AS = z3.ArraySort(z3.IntSort(), z3.IntSort()); C = z3.Function('C', AS, z3.IntSort(), z3.IntSort()); P = z3.Function('P', z3.IntSort(), z3.BoolSort())
    A, B_ = z3.Consts('A B', AS); n, i, v = z3.Ints('n i v'); one = lambda A, k: z3.If(P(z3.Select(A, k)), 1, 0)
    for M in (A, z3.Store(A, i, v)): st.pc += [C(M, z3.IntVal(0)) == 0, C(M, n + 1) == C(M, n) + one(M, n)]
    st.pc += [n >= 0, i >= 0]; S = z3.Store(A, i, v); e.cover(st, 'lemma')
    rule = lambda n: C(S, n) == C(A, n) + z3.If(i < n, z3.If(P(v), 1, 0) - one(A, i), 0)
    e.prove(st, rule(z3.IntVal(0)), 'store rule, base'); s2 = st.clone(); s2.assume(rule(n)); e.prove(s2, rule(n + 1), 'store rule, step')
    w = z3.Int('w'); pos = lambda n: z3.And(C(A, n) >= 0, z3.Implies(C(A, n) > 0, z3.And(w >= 0, w < n, P(z3.Select(A, w)))))
    w2 = z3.If(P(z3.Select(A, n)), n, w); pos2 = lambda n: z3.And(C(A, n) >= 0, z3.Implies(C(A, n) > 0, z3.And(w2 >= 0, w2 < n, P(z3.Select(A, w2)))))
    e.prove(st, pos(z3.IntVal(0)), 'source rule, base'); s2 = st.clone(); s2.assume(pos(n)); e.prove(s2, pos2(n + 1), 'a positive count has a witness, step')
    has = lambda n: z3.Implies(z3.And(i < n, P(z3.Select(A, i))), C(A, n) > 0); s2 = st.clone(); s2.pc += [C(A, n) >= 0]; s2.assume(has(n)); e.prove(s2, has(n + 1), 'an occurrence makes the count positive, step')

for S in CFG:
    for nm, f in dict(insertion=ins, median=med, partition=part, recursion=lambda T, S: rec(T, S, 'w_rec' + S), top=lambda T, S: rec(T, S, 'w_sort' + S, True)).items():
        task('%s_%s' % (nm, S))(lambda T, f=f, S=S: f(T, S))
task('default threshold')(lambda T: rec(T, 'I', 'w_default', True))
