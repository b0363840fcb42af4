from spec import *
ASSUMPTIONS = ['dequeue and head are called on a non-empty queue (precondition)', 'elements are compared with the built-in < (int, unsigned long, unsigned char) or by the key of a record; capacities 1, 3, 64, 1000 and 2^30', 'the multiset is stated as an equal count for an arbitrary predicate over elements']
CFG = dict(I=(1000, [(0, 4, True)], 4), U=(3, [(0, 8, False)], 8), B=(1, [(0, 1, False)], 1), R=(64, [(0, 4, True), (4, 4, False)], 8), H=(1 << 30, [(0, 4, True)], 4))
class X: pass
def kid(i, p): return z3.Or(i == 2 * p + 1, i == 2 * p + 2)
def heap(A, size, hole=None):
    i, p = z3.Ints('hi hp'); c = [p >= 0, kid(i, p), i < size]
    if hole is not None: c += [i != hole, p != hole]
    return z3.ForAll([i, p], z3.Implies(z3.And(c), z3.Select(A, p) <= z3.Select(A, i)), patterns=[z3.MultiPattern(z3.Select(A, p), z3.Select(A, i))])
def kids(A, n, size, f):
    i = z3.Int('ki'); return z3.ForAll([i], z3.Implies(z3.And(kid(i, n), i < size), f(z3.Select(A, i))), patterns=[z3.Select(A, i)])
def setup(T, S):
    N, fl, z = CFG[S]; x = X(); e = x.e = T.engine('int', houd_timeout=4000, name_ite=True); st = x.st = e.new_state()
    lay = [v.v for v in e.mod.globals['lay' + S].init.v]
    r = x.r = e.region(st, 'q', lay[0]); k = e.add_seg(st, r, lay[2], z, N, fl, ['data_%d' % i for i in range(len(fl))])
    size = e.sym(st, 'size', 64, hi=N); st.mem[r.id].cells[lay[1]] = (8, size); x.s = size.lin.z(); x.N, x.fl, x.z, x.k = N, fl, z, k
    x.size = lambda st: e.zv(e.load_cell(st, r, lay[1], 8), 64, st)
    x.arrs = lambda st: [e.arr(st, r, k, i) for i in range(len(fl))]
    srt = [z3.IntSort()] * len(fl); x.PR = z3.Function('Pr', *srt, z3.BoolSort()); AS = z3.ArraySort(z3.IntSort(), z3.IntSort()); CNT = z3.Function('CNT', *([AS] * len(fl)), z3.IntSort())
    x.cnt = lambda A: CNT(*A); x.pr = lambda v: z3.If(x.PR(*v), 1, 0); x.el = lambda A, i: [z3.Select(q, i) for q in A]
    x.bound = x.s
    def on_store(st, rr, kk, f, m, old, new):
        if rr is not r: return
        A1 = [m.arrs[(k, i)] for i in range(len(fl))]; A0 = list(A1); A0[f] = old; i = new.arg(1)
        st.assume(x.cnt(A1) == x.cnt(A0) + z3.If(i < x.bound, x.pr([z3.simplify(q) for q in x.el(A1, i)]) - x.pr(x.el(A0, i)), 0))
    e.on_store = on_store
    x.A0 = x.arrs(st); x.c0 = x.cnt(x.A0)
    i = z3.Int('ri'); lo = lambda w, sg: -(1 << 8 * w - 1) if sg else 0
    st.assume(z3.ForAll([i], z3.And(*[z3.And(z3.Select(a, i) >= lo(w, sg), z3.Select(a, i) < lo(w, sg) + (1 << 8 * w)) for a, (o, w, sg) in zip(x.A0, fl)]), patterns=[z3.Select(x.A0[0], i)]))
    st.assume(heap(x.A0[0], x.s)); x.K = e.sym(st, 'K', 64, hi=N - 1).lin.z()
    return x
def elems(x, c):
    """element values known at the loop, in registers or in local copies"""
    out = []; seen = set(); w = x.fl[0][1] * 8; e = x.e; ph = {p.I for p in c.phis}
    if len(x.fl) == 1:
        for I, v in list(c.frame.env.items()) + [(None, a) for a in c.frame.args]:
            if I in ph or not isinstance(v, (IV, int)) or isinstance(v, bool): continue
            if I is not None:
                ty = getattr(I, 'ty', None)
                if ty is None or ty.k != 'int' or ty.w != w: continue
            elif isinstance(v, IV) and v.w != w: continue
            kk = str(v.lin.key()) if isinstance(v, IV) else v
            if kk in seen: continue
            seen.add(kk); out.append((getattr(I, 'name', '?'), lambda c, v=v: [e.zv(v, w, c.st, x.fl[0][2])]))
    for I, v in c.frame.env.items():
        if isinstance(v, Ptr) and v.r is not None and v.r is not x.r and v.r.size in (x.z, None) and v.off.const and v.off.c == 0 and v.r.id not in seen:
            seen.add(v.r.id)
            def f(c, r=v.r):
                if r.id not in c.st.mem: return None
                cl = c.st.mem[r.id].cells
                if not all(any(q <= o and o + s <= q + z for q, (z, _) in cl.items()) for o, s, sg in x.fl): return None
                return [e.zv(e.load_cell(c.st, r, o, s), 8 * s, c.st, sg) for o, s, sg in x.fl]
            if f(c) is not None: out.append((v.r.name, f))
    return out
def raise_cands(x, size):
    def cands(c0):
        e = x.e; out = []; el = elems(x, c0)
        for nm, f in intidx(e, c0, (64,)):
            A = lambda c: x.arrs(c.st); g = lambda c, f=f: None if f(c) is None else f(c).z()
            w = lambda F, g=g: (lambda c: None if g(c) is None else F(c, g(c)))
            out += [('hole %s in range' % nm, w(lambda c, n: z3.And(n >= 0, n < size))),
                    ('heap except around hole %s' % nm, w(lambda c, n: heap(A(c)[0], size, n))),
                    ('parent of hole %s is below its children' % nm, w(lambda c, n: z3.Implies(n > 0, kids(A(c)[0], n, size, lambda v, A=A(c)[0]: z3.Select(A, (n - 1) / 2) <= v)))),
                    ('count without hole %s' % nm, w(lambda c, n: x.cnt(A(c)) - x.pr(x.el(A(c), n)) == x.cref(c)))]
            for en, ef in el:
                out.append(('%s is below the children of hole %s' % (en, nm), w(lambda c, n, ef=ef: None if ef(c) is None else kids(A(c)[0], n, size, lambda v: ef(c)[0] <= v))))
                out.append(('parent of hole %s is not above %s' % (nm, en), w(lambda c, n, ef=ef: None if ef(c) is None else z3.Implies(n > 0, z3.Select(A(c)[0], (n - 1) / 2) <= ef(c)[0]))))
        for K in (x.K, size): out.append(('slots from the bound on unchanged', lambda c, K=K: z3.Implies(K >= size, z3.And(*[u == v for u, v in zip(x.el(x.arrs(c.st), K), x.el(x.A0, K))]))))
        return out
    return cands
def inst(x, st, size):
    """name the children of every index used and its parent, so that the quantified facts are instantiated"""
    pass
def enq(T, S):
    x = setup(T, S); e, st, N, s = x.e, x.st, x.N, x.s
    rv = e.region(st, 'v', x.z, const=True); v = [e.sym(st, 'v%d' % i, 8 * w, signed=sg) for i, (o, w, sg) in enumerate(x.fl)]
    for (o, w, sg), q in zip(x.fl, v): st.mem[rv.id].cells[o] = (w, q)
    V = [q.lin.z() for q in v]; x.bound = s + 1; x.cref = lambda c: x.c0 - x.pr(x.el(x.A0, s))
    e.loop_cands = raise_cands(x, s + 1)
    ok = lambda v: B(v) if isb(v) else v
    tb = lambda v: bool(v) if isinstance(v, int) else v if z3.is_bool(v) else e.zv(v, 1, st) == 1
    I, P = z3.Ints('I P'); pair = z3.And(P >= 0, kid(I, P), I < s + 1)
    T.post(e, None, 'w_enq' + S, [Ptr(x.r), Ptr(rv)], st, [
        ('accepts exactly while there is room', lambda st, r: Iff(tb(r), s < N)),
        ('size counts the item', lambda st, r: x.size(st) == z3.If(s < N, s + 1, s)),
        ('heap order is kept', lambda st, r: z3.Implies(z3.And(pair, I < x.size(st)), z3.Select(x.arrs(st)[0], P) <= z3.Select(x.arrs(st)[0], I))),
        ('exactly the item is added', lambda st, r: z3.Implies(s < N, x.cnt(x.arrs(st)) - (x.c0 - x.pr(x.el(x.A0, s))) == x.pr(V))),
        ('a refused item changes nothing', lambda st, r: z3.Implies(s >= N, z3.And(*[u == w for u, w in zip(x.el(x.arrs(st), x.K), x.el(x.A0, x.K))])))])
def deq(T, S):
    x = setup(T, S); e, st, N, s = x.e, x.st, x.N, x.s; st.pc.append(s >= 1)
    ro = e.region(st, 'o', x.z); x.bound = s; last = x.el(x.A0, s - 1)
    x.cref = lambda c: x.c0 - x.pr(x.el(x.A0, z3.IntVal(0)))
    e.loop_cands = raise_cands(x, s - 1)
    got = lambda st: [e.zv(e.load_cell(st, ro, o, w), 8 * w, st, sg) for o, w, sg in x.fl]
    I, P = z3.Ints('I P'); pair = z3.And(P >= 0, kid(I, P), I < s - 1)
    T.post(e, None, 'w_deq' + S, [Ptr(x.r), Ptr(ro)], st, [
        ('returns the head', lambda st, r: z3.And(*[a == z3.Select(A, 0) for a, A in zip(got(st), x.A0)])),
        ('size drops by one', lambda st, r: x.size(st) == s - 1),
        ('heap order is kept', lambda st, r: z3.Implies(pair, z3.Select(x.arrs(st)[0], P) <= z3.Select(x.arrs(st)[0], I))),
        ('exactly the head is taken out', lambda st, r: x.cnt(x.arrs(st)) - x.pr(x.el(x.arrs(st), s - 1)) == x.c0 - x.pr(x.el(x.A0, z3.IntVal(0))))])
def look(T, S):
    x = setup(T, S); e, st, N, s = x.e, x.st, x.N, x.s; ro = e.region(st, 'o', x.z)
    tb = lambda v: bool(v) if isinstance(v, int) else v if z3.is_bool(v) else e.zv(v, 1, st) == 1
    same = lambda st: z3.And(x.size(st) == s, *[u == w for u, w in zip(x.el(x.arrs(st), x.K), x.el(x.A0, x.K))])
    T.post(e, None, 'w_empty' + S, [Ptr(x.r)], st, [('empty exactly at size 0', lambda st, r: Iff(tb(r), s == 0)), ('changes nothing', lambda st, r: same(st))])
    T.post(e, None, 'w_head' + S, [Ptr(x.r), Ptr(ro)], st, [('reads the head', lambda st, r: z3.And(*[e.zv(e.load_cell(st, ro, o, w), 8 * w, st, sg) == z3.Select(A, 0) for (o, w, sg), A in zip(x.fl, x.A0)])), ('changes nothing', lambda st, r: same(st))])
for S in CFG:
    for f in (enq, deq, look): task('%s_%s' % (f.__name__, S))(lambda T, f=f, S=S: f(T, S))
@task('lemma: head is a minimum')
def _(T):
    e = T.engine('int'); st = e.new_state(); A = z3.Array('A', z3.IntSort(), z3.IntSort()); i, p, s = z3.Ints('i p s')
    at = lambda k: z3.Select(A, k)
    st.pc += [i >= 0, i < s, p == (i - 1) / 2]; e.cover(st, 'lemma')
    e.prove(st, z3.Implies(i > 0, z3.And(p >= 0, p < i, kid(i, p))), 'the parent is a smaller index')
    e.prove(st, z3.Implies(z3.And(i > 0, at(p) <= at(i), at(0) <= at(p)), at(0) <= at(i)), 'induction step: data[0] <= data[i] from the parent')
    e.prove(st, z3.Implies(i == 0, z3.Select(A, 0) <= z3.Select(A, i)), 'induction base')
