from spec import *
ASSUMPTIONS = ['z_query: the data are sorted codes and the box is not empty (no corner coordinate exceeds the opposite one); up to 2^58 codes']
XM, YM, BLK = 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, ~0xffff & (1 << 64) - 1
U = z3.BitVecSort(64)
bv = lambda n: z3.BitVec(n, 64)
def B_(lo, hi, z): hi = hi | 0xffff; return z3.And(*[z3.And(z3.UGE(z & m, lo & m), z3.ULE(z & m, hi & m)) for m in (XM, YM)])
def C_(lo, hi): return z3.And(*[z3.ULE(lo & BLK & m, hi & BLK & m) for m in (XM, YM)])
def L_(lo, hi):
    d = lo ^ hi; r = z3.IntVal(0) if False else z3.BitVecVal(0, 8)
    for t in range(17, 64): r = z3.If(z3.Extract(t, t, d) == 1, z3.BitVecVal(t - 16, 8), r)
    return r
SPLIT = [
    ('a split keeps both parts well formed', lambda lo, hi, jo, ji, z: z3.And(C_(lo, jo), C_(ji, hi))),
    ('a split lowers the highest differing bit of the low part', lambda lo, hi, jo, ji, z: z3.ULT(L_(lo, jo), L_(lo, hi))),
    ('a split lowers the highest differing bit of the high part', lambda lo, hi, jo, ji, z: z3.ULT(L_(ji, hi), L_(lo, hi))),
    ('a split loses no code of the box', lambda lo, hi, jo, ji, z: z3.Implies(B_(lo, hi, z), z3.If(z3.ULE(z, jo | 0xffff), B_(lo, jo, z), B_(ji, hi, z)))),
    ('the parts are disjoint and inside', lambda lo, hi, jo, ji, z: z3.And(z3.ULT(jo | 0xffff, ji), z3.ULE(ji, hi | 0xffff), z3.ULE(lo, ji), z3.ULE(jo | 0xffff, hi | 0xffff)))]

@task('z_split')
def _(T):
    for lab, f in SPLIT:
        e = T.engine('bv', timeout=120000); st = e.new_state(); lo, hi = e.sym(st, 'lo', 64), e.sym(st, 'hi', 64); z = bv('z')
        rj, ri = e.region(st, 'jo', 8), e.region(st, 'ji', 8); st.assume(C_(lo, hi)); get = lambda st, r: e.D.z(st.mem[r.id].cells[0][1], 64)
        T.post(e, None, 'w_split', [lo, hi, Ptr(rj), Ptr(ri)], st, [(lab, lambda st, v, f=f: z3.Implies(e.D.b(v, st) if hasattr(e.D, 'b') else v, f(lo, hi, get(st, rj), get(st, ri), z)))])

@task('lemmas')
def _(T):
    e = T.engine('bv', timeout=60000); st = e.new_state(); lo, hi, z = map(bv, ('lo', 'hi', 'z')); e.cover(st, 'lemma')
    e.prove(st, z3.Implies(B_(lo, hi, z), z3.And(z3.ULE(lo, z), z3.ULE(z, hi | 0xffff))), 'codes of a box lie between its corners')
    e.prove(st, z3.Implies(C_(lo, hi), z3.ULE(lo, hi | 0xffff)), 'corners are ordered')
    e.prove(st, z3.ULE(L_(lo, hi), 47), 'at most 47 levels')
    e.prove(st, z3.Implies(z3.And(*[z3.And(z3.ULE(lo & m, z & m), z3.ULE(z & m, hi & m)) for m in (XM, YM)]), z3.And(B_(lo, hi, z), C_(lo, hi))), 'a code inside the box is one of the box; a box that is not empty is well formed')

@task('z_expand')
def _(T):
    e = T.engine('bv'); st = e.new_state(); n = e.sym(st, 'n', 32)
    T.post(e, None, 'w_expand', [n], st, [('puts bit i at bit 2i', lambda st, v: z3.And(*[z3.Extract(2 * i, 2 * i, e.D.z(v, 64)) == z3.Extract(i, i, n) for i in range(32)] + [e.D.z(v, 64) & YM == 0]))])
@task('z_encode')
def _(T):
    e = T.engine('bv'); st = e.new_state(); x, y = e.sym(st, 'x', 32), e.sym(st, 'y', 32)
    def post(st, v):
        v = e.D.z(v, 64)
        return z3.And(*[z3.Extract(2 * i + k, 2 * i + k, v) == (z3.Extract(i, i, q) if i < 31 else ~z3.Extract(31, 31, q)) for i in range(32) for k, q in ((0, x), (1, y))])
    T.post(e, None, 'w_encode', [x, y], st, [('interleaves the bits of both coordinates, sign bits flipped', post)])
@task('z_inside')
def _(T):
    e = T.engine('bv'); st = e.new_state(); lo, hi, z = [e.sym(st, c, 64) for c in ('lo', 'hi', 'z')]
    pick = lambda v, k: z3.Concat(*[z3.Extract(2 * i + k, 2 * i + k, v) for i in range(31, -1, -1)])
    T.post(e, None, 'w_inside', [lo, hi, z], st, [('both coordinates lie in the box', lambda st, v: v == z3.And(*[z3.And(z3.ULE(pick(lo, k), pick(z, k)), z3.ULE(pick(z, k), pick(hi, k))) for k in (0, 1)]))])
@task('box')
def _(T):
    e = T.engine('bv', timeout=60000); st = e.new_state(); x0, y0, x1, y1, x, y = [e.sym(st, c, 32) for c in ('x0', 'y0', 'x1', 'y1', 'x', 'y')]
    T.post(e, None, 'w_box', [x0, y0, x1, y1, x, y], st, [('inside of encoded points is inside of the signed box', lambda st, v: v == z3.And(x0 <= x, x <= x1, y0 <= y, y <= y1))])

def sorted_data(e, st, n):
    r = Region('data', n.lin.scale(8), const=True, step=8); st.mem[r.id] = RegMem(); e.add_seg(st, r, 0, 8, n.lin, [(0, 8, False)], ['data']); A = e.arr(st, r, 0, 0); N = n.lin.z()
    i, j = z3.Ints('si sj'); st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N), z3.Select(A, i) <= z3.Select(A, j)), patterns=[z3.MultiPattern(z3.Select(A, i), z3.Select(A, j))]))
    return r, A
@task('z_lower_bound')
def _(T):
    e = T.engine('int'); st = e.new_state(); n = e.sym(st, 'n', 64, hi=1 << 58); r, A = sorted_data(e, st, n); N = n.lin.z(); z = e.sym(st, 'z', 64); Z = z.lin.z(); I = z3.Int('I')
    a, b = e.sym(st, 'a', 64, hi=1 << 58), e.sym(st, 'b', 64, hi=1 << 58); lo, hi = a.lin.z(), b.lin.z(); st.pc += [lo <= hi, hi <= N, I >= lo, I < hi]; below = z3.Select(A, I) < Z
    def cands(c0):
        out = []; ix = intidx(e, c0)
        for nm, f in ix:
            for lab, g in [('', lambda c, f=f: f(c))] + [('+' + n2, lambda c, f=f, f2=f2: None if f(c) is None or f2(c) is None else f(c) + f2(c)) for n2, f2 in ix if n2 > nm]:
                out.append(('left of %s%s is below' % (nm, lab), lambda c, g=g: None if g(c) is None else z3.Implies(I < g(c).z(), below)))
                out.append(('from %s%s on is not below' % (nm, lab), lambda c, g=g: None if g(c) is None else z3.Implies(I >= g(c).z(), z3.Not(below))))
                out.append(('%s%s in [a,b]' % (nm, lab), lambda c, g=g: None if g(c) is None else z3.And(g(c).z() >= lo, g(c).z() <= hi)))
        return out
    e.loop_cands = cands; P = lambda v: v.off.exact(8).z()
    T.post(e, None, 'w_lower', [Ptr(r, a.lin.scale(8)), Ptr(r, b.lin.scale(8)), z], st, [
        ('result lies in the range or at its end', lambda st, v: z3.And(P(v) >= lo, P(v) <= hi)), ('exactly the codes before it are smaller', lambda st, v: below == (I < P(v)))])

@task('z_query')
def _(T):
    e = T.engine('int', matching_only=True, houd_timeout=3000); st = e.new_state(); Iz = z3.IntSort(); n = e.sym(st, 'n', 64, hi=1 << 58); N = n.lin.z(); r, A = sorted_data(e, st, n); D = lambda i: z3.Select(A, i)
    lo0, hi0 = e.sym(st, 'lo', 64), e.sym(st, 'hi', 64); LO, HI = lo0.lin.z(), hi0.lin.z()
    out = e.array(st, 'out', 8, n); src = e.array(st, 'ghost_src', 8, n); g = e.region(st, 'ghost', 24)
    for k in range(3): st.mem[g.id].cells[8 * k] = (8, 0)
    C = z3.Function('C', Iz, Iz, z3.BoolSort()); L = z3.Function('L', Iz, Iz, Iz); B = z3.Function('B', Iz, Iz, z3.BoolSort())      # B: the tracked code belongs to the box
    a, b = z3.Ints('qa qb'); K, J, J2 = z3.Ints('K J J2'); end = lambda v: v - v % 65536 + 65535; zK = D(K)
    st.pc += [K >= 0, K < N, B(LO, HI), C(LO, HI), J >= 0, J < J2]
    st.assume(z3.ForAll([a, b], z3.Implies(B(a, b), z3.And(a <= zK, zK <= end(b))), patterns=[B(a, b)]))
    st.assume(z3.ForAll([a, b], z3.Implies(C(a, b), a <= end(b)), patterns=[C(a, b)]))
    st.assume(z3.ForAll([a, b], z3.And(L(a, b) >= 0, L(a, b) <= 47), patterns=[L(a, b)]))
    u = lambda st, v: e.zv(v, 64, st, False)
    gv = lambda st, k: u(st, st.mem[g.id].cells[8 * k][1])
    em, W = (lambda st: gv(st, 0) == 1), (lambda st: gv(st, 1))
    known = {r.id, out.id, src.id, g.id}
    def stack(st):
        """the span stack: the local array of code pairs"""
        for i, m in st.mem.items():
            if i not in known and (0, 1) in m.arrs: return lambda q, s: z3.Select(m.arrs[(0, q)], s)
        return None
    def on_store(st, rr, k, f, m, old, new):
        if rr is out:
            v = new.arg(2); v = st.ghost.get(('nm', v.get_id()), v)
            if not (z3.is_select(v) and v.arg(0).eq(A)): raise Unsupported('output of something that is no stored code')
            t = Lin.atom(v.arg(1), 0, 1 << 58); e.quiet += 1
            try:
                e.store(st, Ptr(src, Lin.atom(new.arg(1), 0, 1 << 58).scale(8)), IV(64, t), 8)
                e.store(st, Ptr(g, Lin(0)), IV(64, Lin.atom(z3.If(v.arg(1) == K, 1, gv(st, 0)), 0, 1)), 8)
            finally: e.quiet -= 1
        elif rr.id not in known and (0, 1) in m.arrs:
            s = new.arg(1); lo_, hi_ = [z3.Select(m.arrs[(0, q)], s) for q in (0, 1)]; w, w0 = gv(st, 1), gv(st, 2); c = B(z3.simplify(lo_), z3.simplify(hi_)); e.quiet += 1
            try:
                e.store(st, Ptr(g, Lin(16)), IV(64, Lin.atom(z3.If(z3.And(c, w != s), w, w0), 0, 1 << 63)), 8)
                e.store(st, Ptr(g, Lin(8)), IV(64, Lin.atom(z3.If(c, s, z3.If(w == s, w0, w)), 0, 1 << 63)), 8)
            finally: e.quiet -= 1
    e.on_store = on_store; e.stride_hint = lambda p: 16 if p.entry.r.id not in known else None
    e.on_alloca = lambda st, q: e.add_seg(st, q, 0, 16, q.size // 16, [(0, 8, False), (8, 8, False)]) if q.size > 256 else None
    def lower(e, st, a, I):
        p, q = [x.off.exact(8) for x in a[:2]]; e.prove(st, z3.And(p.z() >= 0, p.z() <= q.z(), q.z() <= N), 'z_lower_bound gets a range of the data')
        v = Lin.atom(z3.Int(fresh_name('lb')), 0, 1 << 58); i = z3.Int('li'); Z = u(st, a[2]); P = v.z(); st.assume(z3.And(P >= p.z(), P <= q.z()))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= p.z(), i < q.z()), (D(i) < Z) == (i < P)), patterns=[D(i)])); return [(st, Ptr(r, v.scale(8)))]
    def split(e, st, a, I):
        lo, hi = u(st, a[0]), u(st, a[1]); e.prove(st, C(lo, hi), 'z_split gets a well formed box'); jo, ji = [IV(64, Lin.atom(z3.Int(fresh_name(c)), 0, (1 << 64) - 1)) for c in ('jo', 'ji')]; o, i = jo.lin.z(), ji.lin.z()
        st.assume(z3.And(o >= 0, i >= 0, i < 1 << 64, o % 65536 == 0))
        e.store(st, a[2], jo, 8); e.store(st, a[3], ji, 8); res = z3.Bool(fresh_name('split'))
        st.assume(z3.Implies(res, z3.And(C(lo, o), C(i, hi), L(lo, o) < L(lo, hi), L(i, hi) < L(lo, hi), end(o) < i, i <= end(hi), lo <= i, end(o) <= end(hi), z3.Implies(B(lo, hi), z3.If(zK <= end(o), B(lo, o), B(i, hi))))))
        return [(st, res)]
    e.contracts += [(r'ce::z_lower_bound\(', lower), (r'ce::z_split\(', split)]
    def cands(c0):
        out_ = []; V = lambda F, *fs: (lambda c: None if any(f(c) is None for f in fs) else F(c, *[f(c) for f in fs])); fr = c0.frame
        vals = [(p.name, (lambda c, p=p: c.lin(p).z() if c.lin(p) is not None else None)) for p in c0.phis if p.ty.k == 'int' and p.w == 64]; ph = {p.I for p in c0.phis}
        ptr = lambda pred: [(p.name, (lambda c, p=p: c.vals[p.name].off.exact(8 * (1 if pred == 'data' else 2)).z() if c.vals[p.name].off.divisible(8 if pred == 'data' else 16) else None)) for p in c0.phis if isinstance(p.entry, Ptr) and (p.entry.r is r if pred == 'data' else p.entry.r is not None and p.entry.r.id not in known)]
        seen = set(); pos = ptr('data'); dep = ptr('stack')
        for Ii, v in fr.env.items():
            if Ii in ph: continue
            if isinstance(v, Ptr) and v.r is r and v.off.divisible(8):
                l = v.off.exact(8)
                if l.key() not in seen: seen.add(l.key()); pos.append((getattr(Ii, 'name', '?'), lambda c, l=l: l.z()))
            if isinstance(v, IV) and v.w == 64 and v.lin.key() not in seen: seen.add(v.lin.key()); vals.append((getattr(Ii, 'name', '?'), lambda c, v=v: u(c.st, v)))
        phn = {p.name for p in c0.phis}
        # corners: pairs that are a well formed box on entry; counts: neither corner
        def ok(F, *fs):
            x = [f(c0) for f in fs]
            return None not in x and e.valid_quiet(c0.entry_st, F(*x))
        boxes = [((ln, l), (hn, h)) for ln, l in vals for hn, h in vals if ln != hn and (ln in phn or hn in phn) and ok(C, l, h)]; corners = {x[0] for bx in boxes for x in bx}
        if not dep: dep = [x for x in vals if x[0] not in corners and x[0] in phn]
        Hs = {bx[1][0]: bx[1] for bx in boxes}.values()
        s, t = z3.Ints('ks kt')
        def cover(c, l, h, d, P, k):
            S = stack(c.st); ins = z3.BoolVal(False) if S is None else z3.And(W(c.st) >= 0, W(c.st) < d, B(S(0, W(c.st)), S(1, W(c.st))))
            return z3.Or(em(c.st), z3.And(K >= P - k, z3.Or(B(l, h), ins)))
        def entries(c, d, h):
            S = stack(c.st)
            if S is None: return d <= 0
            x = S
            return z3.And(z3.ForAll([s], z3.Implies(z3.And(s >= 0, s < d), z3.And(C(x(0, s), x(1, s)), L(x(0, s), x(1, s)) <= 46 - s, x(0, s) > end(h), x(0, s) >= LO, end(x(1, s)) <= end(HI))), patterns=[x(0, s), x(1, s)]),
                z3.ForAll([s, t], z3.Implies(z3.And(s >= 0, s < t, t < d), x(0, s) > end(x(1, t))), patterns=[z3.MultiPattern(x(0, s), x(1, t))]))
        O = [x for x in vals if x[0] in phn and x[0] not in corners and any(ok(lambda o, P: z3.And(o >= 0, o <= P), x[1], P) for pn, P in pos)]
        for dn, d in dep:
            out_.append(('%s is a depth' % dn, V(lambda c, d: z3.And(d >= 0, d <= 47), d)))
            for hn, h in Hs:
                if hn == dn: continue
                out_.append(('spans up to %s above %s' % (dn, hn), V(entries, d, h)))
        for (ln, l), (hn, h) in boxes:
            if True:
                out_.append(('[%s,%s] is well formed' % (ln, hn), V(lambda c, l, h: z3.And(C(l, h), l >= LO, end(h) <= end(HI)), l, h)))
                for dn, d in dep:
                    if dn in (ln, hn): continue
                    out_.append(('[%s,%s] level with depth %s' % (ln, hn, dn), V(lambda c, l, h, d: L(l, h) <= 47 - d, l, h, d)))
                    for pn, P in pos:
                        for k in (0, 1): out_.append(('tracked code covered by [%s,%s] %s %s-%d' % (ln, hn, dn, pn, k), V(lambda c, l, h, d, P, k=k: cover(c, l, h, d, P, k), l, h, d, P)))
        for on, o in O:
            for pn, P in pos:
                for k in (0, 1): out_.append(('%s outputs before %s-%d' % (on, pn, k), V(lambda c, o, P, k=k: z3.And(o >= 0, o <= P - k), o, P)))
                X = lambda c: (e.arr(c.st, out), e.arr(c.st, src))
                def outs(c, o, P, k):
                    q, sr = X(c); one = lambda j: z3.Implies(j < o, z3.And(z3.Select(q, j) == D(z3.Select(sr, j)), z3.Select(sr, j) >= 0, z3.Select(sr, j) < P - k, z3.Select(q, j) >= LO, z3.Select(q, j) <= end(HI)))
                    return z3.And(one(J), one(J2), z3.Implies(J2 < o, z3.Select(sr, J) < z3.Select(sr, J2)))
                for k in (0, 1): out_.append(('%s outputs come from the data before %s-%d' % (on, pn, k), V(lambda c, o, P, k=k: outs(c, o, P, k), o, P)))
        return out_
    e.loop_cands = cands
    def meas(c):
        ms = []; ints = [p for p in c.phis if p.ty.k == 'int' and p.w == 64]
        for p in c.phis:
            if isinstance(p.entry, Ptr) and p.entry.r is r: ms.append(('n - ' + p.name, lambda c, p=p: n.lin - c.lin(p)))
        rd = lambda c, x: x[1](c)
        vs = [(p.name, lambda c, p=p: u(c.st, c.vals[p.name])) for p in ints if not isinstance(c.entry[p.name], int)] + [(getattr(Ii, 'name', '?'), lambda c, v=v: u(c.st, v)) for Ii, v in c.frame.env.items() if isinstance(v, IV) and v.w == 64]
        for i, x in enumerate(vs):
            for y in vs:
                if x is not y: ms.append(('levels of [%s,%s]' % (x[0], y[0]), lambda c, x=x, y=y: Lin.atom(L(rd(c, x), rd(c, y)))))
        return ms
    e.measures = meas
    T.post(e, None, 'w_query', [Ptr(out), lo0, hi0, n, Ptr(r)], st, [
        ('every stored code of the box is output', lambda st, v: em(st)),
        ('outputs are stored codes between the corners, in order, each position once', lambda st, v: (lambda q, sr, o: z3.And(o >= 0, o <= N, *[z3.Implies(j < o, z3.And(z3.Select(q, j) == D(z3.Select(sr, j)), z3.Select(sr, j) >= 0, z3.Select(sr, j) < N, z3.Select(q, j) >= LO, z3.Select(q, j) <= end(HI))) for j in (J, J2)], z3.Implies(J2 < o, z3.Select(sr, J) < z3.Select(sr, J2))))(e.arr(st, out), e.arr(st, src), u(st, v)))])
