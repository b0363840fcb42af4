from spec import *
N = 4096
BUDGET = 300
ASSUMPTIONS = ['names and names_t: tables of 1 to 3 names (and the table without names), source texts of every length below %d bytes (the size of the table: a text that fits)' % N,
  'the end, start and length of every name are ghost constants given by their definition (first byte above the space, first comma outside brackets and quotes, last byte above the space): they exist for every text']
def source(e, st):
    Z = e.sym(st, 'Z', 64, lo=1, hi=N); src = e.array(st, 'src', 1, Z, const=True); A = e.arr(st, src); L = Z.lin.z() - 1; at = lambda i: z3.Select(A, i); st.pc.append(at(L) == 0); return src, at, L
class Seg:
    """name k: starts at s, ends before e, m bytes are kept; quote, nesting and escape state before byte p are Q, B, X"""
    def __init__(g, st, at, L, k, prev, t, last, simple):
        g.k, g.at, g.L, g.prev, g.t, g.simple = k, at, L, prev, t, simple; g.s, g.e, g.m, g.n = (z3.Int('%s%d' % (x, k)) for x in 'semn'); g.Q, g.B = (z3.Function('%s%d' % (x, k), z3.IntSort(), z3.IntSort()) for x in ('quote', 'nest')); g.X = z3.Function('esc%d' % k, z3.IntSort(), z3.BoolSort())
        st.pc += [prev <= g.s, g.s <= L, z3.Or(at(g.s) > 32, g.s == L), g.s <= g.e, g.e <= L, 0 <= g.m, g.m <= g.e - g.s]
        if not simple: st.pc += [g.Q(g.s) == 0, g.B(g.s) == (1 if last else 0), z3.Not(g.X(g.s)), z3.Or(g.m == 0, at(g.s + g.m - 1) > 32), z3.Or(at(g.e) == 0, g.stop(g.e))]
        else: st.pc += [z3.Or(at(g.e) == 0, at(g.e) == ord(',')), z3.Or(g.s + g.m == g.e, at(g.s + g.m) <= 32)]
        g.next = g.e + z3.If(at(g.e) != 0, 1, 0); g.tnext = g.t + g.m + (1 if simple else z3.If(at(g.e) != 0, 1, 0))
    def stop(g, p): a = g.at; return z3.Or(a(p) == 0, z3.And(g.Q(p) == 0, a(p) == ord(','), z3.Or(g.B(p) == 0, a(p + 1) == 0)))
    def facts(g, p):
        """the definitions of name k for byte p"""
        c = g.at(p); F = [c >= 0, c < 256, z3.Implies(z3.And(0 <= p, p < g.L), c != 0), z3.Implies(z3.And(g.prev <= p, p < g.s), c <= 32)]
        if g.simple: return F + [z3.Implies(z3.And(g.s <= p, p < g.e), c != ord(',')), z3.Implies(z3.And(g.s <= p, p < g.s + g.m), c > 32)]
        isq = z3.Or(c == 34, c == 39); op = z3.Or([c == ord(x) for x in '([{']); cl = z3.Or([c == ord(x) for x in ')]}']); Q, B, X = g.Q, g.B, g.X; q = Q(p)
        return F + [z3.Implies(z3.And(g.s <= p, p < g.e), z3.And(z3.Not(g.stop(p)), Q(p + 1) == z3.If(q == 0, z3.If(isq, c, 0), z3.If(z3.And(z3.Not(X(p)), c != 92, c == q), 0, q)), B(p + 1) == B(p) + z3.If(z3.And(q == 0, op), 1, 0) - z3.If(z3.And(q == 0, cl), 1, 0), X(p + 1) == z3.And(q != 0, z3.Not(X(p)), c == 92), Q(p) >= 0, Q(p) < 256, B(p) >= g.s - p, B(p) <= 1 + p - g.s)),
            z3.Implies(z3.And(g.s + g.m <= p, p < g.e), c <= 32)]
def table(T, fn, count, simple, case=None):
    e = T.engine('int', byte_signed=False, max_concrete=24, auto_cands=False, unroll_all='strict'); st = e.new_state(); D = max(count, 1); src, at, L = source(e, st)
    r = Region('names', N + 8 * D); st.mem[r.id] = RegMem(); e.add_seg(st, r, 0, 1, N, [(0, 1, False)], ['text']); tx = lambda st, i: z3.Select(e.arr(st, r), i)
    segs = []; prev, t = z3.IntVal(0), z3.IntVal(0)
    for k in range(D): g = Seg(st, at, L, k, prev, t, k == count - 1, simple); segs.append(g); prev, t = g.next, g.tnext
    for k, what in enumerate(case or ''):       # the names before: e: the text ends after it, n: a comma ends it inside brackets (the last byte), c: a comma outside of them
        g = segs[k]; st.pc += [at(g.e) == 0, g.e == L] if what == 'e' else [at(g.e) == ord(','), g.B(g.e) != 0, at(g.e + 1) == 0, g.e + 1 == L] if what == 'n' else [at(g.e) == ord(','), g.e < L, g.B(g.e) == 0]
    if simple: st.pc += [at(g.e) == ord(',') for g in segs[:-1]]     # one comma between two names
    W = z3.Int('D'); st.pc += [W >= 0]
    kept = lambda st, g: [('name %d is in the table' % g.k, z3.Implies(W < g.m, tx(st, g.t + W) == at(g.s + W))), ('name %d ends there' % g.k, tx(st, g.t + g.m) == 0)]
    V = lambda c, p: c.lin(p).z() if c.lin(p) is not None else None
    def zz(c, p):
        v = c.vals[p.name]
        return z3.If(v, 1, 0) if isinstance(v, z3.BoolRef) else z3.IntVal(int(v)) if isinstance(v, bool) else e.zv(v, p.w, c.st, False)
    def srcs(c): return [p for p in c.phis if p.ty.k == 'ptr' and isinstance(c.vals[p.name], Ptr) and c.vals[p.name].r is src] + ([p for p in c.phis if p.ty.k == 'int' and p.w == 32] if simple else [])
    def cands(c0):
        o = []; S = srcs(c0); I = [p for p in c0.phis if p.ty.k == 'int' and p.w in (32, 64)]; small = [p for p in c0.phis if p.ty.k == 'int' and p.w in (1, 8)]
        cur = sum(1 for k in range(D) if (lambda v: v and isinstance(v[1], Ptr) and v[1].r is r)(c0.st.mem[r.id].cells.get(N + 8 * k))) - 1     # the name being built
        for g in segs[:cur + 1]:
            k = g.k; o += [('%s' % a, lambda c, g=g, j=j: kept(c.st, g)[j][1]) for j, (a, _) in enumerate(kept(c0.st, g))]
            for p in S if k == cur else []:
                o += [('%s between names %d' % (p.name, k), lambda c, p=p, g=g: z3.And(g.prev <= V(c, p), V(c, p) <= g.s)), ('%s in name %d' % (p.name, k), lambda c, p=p, g=g: z3.And(g.s <= V(c, p), V(c, p) <= g.e))]
                if simple: o += [('%s in the kept part of name %d' % (p.name, k), lambda c, p=p, g=g: z3.And(g.s <= V(c, p), V(c, p) <= g.s + g.m))]
                o += [('%s is the nesting of name %d at %s' % (b.name, k, p.name), lambda c, p=p, b=b, g=g: e.zv(c.vals[b.name], 32, c.st, True) == g.B(V(c, p))) for b in I if b.w == 32 and b is not p and not simple]
                for b in small: o += [('%s is the quote of name %d at %s' % (b.name, k, p.name), lambda c, p=p, b=b, g=g: zz(c, b) == g.Q(V(c, p))), ('%s is the escape of name %d at %s' % (b.name, k, p.name), lambda c, p=p, b=b, g=g: zz(c, b) == z3.If(g.X(V(c, p)), 1, 0))] if not simple else []
                for i in I:
                    if i is p: continue
                    o += [('%s copies name %d at %s' % (i.name, k, p.name), lambda c, p=p, i=i, g=g: V(c, i) - g.t == V(c, p) - g.s), ('the bytes of name %d before %s' % (k, i.name), lambda c, i=i, g=g: z3.Implies(z3.And(W < V(c, i) - g.t), tx(c.st, g.t + W) == at(g.s + W)))]
                    if not simple: o += [('%s is the kept length of name %d at %s' % (i.name, k, p.name), lambda c, p=p, i=i, g=g: z3.And(g.t <= V(c, i), V(c, i) - g.t <= g.m, V(c, i) - g.t <= V(c, p) - g.s, z3.Implies(V(c, p) >= g.s + g.m, V(c, i) - g.t == g.m)))]
        if simple and cur >= 0: o += [('%s after name %d' % (i.name, cur), lambda c, i=i: V(c, i) >= segs[cur].t + segs[cur].m + 1) for i in I]
        o += [('%s is an index' % i.name, lambda c, i=i: z3.And(V(c, i) >= 0, V(c, i) <= N)) for i in I] + [('%s is 0 or 1' % i.name, lambda c, i=i: zz(c, i) <= 1) for i in small] + [('%s only while %s' % (i.name, j.name), lambda c, i=i, j=j: z3.Or(zz(c, i) == 0, zz(c, j) != 0)) for i in small for j in small if i is not j]
        o += [('%s in the table' % p.name, lambda c, p=p: z3.And(V(c, p) >= 0, V(c, p) < N)) for p in c0.phis if p.ty.k == 'ptr' and isinstance(c0.vals[p.name], Ptr) and c0.vals[p.name].r is r]
        return o
    e.loop_cands = cands
    e.default_lemmas = lambda c: [f for p in srcs(c) if V(c, p) is not None for g in segs for f in g.facts(V(c, p))]
    e.measures = lambda c: [(p.name, lambda c, p=p: Lin.atom(L, 0, N) - c.lin(p)) for p in srcs(c)]
    def cell(st, k):
        v = st.mem[r.id].cells.get(N + 8 * k); return v[1].off.z() if v and isinstance(v[1], Ptr) and v[1].r is r else None
    P = []
    for g in segs:
        P += [('entry %d is the start of its name' % g.k, lambda st, v, g=g: False if cell(st, g.k) is None else cell(st, g.k) == g.t), ('entry %d lies in the table' % g.k, lambda st, v, g=g: z3.And(g.t >= 0, g.t + g.m < N))] + [(a, lambda st, v, g=g, j=j: kept(st, g)[j][1]) for j, (a, _) in enumerate(kept(st, g))]
    T.post(e, None, fn, [Ptr(r), Ptr(src)], st, P)
for k in (0, 1, 2): task('names%d' % k)(lambda T, k=k: table(T, 'w_names%d' % k, k, False))
for c in ('e', 'n', 'ce', 'cn', 'cc'): task('names3_' + c)(lambda T, c=c: table(T, 'w_names3', 3, False, c))     # every way the first two names can end
for k in (1, 2, 3): task('fields%d' % k)(lambda T, k=k: table(T, 'w_io%d' % k, k, True))

S = lambda s: s
def ctext(e, st, p):
    out = []; e.quiet += 1
    try:
        while len(out) < 64:
            v = e.load(st, Ptr(p.r, p.off + len(out)), 1, 'int'); v = v if isinstance(v, int) else z3.simplify(e.zv(v, 8, st, False)).as_long()
            if v == 0: return bytes(out).decode('latin1')
            out.append(v)
    finally: e.quiet -= 1
def visits(e, w, base=None):
    """the calls a visitor receives, in order"""
    def add(st, x): st.ghost['visits'] = st.ghost.get('visits', ()) + (x,)
    def off(p): return p.off.c if isinstance(p, Ptr) and p.r is w and p.off.const else None
    num = lambda v: v if isinstance(v, (int, bool)) else repr(v)
    e.externals += [(r'^x_name$', lambda e, st, a, I: (add(st, ('name', ctext(e, st, a[0]))), [(st, None)])[1]), (r'^x_atom$', lambda e, st, a, I: (add(st, ('atom', off(a[0]), num(a[1]))), [(st, None)])[1]),
        (r'^x_enter$', lambda e, st, a, I: (add(st, ('enter', num(a[0]), bool(a[1]))), [(st, a[0])])[1]), (r'^x_leave$', lambda e, st, a, I: (add(st, ('leave', num(a[0]), bool(a[1]))), [(st, None)])[1]),
        (r'^x_class$', lambda e, st, a, I: (add(st, ('class',)), [(st, None)])[1]), (r'^x_unclass$', lambda e, st, a, I: (add(st, ('end',)), [(st, None)])[1])]
def arr(o, n, k): return [('enter', n, False)] + [('atom', o + k * i, k) for i in range(n)] + [('leave', n, False)]
def part(o): return [('class',), ('name', 'u'), ('atom', o, 2), ('name', 'v')] + arr(o + 2, 3, 1) + [('end',)]
WHOLE = [('class',), ('name', 'a'), ('atom', 0, 4), ('name', 'b_long'), ('atom', 8, 8), ('name', 'p'), ('enter', 2, False)] + part(16) + part(22) + [('leave', 2, False), ('name', 'd'), ('class',), ('name', 'x'), ('atom', 28, 4), ('name', 'y'), ('atom', 32, 4), ('end',), ('name', 'e')] + arr(36, 3, 4) + [('name', 'last'), ('atom', 48, 1), ('end',)]
for nm, want in (('whole', WHOLE), ('alias', [('atom', 0, 4)])):
    @task('visit_' + nm)
    def _(T, nm=nm, want=want):
        e = T.engine('bv', unroll_all=True); st = e.new_state(); w = e.region(st, 'object', 56, const=True); visits(e, w)
        T.post(e, None, 'w_' + nm, [Ptr(w)], st, [('every field once, in order', lambda st, v: list(st.ghost.get('visits', ())) == want)])
def listed(T, fn, elem, per):
    """a list of `old` items, for which the visitor announces `size` items on entry (a writer: the same number, a reader: the number it has): the calls of item k are `per` at its place, k = 0 .. size - 1, between enter and leave; ghost cells: items done, calls of the current item"""
    e = T.engine('int', unroll_all='strict'); st = e.new_state(); old = e.sym(st, 'old_size', 64, lo=0, hi=1000); n = e.sym(st, 'size', 64, lo=0, hi=1000); w = e.region(st, 'list', 8 + 1000 * elem + (-1000 * elem) % 8, const=False); st.mem[w.id].cells[0] = (8, old)
    g = e.region(st, 'ghost', 16); st.mem[g.id].cells[0] = (8, 0); st.mem[g.id].cells[8] = (8, 0); st.ghost['ends'] = ()
    done = lambda st: e.zv(st.mem[g.id].cells[0][1], 64, st, False); ph = lambda st: e.zv(st.mem[g.id].cells[8][1], 64, st, False)
    def phase(st):
        for k in range(len(per)):
            x = ph(st) == k
            if x is True or (x is not False and e.valid_quiet(st, x)): return k
    def event(st, x):
        if x[0] in ('enter', 'leave') and x[2]:
            st.ghost['ends'] += (x[0],); e.prove(st, z3.And(ph(st) == 0, e.zv(x[1], 64, st, False) == (old if x[0] == 'enter' else n).lin.z(), done(st) == (0 if x[0] == 'enter' else n.lin.z())), 'the list is entered before the first item and left after the last, with its size'); return n if x[0] == 'enter' else None
        k = phase(st)
        if k is None: e.prove(st, False, 'calls of an item are whole'); return
        want = per[k]; e.prove(st, st.ghost['ends'] == ('enter',) and want[0] == x[0], 'call %d of an item is %s' % (k, want[0]))
        if want[0] == 'atom' and x[0] == 'atom': e.prove(st, x[1] is not None and z3.And(x[1] == 8 + elem * done(st) + want[1], x[2] == want[2]), 'call %d of item k is field %d of item k' % (k, want[1]))
        elif want[0] == x[0]: e.prove(st, want == x, 'call %d of an item is %r' % (k, want))
        e.quiet += 1
        try:
            if k + 1 == len(per): e.store(st, Ptr(g), IV(64, e.D.cu(64, st.mem[g.id].cells[0][1], st) + 1), 8); e.store(st, Ptr(g, Lin(8)), 0, 8)
            else: e.store(st, Ptr(g, Lin(8)), k + 1, 8)
        finally: e.quiet -= 1
    off = lambda p: p.off.z() if isinstance(p, Ptr) and p.r is w else None
    ext = lambda nm, f: (r'^%s$' % nm, lambda e, st, a, I: ((lambda r: [(st, r if r is not None else a[0] if nm == 'x_enter' else None)])(event(st, f(st, a)))))
    e.externals += [ext('x_name', lambda st, a: ('name', ctext(e, st, a[0]))), ext('x_atom', lambda st, a: ('atom', off(a[0]), a[1])), ext('x_enter', lambda st, a: ('enter', a[0], a[1])), ext('x_leave', lambda st, a: ('leave', a[0], a[1])), ext('x_class', lambda st, a: ('class',)), ext('x_unclass', lambda st, a: ('end',))]
    e.loop_cands = lambda c0: [('no call of an item is open', lambda c: ph(c.st) == 0)] + [('items done before ' + nm, lambda c, f=f: done(c.st) == f(c).z()) for nm, f in intidx(e, c0, (64,))] + [(nm + ' not past size', lambda c, f=f: f(c).z() <= n.lin.z()) for nm, f in intidx(e, c0, (64,))]
    e.measures = lambda c: [(nm, lambda c, f=f: None if f(c) is None else n.lin - f(c)) for nm, f in intidx(e, c, (64,))]
    T.post(e, None, fn, [Ptr(w)], st, [('all items visited', lambda st, v: z3.And(done(st) == n.lin.z(), ph(st) == 0)), ('entered and left once', lambda st, v: st.ghost['ends'] == ('enter', 'leave'))])
task('visit_list')(lambda T: listed(T, 'w_list', 4, [('atom', 0, 4)])); task('visit_parts')(lambda T: listed(T, 'w_parts', 6, part(0)))
