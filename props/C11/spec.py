from spec import *
ASSUMPTIONS = ['element special members meet their contracts (construct raw storage, assign between live objects, destroy live objects; a moved-from object stays live with any value)', 'instantiated for an object type with every special member, one without copy construction and a trivial type; capacities 1, 16, 37, 1000 and 2^32', 'back() is called on a non-empty bulk, operator[] with an index below the size']
class X: pass
def fall(f, A):
    i = z3.Int('qi'); return z3.ForAll([i], f(i), patterns=[z3.Select(A, i)])
def setup(T, S, names=('b',), raw=()):
    x = X(); e = x.e = T.engine('int', houd_timeout=5000, name_ite=True); st = x.st = e.new_state()
    tot, osz, od, z, N = [v.v for v in e.mod.globals['lay' + S].init.v]; x.N, x.z, x.od, x.osz = N, z, od, osz
    x.triv = S == 'I'; fl = [(0, 4, True)] if x.triv else [(0, 4, True), (4, 4, True)]
    x.b = {}; x.regs = {}
    for nm in names:
        r = e.region(st, nm, tot); k = e.add_seg(st, r, od, z, N, fl, ['%s_v' % nm, '%s_live' % nm][:len(fl)]); q = X(); q.r, q.k = r, k; q.size0 = e.sym(st, nm + '_size', 64, hi=N); q.s = q.size0.lin.z() if nm not in raw else z3.IntVal(0)
        if nm not in raw: st.mem[r.id].cells[osz] = (8, q.size0)
        q.V0 = e.arr(st, r, k, 0); q.L0 = None if x.triv else e.arr(st, r, k, 1)
        q.size = lambda st, r=r: e.zv(e.load_cell(st, r, osz, 8), 64, st); q.V = lambda st, r=r, k=k: e.arr(st, r, k, 0); q.L = lambda st, r=r, k=k: e.arr(st, r, k, 1)
        if not x.triv: st.assume(fall(lambda i, q=q: z3.Implies(z3.And(i >= 0, i < N), z3.Select(q.L0, i) == z3.If(i < q.s, 1, 0)), q.L0))
        st.assume(fall(lambda i, q=q: z3.And(z3.Select(q.V0, i) >= -(1 << 31), z3.Select(q.V0, i) < 1 << 31), q.V0))
        x.b[nm] = q; x.regs[r.id] = q
    x.J = e.sym(st, 'J', 64, hi=N - 1).lin.z()
    fld = lambda p, o: Ptr(p.r, p.off + o)
    live = lambda st, p: e.zv(e.load(st, fld(p, 4), 4), 32, st, True)
    def mark(st, p, val): e.store(st, fld(p, 4), val, 4)
    ours = lambda p: isinstance(p, Ptr) and p.r is not None and p.r.id in x.regs
    DEF = x.DEF = z3.Int('default_value'); st.pc += [DEF >= 0, DEF < 100]
    def ctor(val):
        def h(e, st, a, I):
            p = a[0]
            if ours(p): e.prove(st, live(st, p) == 0, 'constructs raw storage')
            e.store(st, p, val(st, a), 4); mark(st, p, 1); return [(st, None)]
        return h
    def assign(mv):
        def h(e, st, a, I):
            p, q = a
            for w, nm in ((p, 'assigns to a live object'), (q, 'assigns from a live object')):
                if ours(w): e.prove(st, live(st, w) == 1, nm)
            v = e.load(st, q, 4); e.store(st, p, v, 4)
            if mv and ours(q):
                e.store(st, q, e.fresh(st, 32, 'moved_from', True), 4)
                if ours(p): e.prove(st, p.off.z() != q.off.z() if p.r is q.r else z3.BoolVal(True), 'no self-move')
            return [(st, p)]
        return h
    def dtor(e, st, a, I):
        if ours(a[0]): e.prove(st, live(st, a[0]) == 1, 'destroys a live object')
        mark(st, a[0], 0); return [(st, None)]
    for c in ('obj', 'asg'):
        for pat, h in ((r'%s\(\)' % c, ctor(lambda st, a: IV(32, Lin.atom(DEF, 0, 99)))), (r'%s\(int\)' % c, ctor(lambda st, a: a[1])), (r'%s\(%s const&\)' % (c, c), ctor(lambda st, a: e.load(st, a[1], 4))), (r'%s\(%s&&\)' % (c, c), ctor(lambda st, a: e.load(st, a[1], 4))),
                       (r'operator=\(%s const&\)' % c, assign(False)), (r'operator=\(%s&&\)' % c, assign(True)), (r'~%s\(\)' % c, dtor)):
            e.contracts.append((r'^%s::%s' % (c, pat), h))
    # loop candidates
    def cands(c0):
        out = []; ix = [('%s%+d' % (nm, d) if d else nm, (lambda c, f=f, d=d: None if f(c) is None else f(c).z() + d)) for nm, f in intidx(e, c0, (64,)) for d in (0, 1)]
        ix += [('size of ' + nm, lambda c, q=q: q.s) for nm, q in x.b.items()]
        if getattr(x, 'at', None) is not None: ix.append(('i', lambda c: x.at))
        for nm, q in x.b.items():
            for pn, p in ix:
                w = lambda F, p=p: (lambda c: None if p(c) is None else F(c, p(c)))
                if not x.triv:
                    out.append(('%s live below %s only' % (nm, pn), w(lambda c, P, q=q: fall(lambda i: z3.Implies(z3.And(i >= 0, i < N), z3.Select(q.L(c.st), i) == z3.If(i < P, 1, 0)), q.L(c.st)))))
                V, V0 = (lambda c, q=q: q.V(c.st)), q.V0
                out.append(('%s unchanged from %s on' % (nm, pn), w(lambda c, P, V=V, V0=V0: fall(lambda i: z3.Implies(i >= P, z3.Select(V(c), i) == z3.Select(V0, i)), V(c)))))
                out.append(('%s unchanged below %s' % (nm, pn), w(lambda c, P, V=V, V0=V0: fall(lambda i: z3.Implies(i < P, z3.Select(V(c), i) == z3.Select(V0, i)), V(c)))))
                if getattr(x, 'at', None) is not None: out.append(('%s shifted below %s' % (nm, pn), w(lambda c, P, V=V, V0=V0: fall(lambda i: z3.Implies(z3.And(i >= x.at, i < P), z3.Select(V(c), i) == z3.Select(V0, i + 1)), V(c)))))
                if getattr(x, 'fill', False): out.append(('%s default from its size to %s' % (nm, pn), w(lambda c, P, V=V, q=q: fall(lambda i: z3.Implies(z3.And(i >= q.s, i < P), z3.Select(V(c), i) == DEF), V(c)))))
                if nm == 'b' and 'o' in x.b: out.append(('b copied below %s' % pn, w(lambda c, P, V=V: fall(lambda i: z3.Implies(z3.And(i >= 0, i < P), z3.Select(V(c), i) == z3.Select(x.b['o'].V0, i)), V(c)))))
        for pn, p in ix:
            for qn, p2 in ix:
                if pn != qn: out.append(('%s <= %s' % (pn, qn), lambda c, p=p, p2=p2: None if p(c) is None or p2(c) is None else p(c) <= p2(c)))
        return out
    e.loop_cands = cands
    e.measures = lambda c: [('N - ' + nm, lambda c, f=f: None if f(c) is None else Lin(N) - f(c)) for nm, f in intidx(e, c)]
    return x
at = lambda A, i: z3.Select(A, i)
def tb(v): return z3.BoolVal(bool(v)) if isinstance(v, (int, bool)) else v
def inv(x, st, q): return z3.And(q.size(st) >= 0, q.size(st) <= x.N, z3.BoolVal(True) if x.triv else at(q.L(st), x.J) == z3.If(x.J < q.size(st), 1, 0))
LIVE = 'size within capacity; live objects are exactly the slots below the size'
def life(T, S):
    x = setup(T, S, raw=('b',)); q = x.b['b']; x.e.prefix += 'ctor: '
    T.post(x.e, None, 'w_ctor' + S, [Ptr(q.r)], x.st, [('starts empty', lambda st, r: q.size(st) == 0), (LIVE, lambda st, r: inv(x, st, q))])
    x = setup(T, S); q = x.b['b']; x.e.prefix += 'dtor: '
    T.post(x.e, None, 'w_dtor' + S, [Ptr(q.r)], x.st, [('every object is destroyed', lambda st, r: z3.BoolVal(True) if x.triv else at(q.L(st), x.J) == 0)])
    x = setup(T, S); q = x.b['b']; x.e.prefix += 'clear: '
    T.post(x.e, None, 'w_clear' + S, [Ptr(q.r)], x.st, [('empty', lambda st, r: q.size(st) == 0), (LIVE, lambda st, r: inv(x, st, q))])
def copies(T, S):
    if S != 'D' or True:
        x = setup(T, S, ('b', 'o'), raw=('b',)); q, o = x.b['b'], x.b['o']; x.e.prefix += 'copy: '
        same = lambda st: z3.And(o.size(st) == o.s, at(o.V(st), x.J) == at(o.V0, x.J), inv(x, st, o))
        eq = lambda st, r: z3.And(q.size(st) == o.s, z3.Implies(x.J < o.s, at(q.V(st), x.J) == at(o.V0, x.J)))
        T.post(x.e, None, 'w_copy' + S, [Ptr(q.r), Ptr(o.r)], x.st, [('equals the source', eq), (LIVE, lambda st, r: inv(x, st, q)), ('the source is unchanged', lambda st, r: same(st))])
    x2 = x = setup(T, S, ('b', 'o')); q2, o2 = x.b['b'], x.b['o']; x.e.prefix += 'assign: '
    T.post(x.e, None, 'w_assign' + S, [Ptr(q2.r), Ptr(o2.r)], x.st, [('equals the source', lambda st, r: z3.And(q2.size(st) == o2.s, z3.Implies(x2.J < o2.s, at(q2.V(st), x2.J) == at(o2.V0, x2.J)))), (LIVE, lambda st, r: inv(x2, st, q2)),
        ('the source is unchanged', lambda st, r: z3.And(o2.size(st) == o2.s, at(o2.V(st), x2.J) == at(o2.V0, x2.J), inv(x2, st, o2))), ('returns itself', lambda st, r: z3.BoolVal(isinstance(r, Ptr) and r.r is q2.r and r.off.const and r.off.c == 0))])
    x3 = setup(T, S); q3 = x3.b['b']; x3.e.prefix += 'self-assign: '
    T.post(x3.e, None, 'w_assign' + S, [Ptr(q3.r), Ptr(q3.r)], x3.st, [('unchanged', lambda st, r: z3.And(q3.size(st) == q3.s, z3.Implies(x3.J < q3.s, at(q3.V(st), x3.J) == at(q3.V0, x3.J)))), (LIVE, lambda st, r: inv(x3, st, q3))])
def sizes(T, S):
    for op in ('resize', 'appendn'):
        x = setup(T, S); x.fill = True; q = x.b['b']; e = x.e; e.prefix += op + ': '; n = e.sym(x.st, 'n', 64); nz = n.lin.z(); N = x.N; s = q.s; J = x.J
        ok = nz <= N if op == 'resize' else nz <= N - s; new = nz if op == 'resize' else s + nz
        T.post(e, None, 'w_%s%s' % (op, S), [Ptr(q.r), n], x.st, [
            ('succeeds exactly when it fits', lambda st, r: tb(r) == ok), ('size', lambda st, r: q.size(st) == z3.If(ok, new, s)), (LIVE, lambda st, r: inv(x, st, q)),
            ('kept elements are unchanged', lambda st, r: z3.Implies(z3.And(J < s, J < q.size(st)), at(q.V(st), J) == at(q.V0, J)))] + ([] if x.triv else [('new elements are default constructed', lambda st, r: z3.Implies(z3.And(J >= s, J < q.size(st)), at(q.V(st), J) == x.DEF))]))
def append(T, S):
    for op in ('append', 'appendc') + (('append_self',) if S != 'D' else ()):
        x = setup(T, S); q = x.b['b']; e = x.e; e.prefix += op + ': '; st = x.st; s = q.s; J = x.J
        v = e.sym(st, 'val', 32, signed=True); V = e.zv(v, 32, st, True); arg = v
        if op == 'appendc':
            r = e.region(st, 'value', x.z); st.mem[r.id].cells[0] = (4, v); arg = Ptr(r)
            if not x.triv: st.mem[r.id].cells[4] = (4, 1)
        if op == 'append_self':
            i = e.sym(st, 'i', 64, hi=x.N - 1); st.pc.append(i.lin.z() < s); V = at(q.V0, i.lin.z()); arg = Ptr(q.r, i.lin.scale(x.z) + x.od)
        T.post(e, None, 'w_%s%s' % ('appendc' if op != 'append' else op, S), [Ptr(q.r), arg], st, [
            ('succeeds exactly while there is room', lambda st, r: tb(r) == (s < x.N)), ('size', lambda st, r: q.size(st) == z3.If(s < x.N, s + 1, s)), (LIVE, lambda st, r: inv(x, st, q)),
            ('the value is last, the others are unchanged', lambda st, r: z3.And(z3.Implies(J < s, at(q.V(st), J) == at(q.V0, J)), z3.Implies(s < x.N, at(q.V(st), s) == V)))])
def remove(T, S):
    for op in ('remove', 'removeo'):
        x = setup(T, S); q = x.b['b']; e = x.e; e.prefix += op + ': '; st = x.st; s = q.s; J = x.J
        i = e.sym(st, 'i', 64); I = i.lin.z(); x.at = I if op == 'removeo' else None; ok = I < s
        val = (lambda st: at(q.V(st), J) == z3.If(J < I, at(q.V0, J), at(q.V0, J + 1))) if op == 'removeo' else (lambda st: at(q.V(st), J) == z3.If(J == I, at(q.V0, s - 1), at(q.V0, J)))
        T.post(e, None, 'w_%s%s' % (op, S), [Ptr(q.r), i], st, [
            ('fails exactly for an index past the end', lambda st, r: tb(r) == ok), ('size', lambda st, r: q.size(st) == z3.If(ok, s - 1, s)), (LIVE, lambda st, r: inv(x, st, q)),
            ('the gap is closed by %s' % ('shifting, order kept' if op == 'removeo' else 'the last element'), lambda st, r: z3.Implies(z3.And(ok, J < s - 1), val(st))),
            ('a failed removal changes nothing', lambda st, r: z3.Implies(z3.And(z3.Not(ok), J < s), at(q.V(st), J) == at(q.V0, J)))])
def look(T, S):
    for op in ('room', 'cap', 'begin', 'end', 'back', 'at', 'cbegin', 'cend', 'cback', 'cat', 'spand', 'spans'):
        x = setup(T, S); q = x.b['b']; e = x.e; e.prefix += op + ': '; st = x.st; s = q.s; J = x.J; i = e.sym(st, 'i', 64); I = i.lin.z()
        if 'at' in op: st.pc.append(I < s)
        if 'back' in op: st.pc.append(s >= 1)
        addr = {'begin': 0, 'end': s, 'back': s - 1, 'at': I, 'spand': 0}.get(op[1:] if op[0] == 'c' and op != 'cap' else op)
        val = {'room': x.N - s, 'cap': x.N, 'spans': s}.get(op)
        want = (lambda st, r: e.zv(r, 64, st) == val) if val is not None else (lambda st, r: z3.And(z3.BoolVal(r.r is q.r), r.off.z() == x.od + addr * x.z))
        T.post(e, None, 'w_%s%s' % (op, S), ([] if op == 'cap' else [Ptr(q.r)]) + ([i] if 'at' in op else []), st, [
            ('names the right place' if val is None else 'value', want), ('changes nothing', lambda st, r: z3.And(q.size(st) == s, at(q.V(st), J) == at(q.V0, J), inv(x, st, q)))])
for S in 'ABCID':
    for f in (life, copies, sizes, append, remove, look):
        if f is append and S == 'D': continue
        task('%s_%s' % (f.__name__, S))(lambda T, f=f, S=S: f(T, S))
