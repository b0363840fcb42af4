from spec import *
ASSUMPTIONS = ['the range is sorted by the element order (precondition)', 'instantiated for int, unsigned long, unsigned char and a record compared by key; ranges up to 2^58 elements']
CFG = dict(I=([(0, 4, True)], 4), U=([(0, 8, False)], 8), B=([(0, 1, False)], 1), R=([(0, 4, True), (4, 4, False)], 8), Z=([(0, 8, False)], 8))
def bound(T, S, fn):
    fl, z = CFG[S]; e = T.engine('int'); st = e.new_state(); n = e.sym(st, 'n', 64, hi=1 << 58)
    r = Region('arr', n.lin.scale(z), const=True, step=z); st.mem[r.id] = RegMem(); e.add_seg(st, r, 0, z, n.lin, fl, ['arr_%d' % i for i in range(len(fl))])
    rk = e.region(st, 'key', z, const=True)
    ks = [e.sym(st, 'k%d' % i, 8 * w, signed=sg) for i, (o, w, sg) in enumerate(fl)]
    for (o, w, sg), k in zip(fl, ks): st.mem[rk.id].cells[o] = (w, k)
    K = ks[0].lin.z(); A = e.arr(st, r, 0, 0); N = n.lin.z(); I = z3.Int('I'); st.pc += [I >= 0, I < N]
    at = lambda i: z3.Select(A, i)
    i, j = z3.Ints('si sj'); st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < N), at(i) <= at(j)), patterns=[z3.MultiPattern(at(i), at(j))]))
    below = (at(I) < K) if fn == 'w_lower' else (at(I) <= K)
    def cands(c0):
        out = []; ix = intidx(e, c0)
        for nm, f in ix:
            for lab, g in [('', lambda c, f=f: f(c))] + [('+' + n2, lambda c, f=f, f2=f2: None if f(c) is None or f2(c) is None else f(c) + f2(c)) for n2, f2 in ix if n2 > nm]:
                out.append(('left of %s%s is below' % (nm, lab), lambda c, g=g: None if g(c) is None else z3.Implies(I < g(c).z(), below)))
                out.append(('from %s%s on is not below' % (nm, lab), lambda c, g=g: None if g(c) is None else z3.Implies(I >= g(c).z(), z3.Not(below))))
                out.append(('%s%s in [0,n]' % (nm, lab), lambda c, g=g: None if g(c) is None else z3.And(g(c).z() >= 0, g(c).z() <= N)))
        return out
    e.loop_cands = cands
    P = lambda v: v.off.exact(z).z()
    T.post(e, None, fn + S, [Ptr(r), Ptr(r, n.lin.scale(z)), Ptr(rk)], st, [
        ('result lies in the range or at its end', lambda st, v: z3.And(P(v) >= 0, P(v) <= N)),
        ('everything before the result is %s the key' % ('less than' if fn == 'w_lower' else 'not greater than'), lambda st, v: z3.Implies(I < P(v), below)),
        ('nothing from the result on is', lambda st, v: z3.Implies(I >= P(v), z3.Not(below)))])
for S in CFG:
    for fn in ('w_lower', 'w_upper'):
        if S != 'Z' or fn == 'w_lower': task(fn[2:] + '_' + S)(lambda T, S=S, fn=fn: bound(T, S, fn))
