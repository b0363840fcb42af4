from spec import *
ASSUMPTIONS = ['enumerations: instantiated for the eight of enums.h (scoped, unscoped, nested, in templates and unnamed namespaces; 8 to 64 bit and bool; values at the split points of the search); the texts come from the compiler, which runs the code under test at compile time',
  'characters are compared as the byte arrays of the texts; a text is NUL terminated']
ENUMS = {'plain': (32, True, dict(zero=0, a=1, ab=2, abc=63, abd=64, m127=127, m128=128, b_=200, top=255)), 'scoped': (8, False, dict(x=3, xy=65, last=255)), 'loose': (32, False, dict(first=0, l1=129, l2=130)), 'deep': (64, True, dict(d0=0, d1=192)),
  'made': (32, True, dict(o=5, oo=6)), 'hidden': (32, True, dict(h=2, hh=191)), 'bare': (16, True, dict(b1=1, b2=128)), 'flag': (8, False, dict(off=0, on=1))}
def text(e, st, p):
    out = []; e.quiet += 1
    try:
        while len(out) < 64:
            v = e.load(st, Ptr(p.r, p.off + len(out)), 1, 'int')
            if not isinstance(v, int): v = z3.simplify(e.D.z(v, 8)); v = v.as_long()
            if v == 0: return bytes(out).decode('latin1')
            out.append(v)
    finally: e.quiet -= 1
def is_text(e, st, p, want): return isinstance(p, Ptr) and p.r is not None and text(e, st, p) == want
def same_contract(e, r, at, l):
    """same(K, text) for a known text K (proved for all texts in task 'same')"""
    def h(e, st, a, I):
        k = text(e, st, a[0]) if isinstance(a[0], Ptr) and a[0].r is not None else None
        if k is None or not (isinstance(a[1], Ptr) and a[1].r is r and a[1].off.const and a[1].off.c == 0): e.prove(st, False, 'same is asked about an identifier and the text'); return []
        v = e.sym(st, fresh_name('same'), 32, lo=0, hi=len(k)); z = v.lin.z()
        st.pc += [z <= l] + [z3.Implies(z > i, at(i) == ord(c)) for i, c in enumerate(k)] + [z3.Implies(z == i, at(i) != ord(c)) for i, c in enumerate(k)]
        return [(st, v)]
    e.contracts.append((r'nameof_detail::same\(', h))
def symtext(e, st, name):
    L = e.sym(st, 'Z_' + name, 64, lo=1, hi=(1 << 32) - 1); r = e.array(st, name, 1, L, const=True); A = e.arr(st, r); l = L.lin.z() - 1; q = z3.Int('bq'); at = lambda i: z3.Select(A, i)
    st.pc.append(at(l) == 0); st.assume(z3.ForAll([q], z3.And(at(q) >= 0, at(q) < 256, z3.Implies(z3.And(q >= 0, q < l), at(q) != 0)), patterns=[at(q)]))
    return r, at, l
@task('same')
def _(T):
    e = T.engine('int', byte_signed=False); st = e.new_state(); a, at, la = symtext(e, st, 'a'); b, bt, lb = symtext(e, st, 'b'); J = z3.Int('J')
    e.measures = lambda c: [(nm, lambda c, f=f: Lin.atom(la, 0, 1 << 40) - f(c)) for nm, f in intidx(e, c, (32,))]
    e.loop_cands = lambda c0: [(nm + ' not past the ends', lambda c, f=f: z3.And(f(c).z() <= la, f(c).z() <= lb)) for nm, f in intidx(e, c0, (32,))] + [(nm + ' bytes before are equal', lambda c, f=f: z3.Implies(z3.And(0 <= J, J < f(c).z()), z3.And(at(J) == bt(J), at(J) != 0))) for nm, f in intidx(e, c0, (32,))]
    r = lambda st, v: e.zv(v, 32, st, False)
    T.post(e, None, 'w_same', [Ptr(a), Ptr(b)], st, [('within both texts', lambda st, v: z3.And(r(st, v) >= 0, r(st, v) <= la, r(st, v) <= lb)), ('all before are equal', lambda st, v: z3.Implies(z3.And(0 <= J, J < r(st, v)), z3.And(at(J) == bt(J), at(J) != 0))), ('differ or end there', lambda st, v: z3.Or(at(r(st, v)) != bt(r(st, v)), at(r(st, v)) == 0))])
def skipper(T, fn, last):
    e = T.engine('int', byte_signed=False); st = e.new_state(); r, at, l = symtext(e, st, 'text'); c = e.sym(st, 'what', 8); cz = c.lin.z(); J = z3.Int('J'); st.pc += [cz > 0, cz < 256]
    hit = (lambda i: at(i) == cz) if last else (lambda i: z3.And(at(i) == cz, at(i + 1) != cz)); R = lambda st, v: e.zv(v, 32, st, False)
    e.measures = lambda c: [(nm, lambda c, f=f: Lin.atom(l, 0, 1 << 40) - f(c)) for nm, f in intidx(e, c, (32,))]
    def cands(c0):
        o = [(nm + ' not past the end', lambda c, f=f: f(c).z() <= l) for nm, f in intidx(e, c0, (32,))]
        if not last: return o + [(nm + ' no match before', lambda c, f=f: z3.Implies(z3.And(0 <= J, J < f(c).z()), z3.Not(hit(J)))) for nm, f in intidx(e, c0, (32,))]
        I = intidx(e, c0, (32,))
        return o + [('%s is after the last match before %s' % (a, b), lambda c, f=f, g=g: z3.And(f(c).z() >= 0, f(c).z() <= g(c).z(), z3.Or(f(c).z() == 0, hit(f(c).z() - 1)), z3.Implies(z3.And(f(c).z() <= J, J < g(c).z()), z3.Not(hit(J))))) for a, f in I for b, g in I if a != b]
    e.loop_cands = cands
    no = lambda a, b: z3.Implies(z3.And(a <= J, J < b), z3.Not(hit(J)))
    P = [('0 exactly when there is none', lambda st, v: z3.Implies(R(st, v) == 0, no(0, l))), ('else just after a match in the text', lambda st, v: z3.Implies(R(st, v) != 0, z3.And(R(st, v) >= 1, R(st, v) <= l, hit(R(st, v) - 1))))]
    T.post(e, None, fn, [c, Ptr(r)], st, P + [('the last one', lambda st, v: no(R(st, v), l))] if last else P + [('the first one', lambda st, v: no(0, R(st, v) - 1))])
task('skip_last')(lambda T: skipper(T, 'w_skip_last', True)); task('skip')(lambda T: skipper(T, 'w_skip', False))
for nm, (w, sg, vals) in ENUMS.items():
    @task('nameof_' + nm)
    def _(T, nm=nm, w=w, vals=vals):
        e = T.engine('bv', max_depth=400); st = e.new_state(); n = z3.Bool('n') if nm == 'flag' else e.sym(st, 'n', w); nb = z3.If(n, z3.BitVecVal(1, w), z3.BitVecVal(0, w)) if nm == 'flag' else e.D.z(n, w)
        P = [('the value of %s has this name' % k, lambda st, v, k=k, x=x: z3.Implies(nb == x, z3.BoolVal(bool(is_text(e, st, v, k))))) for k, x in vals.items()]
        T.post(e, None, 'w_name_' + nm, [n], st, P + [('every other value has none', lambda st, v: z3.Implies(z3.And([nb != x for x in vals.values()]), z3.BoolVal(bool(is_text(e, st, v, '???')))))])
    @task('as_enum_' + nm)
    def _(T, nm=nm, w=w, sg=sg, vals=vals):
        e = T.engine('int', max_depth=400); st = e.new_state(); r, at, l = symtext(e, st, 'text')
        same_contract(e, r, at, l)
        u = e.sym(st, 'unknown', w, signed=sg)
        if nm == 'flag': st.pc += [u.lin.z() >= 0, u.lin.z() <= 1]
        eq = lambda k: z3.And([at(i) == ord(c) for i, c in enumerate(k)] + [at(len(k)) == 0, l == len(k)])
        val = lambda st, v: e.zv(v, w, st, sg) if not isinstance(v, bool) else z3.IntVal(int(v))
        us = lambda st: e.zv(u, w, st, sg)
        P = [('%s has its value' % k, lambda st, v, k=k, x=x: z3.Implies(eq(k), val(st, v) == (x - (1 << w) if sg and x >= 1 << (w - 1) else x))) for k, x in vals.items()]
        T.post(e, None, 'w_as_' + nm, [Ptr(r), u], st, P + [('no other text has one', lambda st, v: z3.Implies(z3.Not(z3.Or([eq(k) for k in vals])), val(st, v) == us(st)))])
