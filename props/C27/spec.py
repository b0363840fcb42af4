from spec import *
ASSUMPTIONS = ['integer component arithmetic is taken modulo 2^w (signed overflow of a component operation is the caller\'s, as in the language); division by a nonzero scalar other than INT_MIN / -1', 'dotx and crossx of 32-bit components: exact when the sum fits 64 bits (dotx of vec2 except all four INT_MIN; of vec3 for components within 2^30)', 'instantiated for int, unsigned, 64-bit and double components, with and without a tag']
LAY = dict(i=(4, True), u=(4, False), l=(8, True), m=(8, False), t=(4, True), f=(8, None))
OPS = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, mul=lambda a, b: a * b)
def tb(v): return z3.BoolVal(bool(v)) if isinstance(v, (int, bool)) else v
def fl(v): return z3.fpBVToFP(v, z3.Float64()) if z3.is_bv(v) else v
def opf(op, sg, isf):
    if isf: rm = z3.RNE(); return dict(add=lambda a, b: z3.fpAdd(rm, fl(a), fl(b)), sub=lambda a, b: z3.fpSub(rm, fl(a), fl(b)), mul=lambda a, b: z3.fpMul(rm, fl(a), fl(b)), div=lambda a, b: z3.fpDiv(rm, fl(a), fl(b)))[op]
    if op == 'div': return (lambda a, b: a / b) if sg else z3.UDiv
    return OPS[op]
def vec(T, S):
    w, sg = LAY[S[0]]; d = int(S[1]); isf = sg is None; bits = 8 * w
    def start():
        e = T.engine('bv'); return e, e.new_state()
    def mk(e, st, nm):
        r = e.region(st, nm, w * d); vs = []
        for i in range(d):
            v = z3.FP('%s%d' % (nm, i), z3.Float64()) if isf else e.sym(st, '%s%d' % (nm, i), bits); st.mem[r.id].cells[w * i] = (w, v); vs.append(v if isf else e.D.z(v, bits))
        return r, vs
    def sc(e, st):
        r = e.region(st, 's', w); v = z3.FP('s', z3.Float64()) if isf else e.sym(st, 's', bits); st.mem[r.id].cells[0] = (w, v); return r, (v if isf else e.D.z(v, bits))
    def get(e, st, r, i):
        v = e.load_cell(st, r, w * i, w, 'double' if isf else 'int') if isf else e.load_cell(st, r, w * i, w); return fl(v) if isf else e.D.z(v, bits)
    eq = (lambda a, b: z3.fpEQ(a, b)) if isf else (lambda a, b: a == b)
    for fn in ('eq', 'ne', 'eqs', 'nes'):
        e, st = start(); a, A = mk(e, st, 'a'); b, Bv = mk(e, st, 'b') if fn[-1] != 's' else sc(e, st); Bs = Bv if fn[-1] != 's' else [Bv] * d
        want = z3.And([eq(x, y) for x, y in zip(A, Bs)]); want = want if fn[0] == 'e' else z3.Not(want)
        T.post(e, None, 'w_%s%s' % (fn, S), [Ptr(a), Ptr(b)], st, [('holds exactly when %s component agrees' % ('every' if fn[0] == 'e' else 'not every'), lambda st, r: tb(r) == want)])
    for op in ('add', 'sub', 'mul', 'div'):
        for to, alias in ((0, 0), (0, 1), (1, 0), (1, 1), (1, 2)):
            scal = op in ('mul', 'div')
            if alias == 2 and not scal: continue
            e, st = start(); a, A = mk(e, st, 'a'); f = opf(op, sg, isf)
            if scal and alias: b, Bs = a, [A[1 if alias == 2 else 0]] * d; pb = Ptr(a, Lin(w if alias == 2 else 0))
            elif scal: b, v = sc(e, st); Bs = [v] * d; pb = Ptr(b)
            else: b, Bs = (a, A) if alias else mk(e, st, 'b'); pb = Ptr(b)
            if op == 'div' and not isf:
                st.pc.append(Bs[0] != 0)
                if sg: st.pc += [z3.Or(x != 1 << (bits - 1), Bs[0] != -1) for x in A]
            want = [f(x, y) for x, y in zip(A, Bs)]; e.prefix += ' alias%d ' % alias if alias else ''
            if to: o, args = a, [Ptr(a), pb]
            else: o = e.region(st, 'o', w * d); args = [Ptr(o), Ptr(a), pb]
            posts = [('every component is the component operation', lambda st, r: z3.And([get(e, st, o, i) == want[i] for i in range(d)]))]
            if to: posts.append(('returns its left operand', lambda st, r: z3.BoolVal(isinstance(r, Ptr) and r.r is a and r.off.const and r.off.c == 0)))
            else: posts.append(('operands unchanged', lambda st, r: z3.And([get(e, st, a, i) == A[i] for i in range(d)])))
            T.post(e, None, 'w_%s%s%s' % (op, 'to' if to else '', S), args, st, posts)
for S in LAY: 
    for d in '23': task('vec_' + S + d)(lambda T, S=S + d: vec(T, S))
def prods(T, S):
    """exact in the widened type; no signed overflow"""
    w = 4 if S == 'i' else 8; lim = 1 << 31
    def run(fn, n, posts, box, extra=None):
        e = T.engine('int', ub_nsw=True); st = e.new_state(); regs = []; vals = []
        for nm in 'ab'[:n[0]]:
            r = e.region(st, nm, w * n[1], const=True); row = []
            for i in range(n[1]):
                v = e.sym(st, '%s%d' % (nm, i), 8 * w, lo=box[0], hi=box[1], signed=True); st.mem[r.id].cells[w * i] = (w, v); row.append(e.zv(v, 8 * w, st, True))
            regs.append(Ptr(r)); vals.append(row)
        if extra is not None: st.pc.append(extra(*vals))
        o = None
        if fn.startswith('w_cross3'): o = e.region(st, 'o', 24); regs = [Ptr(o)] + regs
        ex = posts(*vals)
        T.post(e, None, fn + S, regs, st, [('equals the mathematical value', lambda st, r: z3.And([e.zv(e.load_cell(st, o, 8 * i, 8), 64, st, True) == x for i, x in enumerate(ex)]) if o is not None else e.zv(r, 64, st, True) == ex)])
    full = (-lim, lim - 1) if S == 'i' else (-(1 << 30), 1 << 30)
    notmin = lambda a, b: z3.Or([x != -lim for x in a + b])
    run('w_sqrx', (1, 2), lambda a: a[0] * a[0] + a[1] * a[1], full, lambda a: z3.Or([x != -lim for x in a]))
    run('w_dotx2', (2, 2), lambda a, b: a[0] * b[0] + a[1] * b[1], full, notmin)
    run('w_dotx3', (2, 3), lambda a, b: sum(x * y for x, y in zip(a, b)), (-(1 << 30), 1 << 30))
    run('w_cross', (2, 2), lambda a, b: a[0] * b[1] - a[1] * b[0], full)
    run('w_cross3', (2, 3), lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], full)
for S in 'il': task('products_' + S)(lambda T, S=S: prods(T, S))
@task('scalar_products')
def _(T):
    for fn, w, n in (('w_sqi', 32, 1), ('w_doti', 32, 2), ('w_sql', 64, 1), ('w_dotl', 64, 2)):
        e = T.engine('int', ub_nsw=True); st = e.new_state(); lim = (1 << 31) if w == 32 else 3037000499
        vs = [e.sym(st, nm, w, lo=-lim, hi=lim - 1 if w == 32 else lim, signed=True) for nm in 'ab'[:n]]; z = [e.zv(v, w, st, True) for v in vs]
        T.post(e, None, fn, vs, st, [('equals the product', lambda st, r: e.zv(r, 64, st, True) == z[0] * z[-1])])
def spans(T, S):
    for fn in ('skip', 'trim', 'begin', 'end', 'cbegin', 'cend'):
        e = T.engine('int'); st = e.new_state(); z = e.mod.globals['elt' + S].init.v; size = e.sym(st, 'size', 64, hi=(1 << 62) // z); n = e.sym(st, 'n', 64)
        r = e.region(st, 'items', size.lin.scale(z), step=z); o = e.region(st, 'o', 16); s = e.region(st, 's', 16); st.mem[s.id].cells[0] = (8, size); st.mem[s.id].cells[8] = (8, Ptr(r))
        sz, nz = size.lin.z(), n.lin.z()
        if fn in ('skip', 'trim'):
            k = z3.If(nz < sz, nz, sz)
            def data(st): p = e.load_cell(st, o, 8, 8, 'ptr'); return p if isinstance(p, Ptr) else None
            def num(st): return e.zv(e.load_cell(st, o, 0, 8), 64, st)
            def inside(st, _):
                p = data(st)
                if p is None or p.r is not r: return z3.BoolVal(False)
                return z3.And(p.off.z() >= 0, p.off.z() + num(st) * z <= sz * z, z3.Implies(num(st) > 0, p.off.z() == (nz * z if fn == 'skip' else 0)))
            T.post(e, None, 'w_' + fn + S, [Ptr(o), Ptr(s), n], st, [('drops exactly min(n, size) items', lambda st, _: num(st) == sz - k), ('keeps the right items inside the original span', inside), ('the original is unchanged', lambda st, _: e.zv(e.load_cell(st, s, 0, 8), 64, st) == sz)])
        else:
            T.post(e, None, 'w_' + fn + S, [Ptr(s)], st, [('names the right place', lambda st, p: z3.And(z3.BoolVal(p.r is r), p.off.z() == (sz * z if 'end' in fn else 0)))])
for S in 'bisc': task('span_' + S)(lambda T, S=S: spans(T, S))
