from spec import *
ASSUMPTIONS = ['multi-byte elements: proved for 8/16/32/64-bit signed and unsigned integers (the element type is a template parameter)', 'text form: the argument is NUL-terminated']
PRIME = {32: 0x01000193, 64: 0x100000001B3}; BASIS = {32: 0x811c9dc5, 64: 0xcbf29ce484222325}

def fnv(T, fn, W, k, default=False, text=False):
    e = T.engine('bv', gf2=True, houd_timeout=2000); st = e.new_state()
    n = e.sym(st, 'n', 64, hi=(1 << 60) // k)
    b = z3.BitVecVal(BASIS[W], W) if default or text else e.sym(st, 'b', W)
    r = e.array(st, 'p', k, e.D.to_off(n, 64, st) + 1 if text else n, const=True); A = e.arr(st, r)
    S = z3.Function('S', z3.BitVecSort(64), z3.BitVecSort(W))
    st.assume(S(z3.BitVecVal(0, 64)) == b)
    if text: st.assume(z3.Select(A, n) == 0)
    def unfold(i):
        v = S(i); x = z3.Select(A, i)
        for j in range(k): v = (v ^ z3.ZeroExt(W - 8, z3.Extract(8 * j + 7, 8 * j, x) if k > 1 else x)) * z3.BitVecVal(PRIME[W], W)
        return S(z3.simplify(i + 1)) == v
    def cands(c0):
        out = []
        for nm, f in bvidx(e, c0):
            for p in c0.ints(W):
                for lab, g in (('', lambda c, f=f: f(c)), ('n-', lambda c, f=f: n - f(c))):
                    out.append(('%s == S(%s%s)' % (p.name, lab, nm), lambda c, p=p, g=g: None if g(c) is None else e.D.z(c.vals[p.name], W) == S(z3.simplify(g(c)))))
            if text: out.append(('%s <= len' % nm, lambda c, f=f: None if f(c) is None else z3.ULE(f(c), n)))
        return out
    e.loop_cands = cands
    def lem(c):
        return [z3.Implies(z3.ULT(t, n), z3.Select(A, z3.simplify(t)) != 0) for nm, f in bvidx(e, c) for t in (f(c),) if t is not None] if text else []
    e.default_lemmas = lem; e.gf_lemmas = lambda c: [unfold(z3.simplify(t)) for nm, f in bvidx(e, c) if f(c) is not None for t in (f(c), n - f(c))]
    if text: e.measures = lambda c: [('len - ' + nm, lambda c, f=f: n - f(c)) for nm, f in bvidx(e, c) if f(c) is not None]
    args = [Ptr(r)] if text else [n, Ptr(r)] + ([] if default else [b])
    T.post(e, None, fn, args, st, [('= FNV-1a fold over the bytes', lambda st, ret: e.D.z(ret, W) == S(n))])

for W in (32, 64):
    for s, k in (('u8', 1), ('c', 1), ('i8', 1), ('u16', 2), ('i16', 2), ('u32', 4), ('i32', 4), ('u64', 8), ('i64', 8)):
        task('%d_%s' % (W, s))(lambda T, W=W, s=s, k=k: fnv(T, 'w_%d_%s' % (W, s), W, k))
    task('%d_default' % W)(lambda T, W=W: fnv(T, 'w_%d_default' % W, W, 1, default=True))
task('text')(lambda T: fnv(T, 'w_text', 32, 1, text=True))
