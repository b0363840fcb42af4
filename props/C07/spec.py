from spec import *
ASSUMPTIONS = ['decode: the source has at least ceil-many alphabet characters for dst_size (dst_size <= size(n)); n < 2^60', 'size(text): a non-alphabet character (e.g. NUL or =) ends the text']

def isb64(c): return z3.Or(z3.And(c >= 48, c <= 57), z3.And(c >= 65, c <= 90), z3.And(c >= 97, c <= 122), c == 43, c == 47)
def dec(c):
    return z3.If(z3.And(c >= 65, c <= 90), c - 65, z3.If(z3.And(c >= 97, c <= 122), c - 71, z3.If(z3.And(c >= 48, c <= 57), c + 4, z3.If(c == 43, z3.IntVal(62), z3.IntVal(63)))))

@task('size')
def _(T):
    e = T.engine('int'); st = e.new_state(); n = e.sym(st, 'n', 64); N = n.lin.z()
    T.post(e, None, 'w_size', [n], st, [('= floor(6n/8), no overflow', lambda st, v: z3.And(8 * e.zv(v, 64, st) <= 6 * N, 6 * N < 8 * (e.zv(v, 64, st) + 1)))])

@task('alphabet')
def _(T):
    e = T.engine('int'); st = e.new_state(); c = e.sym(st, 'c', 8); C = c.lin.z()
    T.post(e, None, 'w_is64', [c], st, [('accepts exactly the base64 alphabet', lambda st, v: Iff(v, isb64(C)))])

@task('size_text')
def _(T):
    e = T.engine('int'); st = e.new_state(); n = e.sym(st, 'n', 64, hi=1 << 60); N = n.lin.z()
    r = e.array(st, 's', 1, n.lin + 1, const=True); A = e.arr(st, r)
    st.assume(z3.Not(isb64(z3.Select(A, N)))); st.pc += [z3.Select(A, N) >= 0, z3.Select(A, N) <= 255]
    e.loop_cands = lambda c0: [('%s <= len' % nm, lambda c, f=f: None if f(c) is None else lcmp('le', f(c), n.lin, c.st)) for nm, f in intidx(e, c0)]
    e.default_lemmas = lambda c: [z3.Implies(z3.And(f(c).z() >= 0, f(c).z() < N), isb64(z3.Select(A, f(c).z()))) for nm, f in intidx(e, c) if f(c) is not None]
    e.measures = lambda c: [('len - ' + nm, lambda c, f=f: n.lin - f(c)) for nm, f in intidx(e, c)]
    T.post(e, None, 'w_size_text', [Ptr(r)], st, [('= floor(6*(alphabet prefix)/8)', lambda st, v: z3.And(8 * e.zv(v, 64, st) <= 6 * N, 6 * N < 8 * (e.zv(v, 64, st) + 1)))])

def decode(T, R):
    e = T.engine('int', houd_timeout=6000); st = e.new_state()
    n = e.sym(st, 'n', 64, hi=1 << 60); N = n.lin.z()             # characters
    d = e.sym(st, 'd', 64, hi=1 << 60); Dn = d.lin.z(); st.pc += [8 * Dn <= 6 * N]
    src = e.array(st, 'src', 1, n, const=True); dst = e.array(st, 'dst', 1, d); A = e.arr(st, src)
    K = e.sym(st, 'K', 64, hi=1 << 58); J = K.lin.scale(3) + R; st.pc += [J.z() < Dn]     # an arbitrary output byte J = 3K+R
    k = K.lin.z(); j = J.z(); ch = lambda i: z3.Select(A, i)
    c = [dec(ch(4 * k + o)) for o in range(4)]
    want = (c[0] * 4 + c[1] / 16, (c[1] % 16) * 16 + c[2] / 4, (c[2] % 4) * 64 + c[3])[R]
    for o in (R, R + 1): st.pc += [isb64(ch(4 * k + o))]          # the text consists of alphabet characters
    def out(c): return z3.Select(e.arr(c.st, dst), j) == want
    def cands(c0):
        r = []
        for nm, f in intidx(e, c0):
            for lab, g in (('', lambda c, f=f: f(c)), ('d-', lambda c, f=f: None if f(c) is None else d.lin - f(c))):
                r.append(('out[J] final once %s%s > J' % (lab, nm), lambda c, g=g: None if g(c) is None else Implies(lcmp('gt', g(c), J, c.st), out(c))))
                r.append(('out[J] final once %s%s <= J' % (lab, nm), lambda c, g=g: None if g(c) is None else Implies(lcmp('le', g(c), J, c.st), out(c))))
        return r
    e.loop_cands = cands
    T.post(e, None, 'w_decode', [d, Ptr(dst), Ptr(src)], st, [('every output byte is the standard decoding', lambda st, v: z3.Select(e.arr(st, dst), j) == want)])
for R in range(3): task('decode_%d' % R)(lambda T, R=R: decode(T, R))
