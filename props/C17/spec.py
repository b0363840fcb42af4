from spec import *
ASSUMPTIONS = ['coordinates of the in_range family within 2^31-1 in absolute value, squared range not negative; for in_range_rr_segment and the ball tests coordinates within 2^30-1, so that differences and squares fit', 'the 128 bit product is the compiler\'s __int128']
def tb(v): return z3.BoolVal(bool(v)) if isinstance(v, (int, bool)) else v
M = (1 << 31) - 1
def start(T): e = T.engine('int', ub_nsw=True); return e, e.new_state()
def pt(e, st, nm, lim, lo=None):
    r = e.region(st, nm, 8, const=True); zs = []
    for i, c in enumerate('xy'):
        v = e.sym(st, nm + c, 32, lo=-lim if lo is None else lo, hi=lim, signed=True); st.mem[r.id].cells[4 * i] = (4, v); zs.append(e.zv(v, 32, st, True))
    return Ptr(r), zs
def ins(a, b):
    """the documented rule: cross product below zero; ties as if a tiny step was added to x, then to y"""
    c = a[0] * b[1] - a[1] * b[0]
    return z3.Or(c < 0, z3.And(c == 0, z3.Or(b[1] - a[1] < 0, z3.And(b[1] == a[1], a[0] - b[0] < 0))))
@task('inside')
def _(T):
    e, st = start(T); pa, a = pt(e, st, 'a', M, -M - 1); pb, b = pt(e, st, 'b', M, -M - 1)
    T.post(e, None, 'w_inside', [pa, pb], st, [('is the sign of the cross product with the documented tie break', lambda st, r: tb(r) == ins(a, b))])
    T.post(e, None, 'w_both', [pa, pb], st, [('exactly one of inside(a, b) and inside(b, a) for distinct vectors, none for equal ones', lambda st, r: tb(r) == z3.Or(a[0] != b[0], a[1] != b[1]))])
@task('ab_less_cd')
def _(T):
    e, st = start(T); vs = [e.sym(st, n, 64, signed=True) for n in 'abcd']; a, b, c, d = [e.zv(v, 64, st, True) for v in vs]
    T.post(e, None, 'w_cmp', vs, st, [('compares the exact products', lambda st, r: tb(r) == (a * b < c * d))])
def rng(T, fn):
    e, st = start(T); lim = (1 << 30) - 1 if fn in ('segment',) else M
    x, y = [e.sym(st, n, 32, lo=-lim, hi=lim, signed=True) for n in ('px', 'py')]; rr = e.sym(st, 'rr', 64, hi=(1 << 63) - 1); args = [x, y, rr]; R = rr.lin.z()
    X, Y = e.zv(x, 32, st, True), e.zv(y, 32, st, True); pp = X * X + Y * Y
    if fn == 'disc': want = lambda: pp < R
    else:
        dx, dy = [e.sym(st, n, 32, lo=-lim, hi=lim, signed=True) for n in ('dx', 'dy')]; args += [dx, dy]; U, V = e.zv(dx, 32, st, True), e.zv(dy, 32, st, True)
        want = shape(fn, X, Y, R, U, V, st)
    T.post(e, None, 'w_' + fn, args, st, [('is the exact distance test', lambda st, r: tb(r) == want())])
def shape(fn, X, Y, R, U, V, st):
    pp, dp, dd = X * X + Y * Y, X * U + Y * V, U * U + V * V
    # dist^2 to the line is pp - dp^2/dd (pp itself when the direction is zero)
    line = z3.If(dd > 0, dd * (pp - R) < dp * dp, pp < R); end = (X - U) * (X - U) + (Y - V) * (Y - V) < R
    st.pc += [dd >= 0, pp >= 0, dp * dp >= 0, z3.Implies(dd == 0, z3.And(U == 0, V == 0))]
    return {'line': lambda: line, 'edge': lambda: z3.And(dp >= 0, dp <= dd, line), 'ray': lambda: z3.If(dp >= 0, line, pp < R), 'segment': lambda: z3.If(dp < 0, pp < R, z3.If(dp > dd, end, line))}[fn]
for f in ('disc', 'line', 'edge', 'ray', 'segment'): task('in_range_' + f)(lambda T, f=f: rng(T, f))
for f in ('edge', 'ray'):
    def ball(T, f=f):
        e, st = start(T); lim = (1 << 30) - 1; pp_, p = pt(e, st, 'p', lim); pa, a = pt(e, st, 'a', lim); pb, b = pt(e, st, 'b', lim); rr = e.sym(st, 'rr', 64, hi=(1 << 63) - 1)
        want = shape(f, p[0] - a[0], p[1] - a[1], rr.lin.z(), b[0] - a[0], b[1] - a[1], st)
        T.post(e, None, 'w_b' + f, [pp_, rr, pa, pb], st, [('is the exact distance test of the %s from a through b' % f, lambda st, r: tb(r) == want())])
    task('ball_hits_' + f)(ball)
@task('muldiv')
def _(T):
    e, st = start(T); pb, b = pt(e, st, 'b', M); n, d = [e.sym(st, k, 32, lo=-M, hi=M, signed=True) for k in 'nd']; N, D = e.zv(n, 32, st, True), e.zv(d, 32, st, True); o = e.region(st, 'o', 8)
    st.pc += [D != 0]
    def ok(st, r):
        g = [e.zv(e.load_cell(st, o, 4 * i, 4), 32, st, True) for i in (0, 1)]; out = []
        for i in (0, 1):
            p = b[i] * N; A = z3.If(p < 0, -p, p); D1 = z3.If(D < 0, -D, D); G = z3.If(g[i] < 0, -g[i], g[i])
            # truncated quotient when it fits 32 bits
            out.append(z3.Implies(A < D1 * (1 << 31), z3.And(G * D1 <= A, A < (G + 1) * D1, z3.Implies(g[i] != 0, (g[i] > 0) == ((p > 0) == (D > 0))))))
        return z3.And(out)
    T.post(e, None, 'w_muldiv', [Ptr(o), pb, n, d], st, [('is the truncated exact quotient when it fits', ok)])
