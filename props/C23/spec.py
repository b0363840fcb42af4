from spec import *
ASSUMPTIONS = ['the mesh given to a function is valid where its contract needs it: vertices of a face are distinct and below size, twins name each other and the same two ends, half edges lie between 24 and 8 size (C24: what keeps it so is not proved)',
  'point location: points up to 2^30 - 2^16 in magnitude, no bound on the number of steps of the walk (termination is not claimed); result 0 (no face found) is allowed',
  'in-circle test: the value fits in 64 bits, which lemma_range proves for 16 bit coordinates (each step a discharged lemma; that the steps cover all cases is a paper argument)',
  'on / in / collinear: arguments up to 2^30 (2^29 for collinear)', 'instance cdt<0> (Q = 0, N = 8192)', 'do_flip: the outer neighbours of the two faces are not the two faces themselves (true in a valid mesh: the faces would share all three vertices with opposite orientation); validate_face only reads']
NATIVE = ['$REPO/lib/os.cpp', '$REPO/lib/os_posix.cpp', '$REPO/lib/to_text.cpp']
BUDGET = 500
from mesh import *
@task('can_flip', inst='inst.cpp')
def _(T):
    for k in range(3):
        m = Mesh(T); e, st = m.e, m.st; f = e.sym(st, 'f', 64, lo=6, hi=2 * N - 1); n = f.lin.scale(4) + k; st.pc.append(f.lin.z() < 2 * m.S)
        n1 = n + 1 if k < 2 else n - 2; t = m.tw(st, n)
        g, j = z3.Ints('g j'); st.pc += [g >= 0, g < 2 * N, j >= 0, j < 3, t.z() == 4 * g + j]
        v0, v1, q0 = m.p(st, n), m.p(st, n1), m.p(st, t)
        for v in (v0, v1, q0): st.pc.append(v.z() < m.S)
        n2 = n - 1 if k > 0 else n + 2; v2, tn = m.p(st, n2), m.p(st, nxt_of(m, st, t)); st.pc.append(tn.z() < m.S)
        # the mesh invariant: both faces name the same ends of their common edge
        st.pc.append(tn.z() == v2.z()); o, p1, q, p2 = m.xy(st, v0), m.xy(st, v1), m.xy(st, q0), m.xy(st, tn)
        T.post(e, None, 'w_can_flip', [m.M, IV(64, n)], st, [('exactly when the edge is free and both new faces are wound like all faces', lambda st, r: tb(r) == z3.And(m.c(st, n).z() == 0, orient(o, p1, q).z() < 0, orient(o, q, p2).z() < 0))])
def nxt_of(m, st, t):
    r = m.e.D.divmod(t, 4, st)[1]; d = z3.If(r.z() < 2, t.z() + 1, t.z() - 2); return Lin.atom(d, 0, NODES - 1)
@task('incircle', inst='inst.cpp')
def _(T):
    m = Mesh(T); e, st = m.e, m.st; f = e.sym(st, 'f', 64, hi=2 * N - 1); v = e.sym(st, 'v', 64, hi=N - 1); st.pc += [f.lin.z() < 2 * m.S, v.lin.z() < m.S]
    ps = [m.p(st, f.lin.scale(4) + k) for k in range(3)]; st.pc += [p.z() < m.S for p in ps]
    D = incircle(*[m.xy(st, p) for p in ps], m.xy(st, v.lin)); lim = (1 << 63) - 1
    st.assume(z3.And(D.z() <= lim, D.z() >= -lim))
    T.post(e, None, 'w_incircle', [m.M, f, v], st, [('is the exact sign', lambda st, r: tb(r) == (D.z() < 0))])
LIM = 1 << 30         # points up to 2^30 - 2^16 in magnitude
PF, CF, TF, XF, YF = [z3.Function(n, z3.IntSort(), z3.IntSort()) for n in ('vertex', 'flag', 'twin', 'X', 'Y')]
class Geo(Mesh):
    """a mesh that is only read, as functions of the node / vertex: node n holds flag(n) + 8 vertex(n) and twin(n); nodes 8 v + 3, 8 v + 7 hold the coordinates of vertex v; and ground instances of the mesh invariant"""
    def __init__(s, T, **kw):
        Mesh.__init__(s, T, **kw); s.st.mem[s.r.id].arrs[(s.k, 0)] = s.read0; s.st.mem[s.r.id].arrs[(s.k, 1)] = s.read1
    def term(s, st, f, n, lo, hi):
        t = f(n); st.define(('fn', t.get_id()), [t >= lo, t <= hi]); return Lin.atom(t, lo, hi)
    def read0(s, st, idx): n = idx.z(); return IV(16, s.term(st, PF, n, 0, N - 1).scale(8) + s.term(st, CF, n, 0, 7))
    def read1(s, st, idx):
        if idx.c % 8 in (3, 7) and all(k % 8 == 0 for k in idx.m.values()): return IV(16, s.term(st, XF if idx.c % 8 == 3 else YF, (idx - idx.c % 8).exact(8).z(), -(1 << 15), (1 << 15) - 1))
        return IV(16, s.term(st, TF, idx.z(), 0, (1 << 16) - 1))
    def mod4(s, st, n): return s.e.D.divmod(Lin.atom(n) if not isinstance(n, Lin) else n, 4, st)[1].z()
    def nxt(s, st, n): return z3.If(s.mod4(st, n) < 2, n + 1, n - 2)
    def prv(s, st, n): return z3.If(s.mod4(st, n) > 0, n - 1, n + 2)
    def real(s, st, n): return z3.And(n >= 24, n < 8 * s.S, s.mod4(st, n) != 3)
    def link(s, st, j, jn, jp):
        t = TF(j); return z3.And(t >= 0, PF(j) >= 0, PF(j) < s.S, z3.Implies(t != 0, z3.And(s.real(st, t), TF(t) == j, PF(jn) == PF(s.prv(st, t)), PF(jp) == PF(s.nxt(st, t)))))
    def face(s, st, n):
        """the invariant of the face of half edge n"""
        a, b = s.nxt(st, n), s.prv(st, n); apart = lambda u, v: z3.Or(XF(PF(u)) != XF(PF(v)), YF(PF(u)) != YF(PF(v))); return z3.Implies(s.real(st, n), z3.And(apart(n, a), apart(a, b), apart(b, n), s.link(st, n, a, b), s.link(st, a, b, n), s.link(st, b, n, a)))
def walk(T, fn, w, tie):
    m = Geo(T, termination=False, ufmul=True, auto_cands=False); e, st = m.e, m.st; zcross = lambda st, a, b: e.product(st, a[0], b[1]) - e.product(st, a[1], b[0]); ins = lambda st, a, b: z3.Or(zcross(st, a, b) < 0, z3.And(zcross(st, a, b) == 0, z3.Or(b[1] < a[1], z3.And(a[1] == b[1], a[0] < b[0])))) if tie else zcross(st, a, b) <= 0; x, y = [e.sym(st, n, w, lo=-LIM, hi=LIM - (1 << 16), signed=True) for n in 'xy']; h = e.sym(st, 'hint', w); X, Y = [e.zv(v, w, st, True) for v in (x, y)]
    vecs = []; e.on_alloca = lambda st, q: vecs.append(q) if q.size == w // 4 else None
    start = z3.If(z3.Or(h.lin.z() < 24, h.lin.z() >= 8 * m.S), 8 * m.S - 4, h.lin.z()) / 4 * 4; last = 8 * m.S - 4
    st.pc += [m.face(st, start), m.face(st, start + 1), m.face(st, start + 2), m.face(st, last)]
    rel = lambda st, v: (XF(v) - X, YF(v) - Y)
    def vec(c, q):
        b = c.st.mem.get(q.id) and c.st.mem[q.id].cells
        return tuple(e.zv(b[k][1], w, c.st, True) for k in (0, w // 8)) if b and 0 in b and w // 8 in b and not isinstance(b[0][1], Ptr) else None
    def cands(c0):
        out = []; es = intidx(e, c0, (w,)); have = [q for q in vecs if q.id in c0.st.mem]
        def both(u, f): return None if u is None else f(u)
        for nm, f in es:
            out += [('%s is 0 or a half edge' % nm, lambda c, f=f: None if f(c) is None else z3.Or(f(c).z() == 0, m.real(c.st, f(c).z())))]
            for i, q in enumerate(have):
                for lab, g in (('left', m.nxt), ('right', m.prv)):
                    def end(c, f=f, q=q, g=g):
                        u = vec(c, q)
                        if f(c) is None or u is None: return None
                        w = rel(c.st, PF(g(c.st, f(c).z()))); return z3.Implies(f(c).z() != 0, z3.And(u[0] == w[0], u[1] == w[1]))
                    out.append(('vec %d is the %s end of %s' % (i, lab, nm), end))
        for i, q in enumerate(have):
            out.append(('vec %d small' % i, lambda c, q=q: both(vec(c, q), lambda u: z3.And([z3.And(u[k] >= -2 * LIM, u[k] < 2 * LIM) for k in (0, 1)]))))
            for j, p in enumerate(have):
                if i != j: out.append(('inside of vec %d, vec %d' % (i, j), lambda c, q=q, p=p: None if vec(c, q) is None or vec(c, p) is None else ins(c.st, vec(c, q), vec(c, p))))
        return out
    e.loop_cands = cands
    if tie:
        def contract(e, st, a, I):
            u, v = [tuple(e.zv(e.load(st, Ptr(p.r, p.off + k), 4), 32, st, True) for k in (0, 4)) for p in a]
            if not all(e.quick_valid(st, z3.And([z3.And(x >= -2 * LIM, x < 2 * LIM) for x in p])) for p in (u, v)): return None
            return [(st, ins(st, u, v))]
        e.contracts.append((r'math::inside<', contract))
    e.default_lemmas = lambda c: [m.face(c.st, f(c).z()) for nm, f in intidx(e, c, (w,)) if f(c) is not None]
    def inside(st, r):
        n = e.zv(r, w, st); ps = [rel(st, PF(n / 4 * 4 + k)) for k in range(3)]; return z3.Implies(n != 0, z3.And([ins(st, ps[k], ps[(k + 1) % 3]) for k in range(3)]))
    T.post(e, None, fn, [m.M, x, y, h], st, [('is a %s or 0' % ('face' if tie else 'half edge'), lambda st, r: z3.Or(e.zv(r, w, st) == 0, z3.And(e.zv(r, w, st) >= 24, e.zv(r, w, st) < 8 * m.S, (e.zv(r, w, st) % 4 == 3) == tie))), ('the face contains the point', inside)])
task('locate_node', inst='inst.cpp')(lambda T: walk(T, 'w_locate_node', 64, False))
@task('inside', inst='inst.cpp')
def _(T):
    e = T.engine('int', ub_nsw=True); st = e.new_state(); ps, zs = [], []
    for nm in 'ab':
        r = e.region(st, nm, 8, const=True); ps.append(Ptr(r)); z = []
        for i in (0, 1): v = e.sym(st, nm + 'xy'[i], 32, lo=-2 * LIM, hi=2 * LIM - 1, signed=True); st.mem[r.id].cells[4 * i] = (4, v); z.append(e.D.cs(32, v, st))
        zs.append(z)
    a, b = zs; c = cross(a, b).z()
    T.post(e, None, 'w_inside', ps, st, [('is the sign of the cross product with the documented tie break', lambda st, r: tb(r) == z3.Or(c < 0, z3.And(c == 0, z3.Or(b[1].z() < a[1].z(), z3.And(a[1].z() == b[1].z(), a[0].z() < b[0].z())))))])
task('locate', inst='inst.cpp')(lambda T: walk(T, 'w_locate', 32, True))

def lemma(e, name, pre, goal, t=20000):
    """a lemma over the reals"""
    t0 = time.time(); sol = z3.Solver(); sol.set('timeout', 60000); sol.add(pre); sol.add(z3.Not(goal) if not isinstance(goal, bool) else z3.BoolVal(not goal)); r = sol.check()
    e.obl.append(dict(name=e.prefix + name, status='proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown', backend='z3', time=time.time() - t0, trail=None))
def ident(e, name, a, b=Lin(0)): e.obl.append(dict(name=e.prefix + name, status='proved' if not (a - b).m and (a - b).c == 0 else 'refuted', backend='polynomial normal form', time=0, trail=None))
def points(): return [(Lin.atom(z3.Int('x%d' % i)), Lin.atom(z3.Int('y%d' % i))) for i in range(4)]
def weights(P): a, b, c, v = P; return [orient(v, b, c), orient(v, c, a), orient(v, a, b), -orient(a, b, c)]
@task('lemma_legal')
def _(T):
    """a point q beyond the edge a b of the face (o, a, b) and inside its circumcircle: the quadrilateral o a q b is strictly convex"""
    e = T.engine('int'); o, a, b, q = points(); D = incircle(o, a, b, q); L = weights((o, a, b, q))
    for i, c in enumerate((o, a, b, q)): ident(e, 'in-circle value by the weights around point %d' % i, D, sum((l.mul(norm(sub(p, c))) for l, p in zip(L, (o, a, b, q))), Lin(0)))
    ident(e, 'weight of o is minus the face of q', L[0], -orient(q, b, a)); ident(e, 'weight of q is minus the face', L[3], -orient(o, a, b)); ident(e, 'weight of b is the new face o a q', L[2], orient(o, a, q)); ident(e, 'weight of a is the new face o q b', L[1], orient(o, q, b))
    l = z3.Reals('l0 l1 l2 l3'); n = z3.Reals('n0 n1 n2 n3'); x, y = z3.Reals('x y'); lemma(e, 'norms are not negative', [], x * x + y * y >= 0)
    for i, j in ((1, 2), (2, 1)): lemma(e, 'the weight of %s is negative' % 'oabq'[i], [l[0] > 0, l[3] > 0] + [v >= 0 for v in n] + [l[0] * n[0] + l[3] * n[3] + l[i] * n[i] < 0], l[i] < 0)
    for r in (1, 2): ident(e, 'in-circle value does not change with the rotation of the face', D, incircle(*((o, a, b)[r:] + (o, a, b)[:r]), q)); ident(e, 'orientation does not change with the rotation of the face', orient(o, a, b), orient(*((o, a, b)[r:] + (o, a, b)[:r])))
@task('lemma_range')
def _(T):
    """|in-circle value| <= side^4 / 2 in a square, hence below 2^63 for 16 bit coordinates.  Unit: half the side (the square is [-1, 1]^2, the bound 8).
    A configuration above the bound with a positive weight at a point off the corners stays above it when this point moves to one of the corners (the value is convex in either coordinate of this point, and corners stay corners): so every point with a positive weight may be taken to be a corner"""
    e = T.engine('int'); P = points(); D = incircle(*P); L = weights(P); one, zero = Lin(1), Lin(0)
    ident(e, 'weights sum to zero', sum(L, Lin(0))); ident(e, 'value is the weighted sum of the norms', D, sum((l.mul(norm(p)) for l, p in zip(L, P)), Lin(0)))
    for i in range(4):
        for k in (0, 1):
            def at(v): Q = [list(p) for p in P]; Q[i][k] = v; return incircle(*[tuple(q) for q in Q])
            x = P[i][k]; ident(e, 'value is quadratic in coordinate %d of point %d, with the weight of the point as leading coefficient' % (k, i), D.scale(2), at(zero).scale(2) + (at(one) - at(Lin(-1))).mul(x) + L[i].mul(x).mul(x).scale(2))
    w, m, c, x = z3.Reals('w m c x'); f = lambda x: w * x * x + m * x + c
    lemma(e, 'a convex quadratic on [-1, 1] is largest at an end', [w >= 0, x >= -1, x <= 1], z3.Or(f(x) <= f(1), f(x) <= f(-1)))
    for i, j in ((0, 1), (2, 3)):        # the value is alternating: two positive weights can be moved to places 0 and 1 by an even permutation
        Q = list(P); Q[i], Q[j] = Q[j], Q[i]; ident(e, 'value changes its sign when two points are exchanged', D, -incircle(*Q))
    Q = [P[1], P[2], P[0], P[3]]; ident(e, 'value is kept by a rotation of three points', D, incircle(*Q)); Q = [P[0], P[2], P[3], P[1]]; ident(e, 'value is kept by a rotation of three points', D, incircle(*Q))
    X = [z3.Real('X%d' % i) for i in range(4)]; Y = [z3.Real('Y%d' % i) for i in range(4)]; box = [z3.And(v >= -1, v <= 1) for v in X + Y]
    cr = lambda a, b, c: (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]); R = list(zip(X, Y))
    lemma(e, 'a triangle in the square has at most half its area', box, cr(*R[:3]) <= 4); lemma(e, 'norms are at most 2', box, X[0] * X[0] + Y[0] * Y[0] <= 2)
    l = [z3.Real('l%d' % i) for i in range(4)]; n = [z3.Real('n%d' % i) for i in range(4)]; nn = [z3.And(v >= 0, v <= 2) for v in n]; S = z3.Sum(l); V = z3.Sum([a * b for a, b in zip(l, n)])
    lemma(e, 'no positive weight', nn + [S == 0] + [v <= 0 for v in l], V <= 8)
    lemma(e, 'one positive weight', nn + [S == 0, l[0] >= 0, l[0] <= 4] + [v <= 0 for v in l[1:]], V <= 8); lemma(e, 'three positive weights', nn + [S == 0, l[0] <= 0, l[0] >= -4] + [v >= 0 for v in l[1:]], V <= 8)
    C = [(a, b) for a in (-1, 1) for b in (-1, 1)]
    for u in C:
        for v in C:
            if u[0] == v[0] or u[1] == v[1]:
                Q = [tuple(z3.RealVal(t) for t in u), tuple(z3.RealVal(t) for t in v)] + R[2:]; a, b, c, d = Q; LL = [cr(d, b, c), cr(d, c, a), cr(d, a, b), -cr(a, b, c)]; nr = [p[0] * p[0] + p[1] * p[1] for p in Q]
                lemma(e, 'positive weights at two corners of one side', box + [LL[2] <= 0, LL[3] <= 0], z3.Sum([s * t for s, t in zip(LL, nr)]) <= 8)
            else:
                # opposite corners: with h = distance of a point from the diagonal, scaled to [-2, 2]
                K = [(Lin(u[0]), Lin(u[1])), (Lin(v[0]), Lin(v[1]))] + P[2:]; W = weights(K); h = lambda p: p[0].scale(u[1]) - p[1].scale(u[0])
                ident(e, 'value from the other two weights', incircle(*K), sum((W[k].mul(norm(K[k]) - 2) for k in (2, 3)), Lin(0)))
                sg = 1 if (W[2] - h(K[3]).scale(2)).key() == Lin(0).key() else -1
                ident(e, 'weight of a point is the distance of the other', W[2], h(K[3]).scale(2 * sg)); ident(e, 'weight of a point is the distance of the other', W[3], h(K[2]).scale(-2 * sg))
                x, y = z3.Reals('x y'); H = x * u[1] - y * u[0]; lemma(e, 'distance bounds the norm', [x >= -1, x <= 1, y >= -1, y <= 1], z3.And(2 * (x * x + y * y) >= H * H, H <= 2, H >= -2))
    a, b, p, q = z3.Reals('a b p q'); lemma(e, 'positive weights at opposite corners', [a >= 0, a <= 2, b >= 0, b <= 2, 2 * p >= b * b, 2 * q >= a * a], 2 * a * (2 - p) + 2 * b * (2 - q) <= 8)
    ident(e, 'the bound is below 2^63 for side 65535', Lin(int(65535 ** 4 // 2 < 2 ** 63)), Lin(1))
R31 = (1 << 31) - 1
def points64(T, n, lim=1 << 30):
    e = T.engine('int', ub_nsw=True); st = e.new_state(); vs = [e.sym(st, 'abcdef'[i], 64, lo=-lim, hi=lim, signed=True) for i in range(n)]; return e, st, vs, [e.D.cs(64, v, st) for v in vs]
@task('side', inst='inst.cpp')
def _(T):
    """on / in / collinear / next_edge"""
    e, st, vs, z = points64(T, 4); T.post(e, None, 'w_on', vs, st, [('the cross product is zero', lambda st, r: tb(r) == (cross(z[:2], z[2:]).z() == 0))])
    e, st, vs, z = points64(T, 6, 1 << 29); T.post(e, None, 'w_collinear', vs, st, [('the three points lie on a line', lambda st, r: tb(r) == (orient(z[:2], z[2:4], z[4:]).z() == 0))])
    e, st, vs, z = points64(T, 4); ps = []
    for i in (0, 2):
        r = e.region(st, 'v', 16, const=True); st.mem[r.id].cells.update({0: (8, vs[i]), 8: (8, vs[i + 1])}); ps.append(Ptr(r))
    T.post(e, None, 'w_in', ps, st, [('the cross product is not positive', lambda st, r: tb(r) == (cross(z[:2], z[2:]).z() <= 0))])
    e = T.engine('int'); st = e.new_state(); n = e.sym(st, 'n', 64, hi=NODES - 1); st.pc.append(n.lin.z() % 4 != 3)
    T.post(e, None, 'w_next_edge', [n], st, [('the next half edge of the face', lambda st, r: z3.And(e.zv(r, 64, st) / 4 == n.lin.z() / 4, e.zv(r, 64, st) % 4 == (n.lin.z() % 4 + 1) % 3))])
@task('refine', inst='inst.cpp')
def _(T):
    m = Mesh(T); e, st = m.e, m.st; x, y = [e.sym(st, n, 64, lo=-LIM, hi=LIM, signed=True) for n in 'xy']; f = e.sym(st, 'f', 16, hi=2 * N - 1); n = f.lin.scale(4); ps = [m.p(st, n + k) for k in range(3)]; P = tuple(e.D.cs(64, v, st) for v in (x, y))
    a, b, c = [sub(m.xy(st, p), P) for p in ps]; bc, ca, ab = [cross(u, v).z() < 0 for u, v in ((b, c), (c, a), (a, b))]; F = f.lin.z() * 4
    T.post(e, None, 'w_refine', [m.M, x, y, IV(16, n)], st, [('strictly inside: the face; inside two sides: the third side; else 0', lambda st, r: e.zv(r, 16, st) == z3.If(z3.And(bc, ca, ab), F + 3, z3.If(z3.And(bc, ca), F + 2, z3.If(z3.And(bc, ab), F + 1, z3.If(z3.And(ca, ab), F, 0)))))])
for K in range(3): task('do_flip%d' % K, inst='inst.cpp')(lambda T, K=K: do_flip(T, [K]))
def tally(e, st): r = e.region(st, 'tally', 16); st.mem[r.id].cells.update({0: (8, 0), 8: (8, 0)}); return r
@task('guards', inst='inst.cpp')
def _(T):
    """flip: exactly when the edge is free and the opposite vertex inside the circle; try_flip: exactly when can_flip says so; the named half edge, once"""
    for k in range(3):
        for j in range(3):
            for fn in ('w_flip', 'w_try_flip'):
                m = Mesh(T); e, st = m.e, m.st; f = e.sym(st, 'f', 64, lo=6, hi=2 * N - 1); g = e.sym(st, 'g', 64, lo=6, hi=2 * N - 1); S = m.S; a, b = f.lin.scale(4) + k, g.lin.scale(4) + j; q = z3.Bool('q'); lg = tally(e, st)
                st.pc += [f.lin.z() < 2 * S, g.lin.z() < 2 * S, z3.Or(m.c(st, a).z() != 0, z3.And(m.tw(st, a).z() == b.z(), m.tw(st, b).z() == a.z()))]; c0 = m.c(st, a).z(); pb = m.p(st, b).z()
                def do(e, st, A, I):
                    n = st.mem[lg.id].cells[0][1]; n = Lin(n) if isinstance(n, int) else n.lin; e.quiet += 1
                    try: e.store(st, Ptr(lg), IV(64, n + 1), 8); e.store(st, Ptr(lg, Lin(8)), A[1] if A[1].w == 64 else e.cast('zext', A[1], 64), 8)
                    finally: e.quiet -= 1
                    return [(st, None)]
                def ask(e, st, A, I):
                    e.prove(st, e.zv(A[1], 64, st) == (f.lin.z() if fn == 'w_flip' else a.z()), 'asks about this edge')
                    if fn == 'w_flip': e.prove(st, e.zv(A[2], 64, st) == pb, 'asks about the vertex opposite to the edge')
                    return [(st, q)]
                e.contracts += [(r'do_flip', do), (r'::incircle\(|::can_flip\(', ask)]
                good = (lambda st, r: z3.And(c0 == 0, q)) if fn == 'w_flip' else (lambda st, r: q)
                num = lambda st, k: st.mem[lg.id].cells[k][1] if isinstance(st.mem[lg.id].cells[k][1], int) else e.zv(st.mem[lg.id].cells[k][1], 64, st)
                T.post(e, None, fn, [m.M, IV(64, a)], st, [('says so', lambda st, r: tb(r) == good(st, r)), ('flips exactly then, this edge, once', lambda st, r: z3.And(z3.If(good(st, r), 1, 0) == num(st, 0), z3.Implies(good(st, r), num(st, 8) == a.z())))])
