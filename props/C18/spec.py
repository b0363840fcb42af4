from spec import *
from dom import Atoms
ASSUMPTIONS = ['coordinates of point and vertices within 2^30-1 in absolute value, so that differences and their products fit 64 bits', 'vertex types instantiated: vec2<int>, vec2<int64_t>, vec3<int> and a record with other members',
               'products of two coordinates enter the proof as unknowns bounded by the bounds of their factors (sound: equal factors give the same unknown)']
LIM = (1 << 30) - 1
I = z3.IntSort()
def poly(T, S, xy=False):
    Lin.absmul = True
    e = T.engine('int', houd_timeout=2000, matching_only=True, ub_nsw=True, name_ite=True); st = e.new_state(); z, ox, oy, w = [v.v for v in e.mod.globals['lay' + S].init.v]
    n = e.sym(st, 'n', 64, hi=(1 << 62) // z); N = n.lin.z(); r = e.region(st, 'vertices', n.lin.scale(z), const=True, step=z); k = e.add_seg(st, r, 0, z, n, [(ox, w, True), (oy, w, True)], ['vx', 'vy']); PX, PY = e.arr(st, r, k, 0), e.arr(st, r, k, 1)
    r.ranges = {(k, 0): (-LIM, LIM), (k, 1): (-LIM, LIM)}
    X, Y = [e.sym(st, c, 64 if xy else 8 * w, lo=-LIM, hi=LIM, signed=True) for c in 'xy']; x, y = [e.D.cs(64 if xy else 8 * w, v, st) for v in (X, Y)]
    sel = lambda A, j: Lin.atom(z3.Select(A, j), -LIM, LIM); SUM = z3.Function('SUM', I, I); prev = lambda j: z3.If(j == 0, N - 1, j - 1)
    st.pc.append(SUM(0) == 0)
    def contrib(j):
        """standard winding rule for the edge from vertex prev(j) to vertex j: upward edges with the point strictly on the left count 1, downward edges with the point strictly on the right -1"""
        ax, ay, bx, by = sel(PX, prev(j)) - x, sel(PY, prev(j)) - y, sel(PX, j) - x, sel(PY, j) - y
        left = (ax.mul(by) - bx.mul(ay)).z(); ay, by = ay.z(), by.z()
        return z3.If(z3.And(ay <= 0, by > 0, left > 0), 1, z3.If(z3.And(ay > 0, by <= 0, left < 0), -1, 0))
    s64 = lambda c, nm: (lambda v: None if not isinstance(v, (int, IV)) or isinstance(v, bool) else e.D.cs(64, v, c.st).z())(c.vals[nm])
    V = lambda F, *fs: (lambda c: None if any(f(c) is None for f in fs) else F(c, *[f(c) for f in fs])); defs = []
    index = lambda c0: [(nm, (lambda c, f=f: None if f(c) is None else f(c).z())) for nm, f in intidx(e, c0, (64,)) if is_index(c0, nm)]
    def is_index(c, nm):
        v = c.entry.get(nm); return not isinstance(v, IV) or v.lin.const
    def cands(c0):
        out = []; del defs[:]
        vals = [(p.name, (lambda c, nm=p.name: s64(c, nm))) for p in c0.phis if p.ty.k == 'int' and p.w == 64]
        for nm, p in index(c0):
            out.append(('%s within the polygon' % nm, V(lambda c, P: z3.And(P >= 0, P <= N), p)))
            for vn, v in vals:
                if vn == nm: continue
                out.append(('%s is the sum of %s edges' % (vn, nm), V(lambda c, P, W: z3.And(W == SUM(P), W >= -P, W <= P), p, v)))
                for q, A, cn in ((x, PX, 'x'), (y, PY, 'y')):
                    for sg, word in ((1, 'from'), (-1, 'to')):
                        val = lambda P, q=q, A=A, sg=sg: (q - sel(A, prev(P))).scale(sg)
                        cn_ = '%s is %s %s the vertex before %s' % (vn, cn, word, nm)
                        out.append((cn_, V(lambda c, P, W, val=val: W == val(P).z(), p, v))); defs.append((cn_, vn, V(lambda c, P, val=val: IV(64, val(P)), p)))
                out.append(('%s is the index before %s' % (vn, nm), V(lambda c, P, W: W == prev(P), p, v)))
        return out
    def lemmas(c):
        out = []
        for nm, f in index(c):
            P = f(c)
            if P is not None: out += [z3.Implies(z3.And(P >= 0, P < N), SUM(P + 1) == SUM(P) + contrib(P))] + [z3.And(z3.Select(A, j) >= -LIM, z3.Select(A, j) <= LIM) for A in (PX, PY) for j in (P, prev(P))]
        return out
    e.loop_cands = cands; e.loop_defs = lambda c0: defs; e.default_lemmas = lemmas; e.measures = lambda c: [('n - ' + nm, lambda c, f=f: None if f(c) is None else n.lin - f(c)) for nm, f in intidx(e, c)]
    if xy: a = [X, Y]
    else: pr = e.region(st, 'p', 2 * w, const=True); st.mem[pr.id].cells[0] = (w, X); st.mem[pr.id].cells[w] = (w, Y); a = [Ptr(pr)]
    T.post(e, None, 'w_xy' if xy else 'w_in' + S, a + [n, Ptr(r)], st, [('is the sum of the edge contributions', lambda st, r: z3.If(N == 0, e.zv(r, 64, st, True) == 0, e.zv(r, 64, st, True) == SUM(N)))])
for S in 'iltr': task('in_polygon_' + S)(lambda T, S=S: poly(T, S))
task('in_polygon_xy')(lambda T: poly(T, 'i', True))
