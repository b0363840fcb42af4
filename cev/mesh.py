"""the triangulation of cdt.h as memory, shared by C23 and C24"""
from spec import *
N = 8192
NODES = 8 * N
def tb(v): return z3.BoolVal(bool(v)) if isinstance(v, (int, bool)) else v
class Mesh:
    """the mesh memory: size, then 8 nodes of 2 x 16 bits per vertex; node n: (c | p << 3, twin), nodes 3 and 7 of a vertex: (info, x) and (info, y)"""
    def __init__(s, T, **kw):
        e = s.e = T.engine('int', **kw); st = s.st = e.new_state(); s.r = e.region(st, 'm', 8 + 4 * NODES); s.size = e.sym(st, 'size', 64, lo=4, hi=N); st.mem[s.r.id].cells[0] = (8, s.size); s.S = s.size.lin.z()
        s.k = e.add_seg(st, s.r, 8, 4, NODES, [(0, 2), (2, 2)], ['cp', 'tw']); s.M = Ptr(s.r)
    def rd(s, st, n, f):
        s.e.quiet += 1
        try: return s.e.load(st, Ptr(s.r, Lin(8 + 2 * f) + s.lin(n).scale(4)), 2)
        finally: s.e.quiet -= 1
    def lin(s, n): return n if isinstance(n, Lin) else Lin(n) if isinstance(n, int) else n.lin
    def p(s, st, n): return s.e.D.cu(16, s.e.D.binop('lshr', 16, s.rd(st, n, 0), 3, st), st)
    def c(s, st, n): return s.e.D.cu(16, s.e.D.binop('and', 16, s.rd(st, n, 0), 7, st), st)
    def tw(s, st, n): return s.e.D.cu(16, s.rd(st, n, 1), st)
    def xy(s, st, v): return tuple(s.e.D.cs(16, s.rd(st, s.lin(v).scale(8) + k, 1), st) for k in (3, 7))
def sub(a, b): return (a[0] - b[0], a[1] - b[1])
def cross(a, b): return a[0].mul(b[1]) - a[1].mul(b[0])
def norm(a): return a[0].mul(a[0]) + a[1].mul(a[1])
def orient(a, b, c): return cross(sub(b, a), sub(c, a))
def incircle(a, b, c, v):
    a, b, c = sub(a, v), sub(b, v), sub(c, v)
    return norm(a).mul(cross(b, c)) + norm(b).mul(cross(c, a)) + norm(c).mul(cross(a, b))
def do_flip(T, ks, fn='w_do_flip'):
    """the surgery of a flip, exactly; which half edges the new faces share with which neighbours follows (validate_face and its traps: not part of this property)"""
    for k in ks:
        for j in range(3):
            m = Mesh(T); e, st = m.e, m.st; f = e.sym(st, 'f', 64, lo=6, hi=2 * N - 1); g = e.sym(st, 'g', 64, lo=6, hi=2 * N - 1); S = m.S
            F, G = f.lin.scale(4), g.lin.scale(4); a, a1, a2 = [F + (k + i) % 3 for i in range(3)]; b, b1, b2 = [G + (j + i) % 3 for i in range(3)]
            st.pc += [f.lin.z() < 2 * S, g.lin.z() < 2 * S, f.lin.z() != g.lin.z()]
            rd = lambda st, n, w: m.rd(st, n, w)
            tw = lambda st, n: m.tw(st, n)
            c = lambda st, n: m.c(st, n)
            u, v = tw(st, a2), tw(st, b2); st.pc += [tw(st, a).z() == b.z(), tw(st, b).z() == a.z(), c(st, a).z() == 0, c(st, b).z() == 0]
            for x, nm in ((u, 'u'), (v, 'v')):
                h, s = z3.Ints('h_%s s_%s' % (nm, nm)); st.pc += [h >= 0, s >= 0, s < 3, x.z() == 4 * h + s, z3.Or(x.z() == 0, z3.And(h >= 6, h < 2 * S, h != f.lin.z(), h != g.lin.z()))]
            st.pc.append(z3.Or(u.z() != v.z(), u.z() == 0))
            I = e.sym(st, 'I', 64, hi=NODES - 1); P = {n: m.p(st, x).z() for n, x in (('a', a), ('b', b), ('I', I.lin))}; C = {n: c(st, x).z() for n, x in (('a2', a2), ('b2', b2), ('I', I.lin))}; W = tw(st, I.lin).z(); i = I.lin.z()
            np = z3.If(i == a1.z(), P['b'], z3.If(i == b1.z(), P['a'], P['I'])); nc = z3.If(i == a.z(), C['b2'], z3.If(i == b.z(), C['a2'], z3.If(z3.Or(i == a2.z(), i == b2.z()), 0, C['I'])))
            nt = z3.If(i == a.z(), v.z(), z3.If(i == b.z(), u.z(), z3.If(i == a2.z(), b2.z(), z3.If(i == b2.z(), a2.z(), z3.If(z3.And(v.z() != 0, i == v.z()), a.z(), z3.If(z3.And(u.z() != 0, i == u.z()), b.z(), W))))))
            e.contracts.append((r'validate_face', lambda e, st, a, I: [(st, None)]))
            T.post(e, None, 'w_do_flip', [m.M, IV(64, a)], st, [('exactly two vertices change', lambda st, r: m.p(st, I.lin).z() == np), ('the flags follow their edges', lambda st, r: m.c(st, I.lin).z() == nc), ('the twins of both faces and of their neighbours', lambda st, r: tw(st, I.lin).z() == nt), ('the number of vertices stays', lambda st, r: e.zv(e.load(st, m.M, 8), 64, st) == S)])
