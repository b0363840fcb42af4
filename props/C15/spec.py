from spec import *
ASSUMPTIONS = ['clients free only indices they own and use queues only with their pool (the documented usage)', 'instantiated for N=100/u16/64-bit items, N=256/u8/32-bit items, N=2/u32; items are scalars; an item passed in does not alias pool storage']
CFG = dict(A=(100, 8, 2), B=(256, 4, 1), C=(2, 4, 4))
FREE, USER, Q1, Q2 = 1, 2, 3, 4

class Ghost:
    """ownership of every node and its position in its owner's chain (ghost state; updated by each contract)"""
    def __init__(s, own, pos, fc, hd, tl): s.own, s.pos, s.fc, s.hd, s.tl = own, pos, fc, dict(hd), dict(tl)
    def copy(s): return Ghost(s.own, s.pos, s.fc, s.hd, s.tl)
    def O(s, i): return z3.Select(s.own, i)
    def P(s, i): return z3.Select(s.pos, i)

def inv_node(N, nx, size, tails, G, i):
    """what the representation invariant says about node i"""
    o, p = G.O(i), G.P(i); n = nx(i)
    out = [(o == 0) == z3.Or(i <= 0, i > size), o >= 0, o <= 4]
    out.append(z3.Implies(o == FREE, z3.And(p >= 0, p < G.fc, n >= 0, n <= size, z3.If(p == 0, n == 0, z3.And(G.O(n) == FREE, G.P(n) == p - 1)))))
    for q in (Q1, Q2):
        out.append(z3.Implies(o == q, z3.And(p >= G.hd[q], p < G.tl[q], n >= 1, n <= size, G.O(n) == q, G.P(n) == z3.If(p == G.tl[q] - 1, G.hd[q], p + 1))))
    return z3.And(out)
def inv_pair(G, i, j): return z3.Implies(z3.And(i != j, G.O(i) == G.O(j), z3.Or(G.O(i) == FREE, G.O(i) == Q1, G.O(i) == Q2)), G.P(i) != G.P(j))
def inv_glob(N, nx, size, tails, G):
    f = nx(z3.IntVal(0))
    out = [size >= 0, size <= N - 1, G.fc >= 0, z3.If(G.fc == 0, f == 0, z3.And(f >= 1, f <= size, G.O(f) == FREE, G.P(f) == G.fc - 1))]
    for q in (Q1, Q2):
        t = tails[q]; out += [G.tl[q] >= G.hd[q], z3.If(G.tl[q] == G.hd[q], t == 0, z3.And(t >= 1, t <= size, G.O(t) == q, G.P(t) == G.tl[q] - 1))]
    return z3.And(out)

def setup(T, S):
    N, z, iz = CFG[S]
    e = T.engine('int'); st = e.new_state()
    tot, on, osz, od, qz, NN = [x.v for x in e.mod.globals['lay' + S].init.v]
    r = e.region(st, 'p', tot)
    kn = e.add_seg(st, r, on, iz, N, [(0, iz)], ['next']); kd = e.add_seg(st, r, od, z, N, [(0, z)], ['data'])
    size = e.sym(st, 'size', 64, hi=N - 1); st.mem[r.id].cells[osz] = (8, size)
    rq = e.region(st, 'q', qz); t1 = e.sym(st, 'tail', 8 * iz); st.mem[rq.id].cells[0] = (iz, t1); t2 = z3.Int('tail2')
    rv = e.region(st, 'item', z, const=True); v = e.sym(st, 'v', 8 * z); st.mem[rv.id].cells[0] = (z, v)
    X = type('X', (), {})(); X.__dict__.update(e=e, st=st, r=r, rq=rq, rv=rv, N=N, z=z, iz=iz, t1=t1, t2=t2, V=v.lin.z(), qz=qz)
    X.nx = lambda st: (lambda i: z3.Select(e.arr(st, r, kn), i)); X.data = lambda st: (lambda i: z3.Select(e.arr(st, r, kd), i))
    X.size = lambda st: e.zv(e.load_cell(st, r, osz, 8), 64, st)
    X.tails = lambda st: {Q1: e.zv(e.load_cell(st, rq, 0, iz), 8 * iz, st), Q2: t2}
    A = z3.ArraySort(z3.IntSort(), z3.IntSort()); I = z3.IntSort()
    G = X.G = Ghost(z3.Const('own', A), z3.Const('pos', A), z3.Int('nfree'), {Q1: z3.Int('hd1'), Q2: z3.Int('hd2')}, {Q1: z3.Int('tl1'), Q2: z3.Int('tl2')})
    X.I, X.J = z3.Ints('I J'); nx0 = X.nx0 = X.nx(st); s0 = X.s0 = X.size(st); X.data0 = X.data(st)
    st.pc += [X.I >= 0, X.I < N, X.J >= 0, X.J < N]
    zero = z3.IntVal(0); f = nx0(zero); t = t1.lin.z(); h = nx0(t)
    terms = [zero, X.I, X.J, f, nx0(f), t, h, nx0(h), t2, nx0(t2), nx0(X.I), nx0(X.J), s0, s0 + 1]
    X.f, X.h, X.t = f, h, t; X.terms = terms
    for x in terms: st.pc += [nx0(x) >= 0, nx0(x) < (1 << 8 * iz), inv_node(N, nx0, s0, None, G, x)]
    for a in range(len(terms)):
        for b in range(a): st.pc.append(inv_pair(G, terms[a], terms[b]))
    st.pc.append(inv_glob(N, nx0, s0, X.tails(st), G))
    def inv(lab, upd):
        """the invariant holds afterwards for the updated ghost state"""
        def g(st, ret):
            G2 = upd(st, ret)
            a = (N, X.nx(st), X.size(st), X.tails(st), G2)
            return z3.And(inv_glob(*a), inv_node(*a, X.I), inv_pair(G2, X.I, X.J))
        return (lab, g)
    X.inv = inv
    X.same_data = ('items of every node are unchanged', lambda st, ret: X.data(st)(X.I) == X.data0(X.I))
    X.qsame = ('the queue is unchanged', lambda st, ret: X.tails(st)[Q1] == t)
    def alloc_ghost(G2, st, owner, pos):
        n = z3.If(G.fc > 0, f, s0 + 1); ok = z3.Or(G.fc > 0, s0 < N - 1)
        G2.own = z3.If(ok, z3.Store(G2.own, n, owner), G2.own); G2.pos = z3.If(ok, z3.Store(G2.pos, n, pos), G2.pos); G2.fc = z3.If(G.fc > 0, G.fc - 1, G.fc)
        return n, ok
    X.alloc_ghost = alloc_ghost
    return X

def alloc(T, S):
    X = setup(T, S); e, G = X.e, X.G; R = lambda st, v: e.zv(v, 8 * X.iz, st)
    def upd(st, ret):
        G2 = G.copy(); X.alloc_ghost(G2, st, USER, z3.IntVal(0)); return G2
    T.post(e, None, 'w_alloc' + S, [Ptr(X.r)], X.st, [
        ('nil exactly when all N-1 nodes are taken', lambda st, v: (R(st, v) == 0) == z3.And(G.fc == 0, X.s0 == X.N - 1)),
        ('an allocated index was free and in range', lambda st, v: z3.Implies(R(st, v) != 0, z3.And(R(st, v) < X.N, z3.Or(G.O(R(st, v)) == FREE, G.O(R(st, v)) == 0), R(st, v) == z3.If(G.fc > 0, X.f, X.s0 + 1)))),
        X.inv('representation stays valid', upd), X.same_data, X.qsame])

def free(T, S):
    X = setup(T, S); e, G = X.e, X.G; n = e.sym(X.st, 'node', 8 * X.iz, hi=X.N - 1); nz = n.lin.z()
    X.st.pc += [z3.Or(nz == 0, G.O(nz) == USER), inv_node(X.N, X.nx0, X.s0, None, G, nz)] + [inv_pair(G, nz, x) for x in X.terms]
    def upd(st, ret):
        G2 = G.copy(); c = nz != 0
        G2.own = z3.If(c, z3.Store(G.own, nz, FREE), G.own); G2.pos = z3.If(c, z3.Store(G.pos, nz, G.fc), G.pos); G2.fc = z3.If(c, G.fc + 1, G.fc); return G2
    T.post(e, None, 'w_free' + S, [Ptr(X.r), n], X.st, [X.inv('representation stays valid, node is free', upd), X.same_data, X.qsame])

def remove(T, S):
    X = setup(T, S); e, G = X.e, X.G; ne = X.t != 0
    def upd(st, ret):
        G2 = G.copy()
        G2.own = z3.If(ne, z3.Store(G.own, X.h, FREE), G.own); G2.pos = z3.If(ne, z3.Store(G.pos, X.h, G.fc), G.pos); G2.fc = z3.If(ne, G.fc + 1, G.fc); G2.hd[Q1] = z3.If(ne, G.hd[Q1] + 1, G.hd[Q1]); return G2
    T.post(e, None, 'w_remove' + S, [Ptr(X.r), Ptr(X.rq)], X.st, [
        ('reports whether there was an item', lambda st, v: Iff(v, ne)), ('the removed node is the first of the queue', lambda st, v: z3.Implies(ne, z3.And(G.O(X.h) == Q1, G.P(X.h) == G.hd[Q1]))),
        X.inv('representation stays valid, exactly the first item leaves', upd), X.same_data])

def put(T, S, fn, front):
    X = setup(T, S); e, G = X.e, X.G
    ok0 = z3.Or(G.fc > 0, X.s0 < X.N - 1)
    def upd(st, ret):
        G2 = G.copy(); n, ok = X.alloc_ghost(G2, st, Q1, G.hd[Q1] - 1 if front else G.tl[Q1])
        if front: G2.hd[Q1] = z3.If(ok, G.hd[Q1] - 1, G.hd[Q1])
        else: G2.tl[Q1] = z3.If(ok, G.tl[Q1] + 1, G.tl[Q1])
        return G2
    n = z3.If(G.fc > 0, X.f, X.s0 + 1)
    T.post(e, None, fn + S, [Ptr(X.r), Ptr(X.rq), Ptr(X.rv)], X.st, [
        ('fails exactly when the pool is exhausted', lambda st, v: Iff(v, ok0)),
        X.inv('representation stays valid, the item joins at its end', upd),
        ('the new node holds the item, all others keep theirs', lambda st, v: X.data(st)(X.I) == z3.If(z3.And(ok0, X.I == n), X.V, X.data0(X.I)))])

def peek(T, S):
    for fn in ('w_empty', 'w_head', 'w_tail'):
        X = setup(T, S); e, G = X.e, X.G; e.prefix += fn + ': '
        if fn != 'w_empty': X.st.pc.append(X.t != 0)
        tot, on, osz, od = [x.v for x in e.mod.globals['lay' + S].init.v][:4]
        def same(st, v): return z3.And(X.nx(st)(X.I) == X.nx0(X.I), X.size(st) == X.s0, X.tails(st)[Q1] == X.t)
        if fn == 'w_empty': posts = [('true exactly when the queue has no item', lambda st, v: Iff(v, G.hd[Q1] == G.tl[Q1]))]; args = [Ptr(X.r), Ptr(X.rq)]
        else:
            pos = G.hd[Q1] if fn == 'w_head' else G.tl[Q1] - 1
            posts = [('refers to the item at its end of the queue', lambda st, v: z3.And((v.off - Lin(od)).exact(X.z).z() == z3.If(fn == 'w_head', X.h, X.t), G.O((v.off - Lin(od)).exact(X.z).z()) == Q1, G.P((v.off - Lin(od)).exact(X.z).z()) == pos))]
            args = [Ptr(X.r), X.t1]
        T.post(e, None, fn + S, args, X.st, posts + [('changes nothing', same), X.same_data])

def reset(T, S):
    X = setup(T, S); e = X.e
    outs = e.call('w_qreset' + S, [Ptr(X.rq)], X.st); st = outs[0][0]
    A = z3.ArraySort(z3.IntSort(), z3.IntSort()); K0 = z3.K(z3.IntSort(), z3.IntVal(0))
    G2 = Ghost(K0, K0, z3.IntVal(0), {Q1: z3.IntVal(0), Q2: z3.IntVal(0)}, {Q1: z3.IntVal(0), Q2: z3.IntVal(0)})
    def inv0(st, ret):
        a = (X.N, X.nx(st), X.size(st), {Q1: X.tails(st)[Q1], Q2: z3.IntVal(0)}, G2); return z3.And(inv_glob(*a), inv_node(*a, X.I), inv_pair(G2, X.I, X.J))
    T.post(e, None, 'w_reset' + S, [Ptr(X.r)], st, [('after reset every node is free and every reset queue empty', inv0)])
    T.post(e, None, 'w_cap' + S, [], e.new_state(), [('capacity', lambda st, v: v == X.N)])

for S in 'ABC':
    for nm, f in dict(alloc=alloc, free=free, remove=remove, peek=peek, reset=reset, insert=lambda T, S: put(T, S, 'w_insert', True), append=lambda T, S: put(T, S, 'w_append', False)).items():
        task('%s_%s' % (nm, S))(lambda T, f=f, S=S: f(T, S))
