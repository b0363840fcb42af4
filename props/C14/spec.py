from spec import *
ASSUMPTIONS = ['a dictionary starts value-initialised and is only changed through its functions (heap stays 0: optimize() is an empty placeholder); instantiated with N=50/32-bit and N=3/64-bit keys and data',
               'element destructor and constructor of the stored type are those of a scalar']
CFG = dict(A=(50, 4), B=(3, 8))

def setup(T, S):
    N, z = CFG[S]
    e = T.engine('int'); st = e.new_state()
    G = e.mod.globals['lay' + S].init; lay = [x.v for x in G.v]
    tot, osz, od, oh, on = lay
    r = e.region(st, 'd', tot)
    kd = e.add_seg(st, r, od, z, N, [(0, z)], ['data']); kn = e.add_seg(st, r, on, z, N, [(0, z)], ['names'])
    size = e.sym(st, 'size', 64); st.mem[r.id].cells[osz] = (8, size); st.mem[r.id].cells[oh] = (8, 0)
    s = size.lin.z(); st.pc += [z3.Or(s == 0, z3.And(s >= 2, s <= N))]
    M = (1 << 8 * z) - 1
    def arr(st, k): return e.arr(st, r, k)
    X = type('X', (), {})(); X.e, X.st, X.r, X.N, X.z, X.kd, X.kn, X.s, X.osz, X.oh = e, st, r, N, z, kd, kn, s, osz, oh
    X.names = lambda st: (lambda i: z3.Select(arr(st, kn), i)); X.data = lambda st: (lambda i: z3.Select(arr(st, kd), i))
    X.size = lambda st: e.zv(e.load_cell(st, r, osz, 8), 64, st); X.heap = lambda st: e.zv(e.load_cell(st, r, oh, 8), 64, st)
    X.names0, X.data0 = X.names(st), X.data(st)
    X.n = e.sym(st, 'n', 8 * z); X.nz = X.n.lin.z()
    X.J = e.sym(st, 'J', 64, lo=0, hi=N - 1); X.j = X.J.lin.z()          # arbitrary slots
    X.L = e.sym(st, 'L', 64, lo=0, hi=N - 1); X.l = X.L.lin.z()
    X.used = lambda i, s: z3.And(i >= 1, i < s)
    for i in (X.j, X.l): st.pc += [X.names0(i) >= 0, X.names0(i) <= M]
    inst = [X.j, X.l]
    def distinct(a, b): return z3.Implies(z3.And(X.used(a, s), X.used(b, s), a != b), X.names0(a) != X.names0(b))
    X.distinct = distinct
    st.pc += [distinct(X.j, X.l)]
    def cands(c0):
        out = []
        for nm, f in intidx(e, c0):
            for y, t in (('J', X.J), ('L', X.L)):
                out.append(('names[%s] differs once passed by %s' % (y, nm), lambda c, f=f, t=t: None if f(c) is None else z3.Implies(z3.And(X.used(t.lin.z(), s), t.lin.z() < f(c).z()), X.names(c.st)(t.lin.z()) != X.nz)))
                out.append(('names[%s] differs once above %s' % (y, nm), lambda c, f=f, t=t: None if f(c) is None else z3.Implies(z3.And(X.used(t.lin.z(), s), t.lin.z() > f(c).z()), X.names(c.st)(t.lin.z()) != X.nz)))
                out.append(('names[%s] differs once at or above %s' % (y, nm), lambda c, f=f, t=t: None if f(c) is None else z3.Implies(z3.And(X.used(t.lin.z(), s), t.lin.z() >= f(c).z()), X.names(c.st)(t.lin.z()) != X.nz)))
            out.append(('%s in [0,N]' % nm, lambda c, f=f: None if f(c) is None else z3.And(f(c).z() >= 0, f(c).z() <= N)))
        return out
    e.loop_cands = cands
    e.measures = lambda c: [('N - ' + nm, lambda c, f=f: None if f(c) is None else Lin(N) - f(c)) for nm, f in intidx(e, c)]
    # distinctness of names, instantiated at the scan position
    e.default_lemmas = lambda c: [distinct(f(c).z(), t) for nm, f in intidx(e, c) if f(c) is not None for t in (X.j, X.l)]
    return X

def find(T, S):
    X = setup(T, S); e = X.e
    R = lambda st, v: e.zv(v, 32, st)
    T.post(e, None, 'w_find' + S, [Ptr(X.r), X.n], X.st, [
        ('nil or a used slot holding the key', lambda st, v: z3.Or(R(st, v) == 0, z3.And(X.used(R(st, v), X.s), X.names0(R(st, v)) == X.nz))),
        ('finds the slot of a bound key', lambda st, v: z3.Implies(z3.And(X.used(X.j, X.s), X.names0(X.j) == X.nz), R(st, v) == X.j)),
        ('changes nothing', lambda st, v: z3.And(X.size(st) == X.s, X.heap(st) == 0, X.names(st)(X.j) == X.names0(X.j), X.data(st)(X.j) == X.data0(X.j)))])

def bind(T, S):
    X = setup(T, S); e = X.e; v = e.sym(X.st, 'v', 8 * X.z); V = v.lin.z(); s = X.s; N = X.N
    R = lambda st, v: e.zv(v, 32, st)
    isk = lambda i: z3.And(X.used(i, s), X.names0(i) == X.nz)
    T.post(e, None, 'w_bind' + S, [Ptr(X.r), X.n, v], X.st, [
        ('a bound key keeps its slot', lambda st, r: z3.Implies(isk(X.j), z3.And(R(st, r) == X.j, X.size(st) == s))),
        ('nil only when full, and then nothing changes', lambda st, r: z3.Implies(R(st, r) == 0, z3.And(s >= N, X.size(st) == s, X.names(st)(X.j) == X.names0(X.j), X.data(st)(X.j) == X.data0(X.j), z3.Not(isk(X.j))))),
        ('the key is stored in a used slot with its value', lambda st, r: z3.Implies(R(st, r) != 0, z3.And(X.used(R(st, r), X.size(st)), X.names(st)(R(st, r)) == X.nz, X.data(st)(R(st, r)) == V))),
        ('a new key takes the next fresh slot', lambda st, r: z3.Implies(R(st, r) != 0, z3.Or(isk(R(st, r)), z3.And(R(st, r) == z3.If(s == 0, 1, s), X.size(st) == R(st, r) + 1)))),
        ('every other slot is unchanged', lambda st, r: z3.Implies(X.j != R(st, r), z3.And(X.names(st)(X.j) == X.names0(X.j), X.data(st)(X.j) == X.data0(X.j)))),
        ('a full dictionary refuses only new keys', lambda st, r: z3.Implies(s < N, R(st, r) != 0)),
        ('size stays valid', lambda st, r: z3.And(z3.Or(X.size(st) == 0, z3.And(X.size(st) >= 2, X.size(st) <= N)), X.size(st) >= s, X.heap(st) == 0)),
        ('names stay distinct', lambda st, r: z3.Implies(z3.And(X.used(X.j, X.size(st)), X.used(X.l, X.size(st)), X.j != X.l), X.names(st)(X.j) != X.names(st)(X.l)))])

def access(T, S):
    for fn in ('w_at', 'w_set', 'w_key', 'w_setkey'):
        X = setup(T, S); e = X.e; v = e.sym(X.st, 'v', 8 * X.z); V = v.lin.z()
        X.st.pc += [X.used(X.j, X.s)]; key = X.n if 'key' in fn else e.sym(X.st, 'p', 32)
        X.st.pc += [X.names0(X.j) == X.nz] if 'key' in fn else [key.lin.z() == X.j]
        a = [Ptr(X.r), key] + ([v] if 'set' in fn else [])
        if 'set' not in fn: posts = [('reads the slot', lambda st, r: e.zv(r, 8 * X.z, st) == X.data0(X.j)), ('changes nothing', lambda st, r: z3.And(X.data(st)(X.l) == X.data0(X.l), X.names(st)(X.l) == X.names0(X.l), X.size(st) == X.s))]
        else: posts = [('writes exactly the slot', lambda st, r: z3.And(X.data(st)(X.l) == z3.If(X.l == X.j, V, X.data0(X.l)), X.names(st)(X.l) == X.names0(X.l), X.size(st) == X.s))]
        e.prefix += fn + ': '
        T.post(e, None, fn + S, a, X.st, posts)

def init(T, S):
    X = setup(T, S); e = X.e
    T.post(e, None, 'w_init' + S, [Ptr(X.r)], X.st, [('value-initialised dictionary is empty', lambda st, v: z3.And(X.size(st) == 0, X.heap(st) == 0))])

for S in 'AB':
    for f in (find, bind, access, init): task('%s_%s' % (f.__name__, S))(lambda T, f=f, S=S: f(T, S))
