from spec import *
ASSUMPTIONS = ['index < N (asserted by the code; the assertion is an obligation only for in-range indices)', 'instantiated for N in {1, 7, 8, 13, 64, 100, 1000, 2^32+1}']
def tb(v): return bool(v) if isinstance(v, int) else v if z3.is_bool(v) else v == 1
def setup(T, N):
    e = T.engine('bv'); st = e.new_state(); B = (N + 7) // 8
    r = e.region(st, 'b', B); k = e.add_seg(st, r, 0, 1, B, [(0, 1)], ['data'])
    i = e.sym(st, 'i', 64, hi=N - 1); J = e.sym(st, 'J', 64, hi=8 * B - 1)
    z = lambda v, w=64: e.D.z(v, w)
    def bit(st, x):
        b = z3.Select(e.arr(st, r), z3.LShR(x, 3)); return z3.Extract(0, 0, z3.LShR(b, z3.Extract(7, 0, x & 7))) == 1
    return e, st, r, i, J, z, bit
def ops(T, N):
    for op in ('get', 'set', 'reset', 'put', 'size'):
        e, st, r, i, J, z, bit = setup(T, N); e.prefix += op + ': '; iz, jz = z(i), z(J); b0 = bit(st, jz); bi = bit(st, iz)
        if op == 'get': T.post(e, None, 'w_get%d' % N, [Ptr(r), i], st, [('reads exactly bit i', lambda st, v: Iff(tb(v), bi)), ('changes no bit', lambda st, v: bit(st, jz) == b0)])
        elif op == 'size': T.post(e, None, 'w_size%d' % N, [Ptr(r)], st, [('size is N', lambda st, v: z(v) == N), ('changes no bit', lambda st, v: bit(st, jz) == b0)])
        else:
            v = e.sym(st, 'v', 1); val = {'set': True, 'reset': False}.get(op)
            want = z3.BoolVal(val) if val is not None else tb(v)
            T.post(e, None, 'w_%s%d' % (op, N), [Ptr(r), i] + ([v] if op == 'put' else []), st, [('bit i takes the value', lambda st, _: bit(st, iz) == want), ('every other bit is unchanged', lambda st, _: z3.Implies(jz != iz, bit(st, jz) == b0))])
def all_(T, N):
    for op, val in (('setall', True), ('resetall', False)):
        e, st, r, i, J, z, bit = setup(T, N); e.prefix += op + ': '
        T.post(e, None, 'w_%s%d' % (op, N), [Ptr(r)], st, [('every bit becomes %d' % val, lambda st, _: bit(st, z(i)) == val)])
for N in (1, 7, 8, 13, 64, 100, 1000, 4294967297):
    task('bit_%d' % N)(lambda T, N=N: ops(T, N)); task('all_%d' % N)(lambda T, N=N: all_(T, N))
