from spec import *
ASSUMPTIONS = ['little-endian reading of word arrays (x86-64, the only configured target)',
               'the polynomial is a compile-time parameter: proved for 0x82f63b78 (crc32c_t), 0xedb88320, 0xeb31d82e; crc32c(char[N]) proved for N in 1,2,3,5,9,10,17,44']
POLY = dict(c=0x82f63b78, i=0xedb88320, k=0xeb31d82e)

def byte_step(P, v, b):
    """the definition: reflected CRC, one message byte, bit by bit"""
    v = v ^ z3.ZeroExt(24, b)
    for _ in range(8): v = z3.If(z3.Extract(0, 0, v) == 1, z3.LShR(v, 1) ^ z3.BitVecVal(P, 32), z3.LShR(v, 1))
    return v

def crc(T, fn, P, k):
    e = T.engine('bv', gf2=True, houd_timeout=400); st = e.new_state()
    c = e.sym(st, 'c', 32); n = e.sym(st, 'n', 64, hi=(1 << 60) // k)
    r = e.array(st, 'p', k, n, const=True); A = e.arr(st, r)
    S = z3.Function('S', z3.BitVecSort(64), z3.BitVecSort(32))     # S(i): register after i words of the message
    st.assume(S(z3.BitVecVal(0, 64)) == ~c)
    def unfold(i):
        v = S(i); x = z3.Select(A, i)
        for j in range(k): v = byte_step(P, v, z3.Extract(8 * j + 7, 8 * j, x) if k > 1 else x)
        return S(z3.simplify(i + 1)) == v
    def cands(c0):
        out = []
        for nm, f in bvidx(e, c0):
            forms = [('', lambda c, f=f: f(c)), ('n-', lambda c, f=f: n - f(c))]
            for p in c0.ints(32):
                for lab, g in forms:
                    out.append(('%s == S(%s%s)' % (p.name, lab, nm), lambda c, p=p, g=g: None if g(c) is None else c.vals[p.name] == S(z3.simplify(g(c)))))
                    out.append(('~%s == S(%s%s)' % (p.name, lab, nm), lambda c, p=p, g=g: None if g(c) is None else ~e.D.z(c.vals[p.name], 32) == S(z3.simplify(g(c)))))
        return out
    e.loop_cands = cands
    e.gf_lemmas = lambda c: [unfold(z3.simplify(t)) for nm, f in bvidx(e, c) if f(c) is not None for t in (f(c), n - f(c))]
    T.post(e, None, fn, [c, n, Ptr(r)], st, [('= bitwise CRC of the byte sequence', lambda st, ret: ret == ~S(n))])

for s, P in POLY.items():
    for w, k in ((8, 1), (32, 4), (64, 8)):
        task('crc%d_%s' % (w, s))(lambda T, fn='w_crc%d_%s' % (w, s), P=P, k=k: crc(T, fn, P, k))

@task('crcT')
def _(T): crc(T, 'w_crcT', POLY['c'], 1)

@task('initial')
def _(T):
    e = T.engine('bv')
    for s in POLY:
        st = e.new_state()
        T.post(e, None, 'w_init_' + s, [], st, [('initial value is 0', lambda st, ret: ret == 0)])

def lit(T, N):
    e = T.engine('bv', gf2=True, houd_timeout=400); st = e.new_state()
    r = e.array(st, 's', 1, N, const=True); A = e.arr(st, r)
    e.force_unroll = lambda f, b: True
    v = z3.BitVecVal(0xffffffff, 32)
    for i in range(N - 1): v = byte_step(POLY['c'], v, z3.Select(A, z3.BitVecVal(i, 64)))
    T.post(e, None, 'w_lit_%d' % N, [Ptr(r)], st, [('= CRC-32C of the N-1 characters', lambda st, ret: e.D.z(ret, 32) == ~v)])
for N in (1, 2, 3, 5, 9, 10, 17, 44):
    task('lit_%d' % N)(lambda T, N=N: lit(T, N))
