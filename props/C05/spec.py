from spec import *
ASSUMPTIONS = ['seeding from bytes: ce::crc32 / fnv1a64 are replaced by their contracts (functions of basis and byte range), discharged as C03 and C04']
BV = z3.BitVecVal
def rotl(x, k): return z3.RotateLeft(x, k)

def x64(a, b):
    """xoroshiro64** 1.0 (Blackman, Vigna)"""
    res = rotl(a * BV(0x9E3779BB, 32), 5) * BV(5, 32); b = b ^ a
    return res, rotl(a, 26) ^ b ^ (b << 9), rotl(b, 13)
def x128(a, b):
    """xoroshiro128++ 1.0"""
    res = rotl(a + b, 17) + a; b = b ^ a
    return res, rotl(a, 49) ^ b ^ (b << 21), rotl(b, 28)
MUL, INC = 6364136223846793005, 0xda3e39cb94b95bdb
def pstep(s): return s * BV(MUL, 64) + BV(INC, 64)
def pout(s):
    """PCG-XSH-RR 64/32"""
    x = z3.Extract(31, 0, z3.LShR(z3.LShR(s, 18) ^ s, 27)); r = z3.Extract(31, 0, z3.LShR(s, 59))
    return z3.RotateRight(x, r) if False else z3.LShR(x, r) | (x << ((-r) & BV(31, 32)))

def gen(T, fn, W, algo, want):
    e = T.engine('bv', gf2=False); st = e.new_state()
    r = e.region(st, 'g', 2 * W // 8)
    a, b = e.sym(st, 'a', W), e.sym(st, 'b', W)
    st.mem[r.id].cells.update({0: (W // 8, a), W // 8: (W // 8, b)})
    res = []
    x, y = a, b; steps, ret = want
    outs = []
    for _ in range(steps): o, x, y = algo(x, y); outs.append(o)
    rv = ret(outs)
    def cell(st, off): return e.D.z(e.load_cell(st, r, off, W // 8), W)
    T.post(e, None, fn, [Ptr(r)], st, [('output equals the reference', lambda st, v: e.D.z(v, rv.size()) == rv), ('state.a equals the reference', lambda st, v: cell(st, 0) == x), ('state.b equals the reference', lambda st, v: cell(st, W // 8) == y)])

task('x64_next')(lambda T: gen(T, 'w_x64_next', 32, x64, (1, lambda o: o[0])))
task('x64_next32')(lambda T: gen(T, 'w_x64_next32', 32, x64, (1, lambda o: o[0])))
task('x64_next64')(lambda T: gen(T, 'w_x64_next64', 32, x64, (2, lambda o: z3.Concat(o[0], o[1]))))
task('x128_next')(lambda T: gen(T, 'w_x128_next', 64, x128, (1, lambda o: o[0])))
task('x128_next32')(lambda T: gen(T, 'w_x128_next32', 64, x128, (1, lambda o: z3.Extract(31, 0, o[0]))))
task('x128_next64')(lambda T: gen(T, 'w_x128_next64', 64, x128, (1, lambda o: o[0])))

@task('pcg')
def _(T):
    e = T.engine('bv'); st = e.new_state(); g = e.sym(st, 'g', 64)
    T.post(e, None, 'w_pcg_read', [g], st, [('output function XSH-RR', lambda st, v: e.D.z(v, 32) == pout(g))])
    st = e.new_state(); T.post(e, None, 'w_pcg_step', [g], st, [('LCG step', lambda st, v: e.D.z(v, 64) == pstep(g))])
    st = e.new_state(); r = e.region(st, 'g', 8); st.mem[r.id].cells[0] = (8, g)
    T.post(e, None, 'w_pcg_next', [Ptr(r)], st, [('output of the old state', lambda st, v: e.D.z(v, 32) == pout(g)), ('state stepped once', lambda st, v: e.D.z(e.load_cell(st, r, 0, 8), 64) == pstep(g))])
    st = e.new_state(); r = e.region(st, 'g', 8); s = e.sym(st, 's', 64)
    T.post(e, None, 'w_pcg_seed', [Ptr(r), s], st, [('pcg srandom sequence', lambda st, v: e.D.z(e.load_cell(st, r, 0, 8), 64) == pstep(pstep(BV(0, 64)) + s))])

def contracts(e, data, size):
    CRC = z3.Function('CRC', *[z3.BitVecSort(k) for k in (32, 64, 64, 32)]); FNV = z3.Function('FNV', *[z3.BitVecSort(k) for k in (64, 64, 64, 64)])
    def h(F, W, ci, ni, pi):
        def f(e, st, args, I):
            c, n, p = args[ci] if ci is not None else None, args[ni], args[pi]
            e.prove(st, p.r is data, 'hash is given the seed bytes'); off = p.off.bv(64); n = e.D.z(n, 64)
            e.prove(st, z3.And(z3.ULE(off, size), z3.ULE(n, size - off)), 'hash stays inside the seed bytes')
            c = e.D.z(c, W) if c is not None else BV(0xcbf29ce484222325, 64)
            return [(st, F(c, off, n))]
        return f
    e.contracts.append((r'^ce::.*crc32<ce::detail::crc32<2197175160u>::type.*unsigned char const\*\)', h(CRC, 32, 0, 1, 2)))
    e.contracts.append((r'hash::fnv1a<unsigned long, unsigned char', h(FNV, 64, 2, 0, 1)))
    return CRC, FNV

def seeds(T, fn, W, nst, want):
    e = T.engine('bv'); st = e.new_state()
    n = e.sym(st, 'n', 64, hi=1 << 60); d = e.array(st, 'data', 1, n, const=True)
    CRC, FNV = contracts(e, d, n)
    r = e.region(st, 'g', nst * W // 8)
    T.post(e, None, fn, [Ptr(r), n, Ptr(d)], st, [('state word %d is the hash of the bytes' % k, lambda st, v, k=k: e.D.z(e.load_cell(st, r, k * W // 8, W // 8), W) == want(CRC, FNV, n)[k]) for k in range(nst)])
Z = BV(0, 64); B = BV(0xcbf29ce484222325, 64)
def w64(C, F, n):
    a = C(BV(0, 32), Z, z3.LShR(n, 1)); return [a, C(a, z3.LShR(n, 1), n - z3.LShR(n, 1))]
task('x64_seed')(lambda T: seeds(T, 'w_x64_seed', 32, 2, w64))
task('x128_seed')(lambda T: seeds(T, 'w_x128_seed', 64, 2, lambda C, F, n: [F(B, Z, n), F(F(B, Z, n), Z, n)]))
task('pcg_seed_bytes')(lambda T: seeds(T, 'w_pcg_seed_bytes', 64, 1, lambda C, F, n: [pstep(pstep(BV(0, 64)) + F(B, Z, n))]))
