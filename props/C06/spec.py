from spec import *
ASSUMPTIONS = ['termination of the rejection loop is not proved (it depends on the generator eventually drawing an acceptable value)', 'uniformity: the accepted low words form, for every result, an interval of 2^32 - (2^32 mod n) products (lemma task) - uniform whenever the generator output is']
BV = z3.BitVecVal
MUL, INC = 6364136223846793005, 0xda3e39cb94b95bdb; INV = pow(MUL, -1, 1 << 64)
def pstep(s): return s * BV(MUL, 64) + BV(INC, 64)
def unstep(s): return (s - BV(INC, 64)) * BV(INV, 64)
def setup(T):
    e = T.engine('bv', use_cvc5=False); st = e.new_state(); g = e.sym(st, 'g', 64); n = e.sym(st, 'n', 32, lo=1)
    OUT = z3.Function('OUT', z3.BitVecSort(64), z3.BitVecSort(32)); STEP = z3.Function('STEP', z3.BitVecSort(64), z3.BitVecSort(64)); PREV = z3.Function('PREV', z3.BitVecSort(64), z3.BitVecSort(64))
    def step(e, st, a, I):
        x = e.D.z(a[0], 64); st.assume(PREV(STEP(x)) == x); return [(st, STEP(x))]
    e.contracts.append((r'^ce::random::read\(', lambda e, st, a, I: [(st, OUT(e.D.z(a[0], 64)))]))
    e.contracts.append((r'^ce::random::step\(', step))
    r = e.region(st, 'g', 8); st.mem[r.id].cells[0] = (8, g)
    return e, st, g, n, r, OUT, STEP, PREV
def Z64(x): return z3.ZeroExt(32, x)

@task('ranged')
def _(T):
    e, st, g, n, r, OUT, STEP, PREV = setup(T)
    T.post(e, None, 'w_ranged', [Ptr(r), n], st, [
        ('= floor(n * draw / 2^32)', lambda st, v: e.D.z(v, 32) == z3.Extract(63, 32, Z64(n) * Z64(OUT(g)))),
        ('one draw consumed', lambda st, v: e.D.z(e.load_cell(st, r, 0, 8), 64) == STEP(g))])

@task('lemma in range')
def _(T):
    e = T.engine('int'); st = e.new_state()
    n, x = z3.Ints('n x'); st.pc += [n >= 1, n < 1 << 32, x >= 0, x < 1 << 32]; e.cover(st, 'lemma')
    st.pc += [n * x <= n * ((1 << 32) - 1)] if False else []
    q, rr = z3.Ints('q r'); st.pc += [n * x == q * (1 << 32) + rr, rr >= 0, rr < 1 << 32]
    e.prove(st, z3.And(q >= 0, q < n), 'floor(n*x/2^32) is in [0,n)')
    # every result value owns the same number of acceptable draws: multiples of n in [r*2^32+t, (r+1)*2^32), whose length is divisible by n
    A, k, c = z3.Ints('A k c'); st2 = e.new_state(); st2.pc += [n >= 1, k >= 0, A >= 0]
    # c = ceil(A/n): first multiple index; the multiples in [A, A+k*n) are exactly c .. c+k-1
    st2.pc += [n * c >= A, n * (c - 1) < A]
    nk = n * k; e.prove(st2, z3.And(n * (c + k) >= A + nk, n * (c + k - 1) < A + nk), 'an interval of length k*n holds exactly k multiples of n')

@task('unbiased')
def _(T):
    e, st, g, n, r, OUT, STEP, PREV = setup(T)
    e.termination = False
    SEEN = z3.Function('SEEN', z3.BitVecSort(64), z3.BoolSort())   # SEEN(q): q is reached from g by drawing, every draw but the last rejected
    t = z3.URem(-n, n)                                             # 2^32 mod n
    prod = lambda q: Z64(n) * Z64(OUT(PREV(q)))
    low = lambda q: z3.Extract(31, 0, prod(q))
    st.assume(SEEN(STEP(g))); st.assume(PREV(STEP(g)) == g)
    def cands(c0):
        out = []
        for q in c0.ints(64):
            out.append(('SEEN(%s)' % q.name, lambda c, q=q: SEEN(e.D.z(c.vals[q.name], 64))))
            for m in c0.ints(64):
                if m is not q: out.append(('%s is the product of the last draw of %s' % (m.name, q.name), lambda c, q=q, m=m: e.D.z(c.vals[m.name], 64) == prod(e.D.z(c.vals[q.name], 64))))
            for p in c0.ints(32): out.append(('%s is the low word of the last draw of %s' % (p.name, q.name), lambda c, q=q, p=p: e.D.z(c.vals[p.name], 32) == low(e.D.z(c.vals[q.name], 64))))
            for p in c0.ints(32): out.append(('%s is the last draw of %s' % (p.name, q.name), lambda c, q=q, p=p: e.D.z(c.vals[p.name], 32) == OUT(PREV(e.D.z(c.vals[q.name], 64)))))
        return out
    e.loop_cands = cands
    def lem(c):
        out = []
        for q in c.ints(64):
            x = e.D.z(c.vals[q.name], 64)
            out += [z3.Implies(z3.And(SEEN(x), z3.ULT(low(x), t)), SEEN(STEP(x))), PREV(STEP(x)) == x]
        return out
    e.default_lemmas = lem
    F = lambda st: e.D.z(e.load_cell(st, r, 0, 8), 64)
    T.post(e, None, 'w_unbiased', [Ptr(r), n], st, [
        ('all earlier draws were rejected for low word < 2^32 mod n', lambda st, v: SEEN(F(st))),
        ('accepted draw has low word >= 2^32 mod n', lambda st, v: z3.UGE(low(F(st)), t)),
        ('result = floor(n * draw / 2^32)', lambda st, v: e.D.z(v, 32) == z3.Extract(63, 32, prod(F(st))))])
