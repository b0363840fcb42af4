from spec import *
ASSUMPTIONS = ['the source is a well-formed stream: every control byte and token is complete, spans refer to output already written (this is the precondition stated for size and decode)',
  'the fact that a token boundary before the end has output still to come is proved as an induction step over tokens; the induction itself is the usual one over the finite stream']
Iz = z3.IntSort(); F = lambda nm, r=Iz: z3.Function(nm, Iz, r)
def stream(T, **kw):
    kw = dict(dict(matching_only=True, houd_timeout=2000), **kw)
    """token boundaries of the source: TOK(s), control state CS(s), output position OS(s); per output position: LIT (verbatim from P) or a copy of position Q; D is the text encoded"""
    e = T.engine('int', **kw); st = e.new_state(); n = e.sym(st, 'n', 64, hi=1 << 58); N = n.lin.z(); src = e.array(st, 'src', 1, n, const=True); A = e.arr(st, src)
    g = types(); g.AT = F('AT', z3.BoolSort()); g.e, g.st, g.n, g.N, g.src, g.A = e, st, n, N, src, A
    g.TOK, g.CS, g.OS, g.LIT, g.P, g.Q, g.D = F('TOK', z3.BoolSort()), F('CS'), F('OS'), F('LIT', z3.BoolSort()), F('P'), F('Q'), F('D')
    g.M = g.OS(N); a = lambda i: z3.Select(A, i); s, x = z3.Ints('ts tx')
    need = g.CS(s) == 1; t = z3.If(need, s + 1, s); c = z3.If(need, a(s) + 256, g.CS(s)); lit = c % 2 == 1; ln = z3.If(lit, 1, 3 + a(t + 1) / 16); nx = t + z3.If(lit, 1, 2); off = a(t + 1) % 16 * 256 + a(t) - 4096
    # one token of a well-formed stream
    step = lambda last: z3.And(nx <= N, g.TOK(nx), g.CS(nx) == c / 2, g.OS(nx) == g.OS(s) + ln, z3.Implies(z3.Not(lit), g.OS(s) + off >= 0), *([g.OS(nx) <= g.M, g.OS(s) < g.M] if last else []))
    g.step, g.s, g.nx = step, s, nx
    posn = z3.ForAll([x], z3.Implies(z3.And(x >= g.OS(s), x < g.OS(s) + ln), z3.And(g.LIT(x) == lit, z3.Implies(lit, g.P(x) == t), z3.Implies(z3.Not(lit), g.Q(x) == x + off))), patterns=[g.LIT(x)])
    g.wf = lambda last=True: z3.ForAll([s], z3.Implies(z3.And(g.TOK(s), s >= 0, s < N), z3.And(step(last), posn, g.CS(s) >= 1, g.CS(s) < 256)), patterns=[g.AT(s)])
    g.text = lambda x: z3.And(z3.Implies(g.LIT(x), g.D(x) == a(g.P(x))), z3.Implies(z3.Not(g.LIT(x)), g.D(x) == g.D(g.Q(x))))
    y = z3.Int('by'); st.assume(z3.ForAll([y], z3.And(a(y) >= 0, a(y) < 256), patterns=[a(y)])); st.assume(z3.ForAll([y], g.AT(y), patterns=[g.AT(y)]))
    st.pc += [g.TOK(0), g.CS(0) == 1, g.OS(0) == 0, g.M >= 0, g.M <= 1 << 62, g.TOK(N)]
    return g
class types: pass
def states(g, c0):
    """pairs (source position, control word) among the loop variables"""
    e = g.e; ix = intidx(e, c0, (64, 32)); return [((pn, p), (cn, c)) for pn, p in ix for cn, c in ix if pn != cn]

@task('tokens')
def _(T):
    g = stream(T); st = g.st; s = z3.Int('S'); g.e.cover(st, 'stream')
    end = lambda s: z3.Or(z3.And(s == g.N, g.OS(s) == g.M), z3.And(s < g.N, g.OS(s) < g.M)); f = lambda q, v: z3.substitute(q, (g.s, v))
    st.pc += [g.TOK(s), s >= 0, s < g.N, f(g.step(False), s), g.CS(s) >= 1, g.CS(s) < 256, end(f(g.nx, s))]
    g.e.prove(st, z3.And(end(s), f(g.nx, s) > s, f(g.step(True), s)), 'before the end of the stream there is output to come')
    g.e.prove(st, z3.And(g.CS(f(g.nx, s)) >= 1, g.CS(f(g.nx, s)) < 256), 'control words stay in 1..255 between tokens')

@task('size')
def _(T):
    g = stream(T); e, st = g.e, g.st; st.assume(g.wf())
    def cands(c0):
        out = []; ix = intidx(e, c0, (64, 32))
        for pn, p in ix:
            out.append(('%s is a token boundary' % pn, lambda c, p=p: None if p(c) is None else z3.And(g.TOK(p(c).z()), g.AT(p(c).z()), p(c).z() >= 0, p(c).z() <= g.N)))
            for cn, q in ix:
                if cn == pn: continue
                out.append(('%s is the control word at %s' % (cn, pn), lambda c, p=p, q=q: None if p(c) is None or q(c) is None else g.CS(p(c).z()) == q(c).z()))
                out.append(('%s is the output at %s' % (cn, pn), lambda c, p=p, q=q: None if p(c) is None or q(c) is None else g.OS(p(c).z()) == q(c).z()))
        return out
    e.loop_cands = cands
    T.post(e, None, 'w_size', [g.n, Ptr(g.src)], st, [('the number of bytes encoded', lambda st, v: e.zv(v, 64, st, False) == g.M)])

@task('decode')
def _(T):
    g = stream(T); e, st = g.e, g.st; st.assume(g.wf()); M = Lin.atom(z3.Int('m'), 0, 1 << 62); st.pc += [M.z() == g.M]; dst = e.array(st, 'dst', 1, M)
    i0 = z3.Int('wi')
    done = lambda c, k: z3.ForAll([i0], z3.Implies(z3.And(i0 >= 0, i0 < k), z3.Select(e.arr(c.st, dst), i0) == g.D(i0)), patterns=[z3.Select(e.arr(c.st, dst), i0)])
    def on_store(st, rr, k, f, m, old, new):
        if rr is dst: st.assume(g.text(new.arg(1)))
    e.on_store = on_store
    def cands(c0):
        out = []; ix = intidx(e, c0, (64, 32))
        for pn, p in ix:
            out.append(('%s is a token boundary' % pn, lambda c, p=p: None if p(c) is None else z3.And(g.TOK(p(c).z()), g.AT(p(c).z()), p(c).z() >= 0, p(c).z() <= g.N)))
            out.append(('decoded up to %s' % pn, lambda c, p=p: None if p(c) is None else z3.And(p(c).z() >= 0, p(c).z() <= g.M, done(c, p(c).z()))))
            for cn, q in ix:
                if cn == pn: continue
                out.append(('%s is the control word at %s' % (cn, pn), lambda c, p=p, q=q: None if p(c) is None or q(c) is None else g.CS(p(c).z()) == q(c).z()))
                out.append(('%s is the output at %s' % (cn, pn), lambda c, p=p, q=q: None if p(c) is None or q(c) is None else g.OS(p(c).z()) == q(c).z()))
        return out
    e.loop_cands = cands; J = z3.Int('J'); st.pc += [J >= 0, J < g.M]
    T.post(e, None, 'w_decode', [IV(64, M), Ptr(dst), Ptr(g.src)], st, [('every byte is the byte encoded', lambda st, v: z3.Select(e.arr(st, dst), J) == g.D(J))])
