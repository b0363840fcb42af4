from spec import *
FPBITS = True
ASSUMPTIONS = ['std::atomic from the installed libstdc++ is inlined down to the LLVM atomic instructions, whose semantics (one indivisible access, ordering as labelled) is assumed',
  'other threads: the atomic holds an arbitrary new value before each access; weak compare-exchange may fail spuriously; the floating point retry loop ends when an attempt succeeds (lock-free, no bound claimed)',
  'floating point addition on bits is uninterpreted (add and sub use exactly the IR operations fadd/fsub on the old value and the operand); expected value and atomic are different objects']
W = dict(i8=8, u8=8, i16=16, u16=16, i32=32, u32=32, i64=64, u64=64, f32=32, f64=64, ptr=64)
def setup(T, w, isptr=False):
    e = T.engine('bv', termination=False); st = e.new_state(); r = e.region(st, 'atomic', w // 8); r.shared = True; st.mem[r.id].cells[0] = (w // 8, z3.BitVec('old', w)); g = e.region(st, 'effects', 8); st.mem[g.id].cells[0] = (8, z3.BitVecVal(0, 64))
    n = lambda st: e.D.z(st.mem[g.id].cells[0][1], 64)
    def on_event(st, ev):
        k = {'store': True, 'rmw': True, 'cas': ev[-1]}.get(ev[0], False)
        if ev[0].startswith('plain') or len(ev) > 2 and (ev[2].r is not r or not ev[2].off.const or ev[2].off.c != 0): e.prove(st, False, 'no access but atomic accesses to the object itself'); return
        if k is False: return
        e.quiet += 1
        try: e.store(st, Ptr(g), z3.simplify(z3.If(k, n(st) + 1, n(st))) if not isb(k) else n(st) + 1 if k else n(st), 8)
        finally: e.quiet -= 1
    if isptr: e.anyint = e.region(st, 'anywhere', None)
    e.on_event = on_event; e.loop_cands = lambda c0: [('nothing stored so far', lambda c: n(c.st) == 0)]
    return e, st, r, n
SC = ('seq', 'seq_cst', 'seq_cst')
def evs(st): return st.ghost.get('events', ())
def last(st): return evs(st)[-1] if evs(st) else ('none',)
def sc(o): return all(x == 'seq_cst' for x in (o if isinstance(o, tuple) else (o,)))
def arg(e, st, nm, w): v = e.sym(st, nm, w); return Ptr(e.anyint, e.D.to_off(v, 64, st)) if e.anyint is not None else v
def one(T, N, w):
    z = lambda e, v: e.D.z(v.off.bv(64) if isinstance(v, Ptr) else v, w)
    e, st, r, n = setup(T, w, N == 'ptr'); single = lambda st: len(evs(st)) == 1
    T.post(e, None, N + '_load', [Ptr(r)], st, [('one seq_cst load', lambda st, v: single(st) and last(st)[0] == 'load' and sc(last(st)[1])), ('returns the value seen', lambda st, v: z(e, v) == z(e, last(st)[3]))])
    e, st, r, n = setup(T, w, N == 'ptr'); v0 = arg(e, st, 'v', w)
    T.post(e, None, N + '_store', [Ptr(r), v0], st, [('one seq_cst store', lambda st, v: single(st) and last(st)[0] == 'store' and sc(last(st)[1])), ('stores the operand', lambda st, v: z(e, last(st)[3]) == z(e, v0))])
    e2, st2, r2, n2 = setup(T, w, N == 'ptr'); v2 = arg(e2, st2, 'v', w)
    T.post(e2, None, N + '_exchange', [Ptr(r2), v2], st2, [('one seq_cst exchange', lambda st, v: single(st) and last(st)[0] == 'rmw' and sc(last(st)[1])), ('stores the operand', lambda st, v: z(e2, last(st)[4]) == z(e2, v2)), ('returns the old value', lambda st, v: z(e2, v) == z(e2, last(st)[3]))])
    e3, st3, r3, n3 = setup(T, w, N == 'ptr'); v3, x3 = arg(e3, st3, 'v', w), e3.sym(st3, 'expected', w); re = e3.region(st3, 'expected', w // 8); st3.mem[re.id].cells[0] = (w // 8, x3); ex = lambda st: z(e3, e3.load(st, Ptr(re), w // 8, 'int'))
    T.post(e3, None, N + '_cas', [Ptr(r3), Ptr(re), v3], st3, [('one strong seq_cst compare-exchange', lambda st, v: single(st) and last(st)[0] == 'cas' and sc(last(st)[1])),
        ('succeeds exactly when the value is the expected one', lambda st, v: B(v) == (z(e3, last(st)[3]) == z(e3, x3))), ('stores the operand on success', lambda st, v: z3.Implies(B(v), z3.And(z(e3, last(st)[5]) == z(e3, v3), n3(st) == 1))),
        ('stores nothing on failure', lambda st, v: z3.Implies(z3.Not(B(v)), n3(st) == 0)), ('reports the value seen on failure, keeps the expected one on success', lambda st, v: ex(st) == z3.If(B(v), z(e3, x3), z(e3, last(st)[3])))])
    e4, st4, r4, n4 = setup(T, w, N == 'ptr'); e4.on_event = None; v4 = arg(e4, st4, 'v', w); T.post(e4, None, N + '_init', [v4], st4, [('an atomic starts with its initial value', lambda st, v: z(e4, v) == z(e4, v4))])
    e5, st5, r5, n5 = setup(T, w, N == 'ptr'); e5.on_event = None; T.post(e5, None, N + '_zero', [], st5, [('a default atomic is zero', lambda st, v: z(e5, v) == 0)])
def fetch(T, N, w, op, f):
    arg = lambda e, st, nm, w: e.sym(st, nm, w)
    z = lambda e, v: e.D.z(v.off.bv(64) if isinstance(v, Ptr) else v, w); e, st, r, n = setup(T, w, N == 'ptr'); v0 = arg(e, st, 'v', w); ev = last
    old = lambda st: z(e, ev(st)[3]); new = lambda st: z(e, ev(st)[4] if ev(st)[0] == 'rmw' else ev(st)[5])
    good = lambda st: ev(st)[0] in ('rmw', 'cas') and sc(ev(st)[1]) and (N[0] == 'f' or len(evs(st)) == 1)
    T.post(e, None, '%s_%s' % (N, op), [Ptr(r), v0], st, [('ends with one seq_cst update', lambda st, v: good(st)), ('exactly one update took effect', lambda st, v: n(st) == 1), ('stores old %s operand' % op, lambda st, v: new(st) == f(old(st), z(e, v0))), ('returns the old value', lambda st, v: z(e, v) == old(st))])
OPS = dict(add=lambda a, b: a + b, sub=lambda a, b: a - b, xor=lambda a, b: a ^ b, **{'and': lambda a, b: a & b, 'or': lambda a, b: a | b})
for N, w in W.items():
    @task(N)
    def _(T, N=N, w=w):
        one(T, N, w)
        for op, f in OPS.items():
            if N == 'ptr':
                if op not in ('add', 'sub'): continue
                f = (lambda a, b: a + 4 * b) if op == 'add' else (lambda a, b: a - 4 * b)
            if N[0] == 'f':
                if op not in ('add', 'sub'): continue
                b = z3.BitVecSort(w); f = z3.Function('f%s%d' % (op, w), b, b, b)
            fetch(T, N, w, op, f)
