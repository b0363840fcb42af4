from spec import *
ASSUMPTIONS = ['x86-64 Linux type sizes (long is 64 bits); the digit-pair table is taken from the compiled constants', 'the destination holds measure<T>::value characters']
TYPES = 'sc uc s us i ui l ul ll ull'.split()
def conv(T, S, ref):
    e = T.engine('int'); st = e.new_state(); sz, sg, meas = [x.v for x in e.mod.globals['lay' + S].init.v]
    v = e.sym(st, 'v', 8 * sz, signed=bool(sg)); V = e.zv(v, 8 * sz, st, bool(sg)); r = e.region(st, 'text', meas)
    a = v
    if ref: rv = e.region(st, 'value', sz, const=True); st.mem[rv.id].cells[0] = (sz, v); a = Ptr(rv)
    A = z3.If(V < 0, -V, V)
    def length(ret): return ret.off.c if isinstance(ret, Ptr) and ret.r is r and ret.off.const else None
    def text(st, ret):
        n = length(ret)
        return [e.zv(e.load_cell(st, r, i, 1), 8, st) for i in range(n)] if n is not None and 0 < n <= meas else None
    def canon(st, ret):
        t = text(st, ret)
        if t is None: return z3.BoolVal(False)
        def digits(d):
            if not d: return z3.BoolVal(False)
            return z3.And(*[z3.And(x >= 48, x <= 57) for x in d], d[0] != 48 if len(d) > 1 else True, A == sum((x - 48) * 10 ** (len(d) - 1 - i) for i, x in enumerate(d)))
        # the low 8-digit chunks one by one: each is proved, then used for the next
        d = t
        while len(d) > 9:
            c, d = d[-8:], d[:-8]; val = sum((x - 48) * 10 ** (7 - i) for i, x in enumerate(c))
            # the code's own remainder for this chunk (any atom known to lie in [0,10^8)): only a proof hint
            own = [x for x in [Atoms.exprs[a] for a in range(len(Atoms.exprs)) if Atoms.lo[a] == 0 and Atoms.hi[a] == 10 ** 8 - 1] if e.check(st, val != x, 4000) == z3.unsat][:1]
            if own:
                f = z3.And(*[z3.And(x >= 48, x <= 57) for x in c], val == own[0]); e.prove(st, f, '8-digit chunk'); st.assume(f)
        return z3.If(V < 0, z3.And(t[0] == 45, digits(t[1:])), digits(t))
    def inside(st, ret):
        n = length(ret); return z3.BoolVal(n is not None and all(0 <= o and o + z <= n for o, (z, _) in st.mem[r.id].cells.items()))
    T.post(e, None, 'w_' + ('ref' if ref else '') + S, [Ptr(r), a], st, [
        ('canonical decimal digits and end pointer', canon), ('nothing is written past the text', inside)])
def wrapper(T, S):
    """as_string's element writer: one call of to_text on the same destination and value, its end returned"""
    e = T.engine('int'); st = e.new_state(); sz, sg, meas = [x.v for x in e.mod.globals['lay' + S].init.v]
    v = e.sym(st, 'v', 8 * sz, signed=bool(sg)); r = e.region(st, 'text', meas); end = e.sym(st, 'end', 64, hi=meas); st.ghost['n'] = 0
    rv = e.region(st, 'value', sz, const=True); st.mem[rv.id].cells[0] = (sz, v)
    def to_text(e, st, a, I):
        st.ghost['n'] = st.ghost['n'] + 1
        e.prove(st, z3.And(z3.BoolVal(isinstance(a[0], Ptr) and a[0].r is r), a[0].off.z() == 0, e.zv(a[1], 8 * sz, st) == e.zv(v, 8 * sz, st)), 'to_text gets the destination and the value')
        return [(st, Ptr(r, end.lin))]
    e.contracts.append((r'^ce::to_text\(', to_text))
    T.post(e, None, 'w_ref' + S, [Ptr(r), Ptr(rv)], st, [('one call, its end returned', lambda st, ret: z3.And(z3.BoolVal(st.ghost['n'] == 1 and isinstance(ret, Ptr) and ret.r is r), ret.off.z() == end.lin.z())), ])
for S in TYPES:
    task('to_text ' + S)(lambda T, S=S: conv(T, S, False)); task('as_string path ' + S)(lambda T, S=S: wrapper(T, S))
