from spec import *
NATIVE = ['$REPO/lib/os.cpp', '$REPO/lib/os_posix.cpp', '$REPO/lib/to_text.cpp']
FILES = ['lib/os.cpp', 'lib/os_posix.cpp']
ASSUMPTIONS = ['hook tables: instantiated for 0 to 3 arguments of the kinds C string, char and bool (texts of other types are C01/C02)', 'write and strlen are external: strlen gives the position of the first NUL, write prints the bytes it is given',
  'log_hook and error_hook of the user see the same calls as os::log and os::error here (the macros pass the same expressions)']
BV = lambda e: hasattr(e.D, 'z')
def zb(e, st, v): return v if isinstance(v, z3.ArithRef) else e.D.z(v, 8) if BV(e) else e.zv(v, 8, st, False)
def text(e, st, p):
    """bytes of a C string with known length"""
    out = []; e.quiet += 1
    try:
        while len(out) < 4096:
            v = e.load(st, Ptr(p.r, p.off + len(out)), 1, 'int')
            if not isinstance(v, int): v = z3.simplify(zb(e, st, v))
            if z3.is_expr(v) and (z3.is_bv_value(v) or z3.is_int_value(v)): v = v.as_long()
            if isinstance(v, int) and v == 0: return out
            out.append(v)
    finally: e.quiet -= 1
def same_text(e, st, p, want):
    if not isinstance(p, Ptr) or p.r is None: return False
    try: got = text(e, st, p)
    except Unsupported: return False
    if got is None or len(got) != len(want): return False
    return z3.And([zb(e, st, g) == zb(e, st, w) for g, w in zip(got, want)] + [z3.BoolVal(True)])
S = lambda s: list(s.encode())
def same_ptr(e, p, q): return isinstance(p, Ptr) and p.r is q.r and (p.off - q.off).const and (p.off - q.off).c == 0
def table(e, st, argv, argc):
    e.quiet += 1
    try: return [[e.load(st, Ptr(argv.r, argv.off + 16 * i + 8 * k), 8, 'ptr') for k in (0, 1)] for i in range(argc + 1)]
    finally: e.quiet -= 1
def hooks(e, checks):
    """os::log and os::error are taken by contract: every call is recorded with its table"""
    def rec(kind):
        def h(e, st, a, I):
            st.ghost['calls'] = st.ghost.get('calls', ()) + (kind,)
            argc = a[1] if isinstance(a[1], int) else None
            if argc is None: e.prove(st, False, 'argument count'); return []
            checks(st, kind, a[0], argc, table(e, st, a[2], argc))
            r = z3.Bool(fresh_name('hook_says_break')) if kind == 'error' else None
            if kind == 'error': st.ghost['rc'] = r
            return [(st, r)]
        return h
    e.contracts += [(r'^ce::os::log\(', rec('log')), (r'^ce::os::error\(', rec('error'))]
def z32(e, v): return e.D.z(v, 32)

for n in range(4):
    @task('call_error_hook_%d' % n)
    def _(T, n=n):
        e = T.engine('int'); st = e.new_state(); Z = e.sym(st, 'Z', 64, lo=1, hi=1 << 40); info = e.array(st, 'info', 1, Z, const=True); A = e.arr(st, info); at = lambda i: z3.Select(A, i)
        nul = [z3.Int('nul%d' % k) for k in range(4)]; q = z3.Int('bq'); prev = z3.IntVal(1)
        for k in range(4):      # info: level, then three texts and the rest, each NUL terminated
            st.pc += [nul[k] >= prev, nul[k] < Z.lin.z(), at(nul[k]) == 0]; st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= prev, q < nul[k]), at(q) != 0), patterns=[at(q)])); prev = nul[k] + 1
        st.assume(z3.ForAll([q], z3.And(at(q) >= 0, at(q) < 256), patterns=[at(q)]))
        args = [Ptr(e.region(st, 'arg%d' % k, 64, const=True)) for k in range(n)]
        def checks(st, kind, level, argc, t):
            off = lambda p: p.off.z() if isinstance(p, Ptr) and p.r is info else None
            e.prove(st, argc == 2 + n, 'one entry per argument after the two of the failure')
            e.prove(st, e.zv(level, 32, st, True) == z3.If(at(0) < 128, at(0), at(0) - 256), 'the level asked for')
            o = [off(t[0][0]), off(t[0][1]), off(t[1][0]), off(t[1][1])]
            e.prove(st, None not in o and z3.And(o[0] == 1, o[1] == nul[1] + 1, o[2] == nul[0] + 1, o[3] == nul[2] + 1), 'kind, file, what and argument names, in their places')
            for k in range(n):
                e.prove(st, 2 + k < len(t) - 1 and same_text(e, st, t[2 + k][0], S('...')), 'argument %d has a placeholder name' % k)
                e.prove(st, 2 + k < len(t) - 1 and same_ptr(e, t[2 + k][1], args[k]), 'argument %d has its text' % k)
            e.prove(st, all(isinstance(p, Ptr) and p.r is None and p.off.const and p.off.c == 0 for p in t[-1]), 'a null entry ends the table')
        hooks(e, checks)
        e.measures = lambda c: [('to NUL %d' % k, lambda c, p=p, k=k: None if c.lin(p) is None else Lin.atom(nul[k], 0, 1 << 40) - c.lin(p)) for p in c.phis if p.ty.k == 'ptr' for k in range(4)]
        e.loop_cands = lambda c0: [('%s - %d not past NUL %d' % (p.name, d, k), lambda c, p=p, k=k, d=d: None if c.lin(p) is None else c.lin(p).z() - d <= nul[k]) for p in c0.phis if p.ty.k == 'ptr' for k in range(4) for d in (0, 1)]
        T.post(e, None, 'w_hook%d' % n, [Ptr(info)] + args, st, [('logged once, then handed to the error hook once', lambda st, v: st.ghost.get('calls') == ('log', 'error')), ('returns what the error hook says', lambda st, v: v == st.ghost['rc'])])

def symargs(e, st, kinds):
    """(argument, expected text or pointer)"""
    out = []
    for k, c in enumerate(kinds):
        if c == 's': p = Ptr(e.region(st, 'text%d' % k, 64, const=True)); out.append((p, p))
        elif c == 'c': v = e.sym(st, 'c%d' % k, 8); st.pc.append(e.D.z(v, 8) != 0); out.append((v, [v]))
        elif c == 'b': v = z3.Bool('b%d' % k); out.append((v, S('#<') + [z3.If(v, z3.BitVecVal(ord('T'), 8), z3.BitVecVal(ord('F'), 8))] + S('>')))
    return out
def check_entry(e, st, row, name, want, lab):
    e.prove(st, same_text(e, st, row[0], S(name)), lab + ' has its name')
    e.prove(st, same_ptr(e, row[1], want) if isinstance(want, Ptr) else same_text(e, st, row[1], want), lab + ' has its text')
def ends(e, st, row): e.prove(st, all(isinstance(p, Ptr) and p.r is None and p.off.const and p.off.c == 0 for p in row), 'a null entry ends the table')

def asserted(T, fn, kind, what, kinds, names, xy=True, ret=False):
    e = T.engine('bv'); st = e.new_state(); sa = symargs(e, st, kinds); x, y = e.sym(st, 'x', 32), e.sym(st, 'y', 32); bad = x < y if kind == 'CE_REJECT' else z3.Not(x < y) if xy else z3.BoolVal(True)
    def checks(st, k, level, argc, t):
        e.prove(st, bad, 'an assertion that holds has no effect'); e.prove(st, argc == 2 + len(kinds), 'one entry per argument after the two of the failure'); e.prove(st, z32(e, level) == 0, 'level 0')
        e.prove(st, same_text(e, st, t[0][0], S(kind)), 'the kind of failure'); e.prove(st, same_text(e, st, t[1][0], S(what)), 'the text of the failed expression'); e.prove(st, same_text(e, st, t[1][1], S(names)), 'the texts of the arguments')
        f = text(e, st, t[0][1]); ok = f is not None and all(isinstance(c, int) for c in f) and re.search(r'inst\.cpp\(\d+\)$', bytes(f).decode('latin1')); e.prove(st, bool(ok), 'the file and line')
        for k2, (a, want) in enumerate(sa):
            if 2 + k2 < len(t) - 1: check_entry(e, st, t[2 + k2], '...', want, 'argument %d' % k2)
            else: e.prove(st, False, 'argument %d is in the table' % k2)
        ends(e, st, t[-1])
    hooks(e, checks); e.asserts_run = True
    def trap(st): e.prove(st, st.ghost.get('rc', z3.BoolVal(False)), 'stops in the debugger only when the hook says so'); st.ghost['trap'] = True
    e.on_trap = trap; calls = lambda st: st.ghost.get('calls', ())
    P = [('the hooks run exactly when the condition fails', lambda st, v: bad == z3.BoolVal(calls(st) == ('log', 'error')) if calls(st) in ((), ('log', 'error')) else False),
         ('stops when the hook says so', lambda st, v: z3.Implies(z3.And(bad, st.ghost['rc']), z3.BoolVal(bool(st.ghost.get('trap')))) if 'rc' in st.ghost else True)]
    if ret: P.append(('yields the condition', lambda st, v: B(v) == (x < y)))
    if not xy: P = P[:1]; e.on_trap = lambda st: None
    T.post(e, None, fn, ([x, y] if xy else []) + [a for a, _ in sa], st, P)
task('assert0')(lambda T: asserted(T, 'w_assert0', 'CE_ASSERT', 'x < y', '', '')); task('assert1')(lambda T: asserted(T, 'w_assert1', 'CE_ASSERT', 'x < y', 's', 's')); task('assert3')(lambda T: asserted(T, 'w_assert3', 'CE_ASSERT', 'x < y', 'scb', 's, c, b'))
task('verify2')(lambda T: asserted(T, 'w_verify2', 'CE_VERIFY', 'x < y', 'sc', 's, c', ret=True)); task('reject2')(lambda T: asserted(T, 'w_reject2', 'CE_REJECT', 'x < y', 'sc', 's, c', ret=True)); task('error2')(lambda T: asserted(T, 'w_error2', 'CE_ERROR', '', 'sc', 's, c', xy=False))

def logged(T, fn, level, entries, args):
    """entries: (name, text) in order; args for the call"""
    def run(e, st, lv, ents, av):
        def checks(st, k, l, argc, t):
            e.prove(st, k == 'log', 'the log hook'); e.prove(st, z32(e, l) == e.D.z(lv, 32), 'the level asked for'); e.prove(st, argc == len(ents), 'one entry per argument')
            for i, (nm, want) in enumerate(ents):
                if i >= argc: e.prove(st, False, 'entry %d is in the table' % i); continue
                if isinstance(nm, Ptr): e.prove(st, same_ptr(e, t[i][0], nm), 'entry %d has its name' % i); e.prove(st, same_ptr(e, t[i][1], want) if isinstance(want, Ptr) else same_text(e, st, t[i][1], want), 'entry %d has its text' % i)
                else: check_entry(e, st, t[i], nm, want, 'entry %d' % i)
            ends(e, st, t[-1])
        hooks(e, checks); T.post(e, None, fn, av, st, [('logs exactly once', lambda st, v: st.ghost.get('calls') == ('log',))])
    e = T.engine('bv'); st = e.new_state(); run(e, st, *args(e, st))
@task('call_log_hook')
def _(T):
    def args(e, st):
        sa = symargs(e, st, 'scb'); keys = e.region(st, 'keys', 24, const=True); ks = [Ptr(e.region(st, 'key%d' % k, 16, const=True)) for k in range(3)]; lv = e.sym(st, 'level', 32)
        for k in range(3): st.mem[keys.id].cells[8 * k] = (8, ks[k])
        return lv, [(ks[k], w) for k, (a, w) in enumerate(sa)], [lv, Ptr(keys)] + [a for a, _ in sa]
    logged(T, 'w_loghook', None, None, args)
for lv, (nm, kinds, names) in enumerate([('fatal', '', ''), ('error', 's', 's'), ('warn', 'c', 'c'), ('note', 'sc', 'sc'), ('info', 'scb', 'scb'), ('debug', 'ss', 'st'), ('spam', 'bb', 'bd'), ('more', 'cc', 'cd')]):
    @task('log_' + nm)
    def _(T, lv=lv, nm=nm, kinds=kinds, names=names):
        def args(e, st): sa = symargs(e, st, kinds); return lv, [('$', S(nm))] + [(n, w) for n, (a, w) in zip(names, sa)], [a for a, _ in sa]
        logged(T, 'w_log_' + nm, lv, None, args)
@task('log_msg')
def _(T):
    def args(e, st): sa = symargs(e, st, 'cc'); return 2, [('$', S('warn')), ('$msg', [sa[0][0], ord('-'), sa[1][0]])], [a for a, _ in sa]
    logged(T, 'w_log_msg', 2, None, args)

def printed(T, fn, kind, null=False):
    """os::log / os::error: the texts handed to debug_out, in order; the table has argc entries of opaque texts"""
    e = T.engine('int'); st = e.new_state(); argc = e.sym(st, 'argc', 32, lo=0, hi=1 << 30, signed=True); N = argc.lin; lv = e.sym(st, 'level', 32, signed=True)
    r = Region('argv', N.scale(16) + 16, const=True, step=16); st.mem[r.id] = RegMem(); e.add_seg(st, r, 0, 16, N + 1, [(0, 8, True), (8, 8, True)], ['argv_name', 'argv_text']); AN, AT = e.arr(st, r, 0, 0), e.arr(st, r, 0, 1)
    out = e.array(st, 'printed', 8, Lin.atom(z3.Int('room'), 0, 1 << 40), signed=True); st.pc += [z3.Int('room') == 1 << 40]; g = e.region(st, 'count', 8); st.mem[g.id].cells[0] = (8, 0)
    tags = {}; J = z3.Int('J'); cnt = lambda st: e.zv(st.mem[g.id].cells[0][1], 64, st, False)
    def tag(s): return z3.IntVal(-1 - tags.setdefault(tuple(S(s) if isinstance(s, str) else s), len(tags)))
    def dbg(e, st, a, I):
        p = a[0]; v = z3.IntVal(-998)
        if isinstance(p, (IV, int)): v = e.D.cs(64, p, st).z()      # an opaque text address of the table
        elif isinstance(p, Ptr) and p.r is not None:
            t = text(e, st, p)
            if t is None: v = z3.IntVal(-999)
            elif len(t) == 4 and t[1:] == S(': {'): v = -1000 - zb(e, st, t[0])
            else: v = tag(t) if all(isinstance(x, int) for x in t) else z3.IntVal(-999)
        e.quiet += 1
        try:
            n = st.mem[g.id].cells[0][1]; l = e.D.cu(64, n, st) if not isinstance(n, int) else Lin(n)
            e.store(st, Ptr(out, l.scale(8)), IV(64, Lin.atom(v, -(1 << 63), (1 << 63) - 1)), 8); e.store(st, Ptr(g), IV(64, l + 1), 8)
        finally: e.quiet -= 1
        return [(st, None)]
    e.contracts.append((r'^ce::os::debug_out\(', dbg)); e.asserts_run = True
    at = lambda st, i: z3.Select(e.arr(st, out), i); L = z3.If(lv.lin.z() < 0, 0, z3.If(lv.lin.z() > 7, 7, lv.lin.z())); letter = z3.IntVal(ord('M'))
    for k, c in enumerate('FEWNIDS'): letter = z3.If(L == k, ord(c), letter)
    n = N.z(); nm, tx = (lambda i: z3.Select(AN, i)), (lambda i: z3.Select(AT, i))
    if kind == 'log':
        first, lo, pre = [-1000 - letter], 0, 1; last = [tag(' }\n')]
        per = [lambda i: z3.If(i == 0, tag(' '), tag(', ')), lambda i: tag('"'), nm, lambda i: tag('": "'), tx, lambda i: tag('"')]
    elif null: first, lo, pre, last, per = [tag('******** FAILED ********\n')], 0, 1, [], []
    else:
        first = [tag('******** FAILED ********\n'), tx(z3.IntVal(0)), tag(': '), nm(z3.IntVal(0)), tag(': '), nm(z3.IntVal(1)), tag(': ('), tx(z3.IntVal(1)), tag(') = (')]; lo, pre, last = 2, 9, [tag(')\n')]
        per = [lambda i: z3.If(i == 2, tag(''), tag(', ')), tx]
    K = len(per)
    def upto(st, i): return [('call %d' % k, at(st, k) == f) for k, f in enumerate(first)] + [('call %d of entry J' % k, z3.Implies(z3.And(lo <= J, J < i), at(st, pre + K * (J - lo) + k) == f(J))) for k, f in enumerate(per)]
    def cands(c0):
        o = [('entry at %s' % k, (lambda c, f=f: z3.And(f(c).z() >= lo, f(c).z() <= n, cnt(c.st) == pre + K * (f(c).z() - lo)))) for k, f in intidx(e, c0, (32, 64))]
        for k, f in intidx(e, c0, (32, 64)): o += [('%s: %s' % (k, nm2), lambda c, f=f, j=j: upto(c.st, f(c).z())[j][1]) for j, (nm2, _) in enumerate(upto(c0.st, z3.IntVal(0)))]
        return o
    e.loop_cands = cands
    total = lambda: pre + K * (n - lo) + len(last)
    if kind == 'error':
        st.pc.append(n > 1 if not null else z3.BoolVal(True))
        if null == 'small': st.pc.append(n <= 1)
    P = [('prints every piece once', lambda st, v: cnt(st) == (1 if null else total()))]
    P += [('piece %d' % k, lambda st, v, k=k, f=f: at(st, k) == f) for k, f in enumerate(first)] + [('piece %d of entry J' % k, lambda st, v, k=k, f=f: z3.Implies(z3.And(lo <= J, J < n), at(st, pre + K * (J - lo) + k) == f(J))) for k, f in enumerate(per)] + [('last piece', lambda st, v, f=f: at(st, total() - 1) == f) for f in last]
    if kind == 'error': P.append(('asks to break exactly for level 0', lambda st, v: e.zb(v, st) == (lv.lin.z() == 0) if hasattr(e, 'zb') else B(v) == (lv.lin.z() == 0)))
    T.post(e, None, fn, [lv, argc, NULL if null == 'null' else Ptr(r)], st, P)
task('os_log')(lambda T: printed(T, 'w_log', 'log')); task('os_error')(lambda T: printed(T, 'w_error', 'error')); task('os_error_short')(lambda T: printed(T, 'w_error', 'error', 'small')); task('os_error_null')(lambda T: printed(T, 'w_error', 'error', 'null'))
for isnull in (0, 1):
    @task('debug_out' + ('_null' if isnull else ''))
    def _(T, isnull=isnull):
        e = T.engine('int'); st = e.new_state(); n = e.sym(st, 'strlen', 64, lo=0, hi=1 << 40); r = e.array(st, 'text', 1, n, const=True)
        r.size = n.lin + 1      # and the NUL
        def strlen(e, st, a, I): e.prove(st, same_ptr(e, a[0], Ptr(r)), 'the length of the text'); return [(st, n)]
        def write(e, st, a, I):
            st.ghost['writes'] = st.ghost.get('writes', 0) + 1
            e.prove(st, e.zv(a[0], 32, st, True) == 2, 'to the standard error output'); e.prove(st, same_ptr(e, a[1], Ptr(r)), 'from the start of the text'); e.prove(st, e.zv(a[2], 64, st, False) == n.lin.z(), 'all of the text')
            return [(st, e.sym(st, fresh_name('wrote'), 64, signed=True))]
        e.externals += [(r'^strlen$', strlen), (r'^write$', write)]
        T.post(e, None, 'w_out', [NULL if isnull else Ptr(r)], st, [('written exactly once, a null text not at all', lambda st, v: st.ghost.get('writes', 0) == (0 if isnull else 1))])
