from spec import *
NATIVE = ['$REPO/lib/mutex_std.cpp', '$REPO/lib/os.cpp', '$REPO/lib/os_posix.cpp', '$REPO/lib/to_text.cpp']
ASSUMPTIONS = ['the pthread mutex and rwlock calls are external; their contract is assumed: 0 means the named hold was gained (or given up), any other result means nothing changed; only the lock and rdlock/wrlock calls wait; the rwlock calls report only EBUSY (try), EAGAIN (read) and EDEADLK',
  'libstdc++ std::mutex and std::shared_mutex are inlined down to these calls; a freshly constructed pthread lock is all zero bytes (glibc static initializer)', 'a lock call that reports misuse (not 0) ends in the std::system_error path, which does not return', 'waiting: no bound on the time acquire waits']
KINDS = {'pthread_mutex_lock': ('m', 'x', True), 'pthread_mutex_trylock': ('m', 'x', False), 'pthread_mutex_unlock': ('m', 'r', False), 'pthread_rwlock_wrlock': ('s', 'x', True), 'pthread_rwlock_trywrlock': ('s', 'x', False),
         'pthread_rwlock_rdlock': ('s', 's', True), 'pthread_rwlock_tryrdlock': ('s', 's', False), 'pthread_rwlock_unlock': ('s', 'r', False)}
RC = {'pthread_rwlock_wrlock': (0, 35), 'pthread_rwlock_trywrlock': (0, 16), 'pthread_rwlock_rdlock': (0, 11, 35), 'pthread_rwlock_tryrdlock': (0, 11, 16)}     # EDEADLK 35, EBUSY 16, EAGAIN 11
CELL = dict(x=0, s=8, r=16)
def run(T, fn, kind, posts, blocking=True, fresh=False):
    e = T.engine('bv', termination=False); st = e.new_state(); size = e.mod.globals['layM'].init.v[0 if kind == 'm' else 1].v; q = e.region(st, 'lock', size); g = e.region(st, 'ghost', 24)
    for o in CELL.values(): st.mem[g.id].cells[o] = (8, 0)
    n = lambda st, c: e.D.z(st.mem[g.id].cells[CELL[c]][1], 64)
    def call(e, st, a, I, nm):
        k, eff, waits = KINDS[nm]; rc = z3.BitVec(fresh_name('rc'), 32)
        e.prove(st, k == kind and isinstance(a[0], Ptr) and a[0].r is q and a[0].off.const and a[0].off.c == 0, 'the lock call is made on the underlying lock of the object')
        if waits and not blocking: e.prove(st, False, 'a try operation never waits')
        ok = RC.get(nm); st.assume(rc >= 0 if ok is None else z3.Or(*[rc == x for x in ok])); st.ghost['rc'] = rc
        e.quiet += 1
        try: e.store(st, Ptr(g, Lin(CELL[eff])), z3.If(rc == 0, n(st, eff) + 1, n(st, eff)), 8)
        finally: e.quiet -= 1
        return [(st, rc)]
    for nm in KINDS: e.externals.append(('^%s$' % nm, lambda e, st, a, I, nm=nm: call(e, st, a, I, nm)))
    def die(e, st, a, I):
        e.prove(st, st.ghost['rc'] != 0 if 'rc' in st.ghost else False, 'the error path is only taken when the lock reports an error'); return []
    e.externals.append((r'__throw_system_error|__glibcxx_assert_fail', die))
    e.externals.append((r'^pthread_(mutex|rwlock)_destroy$', lambda e, st, a, I: (e.prove(st, isinstance(a[0], Ptr) and a[0].r is q, 'destroys the underlying lock'), [(st, 0)])[1]))
    e.loop_cands = lambda c0: [('no %s so far' % c, lambda c, k=k: n(c.st, k) == 0) for k, c in (('x', 'exclusive hold'), ('s', 'shared hold'), ('r', 'release'))]
    before = st.clone(); T.post(e, None, fn, [Ptr(q)], st, posts(e, n, q))
def gained(mode):
    def posts(e, n, q):
        return [('returns with exactly one %s hold' % ('exclusive' if mode == 'x' else 'shared'), lambda st, v: n(st, mode) == 1), ('no other hold is taken or given up', lambda st, v: z3.And(*[n(st, c) == 0 for c in CELL if c != mode]))]
    return posts
def tried(mode):
    def posts(e, n, q):
        return [('reports whether the hold was gained', lambda st, v: n(st, mode) == z3.If(B(v), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))), ('no other hold is taken or given up', lambda st, v: z3.And(*[n(st, c) == 0 for c in CELL if c != mode]))]
    return posts
def released(e, n, q):
    rc = lambda st: st.ghost.get('rc')
    return [('gives up exactly one hold', lambda st, v: False if rc(st) is None else n(st, 'r') == z3.If(rc(st) == 0, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))), ('takes no hold', lambda st, v: z3.And(n(st, 'x') == 0, n(st, 's') == 0))]
def made(e, n, q):
    return [('the lock starts free: all bytes of the initial lock value', lambda st, v: e.D.z(e.load(st, Ptr(q), q.size if isinstance(q.size, int) else q.size.c), 8 * (q.size if isinstance(q.size, int) else q.size.c)) == 0), ('takes no hold', lambda st, v: z3.And(*[n(st, c) == 0 for c in CELL]))]
def gone(e, n, q): return [('no hold is taken or given up', lambda st, v: z3.And(*[n(st, c) == 0 for c in CELL]))]
for k in 'ms':
    task(k + '_construct')(lambda T, k=k: run(T, k + '_construct', k, made)); task(k + '_destroy')(lambda T, k=k: run(T, k + '_destroy', k, gone))
    task(k + '_acquire')(lambda T, k=k: run(T, k + '_acquire', k, gained('x'))); task(k + '_try')(lambda T, k=k: run(T, k + '_try', k, tried('x'), False)); task(k + '_release')(lambda T, k=k: run(T, k + '_release', k, released, False))
task('s_acquire_shared')(lambda T: run(T, 's_acquire_shared', 's', gained('s'))); task('s_try_shared')(lambda T: run(T, 's_try_shared', 's', tried('s'), False)); task('s_release_shared')(lambda T: run(T, 's_release_shared', 's', released, False))
@task('layout')
def _(T):
    e = T.engine('bv'); st = e.new_state(); L = [x.v for x in e.mod.globals['layM'].init.v]; e.cover(st, 'layout'); e.prove(st, L[0] >= L[2] and L[1] >= L[3], 'the object has room for the underlying lock')
