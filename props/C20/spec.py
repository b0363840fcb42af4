from spec import *
ASSUMPTIONS = ['successive timestamps do not decrease', 'no-overflow range: frequency*Fd*(Fn+1) < 2^64 and total elapsed*Fn/(frequency*Fd) < 2^64 (hundreds of years at 1 GHz for the instantiated rates)', 'clock_gettime/nanosleep: the platform contract (tv_nsec in [0, 1e9), tv_sec below 2^33) is assumed', 'rates instantiated: 60, 1000, 1e9, 24000/1001, 1/60 per second; the timestamp frequency is symbolic in the reading steps']
RATES = dict(A=(60, 1), B=(1000, 1), C=(1000000000, 1), D=(24000, 1001), E=(1, 60))
def setup(T, S):
    Fn, Fd = RATES[S]; e = T.engine('int'); st = e.new_state(); lay = [x.v for x in e.mod.globals['lay' + S].init.v]
    r = e.region(st, 'clock', lay[0]); f = {}
    for nm, o in zip(('frequency', 'timestamp', 'residual', 'tick'), lay[1:]):
        f[nm] = e.sym(st, nm, 64); st.mem[r.id].cells[o] = (8, f[nm])
    get = lambda st, nm: e.zv(e.load_cell(st, r, lay[1 + ('frequency', 'timestamp', 'residual', 'tick').index(nm)], 8), 64, st)
    now = e.sym(st, 'now', 64); st.ghost['reads'] = 0
    def ts(e, st, a, I): st.ghost['reads'] = st.ghost['reads'] + 1; return [(st, now)]
    e.contracts.append((r'^ce::os::monotonic_timestamp\(', ts))
    return e, st, r, f, get, now, Fn, Fd
def reading(T, S, fn):
    e, st, r, f, get, now, Fn, Fd = setup(T, S)
    F = f['frequency'].lin.z(); fd = F * Fd; t0 = z3.Int('t0'); ts, rs, tk = (f[k].lin.z() for k in ('timestamp', 'residual', 'tick')); nw = now.lin.z()
    st.pc += [F >= 1, fd * (Fn + 1) < 1 << 64, rs < fd, t0 >= 0, t0 <= ts, ts <= nw, tk * fd + rs == (ts - t0) * Fn]
    # the ticks of the whole history fit the counter (instantiated at the quotient the code computes)
    st.pc += [(nw - t0) * Fn < fd * ((1 << 64) - 1)]
    inv = lambda st: z3.And(get(st, 'tick') * fd + get(st, 'residual') == (nw - t0) * Fn, get(st, 'residual') >= 0, get(st, 'residual') < fd)
    T.post(e, None, 'w_%s%s' % (fn, S), [Ptr(r)], st, [
        ('ticks*fd + residual stays exactly elapsed*Fn: tick = floor(elapsed*Fn/fd)', lambda st, v: inv(st)),
        ('returns the increase since the last reading' if fn == 'elapsed' else 'returns the total', lambda st, v: e.zv(v, 64, st) == get(st, 'tick') - (tk if fn == 'elapsed' else 0)),
        ('remembers the timestamp read, keeps the frequency', lambda st, v: z3.And(get(st, 'timestamp') == nw, get(st, 'frequency') == F)),
        ('the time is read exactly once', lambda st, v: z3.BoolVal(st.ghost['reads'] == 1))])
def reset(T, S):
    e, st, r, f, get, now, Fn, Fd = setup(T, S)
    T.post(e, None, 'w_reset' + S, [Ptr(r)], st, [('starts at zero ticks from the current time', lambda st, v: z3.And(get(st, 'tick') == 0, get(st, 'residual') == 0, get(st, 'timestamp') == now.lin.z(), get(st, 'frequency') == 1000000000))])
for S in RATES:
    for fn in ('elapsed', 'current'): task('%s_%s' % (fn, S))(lambda T, S=S, fn=fn: reading(T, S, fn))
    task('reset_' + S)(lambda T, S=S: reset(T, S))
@task('os time')
def _(T):
    for ok in (True, False):
        e = T.engine('int'); st = e.new_state(); s = e.sym(st, 'sec', 64, hi=(1 << 33) - 1); n = e.sym(st, 'nsec', 64, hi=999999999); e.prefix += 'ok: ' if ok else 'failed: '
        def gettime(e, st, a, I):
            e.prove(st, a[0] in (1, 4) if isinstance(a[0], int) else False, 'reads a monotonic clock')
            if not ok: return [(st, e.fresh(st, 32, 'err')), ] if False else [(st, (1 << 32) - 1)]
            e.store(st, a[1], s, 8); e.store(st, Ptr(a[1].r, a[1].off + 8), n, 8); return [(st, 0)]
        e.contracts.append((r'^clock_gettime', gettime))
        T.post(e, None, 'w_ts', [], st, [('seconds*1e9 + nanoseconds' if ok else '0 when the clock cannot be read', lambda st, v: e.zv(v, 64, st) == (s.lin.z() * 1000000000 + n.lin.z() if ok else 0))])
    e = T.engine('int'); st = e.new_state(); T.post(e, None, 'w_freq', [], st, [('frequency matches the timestamp unit', lambda st, v: e.zv(v, 64, st) == 1000000000)])
    e = T.engine('int'); st = e.new_state(); ns = e.sym(st, 'ns', 64); st.ghost['n'] = 0
    def nanosleep(e, st, a, I):
        sec, nsec = (e.zv(e.load(st, Ptr(a[0].r, a[0].off + o), 8), 64, st, True) for o in (0, 8))
        e.prove(st, z3.And(sec >= 0, nsec >= 0, nsec < 1000000000, sec * 1000000000 + nsec == ns.lin.z()), 'sleeps for exactly the requested time'); st.ghost['n'] = st.ghost['n'] + 1; return [(st, 0)]
    e.contracts.append((r'^nanosleep', nanosleep))
    T.post(e, None, 'w_sleep', [ns], st, [('one sleep', lambda st, v: z3.BoolVal(st.ghost['n'] == 1))])
NATIVE = []
