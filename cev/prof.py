"""CEV_PROF=1: time per engine entry point and per obligation name, printed to stderr when a task ends"""
import engine, collections, time, sys
agg = collections.defaultdict(lambda: [0, 0.0, 0.0])
def wrap(nm, key=lambda s, a: ''):
    f = getattr(engine.Engine, nm)
    def g(s, *a, **k):
        t = time.time(); r = f(s, *a, **k); d = time.time() - t; x = agg[nm, key(s, a)]; x[0] += 1; x[1] += d; x[2] = max(x[2], d); return r
    setattr(engine.Engine, nm, g)
for n in ('feasible', 'quick_valid', 'full', 'cover'): wrap(n)
wrap('prove', lambda s, a: str(a[2])[:70])
def report():
    for k, v in sorted(agg.items(), key=lambda x: -x[1][1])[:14]: print('PROF %-14s %-70s n=%d t=%.1f max=%.1f' % (k[0], k[1], *v), file=sys.stderr)
