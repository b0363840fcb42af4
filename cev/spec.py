"""What a property's spec.py uses: task registry, engines bound to the module compiled from /repo on this run, invariant-candidate helpers."""
import z3, time, re
import ir, engine
from engine import *
from dom import *

TASKS = []

def task(name, dom='int', **kw):
    def deco(f):
        TASKS.append(dict(name=name, dom=dom, fn=f, kw=kw)); return f
    return deco

class T:
    """one verification task = one function (or one function pair) under contract"""
    def __init__(s, mod, name, verbose=False): s.mod, s.name, s.verbose = mod, name, verbose; s.engines = []; s.notes = []
    def engine(s, dom='int', **kw):
        e = Engine(s.mod, dom, verbose=s.verbose); e.prefix = s.name + ': '; e.termination = True
        for k, v in kw.items(): setattr(e, k, v)
        s.engines.append(e); return e
    def post(s, e, st0, fn, args, st, posts, name='post', cover=True, min_paths=1):
        """run fn and prove each (label, st,ret -> formula) on every outcome"""
        outs = e.call(fn, args, st.clone())        # the caller's state stays the pre-state
        if cover:
            nm = fn if isinstance(fn, str) else short(fn)
            e.cover(st0 or st, nm + ' entry')
            if outs and not any(e.check(o[0], z3.BoolVal(True), 3000) != z3.unsat for o in outs): e.obl.append(dict(name=e.prefix + 'cover: %s exit' % nm, status='vacuous', backend='z3', time=0, trail=None, cover=True))
        for k, (st2, ret) in enumerate(outs):
            for lab, f in posts:
                g = f(st2, ret)
                e.prove(st2, g, '%s %s' % (fn if isinstance(fn, str) else short(fn), lab))
        if len(outs) < min_paths: e.obl.append(dict(name=e.prefix + 'no path returns from %s' % fn, status='vacuous', backend='engine', time=0, trail=None, cover=True))
        return outs

def bvidx(e, c):
    """index-like readings of the loop's variables in the bv domain: 64-bit terms"""
    out = []
    for p in c.ints():
        if p.w in (32, 64):
            out.append((p.name, lambda c, p=p: (lambda v: v if p.w == 64 else z3.ZeroExt(32, v))(e.D.z(c.vals[p.name], p.w))))
    for p in c.ptrs():
        r = p.entry.r
        if r is None: continue
        def f(c, p=p, r=r):
            off = c.vals[p.name].off
            return off.exact(r.step).bv(64) if off.divisible(r.step) else None
        out.append((p.name, f))
    return out

def intidx(e, c, w=None):
    out = []
    for p in c.phis:
        if p.ty.k == 'int' and p.w > 1 and (w is None or p.w in w) or p.ty.k == 'ptr' and isinstance(p.entry, Ptr) and p.entry.r is not None:
            out.append((p.name, lambda c, p=p: c.lin(p)))
    return out
