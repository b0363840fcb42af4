"""Deductive verifier over LLVM IR: symbolic execution of one function at a time, loops cut by inductive invariants (Houdini-filtered
candidates supplied by the property's contract), calls replaced by contracts or executed in place, every obligation sent to an SMT solver."""
import z3, time, sys, re, os, math, subprocess, tempfile
import ir, gf2
from dom import *
import dom as D_

sys.setrecursionlimit(200000)

CMP = {}   # z3 comparison id -> (expr, p, x, y): lets assume() refine interval bounds
_l = D_.lcmp
def _lcmp(p, x, y, st):
    r = _l(p, x, y, st)
    if not isb(r) and p in ('lt', 'le', 'gt', 'ge', 'eq'): CMP[r.get_id()] = (r, p, x, y)
    return r
D_.lcmp = _lcmp
lcmp = _lcmp
_icmp = IntDom.icmp
def _icmp2(s, pred, w, a, b, st):
    r = _icmp(s, pred, w, a, b, st)
    return r
IntDom.icmp = _icmp2


class Region:
    _n = 0
    def __init__(s, name, size=None, default='fresh', const=False, segs=None, step=1):
        Region._n += 1
        s.id = Region._n; s.name = name; s.size = size; s.default = default; s.const = const; s.segs = segs or []; s.step = step; s.shared = False; s.freed = False; s.gl = None; s.ranges = {}
    def __repr__(s): return 'R%d:%s' % (s.id, s.name)


class Seg:
    """array part of a region: count elements of `stride` bytes from byte `start`; fields (sub, size, signed)"""
    def __init__(s, start, stride, count, fields): s.start, s.stride, s.count, s.fields = start, stride, count, fields


class RegMem:
    __slots__ = ('cells', 'arrs')
    def __init__(s, cells=None, arrs=None): s.cells = cells or {}; s.arrs = arrs or {}
    def clone(s): return RegMem(dict(s.cells), dict(s.arrs))


class Ptr:
    __slots__ = ('r', 'off')
    def __init__(s, r, off=None): s.r = r; s.off = off if off is not None else Lin(0)
    def __repr__(s): return 'Ptr(%s+%r)' % (s.r, s.off)
NULL = Ptr(None)


class FnPtr:
    def __init__(s, name): s.name = name


class State:
    __slots__ = ('pc', 'heavy', 'mem', 'bounds', 'defs', 'ghost', 'eng', 'rcache', 'trail')
    def __init__(s, eng): s.pc = []; s.heavy = []; s.mem = {}; s.bounds = {}; s.defs = set(); s.ghost = {}; s.eng = eng; s.rcache = {}; s.trail = []
    def clone(s):
        n = State(s.eng); n.pc = list(s.pc); n.heavy = list(s.heavy); n.mem = dict(s.mem); n.bounds = dict(s.bounds); n.defs = set(s.defs); n.ghost = dict(s.ghost); n.trail = list(s.trail); n.rcache = {}
        return n
    def define(s, k, facts):
        if k not in s.defs:
            s.defs.add(k); s.pc.extend(facts)
    def bound(s, a, lo, hi):
        b = s.bounds.get(a, (None, None))
        l = b[0] if lo is None else lo if b[0] is None else max(lo, b[0]); h = b[1] if hi is None else hi if b[1] is None else min(hi, b[1])
        s.bounds[a] = (l, h)
    def known_range(s, lin, lo, hi, l, h):
        k = (lin.key(), lo, hi, len(s.pc))
        r = s.rcache.get(k)
        if r is None:
            c = []
            if l is None or l < lo: c.append(lin.z() >= lo)
            if h is None or h > hi: c.append(lin.z() <= hi)
            r = s.rcache[k] = s.eng.quick_valid(s, z3.And(c))
        return r
    def assume(s, c, pol=True):
        if isb(c):
            if c != pol: s.pc.append(z3.BoolVal(False))
            return
        if z3.is_not(c): return s.assume(c.arg(0), not pol)
        if pol and z3.is_and(c):
            for x in c.children(): s.assume(x, True)
            return
        if not pol and z3.is_or(c):
            for x in c.children(): s.assume(x, False)
            return
        if z3.is_quantifier(c) or has_quant(c):
            s.heavy.append(c if pol else z3.Not(c)); return
        s.pc.append(c if pol else z3.Not(c))
        i = CMP.get(c.get_id())
        if i: s.refine(i[1], i[2], i[3], pol)
    def refine(s, p, x, y, pol):
        if not pol:
            p = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne'}[p]
        if p == 'ne': return
        if p in ('gt', 'ge'): x, y, p = y, x, {'gt': 'lt', 'ge': 'le'}[p]
        if p == 'eq': s.ref(x - y); s.ref(y - x)
        else: s.ref(x - y + (1 if p == 'lt' else 0))
    def ref(s, d):
        # d <= 0
        if len(d.m) > 6: return
        for a, k in d.m.items():
            rest = Lin(d.c, {b: v for b, v in d.m.items() if b != a})
            lo, hi = rest.bounds(s)
            if lo is None: continue
            if k > 0: s.bound(a, None, (-lo) // k)
            else: s.bound(a, -((-lo) // (-k)), None)


_hq = {}
def has_ite(e):
    seen = set(); todo = [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE: return True
        todo += x.children()
    return False
def has_quant(e):
    k = e.get_id(); r = _hq.get(k)
    if r is None:
        if z3.is_quantifier(e): q = True
        else: q = any(has_quant(c) for c in e.children())
        _hq[k] = r = (q, e)
    return r[0]


class Frame:
    __slots__ = ('fn', 'env', 'stop', 'mode', 'depth', 'args', 'iters')
    def __init__(s, fn, args, depth): s.fn = fn; s.args = args; s.env = {}; s.stop = None; s.mode = {}; s.depth = depth; s.iters = {}
    def clone(s):
        n = Frame(s.fn, s.args, s.depth); n.env = dict(s.env); n.stop = s.stop; n.mode = dict(s.mode); n.iters = dict(s.iters); return n


class PhiInfo:
    def __init__(s, I, entry): s.I = I; s.name = I.name; s.ty = I.ty; s.entry = entry; s.w = I.ty.w; s.stride = None; s.signed = False
    def __repr__(s): return '%s=%r' % (s.name, s.entry)


class LoopCtx:
    """what a candidate invariant may talk about"""
    def __init__(s, eng, frame, header, phis, vals, st, entry_st, entry):
        s.eng, s.frame, s.header, s.phis, s.vals, s.st, s.entry_st, s.entry = eng, frame, header, phis, vals, st, entry_st, entry
    def lin(s, p, vals=None):
        """integer reading of a phi: ints by signedness, pointers as element index from the region start"""
        v = (vals or s.vals)[p.name]
        if isinstance(v, Ptr):
            if v.r is None: return None
            st = p.stride
            return v.off.exact(st) if v.off.divisible(st) else None
        if isinstance(v, PInt): return None
        d = s.eng.D
        if d.name != 'int': return v
        return d.cs(p.w, v, s.st) if p.signed else d.cu(p.w, v, s.st)
    def elin(s, p): return s.lin(p, s.entry)
    def z(s, p):
        l = s.lin(p); return l.z() if isinstance(l, Lin) and s.eng.D.name == 'int' else l
    def ez(s, p):
        l = s.elin(p); return l.z() if isinstance(l, Lin) and s.eng.D.name == 'int' else l
    def ints(s, w=None): return [p for p in s.phis if p.ty.k == 'int' and (w is None or p.w == w)]
    def ptrs(s, r=None): return [p for p in s.phis if p.ty.k == 'ptr' and isinstance(s.vals[p.name], Ptr) and (r is None or s.vals[p.name].r is r)]


UFMUL = z3.Function('product', z3.IntSort(), z3.IntSort(), z3.IntSort())
class Peel(Unsupported): pass

DROP = os.environ.get('CEV_DROP')

RL = 2000    # z3 resource units granted per millisecond of nominal limit: verdicts do not depend on how busy the machine is
def limit(sol, ms):
    sol.set('rlimit', ms * RL); sol.set('timeout', ms * 6 + 2000)


class Engine:
    def __init__(s, mod, dom='int', timeout=15000, verbose=False):
        s.mod = mod; s.D = IntDom() if dom == 'int' else BVDom()
        s.timeout = timeout; s.verbose = verbose
        s.solver = z3.Solver(); s.sstack = []
        s.obl = []; s.quiet = 0; s.contracts = []; s.externals = []; s.loop_cands = None; s.globals = {}; s.wlogs = []
        s.stats = dict(queries=0, qtime=0.0, paths=0, houdini=0)
        s.assumptions = set(); s.inlined = set(); s.contracted = set(); s.path_budget = 20000
        s.ub_nsw = False; s.prefix = ''; s.tables = {}; s.deadline = None; s.auto_cands = True; s.max_unroll = 4096; s.loop_log = [] ; s.refuted = {}; s.on_event = None; s.on_trap = None; s.anyint = None    # anyint: region of opaque addresses (pointers that are only carried around)
        s.default_lemmas = None; s.models = []; s.split_goals = True; s.feas_timeout = 500; s.q_timeout = 300; s.termination = False; s.measures = None
        s.force_unroll = None; s.unroll_all = False; s.stride_hint = None; s.on_alloca = None; s.seg_stride = None; s.matching_only = False; s.loop_defs = None; s.concrete_only = False; s.ilog = True; s.hints = []; s.houd_timeout = 3000; s.use_cvc5 = True; s.tactic = None; s.max_depth = 60; s.ufmul = False; s.max_concrete = None
        s.heavy_ok = True; s.on_store = None; s.catab = {}; s.gf_lemmas = None; s.gf2 = False; s.name_ite = False

    # ------------------------------------------------------------ solver
    def sync(s, pc):
        st = s.sstack; i = 0; n = min(len(st), len(pc))
        while i < n and st[i].get_id() == pc[i].get_id(): i += 1
        if len(st) > i:
            s.solver.pop(len(st) - i); del st[i:]
        for f in pc[i:]:
            s.solver.push(); s.solver.add(f); st.append(f)
    def check(s, st, extra, timeout):
        if s.deadline and time.time() > s.deadline: return z3.unknown
        t = time.time(); s.stats['queries'] += 1
        s.sync(st.pc)
        limit(s.solver, timeout)
        s.solver.push(); s.solver.add(extra)
        try: r = s.solver.check()
        except z3.Z3Exception: r = z3.unknown
        s.last_model = s.solver.model() if r == z3.sat else None
        s.solver.pop()
        s.stats['qtime'] += time.time() - t
        return r
    def quick_valid(s, st, c): return s.check(st, z3.Not(c), s.q_timeout) == z3.unsat
    def feasible(s, st, c):
        if isb(c): return c
        return s.check(st, c, s.feas_timeout) != z3.unsat
    def conj(s, g):
        if not isb(g) and z3.is_and(g):
            r = []
            for c in g.children(): r += s.conj(c)
            return r
        return [g]
    def valid(s, st, goal, timeout=None):
        """(status, backend, model)"""
        timeout = timeout or s.timeout
        if isb(goal): 
            if goal: return 'proved', 'simplifier', None
            r = s.check(st, z3.BoolVal(True), min(timeout, 4000))
            if r == z3.unsat: return 'proved', 'z3', None
            if st.heavy: 
                return s.full(st, z3.BoolVal(True), timeout)
            return ('refuted' if r == z3.sat else 'unknown'), 'z3', s.last_model
        neg = z3.Not(goal)
        if s.gf2 and z3.is_eq(goal) and z3.is_bv(goal.arg(0)):
            t = time.time()
            ok = gf2.prove_eq(st.pc + list(st.ghost.get('gf', ())), goal); s.stats['qtime'] += time.time() - t; s.stats['queries'] += 1
            if ok: return 'proved', 'gf2', None
        if not has_quant(goal):
            r = s.check(st, neg, timeout if not st.heavy else min(timeout, 2000))
            if r == z3.unsat: return 'proved', 'z3', None
            if r == z3.sat and not st.heavy: return 'refuted', 'z3', s.last_model
        return s.full(st, neg, timeout)
    def full(s, st, neg, timeout):
        if s.deadline and time.time() > s.deadline: return 'unknown', 'deadline', None
        t = time.time(); s.stats['queries'] += 1
        model = None
        try:
            # with quantifiers: the plain SMT core by pattern matching alone, the default tactics, these by pattern matching alone
            for k, cfg in (((2, {'smt.mbqi': False}), (0, {}), (1, {'smt.mbqi': False, 'auto_config': False}))[:1 if s.matching_only else 3] if st.heavy or has_quant(neg) else ((0, {}),)):
                sol = z3.SimpleSolver() if k == 2 else z3.Solver() if not s.tactic else s.tactic()
                limit(sol, timeout // 2 if k == 0 and len(st.heavy) else timeout)
                for a, b in cfg.items(): sol.set(a, b)
                sol.add(st.pc); sol.add(st.heavy); sol.add(neg)
                r = sol.check()
                if r == z3.unsat: return 'proved', 'z3' + ('' if k == 0 else '/ematch'), None
                if r == z3.sat and k != 2: return 'refuted', 'z3', sol.model()
            if s.use_cvc5 and not s.quiet:
                sol = z3.Solver(); sol.add(st.pc); sol.add(st.heavy); sol.add(neg)
                r = cvc5_check(sol, timeout)
                if r == 'unsat': return 'proved', 'cvc5', None
                if r == 'sat': return 'refuted', 'cvc5', None
            return 'unknown', 'z3+cvc5', model
        except z3.Z3Exception as e:
            return 'unknown', str(e)[:60], None
        finally:
            s.stats['qtime'] += time.time() - t
    def prove(s, st, goal, name, timeout=None):
        """an obligation: record and decide.  Returns True when discharged."""
        if s.quiet: return True
        ok = True
        for i, g in enumerate(s.conj(goal)):
            t = time.time()
            status, be, model = s.valid(st, g, timeout)
            rec = dict(name=s.prefix + name, status=status, backend=be, time=time.time() - t, trail=None)
            if status != 'proved':
                ok = False
                rec['trail'] = list(st.trail)[-40:]; rec['goal'] = str(g)[:600]
                if model is not None: rec['model'] = model_dict(model); 
            s.obl.append(rec)
            if s.verbose and (status != 'proved' or s.verbose > 1): print('  [%s] %s %s %.2fs %s' % (status, s.prefix, name, rec['time'], str(g)[:300] if status != 'proved' else ''), flush=True)
        return ok
    def cover(s, st, name):
        """reachability (non-vacuity): the path facts must be satisfiable (unknown counts as not refuted)"""
        r = s.check(st, z3.BoolVal(True), 5000)
        s.obl.append(dict(name=s.prefix + 'cover:' + name, status='proved' if r != z3.unsat else 'vacuous', backend='z3', time=0, trail=None, cover=True))
        return r != z3.unsat

    # ------------------------------------------------------------ spec helpers
    def new_state(s): return State(s)
    def sym(s, st, name, w, lo=None, hi=None, signed=False):
        if w == 1: return z3.Bool(name)
        if s.D.name == 'int':
            e = z3.Int(name)
            dl, dh = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, mask(w))
            lo = dl if lo is None else lo; hi = dh if hi is None else hi
            st.pc += [e >= lo, e <= hi]
            return IV(w, Lin.atom(e, lo, hi))
        e = z3.BitVec(name, w)
        if lo is not None: st.pc.append(z3.UGE(e, lo) if not signed else e >= lo)
        if hi is not None: st.pc.append(z3.ULE(e, hi) if not signed else e <= hi)
        return e
    def fresh(s, st, w, name='v', signed=False):
        v = s.D.fresh(w, name, signed)
        if isinstance(v, IV):
            e = v.lin.z(); lo, hi = v.lin.bounds()
            st.pc += [e >= lo, e <= hi]
        return v
    def fresh_bool(s, name='b'): return z3.Bool(fresh_name(name))
    def zv(s, v, w, st, signed=False):
        """z3 term of a machine integer"""
        if isb(v): return z3.If(B(v), *( (z3.IntVal(1), z3.IntVal(0)) if s.D.name == 'int' else (z3.BitVecVal(1, w), z3.BitVecVal(0, w))))
        if isinstance(v, z3.BoolRef): return z3.If(v, *((z3.IntVal(1), z3.IntVal(0)) if s.D.name == 'int' else (z3.BitVecVal(1, w), z3.BitVecVal(0, w))))
        return s.D.sg(v, w, st) if signed else s.D.u(v, w, st)
    def region(s, st, name, size=None, default='fresh', const=False, step=1):
        r = Region(name, size, default, const, step=step); st.mem[r.id] = RegMem(); return r
    def add_seg(s, st, r, start, stride, count, fields, names=None):
        """count: int or Lin"""
        sg = Seg(start, stride, count if isinstance(count, (int, Lin)) else s.D.to_off(count, 64, st), [(f + (False,))[:3] for f in fields]); r.segs.append(sg)
        m = st.mem[r.id].clone(); k = len(r.segs) - 1
        for i, (sub, size, sgd) in enumerate(sg.fields):
            m.arrs[(k, i)] = z3.Array((names[i] if names else '%s_%d_%d' % (r.name, k, i)), s.D.idx_sort(), s.D.val_sort(size * 8))
        st.mem[r.id] = m
        return k
    def array(s, st, name, elsize, count, signed=False, const=False):
        c = count if isinstance(count, (int, Lin)) else s.D.to_off(count, 64, st)
        r = Region(name, c * elsize if isinstance(c, int) else c.scale(elsize), 'fresh', const, step=elsize); st.mem[r.id] = RegMem()
        s.add_seg(st, r, 0, elsize, c, [(0, elsize, signed)], [name])
        return r
    def arr(s, st, r, seg=0, field=0): return st.mem[r.id].arrs[(seg, field)]
    def set_arr(s, st, r, a, seg=0, field=0):
        m = st.mem[r.id].clone(); m.arrs[(seg, field)] = a; st.mem[r.id] = m

    # ------------------------------------------------------------ memory
    def gregion(s, name, st):
        r = s.globals.get(name)
        if r is None:
            g = s.mod.globals[name]
            r = Region('@' + name[:60], g.ty.size, 'fresh', g.const); r.gl = g; s.globals[name] = r
        if r.id not in st.mem:
            m = st.mem[r.id] = RegMem()         # before its initialiser, which may point into it
            g = r.gl
            if g.init is not None: s.put_const(m.cells, 0, g.init, g.ty, st)
        return r
    def put_const(s, cells, off, c, ty, st):
        if c.k == 'zero' or (c.k == 'null' and ty.k in ('struct', 'array')):
            s.zero_fill(cells, off, ty); return
        if c.k == 'undef': return
        if ty.k == 'array':
            for i, e in enumerate(c.v): s.put_const(cells, off + i * ty.el.size, e, ty.el, st)
        elif ty.k == 'struct':
            for i, e in enumerate(c.v): s.put_const(cells, off + ty.offs[i], e, ty.els[i], st)
        elif ty.k == 'vector':
            for i, e in enumerate(c.v): s.put_const(cells, off + i * ty.el.size, e, ty.el, st)
        else:
            cells[off] = (ty.size, s.cval(c, st))
    def zero_fill(s, cells, off, ty):
        if ty.k == 'array':
            for i in range(ty.n): s.zero_fill(cells, off + i * ty.el.size, ty.el)
        elif ty.k == 'struct':
            for i, e in enumerate(ty.els): s.zero_fill(cells, off + ty.offs[i], e)
        elif ty.k == 'ptr': cells[off] = (8, NULL)
        else: cells[off] = (ty.size, 0)
    def cval(s, c, st):
        k = c.k
        if k == 'int': return c.v if c.ty.w != 1 else bool(c.v)
        if k in ('null', 'zero'): 
            if c.ty.k == 'ptr': return NULL
            if c.ty.k in ('struct', 'array'):
                els = c.ty.els if c.ty.k == 'struct' else [c.ty.el] * c.ty.n
                return [s.cval(Const_zero(t), st) for t in els]
            return 0
        if k == 'undef':
            if c.ty.k == 'int': return s.fresh(st, c.ty.w, 'undef') if c.ty.w > 1 else s.fresh_bool('undef')
            if c.ty.k in ('struct', 'array'):
                els = c.ty.els if c.ty.k == 'struct' else [c.ty.el] * c.ty.n
                return [None for t in els]
            return None
        if k == 'gref': return Ptr(s.gregion(c.v, st))
        if k == 'fref': return FnPtr(c.v)
        if k == 'gepc':
            ops = c.v; p = s.cval(ops[0], st)
            return s.gep(p, c.extra, [(o.v, o.ty.w) for o in ops[1:]], st)
        if k == 'agg': return [s.cval(x, st) for x in c.v]
        if k == 'float':
            return z3.FPVal(c.v, z3.Float32() if c.ty.k == 'float' else z3.Float64())
        if k == 'expr' and c.extra == 'ptrtoint': return PInt(s.cval(c.v[0], st))
        if k == 'expr' and c.extra in ('bitcast', 'addrspacecast'): return s.cval(c.v[0], st)
        if k == 'expr' and c.extra == 'inttoptr' and isinstance(s.cval(c.v[0], st), PInt): return s.cval(c.v[0], st).p
        if k == 'meta': return None
        raise Unsupported('constant %r' % c)
    def gep(s, p, ty, idx, st):
        off = p.off; first = True
        for v, w in idx:
            if first: 
                size = ty.size; first = False
            elif ty.k == 'struct':
                off = off + ty.offs[v]; ty = ty.els[v]; continue
            else: ty = ty.el; size = ty.size
            off = off + s.D.to_off(v, w, st).scale(size)
        return Ptr(p.r, off)
    def wlog(s, r, key):
        for w in s.wlogs: w.add((r, key))
    def locate(s, st, p, n):
        """find array segment + index for an access of n bytes.  returns (segidx, idxLin, sub) or None (cells)"""
        r = p.r; off = p.off
        if off.const:
            for k, g in enumerate(r.segs):
                d = off.c - g.start
                if d < 0: continue
                if isinstance(g.count, int):
                    if d >= g.count * g.stride: continue
                elif len(r.segs) > 1 and k + 1 < len(r.segs) and off.c >= r.segs[k + 1].start: continue
                return k, Lin(d // g.stride), d % g.stride
            return None
        cands = []
        for k, g in enumerate(r.segs):
            d = off - Lin(g.start)
            if all(v % g.stride == 0 for v in d.m.values()):
                q = Lin(d.c // g.stride, {a: v // g.stride for a, v in d.m.items()}); cands.append((k, q, d.c % g.stride))
        if not cands: return None
        if len(cands) == 1: return cands[0]
        for c in cands:
            if s.inb_valid(st, c[1], r.segs[c[0]].count, n): return c
        return cands[0]
    def inb(s, st, idx, count):
        if s.D.name == 'int':
            cl = Lin(count) if isinstance(count, int) else count
            return And(lcmp('ge', idx, Lin(0), st), lcmp('lt', idx, cl, st))
        if idx.const and isinstance(count, int): return 0 <= idx.c < count
        c = z3.BitVecVal(count, 64) if isinstance(count, int) else count.bv(64)
        return z3.ULT(s.D.idx(idx), c)
    def inb_valid(s, st, idx, count, n):
        g = s.inb(st, idx, count)
        return g if isb(g) else s.quick_valid(st, g)
    def chk_ptr(s, st, p, what):
        if not isinstance(p, Ptr): raise Unsupported('%s through %r' % (what, p))
        if p.r is None:
            s.prove(st, False, '%s through a null pointer' % what); return False
        return True
    def read_arr(s, st, r, k, f, idx):
        g = r.segs[k]; sub, size, sgd = g.fields[f]
        e = st.mem[r.id].arrs[(k, f)]
        if callable(e): return e(st, idx)
        if isinstance(g.count, int) and not idx.const and 1 < g.count <= 4096:
            T = s.const_array(e, g.count, size * 8)
            if T is not None: return table_expr(s, st, T, idx, size * 8)
        e = z3.Select(e, s.D.idx(idx))
        e = simp_sel(e)
        if isinstance(e, (z3.IntNumRef, z3.BitVecNumRef)): return e.as_long() & mask(size * 8)
        w = size * 8
        if s.D.name == 'int':
            lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sgd else (0, mask(w))
            if r.const and (k, f) in r.ranges: lo, hi = r.ranges[(k, f)]      # precondition on every element of a constant array
            st.define(('sel', e.get_id()), [e >= lo, e <= hi])
            return IV(w, Lin.atom(e, lo, hi))
        return e
    def const_array(s, e, count, w):
        """the entries of an array term made only of constant stores over a constant array, else None"""
        k = e.get_id(); r = s.catab.get(k)
        if r is not None: return r[0]
        T = {}; x = e; ok = True
        while z3.is_store(x):
            i, v = x.arg(1), x.arg(2)
            if not (isinstance(i, (z3.IntNumRef, z3.BitVecNumRef)) and isinstance(v, (z3.IntNumRef, z3.BitVecNumRef))): ok = False; break
            T.setdefault(i.as_long(), v.as_long() & mask(w)); x = x.arg(0)
        res = None
        if ok and z3.is_const_array(x) and isinstance(x.arg(0), (z3.IntNumRef, z3.BitVecNumRef)):
            b = x.arg(0).as_long() & mask(w); res = [T.get(i, b) for i in range(count)]
        elif ok and len(T) >= count and all(i in T for i in range(count)): res = [T[i] for i in range(count)]
        s.catab[k] = (res, e)
        return res
    def load(s, st, p, n, kind='int', name=''):
        if not s.chk_ptr(st, p, 'load'): return s.junk(st, n, kind)
        r = p.r
        loc = s.locate(st, p, n)
        if loc is not None:
            k, idx, sub = loc; g = r.segs[k]
            s.prove(st, s.inb(st, idx, g.count), 'load in bounds of ' + r.name)
            st.assume(s.inb(st, idx, g.count))
            for f, (fs, fz, sgd) in enumerate(g.fields):
                if fs == sub and fz == n: return s.read_arr(st, r, k, f, idx)
                if fs <= sub and sub + n <= fs + fz: return s.D.extract(s.read_arr(st, r, k, f, idx), fz * 8, (sub - fs) * 8, n * 8, st)
            # several fields / several elements
            parts = []; pos = sub; cur = idx; need = n
            while need:
                for f, (fs, fz, sgd) in enumerate(g.fields):
                    if fs == pos and fz <= need:
                        if cur is not idx: s.prove(st, s.inb(st, cur, g.count), 'load in bounds of ' + r.name)
                        parts.append((s.read_arr(st, r, k, f, cur), fz * 8)); pos += fz; need -= fz; break
                else: raise Unsupported('access shape %s+%d/%d' % (r.name, sub, n))
                if pos >= g.stride: pos = 0; cur = cur + 1
            return s.D.concat(parts, st)
        if not p.off.const:
            return s.load_sym(st, p, n, kind)
        return s.load_cell(st, r, p.off.c, n, kind)
    def cellbounds(s, st, r, off, n, what):
        if r.size is None: return True
        if isinstance(r.size, int):
            if off < 0 or off + n > r.size:
                s.prove(st, False, '%s in bounds of %s' % (what, r.name)); return False
            s.count_trivial('%s in bounds' % what)
            return True
        g = And(off >= 0, lcmp('le', Lin(off + n), r.size, st) if s.D.name == 'int' else z3.ULE(z3.BitVecVal(off + n, 64), r.size.bv(64)))
        s.prove(st, g, '%s in bounds of %s' % (what, r.name))
        return True
    def count_trivial(s, name):
        if not s.quiet: s.ntriv = getattr(s, 'ntriv', 0) + 1
    def junk(s, st, n, kind):
        if kind == 'ptr': return Ptr(Region('junk', None))
        if kind in ('float', 'double'): return z3.Const(fresh_name('junk'), z3.Float32() if kind == 'float' else z3.Float64())
        return s.fresh(st, n * 8, 'junk')
    def load_cell(s, st, r, off, n, kind='int'):
        if not s.cellbounds(st, r, off, n, 'load'): return s.junk(st, n, kind)
        m = st.mem[r.id]; c = m.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if kind == 'ptr' and isinstance(v, int) and v == 0: return NULL
            if kind == 'ptr' and s.anyint is not None and isinstance(v, (int, z3.BitVecRef)): return Ptr(s.anyint, s.D.to_off(v, 64, st))
            if kind == 'int' and isinstance(v, Ptr) and v.r is not None and v.r is s.anyint: return z3.simplify(v.off.bv(64))
            if kind == 'int' and isinstance(v, Ptr): return PInt(v) if v.r is not None else 0
            if kind in ('float', 'double') and isinstance(v, (int, z3.BitVecRef)): return z3.fpBVToFP(s.D.z(v, n * 8) if s.D.name == 'bv' else z3.BitVecVal(v, n * 8), z3.Float32() if kind == 'float' else z3.Float64())
            if kind == 'int' and isinstance(v, z3.FPRef): 
                if s.D.name == 'bv': return z3.simplify(z3.fpToIEEEBV(v))
                return s.fresh(st, n * 8, 'fbits')
            return v
        # overlapping?
        ov = sorted((o, sz, v) for o, (sz, v) in m.cells.items() if o < off + n and off < o + sz)
        if not ov:
            v = 0 if r.default == 'zero' else s.junk(st, n, kind) if kind != 'ptr' else None
            if kind == 'ptr':
                v = NULL if r.default == 'zero' else s.junk(st, n, kind)
            m = m.clone(); m.cells[off] = (n, v); st.mem[r.id] = m
            return v
        if kind == 'ptr': raise Unsupported('pointer load over mixed cells')
        parts = []; pos = off
        for o, sz, v in ov:
            if o > pos:
                gap = o - pos
                f = 0 if r.default == 'zero' else s.fresh(st, gap * 8, 'mem')
                m = m.clone(); m.cells[pos] = (gap, f); st.mem[r.id] = m
                parts.append((f, gap * 8)); pos = o
            lo = pos - o; hi = min(sz, off + n - o)
            if not isinstance(v, (int, IV, z3.BitVecRef)):
                if isinstance(v, z3.FPRef) and s.D.name == 'bv': v = z3.fpToIEEEBV(v)
                else: raise Unsupported('mixed cell load of %r' % (v,))
            parts.append((v if lo == 0 and hi == sz else s.D.extract(v, sz * 8, lo * 8, (hi - lo) * 8, st), (hi - lo) * 8)); pos = o + hi
        if pos < off + n:
            gap = off + n - pos
            f = 0 if r.default == 'zero' else s.fresh(st, gap * 8, 'mem')
            m = m.clone(); m.cells[pos] = (gap, f); st.mem[r.id] = m
            parts.append((f, gap * 8))
        return s.D.concat(parts, st)
    def store(s, st, p, v, n):
        if not s.chk_ptr(st, p, 'store'): return
        r = p.r
        if r.const: s.prove(st, False, 'frame: store to read-only %s' % r.name); return
        loc = s.locate(st, p, n)
        if loc is not None:
            k, idx, sub = loc; g = r.segs[k]
            s.prove(st, s.inb(st, idx, g.count), 'store in bounds of ' + r.name)
            st.assume(s.inb(st, idx, g.count))
            m = st.mem[r.id].clone()
            def put(f, cur, val, w):
                sgd = g.fields[f][2]
                e = m.arrs[(k, f)]
                if isinstance(val, (Ptr, PInt)): raise Unsupported('pointer stored in array')
                ix, vz = s.D.idx(cur), s.zv(val, w, st, sgd)
                if s.name_ite: ix, vz = s.named(st, ix), s.named(st, vz)
                nv = z3.Store(e, ix, vz); m.arrs[(k, f)] = nv; s.wlog(r, ('arr', k, f))
                if s.on_store: s.on_store(st, r, k, f, m, e, nv)
            for f, (fs, fz, sgd) in enumerate(g.fields):
                if fs == sub and fz == n:
                    put(f, idx, v, n * 8); st.mem[r.id] = m; return
                if fs <= sub and sub + n <= fs + fz:
                    old = s.read_arr(st, r, k, f, idx); parts = []
                    if sub > fs: parts.append((s.D.extract(old, fz * 8, 0, (sub - fs) * 8, st), (sub - fs) * 8))
                    parts.append((v, n * 8))
                    if sub + n < fs + fz: parts.append((s.D.extract(old, fz * 8, (sub - fs + n) * 8, (fs + fz - sub - n) * 8, st), (fs + fz - sub - n) * 8))
                    m = st.mem[r.id].clone()
                    put(f, idx, s.D.concat(parts, st), fz * 8); st.mem[r.id] = m; return
            pos = sub; cur = idx; need = n; done = 0
            while need:
                for f, (fs, fz, sgd) in enumerate(g.fields):
                    if fs == pos and fz <= need:
                        if cur is not idx: s.prove(st, s.inb(st, cur, g.count), 'store in bounds of ' + r.name)
                        put(f, cur, s.D.extract(v, n * 8, done * 8, fz * 8, st), fz * 8); pos += fz; need -= fz; done += fz; break
                else: raise Unsupported('access shape %s+%d/%d' % (r.name, sub, n))
                if pos >= g.stride: pos = 0; cur = cur + 1
            st.mem[r.id] = m
            return
        if not p.off.const:
            if s.to_array(st, r, n, p): return s.store(st, p, v, n)
            raise Unsupported('symbolic-offset store to %s' % r.name)
        off = p.off.c
        if not s.cellbounds(st, r, off, n, 'store'): return
        m = st.mem[r.id].clone(); s.wlog(r, ('cell', off, n, 'ptr' if isinstance(v, Ptr) else 'int'))
        c = m.cells.get(off)
        if not (c is not None and c[0] == n):
            for o, (sz, old) in list(m.cells.items()):
                if o < off + n and off < o + sz:
                    del m.cells[o]
                    if o < off: m.cells[o] = (off - o, s.D.extract(old, sz * 8, 0, (off - o) * 8, st))
                    if o + sz > off + n: m.cells[off + n] = (o + sz - off - n, s.D.extract(old, sz * 8, (off + n - o) * 8, (o + sz - off - n) * 8, st))
        m.cells[off] = (n, v); st.mem[r.id] = m
    def to_array(s, st, r, n, p=None):
        """turn a fixed-size cell region into an array segment (first symbolic access decides the element size)"""
        if r.segs or not isinstance(r.size, int) or n == 0: return False
        m = st.mem[r.id]
        szs = {sz for o, (sz, v) in m.cells.items()} | {n}
        stride = s.seg_stride and s.seg_stride(r, max(szs)) or max(szs)
        if r.size % stride or any(o % stride + sz > stride for o, (sz, v) in m.cells.items()): 
            return False
        if any(not isinstance(v, (int, IV, z3.BitVecRef)) for _, v in m.cells.values()): return False
        # element structure: all elements share the field split of the accesses seen
        fields = sorted({(o % stride, sz) for o, (sz, v) in m.cells.items()} | {((p.off.c % stride) if p is not None else 0, n)})
        cov = 0; fl = []
        for o, sz in fields:
            if o < cov: 
                if o + sz <= cov: continue
                return False
            if o > cov: fl.append((cov, o - cov, False))
            fl.append((o, sz, False)); cov = o + sz
        if cov < stride: fl.append((cov, stride - cov, False))
        base = r
        sg = Seg(0, stride, r.size // stride, fl)
        nm = RegMem()
        for f, (fs, fz, _) in enumerate(fl):
            if r.default == 'zero': a = z3.K(s.D.idx_sort(), s.D.idx(Lin(0)) if s.D.name == 'int' else z3.BitVecVal(0, fz * 8))
            else: a = z3.Array(fresh_name(r.name), s.D.idx_sort(), s.D.val_sort(fz * 8))
            nm.arrs[(0, f)] = a
        r.segs.append(sg); st.mem[r.id] = nm
        for o, (sz, v) in sorted(m.cells.items()):
            q = s.quiet; s.quiet += 1
            try: 
                c = r.const; r.const = False
                s.store(st, Ptr(r, Lin(o)), v, sz)
                r.const = c
            finally: s.quiet = q
        return True
    def load_sym(s, st, p, n, kind):
        r = p.r
        m = st.mem[r.id]
        if not r.segs and isinstance(r.size, int) and m.cells and r.const and all(isinstance(v, int) for _, v in m.cells.values()):
            return s.table_load(st, p, n)
        if not r.segs and kind in ('ptr',) and isinstance(r.size, int) and r.size % n == 0:
            raise Unsupported('symbolic pointer-table load')
        if s.to_array(st, r, n, p): return s.load(st, p, n, kind)
        raise Unsupported('symbolic-offset load from %s' % r.name)
    def table_load(s, st, p, n):
        """read of a constant table at a symbolic offset, using a closed form verified against every entry"""
        r = p.r; off = p.off
        import math
        g = 0
        for v in off.m.values(): g = math.gcd(g, v)
        if g >= 1 << 63: g = g
        base = off.c % g if g else 0
        q = Lin((off.c - base) // g, {a: v // g for a, v in off.m.items()})
        count = (r.size - base - n) // g + 1
        s.prove(st, s.inb(st, q, count), 'load in bounds of ' + r.name); st.assume(s.inb(st, q, count))
        cells = st.mem[r.id].cells
        key = (r.id, g, base, n)
        T = s.tables.get(key)
        if T is None:
            b = bytearray(r.size)
            for o, (sz, v) in cells.items(): b[o:o + sz] = (v & mask(8 * sz)).to_bytes(sz, 'little')
            T = s.tables[key] = [int.from_bytes(b[base + g * i: base + g * i + n], 'little') for i in range(count)]
        return table_expr(s, st, T, q, n * 8)

    def memcpy(s, st, d, src, n, what='memcpy'):
        if isinstance(n, int) and n == 0: return
        if not (s.chk_ptr(st, d, 'store') and s.chk_ptr(st, src, 'load')): return
        if not isinstance(n, int):
            k, idx, cnt = s.block(st, d, n, what + ' store'); k2, idx2, cnt2 = s.block(st, src, n, what + ' load')
            if d.r.segs[k].fields != src.r.segs[k2].fields: raise Unsupported('%s shape' % what)
            A = st.mem[src.r.id].arrs[(k2, 0)]; o = (idx2 - idx); oz = o.z() if s.D.name == 'int' else o.bv(64)
            s.block_put(st, d.r, k, idx, cnt, lambda i: z3.Select(A, i + oz)); return
        # copy with the source's own cell structure when possible
        pieces = []
        m = st.mem[src.r.id]
        if src.off.const and not src.r.segs:
            o = src.off.c; end = o + n
            while o < end:
                c = m.cells.get(o)
                if c and o + c[0] <= end: pieces.append((o - src.off.c, c[0], 'ptr' if isinstance(c[1], Ptr) else 'int')); o += c[0]
                else:
                    nx = min([x for x in m.cells if x > o] + [end]); nx = min(nx, end)
                    if any(x < o < x + sz for x, (sz, _) in m.cells.items()): nx = o + 1
                    k = nx - o
                    if d.r.segs and d.off.const is False: k = k
                    pieces.append((o - src.off.c, k, 'int')); o = nx
        elif not src.r.segs:
            if n > 64: raise Unsupported('memcpy source shape')
            pieces = [(o, 1, 'int') for o in range(n)]
        else:
            loc = s.locate(st, src, 1)
            if loc is None: raise Unsupported('memcpy source shape')
            g = src.r.segs[loc[0]]; pos = loc[2]; o = 0
            while o < n:
                for fs, fz, _ in g.fields:
                    if fs == pos: pieces.append((o, fz, 'int')); o += fz; pos += fz; break
                else: raise Unsupported('memcpy source shape')
                if pos >= g.stride: pos = 0
        if d.r.segs and d.off.const is False or d.r.segs:
            # align pieces with destination fields
            pass
        vals = [(o, k, s.load(st, Ptr(src.r, src.off + o), k, kd)) for o, k, kd in pieces]
        for o, k, v in vals: s.store(st, Ptr(d.r, d.off + o), v, k)
    def named(s, st, t):
        """t itself, or a fresh name defined as t when t contains an if (patterns may not)"""
        if not has_ite(t): return t
        v = z3.Const(fresh_name('nm'), t.sort()); st.pc.append(v == t); return v
    def block(s, st, p, n, what):
        """n bytes at p as a run of whole elements of a one-field segment: (segidx, first Lin, count Lin), bounds proved"""
        loc = s.locate(st, p, 1)
        if loc is None: raise Unsupported('block %s shape' % what)
        k, idx, sub = loc; g = p.r.segs[k]; nl = n if isinstance(n, Lin) else Lin(n) if isinstance(n, int) else s.D.to_off(n, 64, st)
        if len(g.fields) != 1 or g.fields[0][0] != 0 or g.fields[0][1] != g.stride or sub or not nl.divisible(g.stride): raise Unsupported('block %s shape' % what)
        cnt = nl.exact(g.stride); cl = Lin(g.count) if isinstance(g.count, int) else g.count
        if s.D.name == 'int': b = z3.And(cnt.z() >= 0, z3.Or(cnt.z() == 0, z3.And(idx.z() >= 0, idx.z() + cnt.z() <= cl.z())))
        else: b = z3.Or(cnt.bv(64) == 0, z3.And(z3.ULE(idx.bv(64), cl.bv(64)), z3.ULE(cnt.bv(64), cl.bv(64) - idx.bv(64))))
        s.prove(st, b, '%s in bounds of %s' % (what, p.r.name)); st.assume(b)
        return k, idx, cnt
    def block_put(s, st, r, k, idx, cnt, val):
        if r.const: s.prove(st, False, 'frame: store to read-only %s' % r.name); return
        if s.on_store: raise Unsupported('block store with a ghost')
        i = z3.Const(fresh_name('bi'), s.D.idx_sort()); m = st.mem[r.id].clone(); old = m.arrs[(k, 0)]
        inr = z3.And(i >= idx.z(), i < idx.z() + cnt.z()) if s.D.name == 'int' else z3.ULT(i - idx.bv(64), cnt.bv(64))
        v = val(i); b = idx.const and cnt.const and idx.c == 0 and isinstance(r.segs[k].count, int) and cnt.c == r.segs[k].count
        m.arrs[(k, 0)] = z3.Lambda([i], v if b else z3.If(inr, v, z3.Select(old, i))); s.wlog(r, ('arr', k, 0)); st.mem[r.id] = m
    def memset(s, st, d, v, n):
        if isinstance(n, int) and n == 0: return
        if not s.chk_ptr(st, d, 'store'): return
        if not isinstance(n, int) or n > 64 and d.r.segs:
            k, idx, cnt = s.block(st, d, n, 'memset'); w = d.r.segs[k].stride
            x = int.from_bytes(bytes([v & 255]) * w, 'little') if isinstance(v, int) else s.D.concat([(v, 8)] * w, st)
            z = s.zv(x, 8 * w, st, d.r.segs[k].fields[0][2])
            s.block_put(st, d.r, k, idx, cnt, lambda i: z); return
        o = 0
        while o < n:
            k = 1
            loc = s.locate(st, Ptr(d.r, d.off + o), 1)
            if loc is not None:
                for fs, fz, _ in d.r.segs[loc[0]].fields:
                    if fs == loc[2] and fz <= n - o: k = fz
            else:
                c = st.mem[d.r.id].cells.get((d.off + o).c) if d.off.const else None
                if c and c[0] <= n - o: k = c[0]
            if isinstance(v, int): x = int.from_bytes(bytes([v & 255]) * k, 'little')
            else: x = s.D.concat([(v, 8)] * k, st)
            s.store(st, Ptr(d.r, d.off + o), x, k); o += k

    # ------------------------------------------------------------ execution
    def fn(s, name):
        f = s.mod.fns.get(name)
        if f is not None: return f
        for f in s.mod.fns.values():
            if f.demangled == name: return f
        raise KeyError('no function ' + name)
    def find(s, pat, defined=True):
        return [f for f in s.mod.fns.values() if re.search(pat, f.demangled) and (f.blocks or not defined)]
    def call(s, name, args, st):
        f = s.fn(name) if isinstance(name, str) else name
        return s.exec_fn(f, args, st, 0)
    def exec_fn(s, f, args, st, depth):
        if depth > s.max_depth: raise Unsupported('call depth (recursion without a contract): ' + f.demangled[:80])
        if not f.blocks: return s.external(f, args, st, None)
        if not s.quiet: s.inlined.add(f.demangled)
        ir.analyse(f)
        if f.irreducible: raise Unsupported('irreducible control flow in ' + f.demangled[:80])
        fr = Frame(f, args, depth)
        for a, v in zip(f.args, args): fr.env[a] = v
        res = []
        for o in s.run(fr, f.blocks[0], st, 0):
            assert o[0] == 'ret', o[0]
            res.append((o[1], o[2]))
        return res
    def external(s, f, args, st, I):
        for pat, h in s.externals:
            if re.search(pat, f.demangled): return h(s, st, args, I)
        raise Unsupported('call to external ' + f.demangled[:100])
    def val(s, fr, v, st):
        if isinstance(v, ir.Const): return s.cval(v, st)
        return fr.env[v]

    def run(s, fr, b, st, i):
        """execute from instruction i of block b; returns outcomes"""
        while True:
            if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
            ins = b.ins; n = len(ins)
            while i < n:
                I = ins[i]; op = I.op
                if op == 'phi': i += 1; continue
                if op == 'br':
                    if not I.ops:
                        nxt = I.succ[0]
                        r = s.jump(fr, st, b, nxt)
                        if r is None: b, i = nxt, 0; break
                        if isinstance(r, tuple) and r[0] == 'go': _, fr, st, b, i = r; break
                        return r
                    c = s.val(fr, I.ops[0], st)
                    if isb(c):
                        nxt = I.succ[0 if c else 1]
                        r = s.jump(fr, st, b, nxt)
                        if r is None: b, i = nxt, 0; break
                        return r
                    outs = []
                    ft = s.feasible(st, c); ff = s.feasible(st, Not(c)) if ft else True
                    if ft and ff:
                        s.stats['paths'] += 1
                        if s.stats['paths'] > s.path_budget: raise Unsupported('path budget exceeded')
                        st2 = st.clone(); fr2 = fr.clone()
                        st.assume(c); st.trail.append('%s:T' % b.name); st2.assume(c, False); st2.trail.append('%s:F' % b.name)
                        r = s.jump(fr, st, b, I.succ[0])
                        outs += s.run(fr, I.succ[0], st, 0) if r is None else r
                        r = s.jump(fr2, st2, b, I.succ[1])
                        outs += s.run(fr2, I.succ[1], st2, 0) if r is None else r
                        return outs
                    st.assume(c, ft); nxt = I.succ[0 if ft else 1]
                    r = s.jump(fr, st, b, nxt)
                    if r is None: b, i = nxt, 0; break
                    return r
                if op == 'ret':
                    return [('ret', st, s.val(fr, I.ops[0], st) if I.ops else None)]
                if op == 'unreachable':
                    s.prove(st, False, 'unreachable code reached in ' + short(fr.fn)); return []
                if op == 'switch':
                    c = s.val(fr, I.ops[0], st); w = I.ops[0].ty.w
                    outs = []; rest = []
                    for v, t in zip(I.cases, I.succ[1:]):
                        e = s.D.icmp('eq', w, c, v, st)
                        if s.feasible(st, And(e, *rest) if rest else e):
                            st2 = st.clone(); fr2 = fr.clone()
                            for x in rest: st2.assume(x)
                            st2.assume(e)
                            r = s.jump(fr2, st2, b, t); outs += s.run(fr2, t, st2, 0) if r is None else r
                        rest.append(Not(e))
                    a = And(*rest)
                    if s.feasible(st, a):
                        st.assume(a); r = s.jump(fr, st, b, I.succ[0]); outs += s.run(fr, I.succ[0], st, 0) if r is None else r
                    return outs
                if op == 'call':
                    rs = s.do_call(fr, I, st)
                    if len(rs) == 1:
                        st, v = rs[0]; fr.env[I] = v; i += 1; continue
                    outs = []
                    for k, (st2, v) in enumerate(rs):
                        fr2 = fr.clone() if k + 1 < len(rs) else fr
                        fr2.env[I] = v
                        outs += s.run(fr2, b, st2, i + 1)
                    return outs
                if op == 'select':
                    c = s.val(fr, I.ops[0], st); x = s.val(fr, I.ops[1], st); y = s.val(fr, I.ops[2], st)
                    if isb(c): fr.env[I] = x if c else y; i += 1; continue
                    v = s.ite(c, x, y, I.ty, st)
                    if v is not None: fr.env[I] = v; i += 1; continue
                    outs = []
                    for pol, z in ((True, x), (False, y)):
                        if s.feasible(st, c if pol else Not(c)):
                            st2 = st.clone(); fr2 = fr.clone(); st2.assume(c, pol); fr2.env[I] = z; outs += s.run(fr2, b, st2, i + 1)
                    return outs
                r = s.step(fr, I, st)
                i += 1
            else:
                raise Unsupported('block without terminator')

    def ite(s, c, x, y, ty, st):
        if ty.k == 'int':
            if ty.w == 1: return Or(And(c, x), And(Not(c), y))
            if isinstance(x, PInt) or isinstance(y, PInt): return None
            return s.D.ite(c, x, y, ty.w, st)
        if ty.k == 'ptr':
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
                if x.off.key() == y.off.key(): return x
                d = x.off - y.off
                step = x.r.step if x.r is not None and d.divisible(x.r.step) else 1
                # keep divisibility visible: y.off + step * ite(c, (x-y)/step, 0)
                k = d.exact(step)
                if s.D.name == 'int':
                    e = z3.If(c, k.z(), z3.IntVal(0)); a = Atoms.of(e); lo, hi = k.bounds(st)
                    st.bound(a, None if lo is None else min(lo, 0), None if hi is None else max(hi, 0))
                else: a = Atoms.of(z3.If(c, k.bv(64), z3.BitVecVal(0, 64)))
                return Ptr(x.r, y.off + Lin(0, {a: step}))
            return None
        if ty.k in ('float', 'double'): return z3.If(c, x, y)
        return None

    def jump(s, fr, st, src, dst):
        """take edge src->dst: evaluates phis.  None: continue at dst.  list: outcomes."""
        phis = []
        for I in dst.ins:
            if I.op != 'phi': break
            phis.append((I, s.val(fr, I.inc[src], st)))
        if fr.stop is not None:
            hdr, body = fr.stop
            if dst is hdr: return [('back', st, fr, {I.name: v for I, v in phis}, src)]
            if dst not in body: return [('exit', st, fr, src, dst, phis)]
        if dst in fr.fn.loops:
            body = fr.fn.loops[dst]
            back = src in body
            conc = s.force_unroll(fr.fn, dst) if s.force_unroll else None
            if conc is None: conc = s.loop_concrete(fr, st, dst, body, dict(phis))
            if not back: fr.iters[dst] = 0
            if conc and s.max_concrete is not None and fr.iters.get(dst, 0) >= s.max_concrete: conc = False     # the rest of a long loop is summarised
            if conc:
                fr.iters[dst] = fr.iters.get(dst, 0) + 1
                if fr.iters[dst] > s.max_unroll: raise Unsupported('unroll limit')
                for I, v in phis: fr.env[I] = v
                return None
            try: return s.cut(fr, st, src, dst, body, phis)
            except Peel as x:
                # a loop pointer that names another object after the first round: verify that round separately
                fr.iters[dst] = fr.iters.get(dst, 0) + 1
                if fr.iters[dst] > 2: raise Unsupported(str(x))
        for I, v in phis: fr.env[I] = v
        return None

    def loop_concrete(s, fr, st, H, body, phis):
        cache = {}
        def ev(v, d=0):
            if isinstance(v, ir.Const):
                try: x = s.cval(v, st)
                except Unsupported: return None
                return x if isinstance(x, (int, bool, Ptr)) else None
            if v in cache: return cache[v]
            cache[v] = None
            if v in phis: x = phis[v]
            elif isinstance(v, ir.Arg) or v.block not in body: x = fr.env.get(v)
            else:
                x = None; op = v.op
                if d < 40:
                    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem', 'icmp', 'zext', 'sext', 'trunc', 'load', 'gep', 'select'):
                        os = [ev(o, d + 1) for o in v.ops]
                        if all(o is not None for o in os):
                            try:
                                if op == 'icmp':
                                    if isinstance(os[0], (int, bool)) and isinstance(os[1], (int, bool)): x = cicmp(v.pred, v.ops[0].ty.w, int(os[0]), int(os[1]))
                                    elif isinstance(os[0], Ptr) and isinstance(os[1], Ptr) and os[0].r is os[1].r and (os[0].off - os[1].off).const:
                                        dd = (os[0].off - os[1].off).c; x = {'eq': dd == 0, 'ne': dd != 0, 'lt': dd < 0, 'le': dd <= 0, 'gt': dd > 0, 'ge': dd >= 0}[v.pred[-2:]]
                                elif op in ('zext',): x = int(os[0])
                                elif op == 'sext': x = sgn(int(os[0]), v.ops[0].ty.w) & mask(v.ty.w)
                                elif op == 'trunc': x = int(os[0]) & mask(v.ty.w); x = bool(x) if v.ty.w == 1 else x
                                elif op == 'gep':
                                    x = s.gep(os[0], v.srcty, [(o, q.ty.w) for o, q in zip(os[1:], v.ops[1:])], st)
                                    if not x.off.const: x = x
                                elif op == 'load':
                                    if isinstance(os[0], Ptr) and os[0].r is not None and os[0].off.const:
                                        m = st.mem.get(os[0].r.id); c = m.cells.get(os[0].off.c) if m else None
                                        x = c[1] if c and c[0] == v.ty.size else None
                                elif op == 'select': x = (os[1] if os[0] else os[2])
                                elif v.ty.w == 1: 
                                    a, b_ = bool(os[0]), bool(os[1]); x = {'and': a and b_, 'or': a or b_, 'xor': a != b_}.get(op)
                                else: x = cbin(op, v.ty.w, int(os[0]), int(os[1]))
                            except Exception: x = None
                    elif op in ('and', 'or'):
                        pass
            if not isinstance(x, (int, bool, Ptr)): x = None
            cache[v] = x
            return x
        n = 0
        for b in body:
            t = b.ins[-1]
            if t.op == 'br' and t.ops and any(x not in body for x in t.succ):
                if ev(t.ops[0]) is not None:
                    if not s.unroll_all: return True
                    n += 1
                elif s.unroll_all: return False
        return bool(s.unroll_all) and (s.unroll_all != 'strict' or n > 0)

    # ------------------------------------------------------------ loop cut
    def phi_signed(s, I):
        if I.ty.k != 'int' or I.ty.w == 64 and False: return False
        sc = 0
        seen = {I}
        todo = [I]
        while todo:
            v = todo.pop()
            for b in I.fn.blocks:
                for J in b.ins:
                    if J.ops and v in J.ops:
                        if J.op == 'icmp': sc += 2 if J.pred[0] == 's' else -2 if J.pred[0] == 'u' else 0
                        elif J.op in ('sext', 'ashr', 'sdiv', 'srem', 'sitofp'): sc += 1
                        elif J.op in ('zext', 'lshr', 'udiv', 'urem'): sc -= 1
                        elif J.op in ('add', 'sub', 'mul') and J.nsw and not J.nuw: sc += 1
        return sc > 0
    def havoc_mem(s, st, mods, pin=None):
        for r, key in mods:
            if key[0] == 'cell' and pin is not None and (r, key) in pin and isinstance((st.mem[r.id].cells.get(key[1]) or (0, 0))[1], Ptr): continue
            m = st.mem[r.id].clone()
            if key[0] == 'arr':
                old = m.arrs[key[1:]]
                m.arrs[key[1:]] = z3.Const(fresh_name(r.name), old.sort())
            else:
                _, off, n, kd = key
                old = m.cells.get(off)
                if old is not None and old[0] == n and isinstance(old[1], Ptr):
                    p = old[1]
                    if p.r is None: raise Peel('loop-modified pointer cell starts null')
                    k = s.idx_fresh(st)
                    v = Ptr(p.r, p.off + k.scale(p.r.step))
                elif kd == 'ptr': raise Unsupported('loop-modified pointer cell')
                else: v = s.fresh(st, n * 8, r.name)
                # remove overlapping
                for o, (sz, ov) in list(m.cells.items()):
                    if o < off + n and off < o + sz and not (o == off and sz == n):
                        del m.cells[o]
                        if o < off: m.cells[o] = (off - o, s.fresh(st, (off - o) * 8, r.name))
                        if o + sz > off + n: m.cells[off + n] = (o + sz - off - n, s.fresh(st, (o + sz - off - n) * 8, r.name))
                m.cells[off] = (n, v)
            st.mem[r.id] = m
    def idx_fresh(s, st):
        if s.D.name == 'int': return Lin.atom(z3.Int(fresh_name('k')), -(1 << 62), 1 << 62)
        return Lin.atom(z3.BitVec(fresh_name('k'), 64))
    def havoc_ghost(s, st): pass

    def cut(s, fr, st, src, H, body, phis):
        s.stats['houdini'] += 1
        infos = []
        entry = {}
        for I, v in phis:
            p = PhiInfo(I, v); infos.append(p); entry[p.name] = v
            p.signed = s.phi_signed(I)
            if isinstance(v, Ptr): p.stride = (s.stride_hint and s.stride_hint(p) or v.r.step) if v.r is not None else 1
        fid = '%s/%s' % (short(fr.fn), H.name)
        entry_st = st.clone()
        def ctx(vals, st_): return LoopCtx(s, fr, H, infos, vals, st_, entry_st, entry)
        c0 = ctx(entry, entry_st)
        cands = []
        if s.loop_cands: cands += s.loop_cands(c0) or []
        usernames = {nm for nm, _ in cands}
        defs = s.loop_defs(c0) if s.loop_defs else []     # (candidate, phi, value): an equation that replaces the unknown while it is an invariant
        if s.auto_cands: cands += auto_candidates(s, c0)
        # entry filter; a candidate refuted here in an earlier round of an enclosing loop (which assumed more) is not tried again
        live = []; ckey = (fid, tuple(st.trail)); gone = s.refuted.setdefault(ckey, set())
        for nm, f in cands:
            if nm in gone: continue
            try: g = f(c0)
            except KeyError: continue
            if g is None: continue
            if isb(g):
                if g: live.append((nm, f))
                continue
            if s.valid_quiet(entry_st, g): live.append((nm, f))
            else: gone.add(nm)
        mods = set()
        moved = set()   # pointer cells that change their offset (others modified pointer cells must hold the entry pointer again)
        saved_stop, saved_env = fr.stop, dict(fr.env)
        rounds = 0
        def setup():
            st1 = entry_st.clone()
            st1.trail.append('%s:loop' % H.name)
            s.havoc_mem(st1, sorted(mods, key=lambda x: (x[0].id, str(x[1]))), mods - moved)
            vals = {}
            for p in infos:
                if isinstance(p.entry, Ptr) and p.entry.r is not None and p.entry.r.const and p.entry.off.const and any(nm in (p.name + ' eq entry', p.name + ' == entry') for nm, _ in live): vals[p.name] = p.entry; continue
                if isinstance(p.entry, Ptr):
                    if p.entry.r is None: raise Peel('loop pointer starts null')
                    vals[p.name] = Ptr(p.entry.r, p.entry.off + s.idx_fresh(st1).scale(p.stride))
                elif p.ty.k == 'int' and p.w == 1: vals[p.name] = s.fresh_bool(p.name)
                elif p.ty.k == 'int': vals[p.name] = s.fresh(st1, p.w, p.name.replace('%', 't'), p.signed)
                elif p.ty.k in ('float', 'double'): vals[p.name] = z3.Const(fresh_name(p.name), z3.Float32() if p.ty.k == 'float' else z3.Float64())
                else: raise Unsupported('phi of type %r' % p.ty)
            c1 = ctx(vals, st1)
            names = {nm for nm, _ in live}
            for nm, ph, f in defs:
                if nm in names:
                    v = f(c1)
                    if v is not None: vals[ph] = v
            s.havoc_ghost(st1)
            for nm, f in live:
                g = f(c1)
                if g is not None and not isb(g): st1.assume(g)
                elif g is False: st1.assume(False)
            if s.default_lemmas:
                for g in s.default_lemmas(c1) or []: st1.assume(g)
            if s.gf_lemmas: st1.ghost['gf'] = st1.ghost.get('gf', ()) + tuple(s.gf_lemmas(c1) or ())
            fr1 = fr.clone(); fr1.stop = (H, body)
            for p in infos: fr1.env[p.I] = vals[p.name]
            return fr1, st1, vals
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported('invariant iteration limit')
            fr1, st1, vals = setup()
            w = set(); s.wlogs.append(w); s.quiet += 1
            try: outs = s.run(fr1, H, st1, 0)
            finally: s.quiet -= 1; s.wlogs.pop()
            wn = {x for x in w if x[0].id in entry_st.mem}
            # a region converted from cells to an array inside the loop: convert it at entry and restart
            if any(k[0] == 'arr' and (k[1:] not in entry_st.mem[r.id].arrs) for r, k in wn) or any(r.segs and not entry_st.mem[r.id].arrs and entry_st.mem[r.id].cells for r, k in wn):
                for r in {r for r, k in wn}:
                    if r.segs and not entry_st.mem[r.id].arrs: s.reseg(entry_st, r)
                s.refuted.clear(); gone = set()
                mods = {x for x in mods if not (x[0].segs and x[1][0] == 'cell')}
                continue
            if not wn <= mods: mods |= wn; continue
            backs = [o for o in outs if o[0] == 'back']
            drop = set(); none = set(); repin = False
            for o in backs:
                st2, vals2 = o[1], o[3]
                c2 = ctx(vals2, st2)
                for p in infos:
                    v = vals2[p.name]
                    if isinstance(p.entry, Ptr) and (not isinstance(v, Ptr) or v.r is not p.entry.r): raise Peel('loop pointer changes object')
                    if isinstance(p.entry, Ptr):
                        # the unknown pointer was entry + k * stride: every step must be a multiple of the stride, or the stride shrinks
                        d = v.off - vals[p.name].off; g = math.gcd(p.stride, d.c, *d.m.values())
                        if g != p.stride: p.stride = g; repin = True
                for x in mods:
                    if x[1][0] != 'cell': continue
                    old = entry_st.mem[x[0].id].cells.get(x[1][1]); new = st2.mem[x[0].id].cells.get(x[1][1])
                    if old is None or not isinstance(old[1], Ptr) or old[0] != x[1][2]:
                        if new is not None and isinstance(new[1], Ptr) and new[0] == x[1][2] and new[1].r is not None: raise Peel('loop stores a pointer into a cell')
                        continue
                    if new is None or new[0] != old[0] or not isinstance(new[1], Ptr) or new[1].r is not old[1].r: raise Peel('pointer cell changes object')
                    if x not in moved:
                        g = s.pcmp('eq', new[1], old[1], st2)
                        if g is not True and (g is False or not s.valid_quiet(st2, g)): moved.add(x); repin = True
                goals = []
                for k, (nm, f) in enumerate(live):
                    if k in drop: continue
                    g = f(c2)
                    if g is None or g is False:
                        drop.add(k); none.add(k)
                        continue
                    if g is True: continue
                    goals.append((k, g))
                if not goals: continue
                # generic candidates first: once one of them goes, the contract's own candidates wait for the next round
                for phase in (0, 1):
                    gs = [(k, g) for k, g in goals if k not in drop and (live[k][0] in usernames) == bool(phase)]
                    if not gs or (phase and drop): continue
                    if len(gs) > 1 and not s.gf2 and s.valid_quiet(st2, z3.And([B(g) for _, g in gs])): continue
                    for k, g in gs:
                        if k in drop: continue
                        if not s.valid_quiet(st2, g):
                            drop.add(k); mdl = s.quiet_model
                            if mdl is not None and not st2.heavy:
                                for k2, g2 in gs:
                                    if k2 not in drop and not has_quant(g2):
                                        try:
                                            if z3.is_false(mdl.eval(g2, model_completion=True)): drop.add(k2)
                                        except z3.Z3Exception: pass
            if DROP and drop: print('DROP', fid, rounds, [live[k][0] for k in sorted(drop) if live[k][0] in usernames], file=sys.stderr, flush=True)
            if not drop and not repin: break
            gone |= {live[k][0] for k in drop - none}
            live = [x for k, x in enumerate(live) if k not in drop]
        # measure / termination
        if s.termination and not s.quiet: s.check_measure(fid, ctx, vals, backs, st1, infos)
        if not s.quiet:
            s.loop_log.append((fid, [nm for nm, _ in live], [nm for nm, _ in cands if nm not in {x for x, _ in live}]))
            for nm, _ in live: s.obl.append(dict(name='%s%s invariant %s' % (s.prefix, fid, nm), status='proved', backend='houdini', time=0, trail=None))
            # body obligations
            fr1, st1, vals = setup()
            outs = s.run(fr1, H, st1, 0)
        res = []
        for o in outs:
            if o[0] == 'ret': res.append(o)
            elif o[0] == 'exit':
                _, st2, fr2, a, b, ph = o
                fr2.stop = saved_stop
                r = s.jump(fr2, st2, a, b)
                res += s.run(fr2, b, st2, 0) if r is None else r
        return res
    def reseg(s, st, r):
        segs = r.segs; r.segs = []
        g = segs[0]
        m = st.mem[r.id]
        nm = RegMem()
        for f, (fs, fz, _) in enumerate(g.fields):
            nm.arrs[(0, f)] = z3.K(s.D.idx_sort(), z3.IntVal(0) if s.D.name == 'int' else z3.BitVecVal(0, fz * 8)) if r.default == 'zero' else z3.Array(fresh_name(r.name), s.D.idx_sort(), s.D.val_sort(fz * 8))
        r.segs = segs; st.mem[r.id] = nm
        s.quiet += 1
        c = r.const; r.const = False
        try:
            for o, (sz, v) in sorted(m.cells.items()): s.store(st, Ptr(r, Lin(o)), v, sz)
        finally: s.quiet -= 1; r.const = c
    def valid_quiet(s, st, g, model_drop=None):
        s.quiet += 1
        try:
            r = s.valid(st, g, s.houd_timeout); s.quiet_model = r[2] if r[0] == 'refuted' else None
            return r[0] == 'proved'
        finally: s.quiet -= 1
    def check_measure(s, fid, ctx, vals, backs, st1, infos):
        """some measure must decrease and stay bounded on every back edge"""
        if s.D.name != 'int':
            ms = bv_measures(s, ctx(vals, st1))
        else: ms = measures(s, ctx(vals, st1))
        if s.measures: ms = (s.measures(ctx(vals, st1)) or []) + ms
        for nm, f in ms:
            ok = True
            for o in backs:
                a = f(ctx(vals, o[1])); b = f(ctx(o[3], o[1]))
                if a is None or b is None: ok = False; break
                if s.D.name == 'int': g = And(lcmp('gt', a, b, o[1]), lcmp('ge', a, Lin(0), o[1]))
                else: g = z3.ULT(b, a)
                if isb(g):
                    if not g: ok = False; break
                    continue
                if not s.valid_quiet(o[1], g): ok = False; break
            if ok:
                s.obl.append(dict(name='%s%s terminates (measure %s)' % (s.prefix, fid, nm), status='proved', backend='z3', time=0, trail=None)); return
        s.obl.append(dict(name='%s%s terminates' % (s.prefix, fid), status='unknown', backend='z3', time=0, trail=[], goal='no measure found'))

    # ------------------------------------------------------------ calls
    def do_call(s, fr, I, st):
        c = I.callee
        if isinstance(c, ir.Const) and c.k == 'fref': name = c.v
        elif isinstance(c, ir.Const) and c.k == 'asm': raise Unsupported('inline asm')
        else:
            v = s.val(fr, c, st)
            if isinstance(v, FnPtr): name = v.name
            else: raise Unsupported('indirect call')
        args = [s.val(fr, o, st) if not (isinstance(o, ir.Const) and o.k == 'meta') else None for o in I.ops]
        if name.startswith('llvm.'): return s.intrinsic(name, fr, I, args, st)
        f = s.mod.fns[name]
        for pat, h in s.contracts:
            if re.search(pat, f.demangled):
                if not s.quiet: s.contracted.add(f.demangled)
                r = h(s, st, args, I)
                if r is not None: return r
        if not getattr(s, 'asserts_run', False) and ('ce::error_hook<' in f.demangled and f.demangled.find('::fn(') >= 0 or re.search(r'^ce::os::error', f.demangled)):
            s.prove(st, False, 'CE_ASSERT holds (%s)' % short(fr.fn))
            return []
        if not f.blocks: return s.external(f, args, st, I)
        return s.exec_fn(f, args, st, fr.depth + 1)
    def intrinsic(s, name, fr, I, a, st):
        n = name.split('.')
        b = n[1]
        if b in ('dbg', 'lifetime', 'experimental', 'donothing', 'prefetch'): return [(st, None)]
        if b == 'assume': return [(st, None)]
        if b in ('memcpy', 'memmove', 'memset'):
            for p in a[:2]:
                if isinstance(p, Ptr) and p.r is not None and p.r.shared: s.event(st, ('plain copy', p))
        if b in ('memcpy', 'memmove'):
            s.memcpy(st, a[0], a[1], a[2]); return [(st, None)]
        if b == 'memset': s.memset(st, a[0], a[1], a[2]); return [(st, None)]
        if b in ('trap', 'debugtrap', 'ubsantrap'):
            if s.on_trap and b == 'debugtrap': s.on_trap(st); return [(st, None)]
            s.prove(st, False, 'trap reached in ' + short(fr.fn)); return []
        w = I.ty.w
        if b == 'expect': return [(st, a[0])]
        if b in ('umin', 'umax', 'smin', 'smax'):
            c = s.D.icmp(b[0] + ('lt' if 'min' in b else 'gt'), w, a[0], a[1], st)
            return [(st, s.D.ite(c, a[0], a[1], w, st))]
        if b == 'abs':
            c = s.D.icmp('slt', w, a[0], 0, st)
            return [(st, s.D.ite(c, s.D.binop('sub', w, 0, a[0], st), a[0], w, st))]
        if b in ('fshl', 'fshr'):
            k = a[2]
            if isinstance(k, int):
                k %= w
                if b == 'fshr': k = (w - k) % w
                if k == 0: return [(st, a[0] if b == 'fshl' else a[1])]
                if all(isinstance(x, int) for x in a): return [(st, ((a[0] << k) | (a[1] >> (w - k))) & mask(w))]
                hi = s.D.extract(a[1], w, w - k, k, st); lo = s.D.extract(a[0], w, 0, w - k, st)
                return [(st, s.D.concat([(hi, k), (lo, w - k)], st))]
            if s.D.name == 'bv':
                kk = z3.URem(k, z3.BitVecVal(w, w)); x, y = s.D.z(a[0], w), s.D.z(a[1], w)
                if b == 'fshl': return [(st, z3.If(kk == 0, x, (x << kk) | z3.LShR(y, w - kk)))]
                return [(st, z3.If(kk == 0, y, (x << (w - kk)) | z3.LShR(y, kk)))]
        if b in ('ctpop', 'ctlz', 'cttz') and isinstance(a[0], int):
            v = a[0]
            return [(st, bin(v).count('1') if b == 'ctpop' else w - v.bit_length() if b == 'ctlz' else ((v & -v).bit_length() - 1 if v else w))]
        if b == 'bswap':
            k = w // 8; return [(st, s.D.concat([(s.D.extract(a[0], w, 8 * (k - 1 - j), 8, st), 8) for j in range(k)], st))]
        if b in ('uadd', 'sadd', 'usub', 'ssub', 'umul', 'smul') : pass
        if b in ('readcyclecounter',): return [(st, s.fresh(st, w, 'tsc'))]
        if b in ('ctpop', 'ctlz', 'cttz') and s.D.name == 'bv':
            x = a[0]
            if b == 'ctpop': r = sum([z3.ZeroExt(w - 1, z3.Extract(i, i, x)) for i in range(w)], z3.BitVecVal(0, w))
            else:
                r = z3.BitVecVal(w, w); rng = range(w) if b == 'ctlz' else range(w - 1, -1, -1)
                for i in rng: r = z3.If(z3.Extract(i, i, x) == 1, z3.BitVecVal(w - 1 - i if b == 'ctlz' else i, w), r)
            return [(st, r)]
        if b == 'fabs': return [(st, z3.fpAbs(a[0]))]
        if b == 'sqrt': return [(st, z3.fpSqrt(z3.RNE(), a[0]))]
        if b == 'fmuladd': return [(st, z3.fpAdd(z3.RNE(), z3.fpMul(z3.RNE(), a[0], a[1]), a[2]))]
        if b == 'ctlz' or b == 'cttz' or b == 'ctpop':
            v = s.fresh(st, w, b); st.pc.append(v.lin.z() <= w); return [(st, v)]
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ plain instructions
    def step(s, fr, I, st):
        op = I.op; D = s.D; env = fr.env
        v = lambda k: s.val(fr, I.ops[k], st)
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = v(0), v(1); w = I.ty.w
            if I.ty.k == 'vector': raise Unsupported('vector arithmetic')
            if w == 1:
                env[I] = {'and': lambda: And(a, b), 'or': lambda: Or(a, b), 'xor': lambda: Not(Iff(a, b)), 'add': lambda: Not(Iff(a, b)), 'sub': lambda: Not(Iff(a, b)), 'mul': lambda: And(a, b)}[op](); return
            if isinstance(a, PInt) or isinstance(b, PInt):
                env[I] = s.pint(op, a, b, w, st); return
            if op in ('udiv', 'sdiv', 'urem', 'srem'):
                g = D.icmp('ne', w, b, 0, st)
                if not (isb(g) and g): 
                    s.prove(st, g, 'divisor nonzero in ' + short(fr.fn)); st.assume(g)
                    if isb(g) and not g: env[I] = s.fresh(st, w, 'junk'); return
            if op in ('shl', 'lshr', 'ashr'):
                g = D.icmp('ult', w, b, w, st)
                if not (isb(g) and g): 
                    s.prove(st, g, 'shift amount in range in ' + short(fr.fn)); st.assume(g)
                    if isb(g) and not g: env[I] = s.fresh(st, w, 'junk'); return
            if s.ub_nsw and I.nsw and op in ('add', 'sub', 'mul'): s.nsw_check(fr, I, op, a, b, w, st)
            r = s.uf_product(st, w, a, b) if s.ufmul and op == 'mul' and isinstance(a, IV) and isinstance(b, IV) else None
            if r is None: r = D.binop(op, w, a, b, st, I)
            if isinstance(r, IV) and r.lin.const: r = r.lin.c & mask(w)
            env[I] = r; return
        if op == 'icmp':
            a, b = v(0), v(1); t = I.ops[0].ty
            if t.k == 'ptr' or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)): env[I] = s.pcmp(I.pred, a, b, st); return
            if t.w == 1:
                e = Iff(a, b)
                if I.pred in ('eq', 'ne'): env[I] = e if I.pred == 'eq' else Not(e); return
                r = {'ugt': lambda: And(a, Not(b)), 'ult': lambda: And(Not(a), b), 'uge': lambda: Or(a, Not(b)), 'ule': lambda: Or(Not(a), b),
                     'sgt': lambda: And(Not(a), b), 'slt': lambda: And(a, Not(b)), 'sge': lambda: Or(Not(a), b), 'sle': lambda: Or(a, Not(b))}[I.pred]()
                env[I] = r; return
            env[I] = D.icmp(I.pred, t.w, a, b, st); return
        if op in ('zext', 'sext', 'trunc'):
            a = v(0); fw = I.ops[0].ty.w; w = I.ty.w
            if isinstance(a, PInt): env[I] = a if op != 'trunc' else PInt(a.p, w); return
            if fw == 1:
                one = 1 if op == 'zext' else mask(w)
                if isb(a): env[I] = one if a else 0
                else: env[I] = D.ite(a, one, 0, w, st)
                return
            if w == 1:
                if isinstance(a, int): env[I] = bool(a & 1)
                else:
                    if D.name == 'int':
                        u = a.lin
                        pb = s.as_bool(a)
                        if pb is not None: env[I] = pb; return
                        r = D.divmod(D.cu(fw, a, st), 2, st)[1]; env[I] = lcmp('eq', r, Lin(1), st)
                    else: env[I] = z3.simplify(z3.Extract(0, 0, a) == 1)
                    if not isb(env[I]):
                        if z3.is_true(env[I]): env[I] = True
                        elif z3.is_false(env[I]): env[I] = False
                return
            env[I] = getattr(D, op)(w, a, fw, st); return
        if op == 'gep':
            p = v(0)
            if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
            env[I] = s.gep(p, I.srcty, [(s.val(fr, o, st), o.ty.w) for o in I.ops[1:]], st); return
        if op == 'load':
            p = v(0)
            if I.order not in (None, 'na'): env[I] = s.atomic(st, 'load', I, p); return
            if isinstance(p, Ptr) and p.r is not None and p.r.shared: s.event(st, ('plain load', p))
            env[I] = s.load_ty(st, p, I.ty); return
        if op == 'store':
            x, p = v(0), v(1)
            if I.order not in (None, 'na'): s.atomic(st, 'store', I, p, x); return
            if isinstance(p, Ptr) and p.r is not None and p.r.shared: s.event(st, ('plain store', p))
            s.store_ty(st, p, x, I.ops[0].ty); return
        if op == 'alloca':
            n = v(0)
            if n != 1: raise Unsupported('variable alloca')
            r = Region('%' + I.name, I.allocty.size); 
            if I.allocty.k == 'array': r.step = I.allocty.el.size
            st.mem[r.id] = RegMem(); env[I] = Ptr(r)
            if s.on_alloca: s.on_alloca(st, r)
            return
        if op in ('bitcast', 'addrspacecast', 'freeze'):
            a = v(0)
            ft, tt = I.ops[0].ty, I.ty
            if ft.k in ('float', 'double') and tt.k == 'int': a = z3.fpToIEEEBV(a) if D.name == 'bv' else s.fresh(st, tt.w, 'fbits')
            elif tt.k in ('float', 'double') and ft.k == 'int': a = z3.fpBVToFP(D.z(a, ft.w) if D.name == 'bv' else z3.BitVecVal(a, ft.w), fsort(tt))
            env[I] = a; return
        if op == 'ptrtoint':
            p = v(0)
            if p.r is not None and p.r is s.anyint: env[I] = z3.simplify(p.off.bv(64)); return
            env[I] = PInt(p) if p.r is not None else (p.off.c & mask(64) if p.off.const else D.of_off(p.off)); return
        if op == 'inttoptr':
            a = v(0)
            if isinstance(a, PInt): env[I] = a.p
            elif isinstance(a, int): env[I] = Ptr(None, Lin(a))
            elif s.anyint is not None: env[I] = Ptr(s.anyint, D.to_off(a, 64, st))
            else: raise Unsupported('inttoptr of a symbolic integer')
            return
        if op == 'extractvalue':
            a = v(0)
            for k in I.idx: a = a[k]
            env[I] = a; return
        if op == 'insertvalue':
            a, x = v(0), v(1)
            def ins(a, idx):
                a = list(a) if a is not None else [None] * 8
                if len(idx) == 1: a[idx[0]] = x
                else: a[idx[0]] = ins(a[idx[0]], idx[1:])
                return a
            env[I] = ins(a, I.idx); return
        if op == 'fence': st.ghost['events'] = st.ghost.get('events', ()) + (('fence', I.order),); return
        if op == 'atomicrmw': env[I] = s.atomic(st, 'rmw', I, v(0), v(1)); return
        if op == 'cmpxchg': env[I] = s.atomic(st, 'cas', I, v(0), v(1), v(2)); return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv') and I.ty.k == 'int':
            b = z3.BitVecSort(I.ty.w); env[I] = z3.Function('%s%d' % (op, I.ty.w), b, b, b)(D.z(v(0), I.ty.w), D.z(v(1), I.ty.w)); return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            env[I] = f(z3.RNE(), v(0), v(1)); return
        if op == 'fneg': env[I] = z3.fpNeg(v(0)); return
        if op == 'fcmp':
            a, b = v(0), v(1)
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)); p = I.pred
            o = {'eq': lambda: z3.fpEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b), 'ne': lambda: z3.And(z3.Not(un), z3.fpNEQ(a, b))}.get(p[1:])
            if p == 'ord': r = z3.Not(un)
            elif p == 'uno': r = un
            elif p == 'une': r = z3.Not(z3.fpEQ(a, b))
            elif p[0] == 'o': r = o()
            else: r = z3.Or(un, o())
            env[I] = r; return
        if op in ('sitofp', 'uitofp'):
            a = v(0)
            if D.name != 'bv' and not isinstance(a, int): raise Unsupported('int-to-float in int mode')
            z = D.z(a, I.ops[0].ty.w) if D.name == 'bv' else z3.BitVecVal(a, I.ops[0].ty.w)
            env[I] = z3.fpSignedToFP(z3.RNE(), z, fsort(I.ty)) if op[0] == 's' else z3.fpToFPUnsigned(z3.RNE(), z, fsort(I.ty)); return
        if op in ('fptosi', 'fptoui'):
            if D.name != 'bv': raise Unsupported('float-to-int in int mode')
            env[I] = (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(z3.RTZ(), v(0), z3.BitVecSort(I.ty.w)); return
        if op in ('fpext', 'fptrunc'): env[I] = z3.fpFPToFP(z3.RNE(), v(0), fsort(I.ty)); return
        raise Unsupported('instruction ' + op)
    def as_bool(s, a):
        """recognise If(c,1,0)"""
        if a.lin.c == 0 and len(a.lin.m) == 1:
            (i, k), = a.lin.m.items(); e = Atoms.exprs[i]
            if k == 1 and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and isinstance(e.arg(1), z3.IntNumRef) and isinstance(e.arg(2), z3.IntNumRef) and e.arg(1).as_long() == 1 and e.arg(2).as_long() == 0: return e.arg(0)
        return None
    def load_ty(s, st, p, ty):
        if ty.k == 'int':
            v = s.load(st, p, ty.size, 'int')
            if ty.w == 1:
                if isinstance(v, int): return bool(v & 1)
                return s.as_bool(v) if s.D.name == 'int' and s.as_bool(v) is not None else s.D.icmp('ne', 8, v, 0, st)
            if ty.w != ty.size * 8 and not isinstance(v, PInt): v = s.D.trunc(ty.w, v, ty.size * 8, st)
            return v
        if ty.k == 'ptr': return s.load(st, p, 8, 'ptr')
        if ty.k in ('float', 'double'): return s.load(st, p, ty.size, ty.k)
        if ty.k == 'struct': return [s.load_ty(st, Ptr(p.r, p.off + o), t) for o, t in zip(ty.offs, ty.els)]
        if ty.k == 'array': return [s.load_ty(st, Ptr(p.r, p.off + i * ty.el.size), ty.el) for i in range(ty.n)]
        raise Unsupported('load of %r' % ty)
    def store_ty(s, st, p, x, ty):
        if ty.k == 'int':
            if ty.w == 1: x = (1 if x else 0) if isb(x) else s.D.ite(x, 1, 0, 8, st)
            elif ty.w != ty.size * 8: x = s.D.zext(ty.size * 8, x, ty.w, st)
            return s.store(st, p, x, ty.size)
        if ty.k in ('ptr', 'float', 'double'): return s.store(st, p, x, ty.size)
        if ty.k == 'struct':
            for o, t, e in zip(ty.offs, ty.els, x):
                if e is not None: s.store_ty(st, Ptr(p.r, p.off + o), e, t)
            return
        if ty.k == 'array':
            for i, e in enumerate(x):
                if e is not None: s.store_ty(st, Ptr(p.r, p.off + i * ty.el.size), e, ty.el)
            return
        raise Unsupported('store of %r' % ty)
    def nsw_check(s, fr, I, op, a, b, w, st):
        if isinstance(a, int) and isinstance(b, int):
            x, y = sgn(a, w), sgn(b, w); r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            g = -(1 << w - 1) <= r < 1 << w - 1
        elif s.D.name == 'int':
            x, y = s.D.cs(w, a, st), s.D.cs(w, b, st)
            r = x + y if op == 'add' else x - y if op == 'sub' else x.mul(y)
            if op == 'mul' and x.m and y.m and not s.quiet_nsw_ok(r, w, st):
                # |x| <= A and |y| <= B give |x y| <= A B: the operand ranges are decided linearly, the product bound becomes a fact
                k = [s.magnitude(v, st) for v in (x, y)]
                if None not in k: M = 1 << sum(k); st.assume(z3.And(r.z() >= -M, r.z() <= M))
            g = And(lcmp('ge', r, Lin(-(1 << w - 1)), st), lcmp('le', r, Lin((1 << w - 1) - 1), st))
        else:
            e = w if op == 'mul' else 1
            x, y = z3.SignExt(e, s.D.z(a, w)), z3.SignExt(e, s.D.z(b, w))
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            g = r == z3.SignExt(e, z3.Extract(w - 1, 0, r))
        if isb(g) and g: s.count_trivial('nsw'); return
        s.prove(st, g, 'no signed overflow in ' + short(fr.fn))
    def quiet_nsw_ok(s, r, w, st):
        lo, hi = r.bounds(st); return lo is not None and hi is not None and lo >= -(1 << w - 1) and hi < 1 << w - 1
    def magnitude(s, v, st):
        for k in (8, 16, 24, 30, 31, 32, 33, 48, 62):
            lo, hi = v.bounds(st)
            if lo is not None and hi is not None and lo >= -(1 << k) and hi <= 1 << k: return k
            if s.quick_valid(st, z3.And(v.z() >= -(1 << k), v.z() <= 1 << k)): return k
        return None
    def product(s, st, x, y):
        """x * y as an uninterpreted symmetric function (congruence decides what the obligations need)"""
        k = ('ufmul', x.get_id(), y.get_id()); t = UFMUL(x, y)
        if k not in st.defs: st.define(k, [t == UFMUL(y, x)])
        return t
    def uf_product(s, st, w, a, b):
        x, y = s.D.cs(w, a, st), s.D.cs(w, b, st); k = [s.magnitude(v, st) for v in (x, y)]
        if None in k or sum(k) > w - 2 or not x.m or not y.m: return None
        l = Lin.atom(s.product(st, x.z(), y.z())); M = 1 << sum(k)
        for i in l.m: st.bound(i, -M, M)
        st.pc += [l.z() >= -M, l.z() <= M]; return IV(w, l)
    def pint(s, op, a, b, w, st):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.p.r is b.p.r:
            return s.D.of_off(a.p.off - b.p.off)
        if op == 'add' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.r, a.p.off + s.D.to_off(b, w, st)))
        if op == 'add' and isinstance(b, PInt) and not isinstance(a, PInt): return PInt(Ptr(b.p.r, b.p.off + s.D.to_off(a, w, st)))
        if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(Ptr(a.p.r, a.p.off - s.D.to_off(b, w, st)))
        if op in ('and', 'urem') and isinstance(b, int) and (b & (b + 1) == 0 if op == 'and' else True): return s.fresh(st, w, 'addr')
        raise Unsupported('pointer arithmetic as integers (%s)' % op)
    def pcmp(s, pred, a, b, st):
        def P(x):
            if isinstance(x, PInt): return x.p
            if isinstance(x, int): return Ptr(None, Lin(x))
            return x
        a, b = P(a), P(b)
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('comparison of %r and %r' % (a, b))
        if a.r is not b.r:
            if pred == 'eq': return False
            if pred == 'ne': return True
            raise Unsupported('ordering of pointers into different objects')
        d = a.off - b.off
        if d.const:
            c = d.c; return {'eq': c == 0, 'ne': c != 0, 'gt': c > 0, 'ge': c >= 0, 'lt': c < 0, 'le': c <= 0}[pred[-2:]]
        st_ = a.r.step if a.r is not None else 1
        if s.D.name == 'int':
            x, y = a.off, b.off
            if x.divisible(st_) and y.divisible(st_): x, y = x.exact(st_), y.exact(st_)
            return lcmp(pred[-2:], x, y, st)
        x, y = a.off.bv(64), b.off.bv(64)
        if a.off.divisible(st_) and b.off.divisible(st_): x, y = a.off.exact(st_).bv(64), b.off.exact(st_).bv(64)
        return {'eq': lambda: x == y, 'ne': lambda: x != y, 'gt': lambda: x > y, 'ge': lambda: x >= y, 'lt': lambda: x < y, 'le': lambda: x <= y}[pred[-2:]]()
    # atomics: every access is an event with its ordering; a shared cell is havocked (interference) before each access
    def atomic(s, st, kind, I, p, x=None, y=None):
        ty = I.ty if kind in ('load', 'rmw') else I.ops[0].ty if kind == 'store' else I.ops[1].ty
        n = ty.size
        def get():
            if isinstance(p, Ptr) and p.r is not None and p.r.shared:
                m = st.mem[p.r.id].clone(); old = m.cells.get(p.off.c)
                m.cells[p.off.c] = (n, s.junk_ty(st, ty)); st.mem[p.r.id] = m
            return s.load_ty(st, p, ty)
        if kind == 'load':
            v = get(); s.event(st, ('load', I.order, p, v)); return v
        if kind == 'store':
            s.store_ty(st, p, x, ty); s.event(st, ('store', I.order, p, x)); return
        if kind == 'rmw':
            old = get(); w = ty.w
            if I.rmw == 'xchg': new = x
            elif I.rmw in ('add', 'sub', 'and', 'or', 'xor'):
                new = s.D.binop(I.rmw, w, old, x, st)
            else: raise Unsupported('atomicrmw ' + I.rmw)
            s.store_ty(st, p, new, ty); s.event(st, ('rmw', I.order, p, old, new)); return old
        old = get(); w = ty.w
        ok = s.pcmp('eq', old, x, st) if ty.k == 'ptr' else s.D.icmp('eq', w, old, x, st)
        if I.weak: ok = And(ok, z3.Bool(fresh_name('no_spurious_failure')))
        if ty.k == 'int': new = s.D.ite(ok, y, old, w, st)
        else:
            if isb(ok): new = y if ok else old
            else: raise Unsupported('pointer cas')
        s.store_ty(st, p, new, ty)
        s.event(st, ('cas', (I.order, I.order2), p, old, x, y, ok))
        return [old, ok]
    def event(s, st, ev):
        st.ghost['events'] = st.ghost.get('events', ()) + (ev,)
        if s.on_event: s.on_event(st, ev)
    def junk_ty(s, st, ty):
        if ty.k == 'int': return s.fresh(st, ty.size * 8, 'env')
        return s.junk(st, ty.size, ty.k)


def fsort(t): return z3.Float32() if t.k == 'float' else z3.Float64()
def Const_zero(t): return ir.Const('int' if t.k == 'int' else 'null' if t.k == 'ptr' else 'zero', 0, t)
def short(f):
    d = f.demangled
    d = re.sub(r'<.*>', '<>', d)
    return d.split('(')[0][-60:]


def simp_sel(e):
    """select over a store chain with syntactically decided indices"""
    while z3.is_select(e):
        a, i = e.arg(0), e.arg(1)
        if z3.is_store(a):
            j = a.arg(1)
            if j.eq(i): return a.arg(2)
            if isinstance(i, (z3.IntNumRef, z3.BitVecNumRef)) and isinstance(j, (z3.IntNumRef, z3.BitVecNumRef)) and i.as_long() != j.as_long():
                e = z3.Select(a.arg(0), i); continue
            d = z3.simplify(i - j) if not z3.is_bv(i) else None
            if isinstance(d, z3.IntNumRef):
                if d.as_long() == 0: return a.arg(2)
                e = z3.Select(a.arg(0), i); continue
        if z3.is_const_array(a): return a.arg(0)
        return e
    return e


def table_expr(eng, st, T, q, w):
    """closed form of table T at index q (a Lin known to lie in [0,len(T)))"""
    n = len(T)
    if eng.D.name == 'bv':
        e = eng.D.idx(q); k = max(1, (n - 1).bit_length())
        if n == 1 << k and T[0] == 0 and all(T[i] == (T[i & (i - 1)] ^ T[i & -i]) for i in range(1, n)):
            x = z3.simplify(z3.Extract(k - 1, 0, e)); r = None
            for b in range(k):
                t = z3.If(z3.Extract(b, b, x) == 1, z3.BitVecVal(T[1 << b], w), z3.BitVecVal(0, w))
                r = t if r is None else r ^ t
            return r
        x = z3.simplify(z3.Extract(k - 1, 0, e))
        def tree(lo, size, bit):
            if lo >= n: return None
            if size == 1: return z3.BitVecVal(T[lo], w)
            a = tree(lo, size // 2, bit - 1); b = tree(lo + size // 2, size // 2, bit - 1)
            if b is None or a.eq(b): return a
            return z3.If(z3.Extract(bit, bit, x) == 1, b, a)
        return tree(0, 1 << k, k - 1)
    if n == 1: return T[0]
    d = T[1] - T[0]
    def fits(f):
        k = next((i for i in range(n) if T[i] != f(i)), n)        # the form holds on [0,k); usable when the index provably stays there
        return k == n or k > n // 2 and k > 8 and eng.quick_valid(st, q.z() < k)
    if fits(lambda i: T[0] + d * i): return eng.D.of_lin(w, q.scale(d) + T[0])
    for m in (2, 4, 8, 10, 16, 32, 64, 100, 256):
        if m < n and fits(lambda i: T[0] + i // m * (T[m] - T[0])): return eng.D.of_lin(w, eng.D.divmod(q, m, st)[0].scale(T[m] - T[0]) + T[0])
        if m < n and fits(lambda i: T[0] + i % m * d): return eng.D.of_lin(w, eng.D.divmod(q, m, st)[1].scale(d) + T[0])
    z = q.z(); runs = []; j = 0
    # piecewise linear runs (slope 0 or the local difference when it holds for at least 3 entries)
    while j < n:
        best = j; sl = 0
        for d in {0, T[j + 1] - T[j]} if j + 1 < n else {0}:
            k = j
            while k + 1 < n and T[k + 1] == T[k] + d: k += 1
            if k > best and (d == 0 or k - j >= 2): best, sl = k, d
        runs.append((best, sl, T[j] - sl * j)); j = best + 1
    piece = lambda r: z3.IntVal(r[2]) if r[1] == 0 else z * z3.IntVal(r[1]) + r[2]
    e = piece(runs[-1])
    for r in reversed(runs[:-1]): e = z3.If(z <= r[0], piece(r), e)
    i = Atoms.of(e); st.bound(i, min(T), max(T))
    return IV(w, Lin(0, {i: 1}))


def model_dict(m):
    d = {}
    try:
        for x in m.decls():
            if x.arity() == 0:
                v = m[x]
                if isinstance(v, (z3.IntNumRef, z3.BitVecNumRef)): d[x.name()] = v.as_long()
                elif z3.is_bool(v): d[x.name()] = bool(z3.is_true(v))
                elif len(d) < 60: d[x.name()] = str(v)[:160]
    except Exception: pass
    return d


def cvc5_check(solver, timeout):
    txt = solver.to_smt2()
    txt = '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith('(set-info') and not l.startswith('(set-logic'))
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().split('\n')[0] if p.stdout.strip() else 'unknown'
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception: return 'unknown'
    finally: os.unlink(f.name)


# ------------------------------------------------------------ generic candidates
def auto_candidates(eng, c0):
    """unchanged phis, octagon relations with the entry values, lock-step relations"""
    out = []
    isint = eng.D.name == 'int'
    for p in c0.phis:
        if p.ty.k == 'int' and p.w == 1:
            if isb(p.entry) or True: out.append(('%s == entry' % p.name, lambda c, p=p: Iff(c.vals[p.name], c.entry[p.name])))
            continue
        if not isint:
            if p.ty.k == 'int':
                out.append(('%s == entry' % p.name, lambda c, p=p: c.eng.D.icmp('eq', p.w, c.vals[p.name], c.entry[p.name], c.st)))
                out.append(('%s >=u entry' % p.name, lambda c, p=p: c.eng.D.icmp('uge', p.w, c.vals[p.name], c.entry[p.name], c.st)))
                out.append(('%s <=u entry' % p.name, lambda c, p=p: c.eng.D.icmp('ule', p.w, c.vals[p.name], c.entry[p.name], c.st)))
            elif isinstance(p.entry, Ptr) and p.entry.r is not None:
                out.append(('%s == entry' % p.name, lambda c, p=p: c.eng.pcmp('eq', c.vals[p.name], c.entry[p.name], c.st)))
                out.append(('%s >= entry' % p.name, lambda c, p=p: c.eng.pcmp('ge', c.vals[p.name], c.entry[p.name], c.st)))
            continue
        if c0.elin(p) is None: continue
        for r in ('eq', 'ge', 'le'):
            def f(c, p=p, r=r):
                x = c.lin(p)
                return None if x is None else lcmp(r, x, c.elin(p), c.st)
            out.append(('%s %s entry' % (p.name, r), f))
    if not isint:
        for p in c0.phis:
            if p.ty.k == 'int' and p.w > 1:
                for w, t in bv_terms(eng, c0):
                    if w == p.w:
                        for r in ('ule', 'uge', 'sle', 'sge'): out.append(('%s %s bound' % (p.name, r), lambda c, p=p, t=t, r=r: c.eng.D.icmp(r, p.w, c.vals[p.name], t, c.st)))
            elif p.ty.k == 'ptr':
                for w, t in bv_terms(eng, c0, True):
                    if t.r is p.entry.r:
                        for r in ('ule', 'uge'): out.append(('%s %s bound' % (p.name, r), lambda c, p=p, t=t, r=r: c.eng.pcmp(r, c.vals[p.name], t, c.st)))
        idx = [p for p in c0.phis if p.ty.k == 'int' and p.w > 1]
        for i, p in enumerate(idx):
            for q in idx[i + 1:]:
                if p.w == q.w: out.append(('%s - %s lockstep' % (p.name, q.name), lambda c, p=p, q=q: c.eng.D.icmp('eq', p.w, c.eng.D.binop('sub', p.w, c.vals[p.name], c.entry[p.name], c.st), c.eng.D.binop('sub', p.w, c.vals[q.name], c.entry[q.name], c.st), c.st)))
    # bounds terms collected from comparisons in the loop with loop-invariant values
    if isint:
        idx = [p for p in c0.phis if (p.ty.k == 'int' and p.w > 1 or p.ty.k == 'ptr') and c0.elin(p) is not None]
        terms = inv_terms(eng, c0)
        for p in idx:
            for t in terms:
                if t[0] == ('ptr' if p.ty.k == 'ptr' else 'int') and (t[0] == 'int' or t[3] is c0.entry[p.name].r):
                    for r in ('le', 'ge'):
                        out.append(('%s %s %s' % (p.name, r, t[1]), lambda c, p=p, t=t, r=r: (lambda x: None if x is None else lcmp(r, x, t[2], c.st))(c.lin(p))))
        for i, p in enumerate(idx):
            for q in idx[i + 1:]:
                if (p.ty.k == 'ptr') != (q.ty.k == 'ptr') or (p.ty.k == 'ptr' and c0.entry[p.name].r is not c0.entry[q.name].r):
                    if len(idx) > 6: continue
                    for sg_ in (1, -1):
                        def f(c, p=p, q=q, k=sg_):
                            x, y, x0, y0 = c.lin(p), c.lin(q), c.elin(p), c.elin(q)
                            return None if None in (x, y) else lcmp('eq', x - x0, (y - y0).scale(k), c.st)
                        out.append(('%s,%s lockstep %d' % (p.name, q.name, sg_), f))
                    continue
                for r in ('le', 'ge'):
                    out.append(('%s %s %s' % (p.name, r, q.name), lambda c, p=p, q=q, r=r: (lambda x, y: None if x is None or y is None else lcmp(r, x, y, c.st))(c.lin(p), c.lin(q))))
                for sg_ in (1, -1):
                    def f(c, p=p, q=q, k=sg_):
                        x, y, x0, y0 = c.lin(p), c.lin(q), c.elin(p), c.elin(q)
                        return None if None in (x, y) else lcmp('eq', x - x0, (y - y0).scale(k), c.st)
                    out.append(('%s,%s lockstep %d' % (p.name, q.name, sg_), f))
    return out

def inv_terms(eng, c0):
    """loop-invariant values that the loop compares against"""
    fr = c0.frame; body = fr.fn.loops[c0.header]; out = []; seen = set()
    for b in body:
        for I in b.ins:
            if I.op == 'icmp':
                for o in I.ops:
                    v = None
                    if isinstance(o, ir.Const):
                        if o.k == 'int' and o.ty.w > 1: v = o.v
                    elif isinstance(o, ir.Arg) or o.block not in body: v = fr.env.get(o)
                    if v is None: continue
                    sg_ = I.pred[0] == 's'
                    if isinstance(v, Ptr):
                        if v.r is None or not v.off.divisible(v.r.step): continue
                        l = v.off.exact(v.r.step); k = ('p', v.r.id, l.key())
                        if k in seen: continue
                        seen.add(k); out.append(('ptr', getattr(o, 'name', 'const'), l, v.r))
                    elif isinstance(v, (int, IV)):
                        l = (eng.D.cs if sg_ else eng.D.cu)(o.ty.w, v, c0.st); k = ('i', l.key())
                        if k in seen: continue
                        seen.add(k); out.append(('int', getattr(o, 'name', 'c%s' % v), l, None))
    return out

def measures(eng, c):
    out = []
    terms = inv_terms(eng, c)
    idx = [p for p in c.phis if (p.ty.k == 'int' and p.w > 1 or p.ty.k == 'ptr') and c.lin(p) is not None]
    for p in idx:
        for t in terms:
            if t[0] == ('ptr' if p.ty.k == 'ptr' else 'int') and (t[0] == 'int' or t[3] is c.vals[p.name].r):
                out.append(('%s - %s' % (t[1], p.name), lambda c, p=p, t=t: t[2] - c.lin(p)))
                out.append(('%s - %s' % (p.name, t[1]), lambda c, p=p, t=t: c.lin(p) - t[2]))
        if p.ty.k == 'int': out.append((p.name, lambda c, p=p: c.lin(p)))
        for q in idx:
            if q is not p and p.ty.k == q.ty.k: out.append(('%s - %s' % (p.name, q.name), lambda c, p=p, q=q: c.lin(p) - c.lin(q)))
    return out

def bv_terms(eng, c, ptr=False):
    fr = c.frame; body = fr.fn.loops[c.header]; terms = []; seen = set()
    for b in body:
        for I in b.ins:
            if I.op == 'icmp':
                for o in I.ops:
                    if isinstance(o, ir.Const):
                        if o.k == 'int' and o.ty.w > 1 and not ptr and ('c', o.v) not in seen: seen.add(('c', o.v)); terms.append((o.ty.w, o.v))
                    elif isinstance(o, ir.Arg) or o.block not in body:
                        v = fr.env.get(o)
                        if id(o) in seen: continue
                        seen.add(id(o))
                        if ptr and isinstance(v, Ptr) and v.r is not None: terms.append((64, v))
                        if not ptr and isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool): terms.append((o.ty.w, v))
    return terms

def bv_measures(eng, c):
    out = []
    def z(v, w): 
        v = eng.D.z(v, w); return z3.ZeroExt(64 - w, v) if w < 64 else v
    fr = c.frame; body = fr.fn.loops[c.header]
    terms = []
    for b in body:
        for I in b.ins:
            if I.op == 'icmp':
                for o in I.ops:
                    if isinstance(o, ir.Const):
                        if o.k == 'int' and o.ty.w > 1: terms.append((o.ty.w, o.v))
                    elif isinstance(o, ir.Arg) or o.block not in body:
                        v = fr.env.get(o)
                        if isinstance(v, (int, z3.BitVecRef)) and not isinstance(v, bool): terms.append((o.ty.w, v))
                        elif isinstance(v, Ptr) and v.r is not None: terms.append((64, v.off.bv(64)))
    for p in c.phis:
        if p.ty.k == 'int' and p.w > 1:
            out.append((p.name, lambda c, p=p: z(c.vals[p.name], p.w)))
            for w, t in terms:
                if w == p.w: out.append(('term - %s' % p.name, lambda c, p=p, t=t: z(t, p.w) - z(c.vals[p.name], p.w)))
        elif p.ty.k == 'ptr' and isinstance(c.vals[p.name], Ptr):
            for w, t in terms:
                if w == 64:
                    out.append(('end - %s' % p.name, lambda c, p=p, t=t: z(t, 64) - c.vals[p.name].off.bv(64)))
                    out.append(('%s - begin' % p.name, lambda c, p=p, t=t: c.vals[p.name].off.bv(64) - z(t, 64)))
    return out
