"""Loads LLVM IR (text, as written by clang/opt 18) into plain Python objects through libLLVM's C API.

Nothing here interprets the program: this is a faithful dump of the instructions the compiler front end
produced from /repo's sources on this run."""
import ctypes as C, subprocess, os

_L = C.CDLL('/usr/lib/llvm-18/lib/libLLVM-18.so' if os.path.exists('/usr/lib/llvm-18/lib/libLLVM-18.so') else 'libLLVM-18.so')
P = C.c_void_p
U = C.c_uint

def _f(name, res, *args):
    f = getattr(_L, name); f.restype = res; f.argtypes = list(args); return f

ContextCreate = _f('LLVMContextCreate', P)
MemBuf = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f('LLVMGetFirstFunction', P, P); NextFn = _f('LLVMGetNextFunction', P, P)
FirstG = _f('LLVMGetFirstGlobal', P, P); NextG = _f('LLVMGetNextGlobal', P, P)
GetInit = _f('LLVMGetInitializer', P, P); IsGConst = _f('LLVMIsGlobalConstant', C.c_int, P)
GlobalValueType = _f('LLVMGlobalGetValueType', P, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P); NextBB = _f('LLVMGetNextBasicBlock', P, P)
BBName = _f('LLVMGetBasicBlockName', C.c_char_p, P)
FirstI = _f('LLVMGetFirstInstruction', P, P); NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
NumOp = _f('LLVMGetNumOperands', C.c_int, P); GetOp = _f('LLVMGetOperand', P, P, U)
TypeOf = _f('LLVMTypeOf', P, P); TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntW = _f('LLVMGetIntTypeWidth', U, P)
ValName = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
ValKind = _f('LLVMGetValueKind', C.c_int, P)
CountParams = _f('LLVMCountParams', U, P); GetParam = _f('LLVMGetParam', P, P, U)
ICmpPred = _f('LLVMGetICmpPredicate', C.c_int, P); FCmpPred = _f('LLVMGetFCmpPredicate', C.c_int, P)
CountInc = _f('LLVMCountIncoming', U, P); IncV = _f('LLVMGetIncomingValue', P, P, U); IncB = _f('LLVMGetIncomingBlock', P, P, U)
NumSucc = _f('LLVMGetNumSuccessors', U, P); Succ = _f('LLVMGetSuccessor', P, P, U)
IsCond = _f('LLVMIsConditional', C.c_int, P)
GEPTy = _f('LLVMGetGEPSourceElementType', P, P)
AllocTy = _f('LLVMGetAllocatedType', P, P)
GetNSW = _f('LLVMGetNSW', C.c_int, P); GetNUW = _f('LLVMGetNUW', C.c_int, P)
Called = _f('LLVMGetCalledValue', P, P)
NumIdx = _f('LLVMGetNumIndices', U, P); GetIdx = _f('LLVMGetIndices', C.POINTER(U), P)
SextVal = _f('LLVMConstIntGetSExtValue', C.c_longlong, P); ZextVal = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
DataLayout = _f('LLVMGetModuleDataLayout', P, P)
ABISize = _f('LLVMABISizeOfType', C.c_ulonglong, P, P); StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
OffElem = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, U)
NumStructEl = _f('LLVMCountStructElementTypes', U, P); StructEl = _f('LLVMStructGetTypeAtIndex', P, P, U)
ArrLen = _f('LLVMGetArrayLength', U, P); ElTy = _f('LLVMGetElementType', P, P)
VecSize = _f('LLVMGetVectorSize', U, P)
StructName = _f('LLVMGetStructName', C.c_char_p, P)
ConstOpcode = _f('LLVMGetConstOpcode', C.c_int, P)
AggEl = _f('LLVMGetAggregateElement', P, P, U)
IsConstStr = _f('LLVMIsConstantString', C.c_int, P)
Ordering = _f('LLVMGetOrdering', C.c_int, P); RMWOp = _f('LLVMGetAtomicRMWBinOp', C.c_int, P)
IsWeak = _f('LLVMGetWeak', C.c_int, P); CxSucc = _f('LLVMGetCmpXchgSuccessOrdering', C.c_int, P); CxFail = _f('LLVMGetCmpXchgFailureOrdering', C.c_int, P)
Volatile = _f('LLVMGetVolatile', C.c_int, P)
RealVal = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
CondOf = _f('LLVMGetCondition', P, P)
RetTypeOf = _f('LLVMGetReturnType', P, P)
PrintVal = _f('LLVMPrintValueToString', C.c_void_p, P)
DisposeMsg = _f('LLVMDisposeMessage', None, C.c_void_p)

OPN = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',67:'callbr',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',
 20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',
 39:'ptrtoint',40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',48:'userop2',49:'vaarg',50:'extractelement',51:'insertelement',52:'shufflevector',
 53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',59:'landingpad'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}
ORD = {0:'na',1:'unordered',2:'monotonic',4:'acquire',5:'release',6:'acq_rel',7:'seq_cst'}
RMW = {0:'xchg',1:'add',2:'sub',3:'and',4:'nand',5:'or',6:'xor',7:'max',8:'min',9:'umax',10:'umin',11:'fadd',12:'fsub'}


class Ty:
    __slots__ = ('k', 'w', 'size', 'els', 'offs', 'n', 'el', 'name')
    def __init__(s, k, **kw):
        s.k = k; s.w = s.size = s.els = s.offs = s.n = s.el = s.name = None
        for a, b in kw.items(): setattr(s, a, b)
    def __repr__(s):
        if s.k == 'int': return 'i%d' % s.w
        if s.k == 'struct': return '{%s}' % ','.join(map(repr, s.els))
        if s.k == 'array': return '[%d x %r]' % (s.n, s.el)
        return s.k


class Const:
    """k: int (v), null, undef, zero, agg (v list), gref (v global name), fref, gepc (base, off), float (v), bytes"""
    __slots__ = ('k', 'v', 'ty', 'extra')
    def __init__(s, k, v, ty, extra=None): s.k, s.v, s.ty, s.extra = k, v, ty, extra
    def __repr__(s): return 'C<%s %r %r>' % (s.k, s.v, s.ty)


class Arg:
    __slots__ = ('name', 'ty', 'idx')
    def __init__(s, n, t, i): s.name, s.ty, s.idx = n, t, i


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'name', 'pred', 'nsw', 'nuw', 'exact', 'inc', 'succ', 'srcty', 'allocty', 'idx', 'callee', 'order', 'rmw', 'vol', 'cases', 'block', 'order2', 'weak', 'uid', 'fn')
    def __init__(s):
        for a in Instr.__slots__: setattr(s, a, None)
    def __repr__(s): return '%s:%s %s' % (s.name or '', s.op, s.ty)


class Block:
    def __init__(s, name, fn): s.name, s.fn, s.ins, s.idx = name, fn, [], None
    def __repr__(s): return '%s/%s' % (s.fn.name, s.name)


class Function:
    def __init__(s, name): s.name, s.blocks, s.args, s.ret, s.demangled = name, [], [], None, name


class Global:
    def __init__(s, name): s.name = name; s.init = None; s.const = False; s.ty = None


class Module:
    def __init__(s): s.fns = {}; s.globals = {}


class Loader:
    def __init__(self, path, fpbits=False):
        self.fpbits = fpbits
        buf = P(); msg = C.c_char_p()
        if MemBuf(path.encode(), C.byref(buf), C.byref(msg)): raise RuntimeError('cannot read %s' % path)
        ctx = ContextCreate(); mod = P()
        if ParseIR(ctx, buf, C.byref(mod), C.byref(msg)): raise RuntimeError('cannot parse %s: %s' % (path, msg.value))
        self.mod = mod; self.dl = DataLayout(mod); self.tys = {}
        m = self.m = Module()
        g = FirstG(mod)
        gs = []
        while g:
            G = Global(self.nm(g)); G.const = bool(IsGConst(g)); G.ty = self.ty(GlobalValueType(g)); m.globals[G.name] = G; gs.append((g, G)); g = NextG(g)
        f = FirstFn(mod); fs = []
        while f:
            F = Function(self.nm(f)); m.fns[F.name] = F; fs.append((f, F)); f = NextFn(f)
        for g, G in gs:
            i = GetInit(g)
            G.init = self.const(i) if i else None
        names = [F.name for _, F in fs]
        if names:
            out = subprocess.run(['llvm-cxxfilt-18'] if _has('llvm-cxxfilt-18') else ['c++filt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
            for (_, F), d in zip(fs, out): F.demangled = d
        uid = 0
        for f, F in fs:
            F.ret = self.ty(RetTypeOf(GlobalValueType(f)))
            vals = {}
            for i in range(CountParams(f)):
                p = GetParam(f, i); a = Arg(self.nm(p) or 'arg%d' % i, self.ty(TypeOf(p)), i); F.args.append(a); vals[p] = a
            bbs = {}
            b = FirstBB(f)
            while b:
                B = Block(BBName(b).decode() or 'b%d' % len(F.blocks), F); B.idx = len(F.blocks); F.blocks.append(B); bbs[b] = B; b = NextBB(b)
            pend = []
            for b, B in bbs.items():
                i = FirstI(b)
                while i:
                    I = Instr(); I.op = OPN[Opcode(i)]; I.ty = self.ty(TypeOf(i)); I.name = self.nm(i); I.block = B; I.fn = F
                    uid += 1; I.uid = uid
                    if not I.name: I.name = '%%%d' % uid
                    vals[i] = I; B.ins.append(I); pend.append((i, I)); i = NextI(i)
            def val(v):
                if v in vals: return vals[v]
                return self.const(v)
            for i, I in pend:
                o = I.op
                if o == 'phi':
                    I.inc = {bbs[IncB(i, k)]: val(IncV(i, k)) for k in range(CountInc(i))}
                elif o == 'br':
                    I.succ = [bbs[Succ(i, k)] for k in range(NumSucc(i))]
                    if IsCond(i): I.ops = [val(CondOf(i))]
                    else: I.ops = []
                elif o == 'switch':
                    I.succ = [bbs[Succ(i, k)] for k in range(NumSucc(i))]
                    I.ops = [val(GetOp(i, 0))]
                    I.cases = [ZextVal(GetOp(i, k)) for k in range(2, NumOp(i), 2)]
                elif o == 'call':
                    c = Called(i); k = NumOp(i)
                    I.ops = [val(GetOp(i, j)) for j in range(k - 1)]
                    I.callee = val(c)
                else:
                    I.ops = [val(GetOp(i, j)) for j in range(NumOp(i))]
                if o == 'icmp': I.pred = PRED[ICmpPred(i)]
                elif o == 'fcmp': I.pred = FPRED[FCmpPred(i)]
                elif o in ('add', 'sub', 'mul', 'shl'): I.nsw = bool(GetNSW(i)); I.nuw = bool(GetNUW(i))
                elif o in ('sdiv', 'udiv', 'lshr', 'ashr'): I.exact = True
                elif o == 'gep': I.srcty = self.ty(GEPTy(i))
                elif o == 'alloca': I.allocty = self.ty(AllocTy(i))
                elif o in ('extractvalue', 'insertvalue'):
                    n = NumIdx(i); p = GetIdx(i); I.idx = [p[k] for k in range(n)]
                elif o in ('load', 'store'): I.order = ORD.get(Ordering(i)); I.vol = bool(Volatile(i))
                elif o == 'atomicrmw': I.order = ORD.get(Ordering(i)); I.rmw = RMW.get(RMWOp(i), '?')
                elif o == 'fence': I.order = ORD.get(Ordering(i))
                elif o == 'cmpxchg': I.order = ORD.get(CxSucc(i)); I.order2 = ORD.get(CxFail(i)); I.weak = bool(IsWeak(i))

    def nm(self, v):
        n = C.c_size_t(); s = ValName(v, C.byref(n)); return s[:n.value].decode()

    def ty(self, t):
        if t in self.tys: return self.tys[t]
        k = TypeKind(t)
        if k == 0: r = Ty('void', size=0)
        elif k in (2, 3) and self.fpbits: r = Ty('int', w=32 * (k - 1), size=4 * (k - 1))       # floats as their bits; the arithmetic on them stays uninterpreted
        elif k == 2: r = Ty('float', w=32, size=4)
        elif k == 3: r = Ty('double', w=64, size=8)
        elif k == 8: r = Ty('int', w=IntW(t), size=ABISize(self.dl, t))
        elif k == 9: r = Ty('func')
        elif k == 10:
            n = NumStructEl(t)
            r = Ty('struct', n=n, name=(StructName(t) or b'').decode()); self.tys[t] = r
            r.els = [self.ty(StructEl(t, i)) for i in range(n)]
            try: r.size = ABISize(self.dl, t); r.offs = [OffElem(self.dl, t, i) for i in range(n)]
            except Exception: pass
        elif k == 11: r = Ty('array', n=ArrLen(t), el=self.ty(ElTy(t)), size=ABISize(self.dl, t))
        elif k == 12: r = Ty('ptr', w=64, size=8)
        elif k == 13: r = Ty('vector', n=VecSize(t), el=self.ty(ElTy(t)), size=ABISize(self.dl, t))
        elif k == 4: r = Ty('x86_fp80', size=16)
        else: r = Ty('other%d' % k, size=0)
        self.tys[t] = r
        return r

    def const(self, v):
        k = ValKind(v); t = self.ty(TypeOf(v))
        # LLVMValueKind: 0 Argument 1 BB 2 MemoryUse.. 5 Function 6 GlobalAlias 7 IFunc 8 GlobalVariable 9 BlockAddress 10 ConstantExpr 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 Int 19 FP 20 NullPtr 21 TokenNone 22 Metadata 23 InlineAsm 24 Instruction 25 Poison
        if k == 18:
            if t.w > 64:
                s = C.cast(PrintVal(v), C.c_char_p).value.decode().split()[-1]
                return Const('int', int(s) & ((1 << t.w) - 1), t)
            return Const('int', ZextVal(v), t)
        if k == 20: return Const('null', 0, t)
        if k in (14, 25): return Const('undef', None, t)
        if k == 15: return Const('zero', 0, t)
        if k in (11, 12, 13):
            return Const('agg', [self.const(GetOp(v, i)) for i in range(NumOp(v))], t)
        if k in (16, 17):
            return Const('agg', [self.const(AggEl(v, i)) for i in range(t.n)], t)
        if k == 8: return Const('gref', self.nm(v), t)
        if k == 5: return Const('fref', self.nm(v), t)
        if k == 19:
            l = C.c_int(); d = RealVal(v, C.byref(l))
            if self.fpbits: return Const('int', int.from_bytes(__import__('struct').pack('<f' if t.w == 32 else '<d', d), 'little'), t)
            return Const('float', d, t)
        if k == 10:
            op = OPN.get(ConstOpcode(v))
            ops = [self.const(GetOp(v, i)) for i in range(NumOp(v))]
            if op == 'gep': return Const('gepc', ops, t, self.ty(GEPTy(v)))
            return Const('expr', ops, t, op)
        if k == 22: return Const('meta', None, t)
        if k == 23: return Const('asm', C.cast(PrintVal(v), C.c_char_p).value.decode(), t)
        return Const('other', k, t)


def _has(x):
    from shutil import which
    return which(x) is not None


def load(path, fpbits=False):
    return Loader(path, fpbits).m


# ---------------- CFG helpers

def succs(b):
    t = b.ins[-1]
    return t.succ or []


def analyse(fn):
    """dominators and natural loops; fn.loops: header -> set(blocks)"""
    if hasattr(fn, 'loops'): return
    rpo = []; seen = set()
    def dfs(b):
        st = [(b, iter(succs(b)))]; seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succs(s)))); break
            else:
                rpo.append(x); st.pop()
    dfs(fn.blocks[0]); rpo.reverse()
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(b): preds[s].append(b)
    dom = {b: None for b in rpo}; dom[rpo[0]] = {rpo[0]}
    allb = set(rpo)
    for b in rpo[1:]: dom[b] = set(allb)
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if n != dom[b]: dom[b] = n; ch = True
    loops = {}
    irreducible = False
    order = {b: i for i, b in enumerate(rpo)}
    for b in rpo:
        for s in succs(b):
            if s in dom[b]:
                body = loops.setdefault(s, {s}); st = [b]
                while st:
                    x = st.pop()
                    if x in body: continue
                    body.add(x); st.extend(preds[x])
            elif order[s] <= order[b]: irreducible = True
    fn.loops, fn.preds, fn.dom, fn.rpo, fn.irreducible = loops, preds, dom, rpo, irreducible
