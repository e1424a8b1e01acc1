"""Loads LLVM bitcode (produced by clang-18 from /repo's current headers plus a witness
translation unit) into plain Python objects, through the LLVM-C API of the installed
libLLVM-18.  No code of /repo is executed; this is only a front end for the analyses."""
import ctypes as C
import re

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM.so.1")
_cxx = C.CDLL("libstdc++.so.6")
_libc = C.CDLL(None)
VP = C.c_void_p


def _f(name, res, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


U = C.c_uint
CtxCreate = _f("LLVMContextCreate", VP)
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(VP), C.POINTER(C.c_char_p))
ParseBC = _f("LLVMParseIRInContext", C.c_int, VP, VP, C.POINTER(VP), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", VP, VP)
NextFn = _f("LLVMGetNextFunction", VP, VP)
FirstGV = _f("LLVMGetFirstGlobal", VP, VP)
NextGV = _f("LLVMGetNextGlobal", VP, VP)
FirstBB = _f("LLVMGetFirstBasicBlock", VP, VP)
NextBB = _f("LLVMGetNextBasicBlock", VP, VP)
FirstI = _f("LLVMGetFirstInstruction", VP, VP)
NextI = _f("LLVMGetNextInstruction", VP, VP)
Opc = _f("LLVMGetInstructionOpcode", C.c_int, VP)
NumOps = _f("LLVMGetNumOperands", C.c_int, VP)
GetOp = _f("LLVMGetOperand", VP, VP, U)
ValKind = _f("LLVMGetValueKind", C.c_int, VP)
ValName = _f("LLVMGetValueName2", C.POINTER(C.c_char), VP, C.POINTER(C.c_size_t))
TypeOf = _f("LLVMTypeOf", VP, VP)
TypeKind = _f("LLVMGetTypeKind", C.c_int, VP)
IntWidth = _f("LLVMGetIntTypeWidth", U, VP)
StructN = _f("LLVMCountStructElementTypes", U, VP)
StructElt = _f("LLVMStructGetTypeAtIndex", VP, VP, U)
EltType = _f("LLVMGetElementType", VP, VP)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, VP)
VecLen = _f("LLVMGetVectorSize", U, VP)
DataLayout = _f("LLVMGetModuleDataLayout", VP, VP)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, VP, VP)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, VP, VP)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, U)
ZExtVal = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
PrintVal = _f("LLVMPrintValueToString", VP, VP)
DisposeMsg = _f("LLVMDisposeMessage", None, VP)
ConstOpc = _f("LLVMGetConstOpcode", C.c_int, VP)
AggElt = _f("LLVMGetAggregateElement", VP, VP, U)
GEPSrc = _f("LLVMGetGEPSourceElementType", VP, VP)
GVInit = _f("LLVMGetInitializer", VP, VP)
IsGVConst = _f("LLVMIsGlobalConstant", C.c_int, VP)
GVType = _f("LLVMGlobalGetValueType", VP, VP)
Aliasee = _f("LLVMAliasGetAliasee", VP, VP)
AttrKind = _f("LLVMGetEnumAttributeKindForName", U, C.c_char_p, C.c_size_t)
AttrAt = _f("LLVMGetEnumAttributeAtIndex", VP, VP, U, U)
CSAttr = _f("LLVMGetCallSiteEnumAttribute", VP, VP, U, U)
AttrVal = _f("LLVMGetEnumAttributeValue", C.c_uint64, VP)
AttrTy = _f("LLVMGetTypeAttributeValue", VP, VP)
CalledVal = _f("LLVMGetCalledValue", VP, VP)
NumArgOps = _f("LLVMGetNumArgOperands", U, VP)
NormalDest = _f("LLVMGetNormalDest", VP, VP)
UnwindDest = _f("LLVMGetUnwindDest", VP, VP)
NumSucc = _f("LLVMGetNumSuccessors", U, VP)
Succ = _f("LLVMGetSuccessor", VP, VP, U)
NumInc = _f("LLVMCountIncoming", U, VP)
IncVal = _f("LLVMGetIncomingValue", VP, VP, U)
IncBB = _f("LLVMGetIncomingBlock", VP, VP, U)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, VP)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, VP)
NumIdx = _f("LLVMGetNumIndices", U, VP)
GetIdx = _f("LLVMGetIndices", C.POINTER(U), VP)
NumClauses = _f("LLVMGetNumClauses", U, VP)
GetClause = _f("LLVMGetClause", VP, VP, U)
IsCleanup = _f("LLVMIsCleanup", C.c_int, VP)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, VP)
Ordering = _f("LLVMGetOrdering", C.c_int, VP)
CXSucc = _f("LLVMGetCmpXchgSuccessOrdering", C.c_int, VP)
CXFail = _f("LLVMGetCmpXchgFailureOrdering", C.c_int, VP)
DbgLine = _f("LLVMGetDebugLocLine", U, VP)
DbgFile = _f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), VP, C.POINTER(U))
NumParams = _f("LLVMCountParams", U, VP)
GetParam = _f("LLVMGetParam", VP, VP, U)
IsDecl = _f("LLVMIsDeclaration", C.c_int, VP)
RetTypeOfFT = _f("LLVMGetReturnType", VP, VP)
AllocTy = _f("LLVMGetAllocatedType", VP, VP)
IsVolatile = _f("LLVMGetVolatile", C.c_int, VP)
NUW = _f("LLVMGetNUW", C.c_int, VP)
NSW = _f("LLVMGetNSW", C.c_int, VP)
NumMask = _f("LLVMGetNumMaskElements", U, VP)
MaskVal = _f("LLVMGetMaskValue", C.c_int, VP, U)
IsTailCall = _f("LLVMIsTailCall", C.c_int, VP)

_dem = _cxx.__cxa_demangle
_dem.restype = VP
_dem.argtypes = [C.c_char_p, VP, VP, C.POINTER(C.c_int)]
_free = _libc.free
_free.argtypes = [VP]
_dem_cache = {}


def demangle(n):
    r = _dem_cache.get(n)
    if r is None:
        if n.startswith("_Z"):
            st = C.c_int()
            p = _dem(n.encode(), None, None, C.byref(st))
            if p:
                r = C.string_at(p).decode()
                _free(p)
            else:
                r = n
        else:
            r = n
        # the two-namespace ABI tags are noise for every analysis
        r = r.replace("[abi:cxx11]", "").replace("std::__cxx11::", "std::")
        _dem_cache[n] = r
    return r


OPN = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub',
       11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem',
       20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store',
       29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp',
       37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast', 42: 'icmp',
       43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement', 51: 'insertelement',
       52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg',
       57: 'atomicrmw', 58: 'resume', 59: 'landingpad', 4: 'indirectbr', 67: 'callbr'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
RMW = ['xchg', 'add', 'sub', 'and', 'nand', 'or', 'xor', 'max', 'min', 'umax', 'umin', 'fadd', 'fsub', 'fmax', 'fmin']
BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}


class Ty:
    __slots__ = ('k', 'size', 'bits', 'elts', 'elt', 'n', 'stride', 'store')
    # k: 'int','ptr','fp','struct','array','vector','void','other'

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.bits
        return self.k


class Inst:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'line', 'file', 'fn', 'callee', 'nounwind', 'attrs')

    def loc(self):
        return "%s:%d" % (self.file, self.line)


class Block:
    __slots__ = ('i', 'insts', 'succs', 'preds', 'phis', 'live_in', 'loophead', 'exits')


class Fn:
    __slots__ = ('name', 'dem', 'params', 'ptys', 'blocks', 'decl', 'nounwind', 'sret', 'byval', 'file', 'line', 'rty',
                 'noreturn', 'readnone', 'nonnull', 'ctor_alias')

    def __repr__(self):
        return "<Fn %s>" % self.dem


class Module:
    def __init__(self, path):
        self.path = path
        ctx = CtxCreate()
        mb = VP()
        err = C.c_char_p()
        if MemBuf(path.encode(), C.byref(mb), C.byref(err)):
            raise RuntimeError(err.value)
        m = VP()
        if ParseBC(ctx, mb, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.m = m
        self.dl = DataLayout(m)
        self._ty = {}
        self.k_nounwind = AttrKind(b"nounwind", 8)
        self.k_sret = AttrKind(b"sret", 4)
        self.k_byval = AttrKind(b"byval", 5)
        self.k_noreturn = AttrKind(b"noreturn", 8)
        self._vid = {}
        self.fns = {}
        self.globals = {}
        self._fptr = {}
        f = FirstFn(m)
        raw = []
        while f:
            fn = Fn()
            fn.name = self.vname(f)
            fn.dem = demangle(fn.name)
            fn.decl = bool(IsDecl(f))
            fn.nounwind = bool(AttrAt(f, 0xFFFFFFFF, self.k_nounwind))
            fn.noreturn = bool(AttrAt(f, 0xFFFFFFFF, self.k_noreturn))
            fn.params = []
            fn.ptys = []
            fn.byval = {}
            fn.sret = None
            fn.file = ''
            fn.line = 0
            ft = GVType(f)
            fn.rty = self.ty(RetTypeOfFT(ft))
            for i in range(NumParams(f)):
                p = GetParam(f, i)
                self._vid[p] = ('a', i)
                fn.params.append(('a', i))
                fn.ptys.append(self.ty(TypeOf(p)))
                a = AttrAt(f, i + 1, self.k_sret)
                if a:
                    fn.sret = i
                a = AttrAt(f, i + 1, self.k_byval)
                if a:
                    t = AttrTy(a)
                    fn.byval[i] = self.ty(t).size
            fn.blocks = None
            self.fns[fn.name] = fn
            self._fptr[fn.name] = f
            f = NextFn(f)
        g = FirstGV(m)
        while g:
            n = self.vname(g)
            init = None
            if not IsDecl(g):
                init = GVInit(g)
            self.globals[n] = (self.ty(GVType(g)), init, bool(IsGVConst(g)))
            g = NextGV(g)
        self.bydem = {}
        for fn in self.fns.values():
            self.bydem.setdefault(fn.dem, []).append(fn)
        self.ninst = 0
        self.nbody = 0

    def vname(self, v):
        n = C.c_size_t()
        p = ValName(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        k = TypeKind(t)
        r = Ty()
        r.bits = 0
        r.elts = r.elt = None
        r.n = 0
        r.size = 0
        r.store = 0
        r.stride = 0
        self._ty[t] = r
        if k == 0:
            r.k = 'void'
        elif k == 8:
            r.k = 'int'
            r.bits = IntWidth(t)
            r.size = ABISize(self.dl, t)
            r.store = StoreSize(self.dl, t)
        elif k == 12:
            r.k = 'ptr'
            r.bits = 64
            r.size = r.store = 8
        elif k == 10:
            r.k = 'struct'
            n = StructN(t)
            r.size = ABISize(self.dl, t)
            r.store = r.size
            r.elts = [(OffsetOf(self.dl, t, i), self.ty(StructElt(t, i))) for i in range(n)]
            r.n = n
        elif k == 11:
            r.k = 'array'
            r.n = ArrLen(t)
            r.elt = self.ty(EltType(t))
            r.stride = r.elt.size
            r.size = r.store = ABISize(self.dl, t)
        elif k == 13:
            r.k = 'vector'
            r.n = VecLen(t)
            r.elt = self.ty(EltType(t))
            r.stride = r.elt.store
            r.size = r.store = ABISize(self.dl, t)
        elif k in (1, 2, 3, 4, 5, 6, 18):
            r.k = 'fp'
            r.size = ABISize(self.dl, t)
            r.store = StoreSize(self.dl, t)
            r.bits = r.store * 8
        else:
            r.k = 'other'
        return r

    # constants and operand references -------------------------------------------------
    def operand(self, v):
        r = self._vid.get(v)
        if r is not None:
            return r
        k = ValKind(v)
        if k == 24 or k == 0:
            raise RuntimeError("unnumbered value")
        r = self._const(v, k)
        self._vid[v] = r
        return r

    def _const(self, v, k):
        if k == 18:
            t = self.ty(TypeOf(v))
            if t.bits <= 64:
                return ('c', ZExtVal(v))
            s = self.pstr(v)
            x = int(s.split()[-1]) if s.split()[-1] not in ('true', 'false') else 1
            return ('c', x & ((1 << t.bits) - 1))
        if k == 20:
            return ('c', 0)
        if k in (14, 25):
            return ('undef',)
        if k == 5:
            return ('f', self.vname(v))
        if k == 8:
            return ('g', self.vname(v), 0)
        if k == 6 or k == 7:
            return self.operand(Aliasee(v))
        if k == 15:
            return ('zero', self.ty(TypeOf(v)))
        if k in (11, 12, 13, 16, 17):
            t = self.ty(TypeOf(v))
            n = t.n
            return ('agg', t, tuple(self.operand(AggElt(v, i)) for i in range(n)))
        if k == 10:
            oc = ConstOpc(v)
            if oc == 29:
                base = self.operand(GetOp(v, 0))
                off = self.gepoff(v)
                if base[0] == 'g' and off is not None and not off[1]:
                    return ('g', base[1], base[2] + off[0])
                if base == ('c', 0) and off is not None and not off[1]:
                    return ('c', off[0] & ((1 << 64) - 1))
                return ('cx', self.pstr(v))
            if oc in (39, 40, 41):
                return self.operand(GetOp(v, 0))
            a = [self.operand(GetOp(v, i)) for i in range(NumOps(v))]
            if oc in (8, 10) and all(x[0] == 'c' for x in a):
                x = a[0][1] + a[1][1] if oc == 8 else a[0][1] - a[1][1]
                return ('c', x & ((1 << self.ty(TypeOf(v)).bits) - 1))
            return ('cx', self.pstr(v))
        if k == 19:
            return ('fp', self.pstr(v))
        if k == 22:
            return ('md',)
        if k == 23:
            return ('asm', self.pstr(v))
        if k == 1:
            return ('bb',)
        return ('cx', self.pstr(v))

    def pstr(self, v):
        p = PrintVal(v)
        s = C.string_at(p).decode(errors='replace')
        DisposeMsg(p)
        return s

    def gepoff(self, v):
        """(const, [(operand, scale)])"""
        t = GEPSrc(v)
        const = 0
        dyn = []
        n = NumOps(v)
        for i in range(1, n):
            o = GetOp(v, i)
            if i == 1:
                sz = ABISize(self.dl, t)
            else:
                tk = TypeKind(t)
                if tk == 10:
                    idx = ZExtVal(o)
                    const += OffsetOf(self.dl, t, idx)
                    t = StructElt(t, idx)
                    continue
                t = EltType(t)
                sz = ABISize(self.dl, t)
            if ValKind(o) == 18:
                x = ZExtVal(o)
                w = IntWidth(TypeOf(o))
                if x >> (w - 1):
                    x -= 1 << w
                const += x * sz
            else:
                dyn.append((self.operand(o), sz, IntWidth(TypeOf(o))))
        return const, dyn

    # function bodies, lazily ------------------------------------------------------------
    def body(self, fn):
        if fn.blocks is not None or fn.decl:
            return fn.blocks
        f = self._fptr[fn.name]
        blocks = []
        bmap = {}
        b = FirstBB(f)
        insts = []
        while b:
            blk = Block()
            blk.i = len(blocks)
            blk.insts = []
            blk.phis = []
            blk.preds = []
            blk.loophead = False
            bmap[b] = blk.i
            lst = []
            i = FirstI(b)
            while i:
                self._vid[i] = ('r', len(insts))
                insts.append(i)
                lst.append((i, len(insts) - 1))
                i = NextI(i)
            blk.succs = lst
            blocks.append(blk)
            b = NextBB(b)
        dfile = ''
        for blk in blocks:
            lst = blk.succs
            blk.succs = []
            for i, vid in lst:
                I = self._inst(i, vid, bmap, fn)
                if I.line and not fn.line:
                    fn.line = I.line
                    fn.file = I.file
                if I.op == 'phi':
                    blk.phis.append(I)
                else:
                    blk.insts.append(I)
            t = blk.insts[-1]
            s = []
            for ii in range(NumSucc(lst[-1][0])):
                s.append(bmap[Succ(lst[-1][0], ii)])
            blk.succs = s
        for blk in blocks:
            for s in blk.succs:
                blocks[s].preds.append(blk.i)
        self.nbody += 1
        self.ninst += len(insts)
        self._analyse(blocks)
        fn.blocks = blocks
        return blocks

    def _inst(self, i, vid, bmap, fn):
        I = Inst()
        op = OPN.get(Opc(i), '?%d' % Opc(i))
        I.op = op
        I.id = vid
        I.ty = self.ty(TypeOf(i))
        I.x = None
        I.callee = None
        I.nounwind = False
        I.attrs = None
        I.fn = fn
        I.line = DbgLine(i)
        n = U()
        p = DbgFile(i, C.byref(n))
        I.file = C.string_at(p, n.value).decode() if p else ''
        if op == 'phi':
            I.ops = [(bmap[IncBB(i, k)], self.operand(IncVal(i, k))) for k in range(NumInc(i))]
            return I
        if op in ('call', 'invoke'):
            cv = CalledVal(i)
            I.callee = self.operand(cv)
            na = NumArgOps(i)
            I.ops = [self.operand(GetOp(i, k)) for k in range(na)]
            I.nounwind = bool(CSAttr(i, 0xFFFFFFFF, self.k_nounwind)) or (
                I.callee[0] == 'f' and self.fns[I.callee[1]].nounwind)
            I.attrs = [self.ty(TypeOf(GetOp(i, k))) for k in range(na)]
            bv = {}
            for k in range(na):
                a = CSAttr(i, k + 1, self.k_byval)
                if a:
                    bv[k] = self.ty(AttrTy(a)).size
            if op == 'invoke':
                I.x = (bmap[NormalDest(i)], bmap[UnwindDest(i)], bv)
            else:
                I.x = (None, None, bv)
            return I
        if op == 'br':
            no = NumOps(i)
            if no == 1:
                I.ops = []
                I.x = (bmap[Succ(i, 0)],)
            else:
                I.ops = [self.operand(GetOp(i, 0))]
                I.x = (bmap[Succ(i, 0)], bmap[Succ(i, 1)])
            return I
        if op == 'switch':
            I.ops = [self.operand(GetOp(i, 0))]
            no = NumOps(i)
            cases = []
            for k in range(2, no, 2):
                cases.append((self.operand(GetOp(i, k))[1], bmap[Succ(i, k // 2)]))
            I.x = (bmap[Succ(i, 0)], cases, self.ty(TypeOf(GetOp(i, 0))))
            return I
        no = NumOps(i)
        if op == 'gep':
            I.ops = [self.operand(GetOp(i, 0))]
            I.x = self.gepoff(i)
            return I
        I.ops = [self.operand(GetOp(i, k)) for k in range(no)]
        if op == 'icmp':
            I.x = (ICMP[ICmpPred(i)], self.ty(TypeOf(GetOp(i, 0))))
        elif op == 'fcmp':
            I.x = (FCmpPred(i), self.ty(TypeOf(GetOp(i, 0))))
        elif op == 'alloca':
            I.x = (self.ty(AllocTy(i)), I.ops[0] if I.ops else ('c', 1))
        elif op == 'load':
            I.x = (Ordering(i), IsVolatile(i))
        elif op == 'store':
            I.x = (self.ty(TypeOf(GetOp(i, 0))), Ordering(i), IsVolatile(i))
        elif op == 'atomicrmw':
            I.x = (RMW[RMWOp(i)], Ordering(i), self.ty(TypeOf(GetOp(i, 1))))
        elif op == 'cmpxchg':
            I.x = (CXSucc(i), CXFail(i), self.ty(TypeOf(GetOp(i, 1))))
        elif op in ('extractvalue', 'insertvalue'):
            k = NumIdx(i)
            a = GetIdx(i)
            I.x = [a[j] for j in range(k)] + [self.ty(TypeOf(GetOp(i, 0)))]
        elif op == 'landingpad':
            cl = []
            for k in range(NumClauses(i)):
                c = self.operand(GetClause(i, k))
                cl.append(c)
            I.x = (cl, bool(IsCleanup(i)))
        elif op in BINOPS:
            I.x = (I.ty.bits, False, False)
            if op in ('add', 'sub', 'mul', 'shl'):
                I.x = (I.ty.bits, bool(NUW(i)), bool(NSW(i)))
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                    'fptrunc', 'fpext'):
            I.x = self.ty(TypeOf(GetOp(i, 0)))
        elif op == 'shufflevector':
            I.x = [MaskVal(i, k) for k in range(NumMask(i))]
        elif op == 'ret':
            I.x = self.ty(TypeOf(GetOp(i, 0))) if no else None
        return I

    def _analyse(self, blocks):
        """liveness of registers at block heads, and loop heads (targets of DFS back edges)"""
        n = len(blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]

        def regs(o, out):
            if o[0] in ('r', 'a'):
                out.append(o)
            elif o[0] == 'agg':
                for e in o[2]:
                    regs(e, out)

        for b in blocks:
            for p in b.phis:
                deff[b.i].add(('r', p.id))
                for src, v in p.ops:
                    t = []
                    regs(v, t)
                    for r in t:
                        phiuse[src].setdefault(b.i, set()).add(r)
            for I in b.insts:
                t = []
                for o in I.ops:
                    regs(o, t)
                if I.op in ('call', 'invoke'):
                    regs(I.callee, t)
                if I.op == 'gep':
                    for o, _, _ in I.x[1]:
                        regs(o, t)
                if I.op == 'alloca':
                    regs(I.x[1], t)
                for r in t:
                    if r not in deff[b.i]:
                        use[b.i].add(r)
                deff[b.i].add(('r', I.id))
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for b in reversed(blocks):
                out = set()
                for s in b.succs:
                    out |= live[s] - {('r', p.id) for p in blocks[s].phis}
                    out |= phiuse[b.i].get(s, set())
                nl = use[b.i] | (out - deff[b.i])
                if nl != live[b.i]:
                    live[b.i] = nl
                    ch = True
        color = [0] * n
        st = [(0, iter(blocks[0].succs))]
        color[0] = 1
        back = []
        while st:
            x, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(blocks[s].succs)))
                    break
                elif color[s] == 1:
                    blocks[s].loophead = True
                    back.append((x, s))
            else:
                color[x] = 2
                st.pop()
        bodies = {}
        for x, h in back:
            body = bodies.setdefault(h, {h})
            todo = [x]
            while todo:
                y = todo.pop()
                if y not in body:
                    body.add(y)
                    todo += blocks[y].preds
        for b in blocks:
            # heads of the loops that a conditional branch at the end of b can leave
            b.exits = [h for h, body in bodies.items() if b.i in body and len(b.succs) == 2 and
                       (b.succs[0] in body) != (b.succs[1] in body)]
            b.live_in = frozenset(live[b.i] | {('r', p.id) for p in b.phis} |
                                  ({'exc'} if b.insts[0].op == 'landingpad' else set()))
