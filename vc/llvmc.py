"""Loads LLVM IR (bitcode or text) through the LLVM-C API of the installed libLLVM-18 and lowers it to
small Python objects for the verification-condition generator.  Nothing is dropped silently: an
instruction, constant or type this file does not know raises Unsupported."""
import ctypes as C
import glob

class Unsupported(Exception):
    pass

def _load():
    for p in ["/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM.so.1",
              "/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"] + \
             glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*"):
        try:
            return C.CDLL(p)
        except OSError:
            continue
    raise RuntimeError("libLLVM-18 not found")

L = _load()
P = C.c_void_p
U = C.c_uint
def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn

ContextCreate = _f("LLVMContextCreate", P)
CreateBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P)
NextGl = _f("LLVMGetNextGlobal", P, P)
FirstAl = _f("LLVMGetFirstGlobalAlias", P, P)
NextAl = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsConstGlobal = _f("LLVMIsGlobalConstant", C.c_int, P)
IsDecl = _f("LLVMIsDeclaration", C.c_int, P)
GetName2 = _f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P)
NextI = _f("LLVMGetNextInstruction", P, P)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
NumOps = _f("LLVMGetNumOperands", C.c_int, P)
GetOp = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TKind = _f("LLVMGetTypeKind", C.c_int, P)
IntW = _f("LLVMGetIntTypeWidth", U, P)
StructN = _f("LLVMCountStructElementTypes", U, P)
StructEl = _f("LLVMStructGetTypeAtIndex", P, P, U)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
VecLen = _f("LLVMGetVectorSize", U, P)
ElTy = _f("LLVMGetElementType", P, P)
VKind = _f("LLVMGetValueKind", C.c_int, P)
IntZ = _f("LLVMConstIntGetZExtValue", C.c_uint64, P)
PrintVal = _f("LLVMPrintValueToString", C.c_void_p, P)
PrintTy = _f("LLVMPrintTypeToString", C.c_void_p, P)
DisposeMsg = _f("LLVMDisposeMessage", None, P)
AggEl = _f("LLVMGetAggregateElement", P, P, U)
ConstOpc = _f("LLVMGetConstOpcode", C.c_int, P)
GEPTy = _f("LLVMGetGEPSourceElementType", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
AllocTy = _f("LLVMGetAllocatedType", P, P)
Align = _f("LLVMGetAlignment", U, P)
Ordering = _f("LLVMGetOrdering", C.c_int, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
Weak = _f("LLVMGetWeak", C.c_int, P)
CntInc = _f("LLVMCountIncoming", U, P)
IncV = _f("LLVMGetIncomingValue", P, P, U)
IncB = _f("LLVMGetIncomingBlock", P, P, U)
NumIdx = _f("LLVMGetNumIndices", U, P)
GetIdx = _f("LLVMGetIndices", C.POINTER(C.c_uint), P)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
Succ = _f("LLVMGetSuccessor", P, P, U)
IsCond = _f("LLVMIsConditional", C.c_int, P)
Cond = _f("LLVMGetCondition", P, P)
CalledV = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
NormalDest = _f("LLVMGetNormalDest", P, P)
UnwindDest = _f("LLVMGetUnwindDest", P, P)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
ModDL = _f("LLVMGetModuleDataLayout", P, P)
SizeOf = _f("LLVMABISizeOfType", C.c_uint64, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_uint64, P, P)
ABIAlign = _f("LLVMABIAlignmentOfType", U, P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_uint64, P, P, U)
NUW = _f("LLVMGetNUW", C.c_int, P)
NSW = _f("LLVMGetNSW", C.c_int, P)
Exact = _f("LLVMGetExact", C.c_int, P)
IsNull = _f("LLVMIsNull", C.c_int, P)
RetTy = _f("LLVMGetReturnType", P, P)
FnTy = _f("LLVMGetCalledFunctionType", P, P)
IsVarArg = _f("LLVMIsFunctionVarArg", C.c_int, P)

# value kinds (llvm-c/Core.h order, LLVM 18)
(VK_ARG, VK_BB, _, _, _, VK_FN, VK_ALIAS, VK_IFUNC, VK_GVAR, VK_BADDR, VK_CEXPR, VK_CARR, VK_CSTRUCT, VK_CVEC,
 VK_UNDEF, VK_CZERO, VK_CDATAARR, VK_CDATAVEC, VK_CINT, VK_CFP, VK_CNULL, VK_CTOKNONE, VK_MDV, VK_ASM,
 VK_INST, VK_POISON, _) = range(27)

TK = {0: "void", 2: "float", 3: "double", 4: "x86fp80", 7: "label", 8: "int", 9: "func", 10: "struct", 11: "array",
      12: "ptr", 13: "vector", 14: "metadata", 16: "token"}

OPS = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem",
       19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp",
       36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax", 10: "umin"}


def _str(p):
    s = C.cast(p, C.c_char_p).value.decode(errors="replace")
    DisposeMsg(p)
    return s


class Type:
    __slots__ = ("kind", "width", "elems", "offs", "size", "store", "align", "elem", "n", "ref")
    def __repr__(self):
        return "i%d" % self.width if self.kind == "int" else self.kind


class Const:
    """kind: int, null, undef, zero, agg, expr, glob, fp"""
    __slots__ = ("kind", "ty", "v", "op", "args", "extra", "cache")
    def __init__(self, kind, ty, v=None, op=None, args=None, extra=None):
        self.kind, self.ty, self.v, self.op, self.args, self.extra = kind, ty, v, op, args, extra
        self.cache = None


class Local:
    __slots__ = ("id", "ty")
    def __init__(self, i, ty):
        self.id, self.ty = i, ty


class Instr:
    __slots__ = ("op", "id", "ty", "args", "x", "line")
    def __init__(self, op, i, ty, args, x):
        self.op, self.id, self.ty, self.args, self.x = op, i, ty, args, x
    def __repr__(self):
        return "%%%s = %s" % (self.id, self.op)


class Block:
    __slots__ = ("name", "instrs", "succs", "idx", "fn", "nphi")


class Func:
    __slots__ = ("name", "params", "blocks", "decl", "rty", "loops", "headers", "dem", "vararg", "ref", "lowered",
                 "nvals")


class Global:
    __slots__ = ("name", "ty", "init", "const", "ref")


class Module:
    def __init__(self, path):
        ctx = ContextCreate()
        buf, msg, mod = P(), C.c_char_p(), P()
        if CreateBuf(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        if ParseIR(ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.mod = mod
        self.dl = ModDL(mod)
        self._ty = {}
        self.funcs, self.globals, self.aliases = {}, {}, {}
        g = FirstGl(mod)
        while g:
            G = Global()
            G.ref, G.name, G.const = g, self._name(g), bool(IsConstGlobal(g))
            G.ty = self.type(GlobalValueType(g))
            G.init = None
            self.globals[G.name] = G
            g = NextGl(g)
        f = FirstFn(mod)
        while f:
            F = Func()
            F.ref, F.name, F.decl, F.lowered = f, self._name(f), bool(IsDecl(f)), False
            ft = GlobalValueType(f)
            F.rty = self.type(RetTy(ft))
            F.vararg = bool(IsVarArg(ft))
            self.funcs[F.name] = F
            f = NextFn(f)
        a = FirstAl(mod)
        while a:
            self.aliases[self._name(a)] = a
            a = NextAl(a)
        for G in self.globals.values():
            i = GetInit(G.ref)
            G.init = self.const(i) if i else None
        for n in list(self.aliases):
            self.aliases[n] = self.const(AliasGetAliasee(self.aliases[n]))

    def _name(self, v):
        n = C.c_size_t()
        p = GetName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def type(self, t):
        T = self._ty.get(t)
        if T is not None:
            return T
        k = TK.get(TKind(t))
        if k is None:
            raise Unsupported("type " + _str(PrintTy(t)))
        T = Type()
        self._ty[t] = T
        T.kind, T.width, T.elems, T.offs, T.elem, T.n, T.ref = k, 0, None, None, None, 0, t
        T.size = T.store = T.align = 0
        if k == "int":
            T.width = IntW(t)
        elif k == "struct":
            n = StructN(t)
            T.elems = [self.type(StructEl(t, i)) for i in range(n)]
            try:
                T.offs = [OffsetOf(self.dl, t, i) for i in range(n)]
            except Exception:
                T.offs = None
        elif k == "array":
            T.n, T.elem = ArrLen(t), self.type(ElTy(t))
        elif k == "vector":
            T.n, T.elem = VecLen(t), self.type(ElTy(t))
        if k in ("int", "struct", "array", "ptr", "float", "double", "vector", "x86fp80"):
            opaque = False
            T.size, T.store, T.align = SizeOf(self.dl, t), StoreSize(self.dl, t), ABIAlign(self.dl, t)
        return T

    def const(self, v):
        k = VKind(v)
        if k == VK_FN:
            return Const("func", self.type(TypeOf(v)), self._name(v))
        if k == VK_GVAR:
            return Const("glob", self.type(TypeOf(v)), self._name(v))
        if k == VK_ALIAS:
            return Const("alias", self.type(TypeOf(v)), self._name(v))
        T = self.type(TypeOf(v))
        if k == VK_CINT:
            if T.width <= 64:
                return Const("int", T, IntZ(v))
            s = _str(PrintVal(v)).split()[-1]
            return Const("int", T, int(s) & ((1 << T.width) - 1))
        if k == VK_CNULL:
            return Const("null", T)
        if k in (VK_UNDEF, VK_POISON):
            return Const("undef", T)
        if k == VK_CZERO:
            return Const("zero", T)
        if k in (VK_CARR, VK_CSTRUCT, VK_CDATAARR, VK_CVEC, VK_CDATAVEC):
            n = len(T.elems) if T.kind == "struct" else T.n
            return Const("agg", T, args=[self.const(AggEl(v, i)) for i in range(n)])
        if k == VK_CFP:
            return Const("fp", T, _str(PrintVal(v)))
        if k == VK_CEXPR:
            op = OPS.get(ConstOpc(v))
            args = [self.const(GetOp(v, i)) for i in range(NumOps(v))]
            x = None
            if op == "gep":
                x = self.type(GEPTy(v))
            elif op == "icmp":
                x = PRED[ICmpPred(v)]
            return Const("expr", T, op=op, args=args, extra=x)
        if k == VK_CTOKNONE:
            return Const("undef", T)
        raise Unsupported("constant kind %d: %s" % (k, _str(PrintVal(v))[:200]))

    def func(self, name):
        F = self.funcs[name]
        if not F.lowered and not F.decl:
            self._lower(F)
        return F

    def _lower(self, F):
        ids, n = {}, 0
        F.params = []
        for i in range(CountParams(F.ref)):
            p = GetParam(F.ref, i)
            ids[p] = n
            F.params.append(Local(n, self.type(TypeOf(p))))
            n += 1
        blocks, order = {}, []
        b = FirstBB(F.ref)
        while b:
            B = Block()
            B.idx, B.name, B.instrs, B.succs, B.fn = len(order), "b%d" % len(order), [], [], F
            blocks[b] = B
            order.append((b, B))
            i = FirstI(b)
            while i:
                ids[i] = n
                n += 1
                i = NextI(i)
            b = NextBB(b)

        def val(v):
            k = VKind(v)
            if k in (VK_ARG, VK_INST):
                return Local(ids[v], self.type(TypeOf(v)))
            if k == VK_BB:
                return blocks[v]
            if k == VK_MDV:
                return Const("undef", None)
            if k == VK_ASM:
                return Const("asm", None, _str(PrintVal(v)))
            return self.const(v)

        for b, B in order:
            i = FirstI(b)
            B.nphi = 0
            while i:
                op = OPS.get(Opcode(i))
                if op is None:
                    raise Unsupported("instr " + _str(PrintVal(i)))
                T = self.type(TypeOf(i))
                x = None
                if op == "phi":
                    args = [(blocks[IncB(i, k)].idx, val(IncV(i, k))) for k in range(CntInc(i))]
                    B.nphi += 1
                elif op == "br":
                    if IsCond(i):
                        args = [val(Cond(i))]
                        x = [blocks[Succ(i, 0)], blocks[Succ(i, 1)]]
                    else:
                        args, x = [], [blocks[Succ(i, 0)]]
                    B.succs = list(x)
                elif op == "switch":
                    nops = NumOps(i)
                    args = [val(GetOp(i, 0))]
                    x = ([(val(GetOp(i, k)).v, blocks[GetOp(i, k + 1)]) for k in range(2, nops, 2)], blocks[GetOp(i, 1)])
                    B.succs = [t for _, t in x[0]] + [x[1]]
                elif op in ("call", "invoke"):
                    args = [val(GetOp(i, k)) for k in range(NumArgOps(i))]
                    callee = val(CalledV(i))
                    if op == "invoke":
                        nd, ud = blocks[NormalDest(i)], blocks[UnwindDest(i)]
                        B.succs = [nd, ud]
                        x = (callee, nd, ud)
                    else:
                        x = (callee, None, None)
                elif op == "landingpad":
                    args = []
                else:
                    args = [val(GetOp(i, k)) for k in range(NumOps(i))]
                    if op == "icmp":
                        x = PRED[ICmpPred(i)]
                    elif op == "fcmp":
                        x = FCmpPred(i)
                    elif op == "gep":
                        x = self.type(GEPTy(i))
                    elif op == "alloca":
                        x = (self.type(AllocTy(i)), Align(i))
                    elif op in ("extractvalue", "insertvalue"):
                        p = GetIdx(i)
                        x = [p[k] for k in range(NumIdx(i))]
                    elif op in ("load", "store"):
                        x = Ordering(i)  # 0 = not atomic
                    elif op == "atomicrmw":
                        x = RMW.get(RMWOp(i))
                    elif op == "cmpxchg":
                        x = bool(Weak(i))
                    elif op in ("add", "sub", "mul", "shl"):
                        x = (bool(NUW(i)), bool(NSW(i)))
                I = Instr(op, ids[i], T, args, x)
                B.instrs.append(I)
                i = NextI(i)
        F.blocks = [B for _, B in order]
        F.nvals = n
        F.lowered = True
        self._loops(F)

    def _loops(self, F):
        """natural loops: header index -> set of block indices (headers found by dominators)."""
        n = len(F.blocks)
        succ = [[s.idx for s in B.succs] for B in F.blocks]
        pred = [[] for _ in range(n)]
        for i, ss in enumerate(succ):
            for s in ss:
                pred[s].append(i)
        order, seen = [], set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v)
                    st.append((v, iter(succ[v])))
                    break
            else:
                order.append(u)
                st.pop()
        rpo = order[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {0: 0}
        changed = True
        def inter(a, b):
            while a != b:
                while num[a] > num[b]:
                    a = idom[a]
                while num[b] > num[a]:
                    b = idom[b]
            return a
        while changed:
            changed = False
            for b in rpo[1:]:
                ps = [p for p in pred[b] if p in idom and p in num]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    d = inter(d, p)
                if idom.get(b) != d:
                    idom[b] = d
                    changed = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for u in rpo:
            for v in succ[u]:
                if v in num and dom(v, u):
                    body = loops.setdefault(v, {v})
                    stack = [u]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(p for p in pred[x] if p in num)
        F.loops = loops
        F.headers = set(loops)
