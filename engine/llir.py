"""LLVM bitcode loader (LLVM-C API through ctypes).

Decodes a linked bitcode module into light Python objects.  Functions are decoded lazily.
Nothing here interprets the program; it only mirrors the IR clang produced from /repo's sources.
"""
import ctypes as C
import subprocess

_lib = None


def lib():
    global _lib
    if _lib is not None:
        return _lib
    last = None
    for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
        try:
            L = C.CDLL(p)
            break
        except OSError as e:  # pragma: no cover
            last = e
    else:
        raise last
    P = C.c_void_p
    ui = C.c_uint
    sig = {
        "LLVMContextCreate": (P, []),
        "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
        "LLVMParseBitcodeInContext2": (C.c_int, [P, P, C.POINTER(P)]),
        "LLVMGetModuleDataLayout": (P, [P]),
        "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
        "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
        "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
        "LLVMAliasGetAliasee": (P, [P]),
        "LLVMGetValueName2": (C.c_char_p, [P, C.POINTER(C.c_size_t)]),
        "LLVMIsDeclaration": (C.c_int, [P]),
        "LLVMIsGlobalConstant": (C.c_int, [P]),
        "LLVMGetInitializer": (P, [P]),
        "LLVMGlobalGetValueType": (P, [P]),
        "LLVMCountParams": (ui, [P]), "LLVMGetParam": (P, [P, ui]),
        "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
        "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
        "LLVMGetInstructionOpcode": (C.c_int, [P]),
        "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, ui]),
        "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]),
        "LLVMGetIntTypeWidth": (ui, [P]),
        "LLVMCountStructElementTypes": (ui, [P]), "LLVMStructGetTypeAtIndex": (P, [P, ui]),
        "LLVMGetArrayLength2": (C.c_uint64, [P]), "LLVMGetElementType": (P, [P]),
        "LLVMGetVectorSize": (ui, [P]),
        "LLVMABISizeOfType": (C.c_ulonglong, [P, P]), "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
        "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, ui]),
        "LLVMGetReturnType": (P, [P]),
        "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
        "LLVMGetAllocatedType": (P, [P]),
        "LLVMGetGEPSourceElementType": (P, [P]),
        "LLVMGetNumIndices": (ui, [P]), "LLVMGetIndices": (C.POINTER(ui), [P]),
        "LLVMCountIncoming": (ui, [P]), "LLVMGetIncomingValue": (P, [P, ui]), "LLVMGetIncomingBlock": (P, [P, ui]),
        "LLVMGetNumSuccessors": (ui, [P]), "LLVMGetSuccessor": (P, [P, ui]),
        "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
        "LLVMGetCalledValue": (P, [P]), "LLVMGetNumArgOperands": (ui, [P]),
        "LLVMGetValueKind": (C.c_int, [P]),
        "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
        "LLVMConstIntGetSExtValue": (C.c_longlong, [P]),
        "LLVMPrintValueToString": (C.c_void_p, [P]),
        "LLVMDisposeMessage": (None, [C.c_void_p]),
        "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(C.c_int)]),
        "LLVMGetAggregateElement": (P, [P, ui]),
        "LLVMIsConstantString": (C.c_int, [P]),
        "LLVMGetAsString": (P, [P, C.POINTER(C.c_size_t)]),
        "LLVMGetConstOpcode": (C.c_int, [P]),
        "LLVMIsCleanup": (C.c_int, [P]), "LLVMGetNumClauses": (ui, [P]), "LLVMGetClause": (P, [P, ui]),
        "LLVMGetNSW": (C.c_int, [P]), "LLVMGetNUW": (C.c_int, [P]),
        "LLVMGetDebugLocLine": (ui, [P]), "LLVMGetDebugLocFilename": (P, [P, C.POINTER(ui)]),
        "LLVMValueAsBasicBlock": (P, [P]),
        "LLVMGetAtomicRMWBinOp": (C.c_int, [P]),
        "LLVMGetNumMaskElements": (ui, [P]), "LLVMGetMaskValue": (C.c_int, [P, ui]),
    }
    for n, (r, a) in sig.items():
        f = getattr(L, n)
        f.restype = r
        f.argtypes = a
    _lib = L
    return L


OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector",
       53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume",
       59: "landingpad"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt",
        11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Ty:
    __slots__ = ("k", "w", "elems", "offs", "n", "size", "store", "ref")

    def __repr__(self):
        return f"{self.k}{self.w or ''}"


class Inst:
    __slots__ = ("op", "ty", "a", "dst", "x", "line", "file", "fn")

    def __repr__(self):
        return f"{self.op} dst={self.dst} a={self.a} x={self.x}"


class Block:
    __slots__ = ("idx", "insts", "succs", "nphi")


class Reg:
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"%{self.i}"


class GlobalRef:
    """address of global / function + constant offset"""
    __slots__ = ("name", "off", "isfn")

    def __init__(self, name, off=0, isfn=False):
        self.name, self.off, self.isfn = name, off, isfn

    def __repr__(self):
        return f"@{self.name}+{self.off}"


class Undef:
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty


class Func:
    def __init__(self, mod, ref, name, decl):
        self.mod, self.ref, self.name, self.decl = mod, ref, name, decl
        self._dec = False
        self.blocks = None
        self.nparams = lib().LLVMCountParams(ref)
        self.demangled = name
        self.loops = None

    def decode(self):
        if not self._dec:
            self.mod._decode(self)
            self._dec = True
        return self


class Module:
    def __init__(self, path):
        L = lib()
        self.path = path
        self.ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(f"cannot read {path}: {err.value}")
        m = C.c_void_p()
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
            raise RuntimeError(f"cannot parse {path}")
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self._tys = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            n = self._name(f)
            self.funcs[n] = Func(self, f, n, bool(L.LLVMIsDeclaration(f)))
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self._name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            self.aliases[self._name(a)] = a
            a = L.LLVMGetNextGlobalAlias(a)
        names = list(self.funcs)
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(names), capture_output=True,
                             text=True, check=True).stdout.split("\n")
        for n, d in zip(names, out):
            self.funcs[n].demangled = d

    def _name(self, v):
        n = C.c_size_t()
        s = lib().LLVMGetValueName2(v, C.byref(n))
        return s.decode("latin1") if s else ""

    # ---- types
    def ty(self, t):
        r = self._tys.get(t)
        if r is not None:
            return r
        L = lib()
        k = L.LLVMGetTypeKind(t)
        r = Ty()
        r.ref = t
        r.w = r.elems = r.offs = r.n = None
        r.size = r.store = 0
        if k == 0:
            r.k = "void"
        elif k == 8:
            r.k = "int"
            r.w = L.LLVMGetIntTypeWidth(t)
        elif k == 12:
            r.k = "ptr"
            r.w = 64
        elif k == 2:
            r.k = "float"
            r.w = 32
        elif k == 3:
            r.k = "double"
            r.w = 64
        elif k == 4:
            r.k = "x86fp80"
            r.w = 80
        elif k == 10:
            r.k = "struct"
            n = L.LLVMCountStructElementTypes(t)
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = None
        elif k == 11:
            r.k = "array"
            r.n = L.LLVMGetArrayLength2(t)
            r.elems = [self.ty(L.LLVMGetElementType(t))]
        elif k == 13:
            r.k = "vector"
            r.n = L.LLVMGetVectorSize(t)
            r.elems = [self.ty(L.LLVMGetElementType(t))]
        elif k == 9:
            r.k = "func"
        elif k == 7:
            r.k = "label"
        elif k == 14:
            r.k = "metadata"
        else:
            r.k = f"other{k}"
        if r.k in ("int", "ptr", "float", "double", "struct", "array", "vector", "x86fp80"):
            r.size = L.LLVMABISizeOfType(self.dl, t)
            r.store = L.LLVMStoreSizeOfType(self.dl, t)
        self._tys[t] = r
        return r

    # ---- constants
    def const(self, v):
        L = lib()
        k = L.LLVMGetValueKind(v)
        if k == 18:
            t = self.ty(L.LLVMTypeOf(v))
            if t.w <= 64:
                return L.LLVMConstIntGetZExtValue(v) & ((1 << t.w) - 1)
            p = L.LLVMPrintValueToString(v)
            s = C.string_at(p).decode()
            L.LLVMDisposeMessage(p)
            return int(s.split()[1]) & ((1 << t.w) - 1)
        if k == 19:
            li = C.c_int()
            return float(L.LLVMConstRealGetDouble(v, C.byref(li)))
        if k == 20:
            return 0
        if k == 5:
            return GlobalRef(self._name(v), 0, True)
        if k == 8:
            return GlobalRef(self._name(v))
        if k == 6:
            return self.const(L.LLVMAliasGetAliasee(v))
        if k in (14, 25):
            return Undef(self.ty(L.LLVMTypeOf(v)))
        if k == 15:
            return self.zero(self.ty(L.LLVMTypeOf(v)))
        if k in (11, 12, 13):
            n = L.LLVMGetNumOperands(v)
            return [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
        if k in (16, 17):
            t = self.ty(L.LLVMTypeOf(v))
            if k == 16 and t.elems[0].k == "int" and t.elems[0].w == 8:
                n = C.c_size_t()
                p = L.LLVMGetAsString(v, C.byref(n)) if L.LLVMIsConstantString(v) else None
                if p:
                    return list(C.string_at(p, n.value))
            return [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(t.n)]
        if k == 10:
            op = OPC.get(L.LLVMGetConstOpcode(v))
            if op == "gep":
                base = self.const(L.LLVMGetOperand(v, 0))
                off = self._gep_const(v)
                if isinstance(base, GlobalRef):
                    return GlobalRef(base.name, base.off + off, base.isfn)
                return (base + off) & ((1 << 64) - 1)
            if op in ("bitcast", "ptrtoint", "inttoptr", "addrspacecast"):
                return self.const(L.LLVMGetOperand(v, 0))
            if op in ("sub", "add"):
                a = self.const(L.LLVMGetOperand(v, 0))
                b = self.const(L.LLVMGetOperand(v, 1))
                if isinstance(a, int) and isinstance(b, int):
                    return ((a + b) if op == "add" else (a - b)) & ((1 << 64) - 1)
                if isinstance(a, GlobalRef) and isinstance(b, GlobalRef) and a.name == b.name and op == "sub":
                    return (a.off - b.off) & ((1 << 64) - 1)
                if isinstance(a, GlobalRef) and isinstance(b, int):
                    return GlobalRef(a.name, a.off + (b if op == "add" else -b), a.isfn)
            if op == "icmp":
                a = self.const(L.LLVMGetOperand(v, 0))
                b = self.const(L.LLVMGetOperand(v, 1))
                p = ICMP[L.LLVMGetICmpPredicate(v)]
                eq = (isinstance(a, int) and isinstance(b, int) and a == b) or (
                    isinstance(a, GlobalRef) and isinstance(b, GlobalRef) and (a.name, a.off) == (b.name, b.off))
                if p == "eq":
                    return int(eq)
                if p == "ne":
                    return int(not eq)
            raise NotImplementedError(f"constexpr {op}")
        if k == 22 or k == 21:
            return None
        raise NotImplementedError(f"const kind {k}")

    def zero(self, t):
        if t.k in ("int", "ptr"):
            return 0
        if t.k in ("float", "double"):
            return 0.0
        if t.k == "struct":
            return [self.zero(e) for e in t.elems]
        if t.k in ("array", "vector"):
            return [self.zero(t.elems[0])] * t.n
        raise NotImplementedError(t.k)

    def _gep_const(self, v):
        L = lib()
        t = self.ty(L.LLVMGetGEPSourceElementType(v))
        n = L.LLVMGetNumOperands(v)
        off = 0
        for i in range(1, n):
            o = L.LLVMGetOperand(v, i)
            idx = L.LLVMConstIntGetSExtValue(o)
            if i == 1:
                off += idx * t.size
            elif t.k == "struct":
                off += t.offs[idx]
                t = t.elems[idx]
            else:
                t = t.elems[0]
                off += idx * t.size
        return off

    # ---- functions
    def _decode(self, F):
        L = lib()
        if F.decl:
            F.blocks = []
            return
        regs = {}
        for i in range(F.nparams):
            regs[L.LLVMGetParam(F.ref, i)] = i
        nreg = F.nparams
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(F.ref)
        raw = []
        while b:
            bidx[b] = len(raw)
            ins = []
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ins.append(i)
                regs[i] = nreg
                nreg += 1
                i = L.LLVMGetNextInstruction(i)
            raw.append(ins)
            b = L.LLVMGetNextBasicBlock(b)
        F.nregs = nreg
        F.paramtys = [self.ty(L.LLVMTypeOf(L.LLVMGetParam(F.ref, i))) for i in range(F.nparams)]
        F.retty = self.ty(L.LLVMGetReturnType(L.LLVMGlobalGetValueType(F.ref)))

        def operand(v):
            k = L.LLVMGetValueKind(v)
            if k == 0 or k == 24:
                return Reg(regs[v])
            if k == 1:
                return bidx[L.LLVMValueAsBasicBlock(v)]
            return self.const(v)

        blocks = []
        for ins in raw:
            B = Block()
            B.idx = len(blocks)
            B.insts = []
            B.succs = []
            B.nphi = 0
            for i in ins:
                I = Inst()
                I.fn = F
                opn = L.LLVMGetInstructionOpcode(i)
                op = OPC.get(opn, f"op{opn}")
                I.op = op
                I.ty = self.ty(L.LLVMTypeOf(i))
                I.dst = regs[i]
                I.x = None
                I.line = None
                I.file = None
                nop = L.LLVMGetNumOperands(i)
                if op == "phi":
                    n = L.LLVMCountIncoming(i)
                    I.a = {bidx[L.LLVMGetIncomingBlock(i, j)]: operand(L.LLVMGetIncomingValue(i, j)) for j in range(n)}
                    B.nphi += 1
                elif op in ("call", "invoke"):
                    cv = L.LLVMGetCalledValue(i)
                    na = L.LLVMGetNumArgOperands(i)
                    try:
                        args = [operand(L.LLVMGetOperand(i, j)) for j in range(na)]
                    except NotImplementedError:
                        args = [None] * na
                    if L.LLVMGetValueKind(cv) == 23:
                        callee = "asm"
                    else:
                        callee = operand(cv)
                    I.a = args
                    aty = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(na)]
                    if op == "invoke":
                        nd = bidx[L.LLVMGetNormalDest(i)]
                        ud = bidx[L.LLVMGetUnwindDest(i)]
                        I.x = (callee, aty, nd, ud)
                        B.succs = [nd, ud]
                    else:
                        I.x = (callee, aty, None, None)
                elif op == "br":
                    ns = L.LLVMGetNumSuccessors(i)
                    s = [bidx[L.LLVMGetSuccessor(i, j)] for j in range(ns)]
                    I.a = [operand(L.LLVMGetOperand(i, 0))] if ns == 2 else []
                    I.x = s
                    B.succs = s
                elif op == "switch":
                    I.a = [operand(L.LLVMGetOperand(i, 0))]
                    default = bidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, 1))]
                    cases = []
                    for j in range(2, nop, 2):
                        cases.append((self.const(L.LLVMGetOperand(i, j)), bidx[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, j + 1))]))
                    I.x = (default, cases, self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
                    B.succs = [default] + [c[1] for c in cases]
                elif op == "gep":
                    base = operand(L.LLVMGetOperand(i, 0))
                    t = self.ty(L.LLVMGetGEPSourceElementType(i))
                    off = 0
                    var = []
                    for j in range(1, nop):
                        o = L.LLVMGetOperand(i, j)
                        isc = L.LLVMGetValueKind(o) == 18
                        if j == 1:
                            sc = t.size
                        elif t.k == "struct":
                            idx = L.LLVMConstIntGetSExtValue(o)
                            off += t.offs[idx]
                            t = t.elems[idx]
                            continue
                        else:
                            t = t.elems[0]
                            sc = t.size
                        if isc:
                            off += L.LLVMConstIntGetSExtValue(o) * sc
                        else:
                            var.append((operand(o), sc, self.ty(L.LLVMTypeOf(o)).w))
                    I.a = [base]
                    I.x = (off, var)
                else:
                    I.a = [operand(L.LLVMGetOperand(i, j)) for j in range(nop)]
                    tys = [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, j))) for j in range(nop)]
                    if op == "icmp":
                        I.x = (ICMP[L.LLVMGetICmpPredicate(i)], tys[0])
                    elif op == "fcmp":
                        I.x = (FCMP[L.LLVMGetFCmpPredicate(i)], tys[0])
                    elif op == "alloca":
                        I.x = self.ty(L.LLVMGetAllocatedType(i))
                    elif op in ("extractvalue", "insertvalue"):
                        n = L.LLVMGetNumIndices(i)
                        p = L.LLVMGetIndices(i)
                        I.x = [p[j] for j in range(n)]
                    elif op == "landingpad":
                        nc = L.LLVMGetNumClauses(i)
                        cl = []
                        for j in range(nc):
                            c = L.LLVMGetClause(i, j)
                            ct = self.ty(L.LLVMTypeOf(c))
                            cl.append(("filter" if ct.k == "array" else "catch", self.const(c)))
                        I.x = (bool(L.LLVMIsCleanup(i)), cl)
                    elif op in ("add", "sub", "mul", "shl"):
                        I.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
                    elif op == "atomicrmw":
                        I.x = (L.LLVMGetAtomicRMWBinOp(i), tys)
                    elif op == "shufflevector":
                        n = L.LLVMGetNumMaskElements(i)
                        I.x = ([L.LLVMGetMaskValue(i, j) for j in range(n)], tys)
                    else:
                        I.x = tys
                if op in ("call", "invoke", "load", "store", "br", "switch", "udiv", "sdiv", "urem", "srem", "add", "sub", "mul", "shl",
                          "lshr", "ashr", "fptoui", "fptosi"):
                    ln = L.LLVMGetDebugLocLine(i)
                    if ln:
                        n = C.c_uint()
                        p = L.LLVMGetDebugLocFilename(i, C.byref(n))
                        I.line = ln
                        I.file = C.string_at(p, n.value).decode() if p else None
                B.insts.append(I)
            blocks.append(B)
        F.blocks = blocks
        F.loops = _loops(blocks)

    def resolve(self, name):
        """follow aliases"""
        while name in self.aliases:
            r = self.const(self.aliases[name])
            name = r.name
        return name


def _loops(blocks):
    """natural loops: header -> set of blocks (via DFS back edges + dominators)"""
    n = len(blocks)
    preds = [[] for _ in range(n)]
    for b in blocks:
        for s in b.succs:
            preds[s].append(b.idx)
    # rpo
    order = []
    seen = [False] * n
    st = [(0, iter(blocks[0].succs))] if n else []
    if n:
        seen[0] = True
    while st:
        v, it = st[-1]
        for s in it:
            if not seen[s]:
                seen[s] = True
                st.append((s, iter(blocks[s].succs)))
                break
        else:
            order.append(v)
            st.pop()
    order.reverse()
    pos = {v: i for i, v in enumerate(order)}
    idom = {0: 0} if n else {}
    ch = True
    while ch:
        ch = False
        for v in order[1:]:
            ps = [p for p in preds[v] if p in idom]
            if not ps:
                continue
            new = ps[0]
            for p in ps[1:]:
                a, b = p, new
                while a != b:
                    while pos[a] > pos[b]:
                        a = idom[a]
                    while pos[b] > pos[a]:
                        b = idom[b]
                new = a
            if idom.get(v) != new:
                idom[v] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for v in order:
        for s in blocks[v].succs:
            if s in pos and dom(s, v):
                body = loops.setdefault(s, {s})
                work = [v]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(p for p in preds[x] if p in pos)
    return loops
