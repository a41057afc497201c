"""Thin ctypes binding to the LLVM-C API (libLLVM-18) used to read the bitcode that
clang produced from /repo's headers.  Only reading: nothing is transformed here."""
import ctypes as C, os, struct

_lib = None
P = C.c_void_p
UI = C.c_uint


def lib():
    global _lib
    if _lib is not None:
        return _lib
    for cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
                 "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
        if os.path.exists(cand):
            L = C.CDLL(cand)
            break
    else:
        raise RuntimeError("libLLVM-18 not found")

    def d(name, res, *args):
        f = getattr(L, name)
        f.restype = res
        f.argtypes = list(args)
    d("LLVMContextCreate", P)
    d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
    d("LLVMParseBitcodeInContext2", C.c_int, P, P, C.POINTER(P))
    d("LLVMGetModuleDataLayout", P, P)
    for n in ("LLVMGetFirstFunction", "LLVMGetFirstGlobal", "LLVMGetFirstGlobalAlias"):
        d(n, P, P)
    for n in ("LLVMGetNextFunction", "LLVMGetNextGlobal", "LLVMGetNextGlobalAlias", "LLVMGetFirstBasicBlock",
              "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf",
              "LLVMGetInitializer", "LLVMAliasGetAliasee", "LLVMGetCondition", "LLVMGetCalledValue",
              "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetGEPSourceElementType", "LLVMGetAllocatedType",
              "LLVMGlobalGetValueType", "LLVMGetElementType", "LLVMGetReturnType", "LLVMGetInstructionParent",
              "LLVMGetCalledFunctionType", "LLVMGetFirstParam", "LLVMGetNextParam", "LLVMGetSwitchDefaultDest"):
        d(n, P, P)
    d("LLVMGetValueName2", C.c_void_p, P, C.POINTER(C.c_size_t))
    d("LLVMIsDeclaration", C.c_int, P)
    d("LLVMIsGlobalConstant", C.c_int, P)
    d("LLVMIsThreadLocal", C.c_int, P)
    d("LLVMGetTypeKind", C.c_int, P)
    d("LLVMGetIntTypeWidth", UI, P)
    d("LLVMTypeIsSized", C.c_int, P)
    d("LLVMCountStructElementTypes", UI, P)
    d("LLVMStructGetTypeAtIndex", P, P, UI)
    d("LLVMGetArrayLength2", C.c_uint64, P)
    d("LLVMGetVectorSize", UI, P)
    d("LLVMABISizeOfType", C.c_ulonglong, P, P)
    d("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
    d("LLVMOffsetOfElement", C.c_ulonglong, P, P, UI)
    d("LLVMGetInstructionOpcode", C.c_int, P)
    d("LLVMGetConstOpcode", C.c_int, P)
    d("LLVMGetNumOperands", C.c_int, P)
    d("LLVMGetOperand", P, P, UI)
    d("LLVMGetICmpPredicate", C.c_int, P)
    d("LLVMGetFCmpPredicate", C.c_int, P)
    d("LLVMGetValueKind", C.c_int, P)
    d("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
    d("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(C.c_int))
    d("LLVMPrintValueToString", C.c_void_p, P)
    d("LLVMDisposeMessage", None, P)
    d("LLVMCountIncoming", UI, P)
    d("LLVMGetIncomingValue", P, P, UI)
    d("LLVMGetIncomingBlock", P, P, UI)
    d("LLVMGetNumSuccessors", UI, P)
    d("LLVMGetSuccessor", P, P, UI)
    d("LLVMIsConditional", C.c_int, P)
    d("LLVMGetNumArgOperands", UI, P)
    d("LLVMGetNumIndices", UI, P)
    d("LLVMGetIndices", C.POINTER(UI), P)
    d("LLVMIsCleanup", C.c_int, P)
    d("LLVMGetNumClauses", UI, P)
    d("LLVMGetClause", P, P, UI)
    d("LLVMGetAggregateElement", P, P, UI)
    d("LLVMIsConstantString", C.c_int, P)
    d("LLVMGetAsString", C.c_void_p, P, C.POINTER(C.c_size_t))
    d("LLVMCountParams", UI, P)
    d("LLVMGetNumMaskElements", UI, P)
    d("LLVMGetMaskValue", C.c_int, P, UI)
    d("LLVMGetAtomicRMWBinOp", C.c_int, P)
    d("LLVMGetNamedFunction", P, P, C.c_char_p)
    d("LLVMGetNamedGlobal", P, P, C.c_char_p)
    d("LLVMIsFunctionVarArg", C.c_int, P)
    d("LLVMBasicBlockAsValue", P, P)
    d("LLVMValueAsBasicBlock", P, P)
    _lib = L
    return L


# type kinds
TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 6: "ppc", 7: "label", 8: "int",
      9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}
# value kinds
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_IFUNC, VK_GVAR, VK_BLOCKADDR, VK_CEXPR, VK_CARRAY, VK_CSTRUCT, VK_CVECTOR = \
    0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13
VK_UNDEF, VK_CAGGZERO, VK_CDARRAY, VK_CDVECTOR, VK_CINT, VK_CFP, VK_NULL, VK_ASM, VK_INSTR, VK_POISON = \
    14, 15, 16, 17, 18, 19, 20, 23, 24, 25
OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem",
       19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp",
       36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 47: "userop1", 48: "userop2", 49: "vaarg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue",
       68: "freeze", 55: "fence", 56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Ty:
    __slots__ = ("kind", "bits", "elems", "n", "size", "offs", "ref", "store")


class Module:
    def __init__(self, path):
        L = self.L = lib()
        self.ctx = L.LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read %s: %s" % (path, err.value))
        m = P()
        if L.LLVMParseBitcodeInContext2(self.ctx, buf, C.byref(m)):
            raise RuntimeError("cannot parse " + path)
        self.m = m
        self.td = L.LLVMGetModuleDataLayout(m)
        self._ty = {}
        self.functions = {}
        f = L.LLVMGetFirstFunction(m)
        while f:
            self.functions[self.name(f)] = f
            f = L.LLVMGetNextFunction(f)
        self.globals = {}
        g = L.LLVMGetFirstGlobal(m)
        while g:
            self.globals[self.name(g)] = g
            g = L.LLVMGetNextGlobal(g)
        self.aliases = {}
        g = L.LLVMGetFirstGlobalAlias(m)
        while g:
            self.aliases[self.name(g)] = g
            g = L.LLVMGetNextGlobalAlias(g)

    def name(self, v):
        n = C.c_size_t()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode()

    def is_decl(self, f):
        return bool(self.L.LLVMIsDeclaration(f))

    def print(self, v):
        p = self.L.LLVMPrintValueToString(v)
        s = C.string_at(p).decode(errors="replace")
        self.L.LLVMDisposeMessage(p)
        return s

    def ty(self, t):
        r = self._ty.get(t)
        if r is not None:
            return r
        L = self.L
        r = Ty()
        r.ref = t
        k = TK.get(L.LLVMGetTypeKind(t), "other")
        r.kind = k
        r.bits = 0
        r.elems = None
        r.n = 0
        r.size = 0
        r.offs = None
        self._ty[t] = r
        if k == "int":
            r.bits = L.LLVMGetIntTypeWidth(t)
        elif k == "struct":
            n = L.LLVMCountStructElementTypes(t)
            r.n = n
            r.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
        elif k == "array":
            r.n = L.LLVMGetArrayLength2(t)
            r.elems = [self.ty(L.LLVMGetElementType(t))]
        elif k == "vector":
            r.n = L.LLVMGetVectorSize(t)
            r.elems = [self.ty(L.LLVMGetElementType(t))]
        if k in ("int", "struct", "array", "vector", "double", "float", "x86_fp80", "ptr", "half") and \
                L.LLVMTypeIsSized(t):
            try:
                r.size = L.LLVMABISizeOfType(self.td, t)
                r.store = L.LLVMStoreSizeOfType(self.td, t)
            except Exception:
                pass
        return r

    def tyof(self, v):
        return self.ty(self.L.LLVMTypeOf(v))
