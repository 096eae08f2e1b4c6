"""Thin ctypes binding of the parts of the LLVM-C API that the verifier needs.

The verifier reads LLVM bitcode produced by clang from the sources in /repo; nothing
in between is hand written.  This module only wraps libLLVM."""
import ctypes as C
import os

_lib = None
for _p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so"):
    if os.path.exists(_p):
        _lib = C.CDLL(_p)
        break
if _lib is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p
U = C.c_uint
B = C.c_int
S = C.c_char_p
ULL = C.c_ulonglong
LL = C.c_longlong


def _f(name, res, *args):
    fn = getattr(_lib, name)
    fn.restype = res
    fn.argtypes = list(args)
    globals()[name[4:]] = fn
    return fn


_f("LLVMContextCreate", P)
_f("LLVMContextDispose", None, P)
_f("LLVMCreateMemoryBufferWithContentsOfFile", B, S, C.POINTER(P), C.POINTER(P))
_f("LLVMParseBitcodeInContext2", B, P, P, C.POINTER(P))
_f("LLVMParseIRInContext", B, P, P, C.POINTER(P), C.POINTER(P))
_f("LLVMWriteBitcodeToFile", B, P, S)
_f("LLVMPrintModuleToFile", B, P, S, C.POINTER(P))
_f("LLVMGetModuleDataLayout", P, P)
_f("LLVMGetFirstFunction", P, P)
_f("LLVMGetNextFunction", P, P)
_f("LLVMGetNamedFunction", P, P, S)
_f("LLVMGetFirstGlobal", P, P)
_f("LLVMGetNextGlobal", P, P)
_f("LLVMGetFirstGlobalAlias", P, P)
_f("LLVMGetNextGlobalAlias", P, P)
_f("LLVMAliasGetAliasee", P, P)
_f("LLVMGetInitializer", P, P)
_f("LLVMIsGlobalConstant", B, P)
_f("LLVMIsThreadLocal", B, P)
_f("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t))
_f("LLVMGetValueKind", B, P)
_f("LLVMTypeOf", P, P)
_f("LLVMGlobalGetValueType", P, P)
_f("LLVMGetTypeKind", B, P)
_f("LLVMGetIntTypeWidth", U, P)
_f("LLVMCountStructElementTypes", U, P)
_f("LLVMStructGetTypeAtIndex", P, P, U)
_f("LLVMIsPackedStruct", B, P)
_f("LLVMGetElementType", P, P)
_f("LLVMGetArrayLength2", C.c_uint64, P)
_f("LLVMGetVectorSize", U, P)
_f("LLVMABISizeOfType", ULL, P, P)
_f("LLVMStoreSizeOfType", ULL, P, P)
_f("LLVMOffsetOfElement", ULL, P, P, U)
_f("LLVMCountBasicBlocks", U, P)
_f("LLVMGetFirstBasicBlock", P, P)
_f("LLVMGetNextBasicBlock", P, P)
_f("LLVMGetFirstInstruction", P, P)
_f("LLVMGetNextInstruction", P, P)
_f("LLVMGetInstructionOpcode", B, P)
_f("LLVMGetNumOperands", B, P)
_f("LLVMGetOperand", P, P, U)
_f("LLVMCountParams", U, P)
_f("LLVMGetParam", P, P, U)
_f("LLVMIsDeclaration", B, P)
_f("LLVMBasicBlockAsValue", P, P)
_f("LLVMValueAsBasicBlock", P, P)
_f("LLVMGetNumSuccessors", U, P)
_f("LLVMGetSuccessor", P, P, U)
_f("LLVMIsConditional", B, P)
_f("LLVMGetCondition", P, P)
_f("LLVMGetSwitchDefaultDest", P, P)
_f("LLVMGetNormalDest", P, P)
_f("LLVMGetUnwindDest", P, P)
_f("LLVMGetCalledValue", P, P)
_f("LLVMGetCalledFunctionType", P, P)
_f("LLVMGetNumArgOperands", U, P)
_f("LLVMGetReturnType", P, P)
_f("LLVMIsFunctionVarArg", B, P)
_f("LLVMCountIncoming", U, P)
_f("LLVMGetIncomingValue", P, P, U)
_f("LLVMGetIncomingBlock", P, P, U)
_f("LLVMGetNumClauses", U, P)
_f("LLVMGetClause", P, P, U)
_f("LLVMIsCleanup", B, P)
_f("LLVMGetNumIndices", U, P)
_f("LLVMGetIndices", C.POINTER(U), P)
_f("LLVMGetMaskValue", B, P, U)
_f("LLVMGetNumMaskElements", U, P)
_f("LLVMGetAllocatedType", P, P)
_f("LLVMGetAlignment", U, P)
_f("LLVMGetGEPSourceElementType", P, P)
_f("LLVMGetICmpPredicate", B, P)
_f("LLVMGetFCmpPredicate", B, P)
_f("LLVMGetOrdering", B, P)
_f("LLVMGetAtomicRMWBinOp", B, P)
_f("LLVMGetCmpXchgSuccessOrdering", B, P)
_f("LLVMGetCmpXchgFailureOrdering", B, P)
_f("LLVMGetWeak", B, P)
_f("LLVMGetVolatile", B, P)
_f("LLVMGetConstOpcode", B, P)
_f("LLVMConstIntGetZExtValue", ULL, P)
_f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(B))
_f("LLVMGetAggregateElement", P, P, U)
_f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
_f("LLVMPrintValueToString", P, P)
_f("LLVMPrintTypeToString", P, P)
_f("LLVMDisposeMessage", None, P)
_f("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
_f("LLVMCreateEnumAttribute", P, P, U, C.c_uint64)
_f("LLVMAddAttributeAtIndex", None, P, U, P)
_f("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
_f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
_f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
_f("LLVMGetDebugLocLine", U, P)
_f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
_f("LLVMCreatePassBuilderOptions", P)
_f("LLVMPassBuilderOptionsSetInlinerThreshold", None, P, B) if hasattr(_lib, "LLVMPassBuilderOptionsSetInlinerThreshold") else None
_f("LLVMPassBuilderOptionsSetLoopUnrolling", None, P, B)
_f("LLVMPassBuilderOptionsSetLoopVectorization", None, P, B)
_f("LLVMPassBuilderOptionsSetSLPVectorization", None, P, B)
_f("LLVMRunPasses", P, P, S, P, P)
_f("LLVMGetErrorMessage", P, P)
_f("LLVMSetLinkage", None, P, B)
_f("LLVMGetInstructionParent", P, P)
_f("LLVMGetPoison", P, P)

ATTR_FN = 0xFFFFFFFF


def value_name(v):
    n = C.c_size_t()
    p = GetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def to_str(v):
    p = PrintValueToString(v)
    s = C.string_at(p).decode(errors="replace")
    DisposeMessage(p)
    return s


def type_str(t):
    p = PrintTypeToString(t)
    s = C.string_at(p).decode(errors="replace")
    DisposeMessage(p)
    return s


def attr_kind(name):
    return GetEnumAttributeKindForName(name.encode(), len(name))


NOUNWIND = attr_kind("nounwind")
NOINLINE = attr_kind("noinline")
ALWAYSINLINE = attr_kind("alwaysinline")
OPTNONE = attr_kind("optnone")
NORETURN = attr_kind("noreturn")
MEMORY = attr_kind("memory")
WILLRETURN = attr_kind("willreturn")


def load_module(path):
    ctx = ContextCreate()
    buf = P()
    msg = P()
    if CreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
        raise RuntimeError("cannot read %s" % path)
    mod = P()
    if path.endswith(".ll"):
        if ParseIRInContext(ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError("parse: %s" % C.string_at(msg))
    elif ParseBitcodeInContext2(ctx, buf, C.byref(mod)):
        raise RuntimeError("cannot parse bitcode %s" % path)
    return ctx, mod


def run_passes(mod, pipeline, unroll=False):
    o = CreatePassBuilderOptions()
    PassBuilderOptionsSetLoopUnrolling(o, 1 if unroll else 0)
    PassBuilderOptionsSetLoopVectorization(o, 0)
    PassBuilderOptionsSetSLPVectorization(o, 0)
    e = RunPasses(mod, pipeline.encode(), None, o)
    if e:
        raise RuntimeError("passes failed: %s" % C.string_at(GetErrorMessage(e)).decode())
