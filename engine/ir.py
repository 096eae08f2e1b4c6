"""Translate LLVM bitcode (read through libLLVM) into compact Python structures."""
import ctypes as C
from . import llvmc as L

M64 = (1 << 64) - 1
OBJ_SHIFT = 36


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "w", "size", "elems", "offs", "n", "el", "packed", "name")

    def __repr__(self):
        return "%s%s" % (self.k, self.w or "")


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return "&%s+%s" % (self.obj, self.off)


class Undef:
    __slots__ = ()

    def __repr__(self):
        return "UNDEF"


UNDEF = Undef()
NULL = Ptr(0, 0)


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "x", "line", "v", "blk", "al")


class Block:
    __slots__ = ("idx", "phis", "ins", "name", "fn")


class Function:
    __slots__ = ("name", "demangled", "v", "decl", "blocks", "nregs", "nparams", "params",
                 "obj", "translated", "nounwind", "ret", "module", "loops", "file", "short",
                 "vararg", "hasdef")


class Module:
    def __init__(self, path, pipeline, noinline=(), keep=None):
        self.ctx, self.mod = L.load_module(path)
        self.dl = L.GetModuleDataLayout(self.mod)
        self.types = {}
        self.functions = {}
        self.globals = {}
        self.objnames = {0: "null"}
        self.next_obj = 8
        self.gobj_info = {}
        self._names()
        names = {}
        f = L.GetFirstFunction(self.mod)
        alln = []
        while f:
            alln.append((L.value_name(f), f))
            f = L.GetNextFunction(f)
        self.demangle_map = demangle([n for n, _ in alln])
        for n, fv in alln:
            if not L.IsDeclaration(fv):
                # a definition may be inlined unless it is replaced by a contract
                d = self.demangle_map[n]
                if any(pat(d) for pat in noinline):
                    L.RemoveEnumAttributeAtIndex(fv, L.ATTR_FN, L.ALWAYSINLINE)
                    L.AddAttributeAtIndex(fv, L.ATTR_FN,
                                          L.CreateEnumAttribute(self.ctx, L.NOINLINE, 0))
        if pipeline:
            L.run_passes(self.mod, pipeline)
        self._index()

    # -- naming helpers
    def _names(self):
        self.byval = {}

    def _index(self):
        f = L.GetFirstFunction(self.mod)
        rest = []
        while f:
            fn = Function()
            fn.name = L.value_name(f)
            fn.v = f
            fn.hasdef = not L.IsDeclaration(f)
            fn.decl = not fn.hasdef
            fn.translated = False
            fn.nounwind = bool(L.GetEnumAttributeAtIndex(f, L.ATTR_FN, L.NOUNWIND))
            fn.nparams = L.CountParams(f)
            fn.obj = self.new_obj("fn:" + fn.name)
            self.gobj_info[fn.obj] = ("fn", fn)
            fn.module = self
            fn.loops = None
            fn.demangled = self.demangle_map.get(fn.name)
            if fn.demangled is None:
                rest.append(fn)
            self.functions[fn.name] = fn
            self.byval[f] = Ptr(fn.obj, 0)
            f = L.GetNextFunction(f)
        if rest:
            dm = demangle([r.name for r in rest])
            for r in rest:
                r.demangled = dm[r.name]
        g = L.GetFirstGlobal(self.mod)
        while g:
            n = L.value_name(g)
            o = self.new_obj("global:" + n)
            self.globals[n] = g
            self.gobj_info[o] = ("global", g, n)
            self.byval[g] = Ptr(o, 0)
            g = L.GetNextGlobal(g)
        a = L.GetFirstGlobalAlias(self.mod)
        while a:
            self.byval[a] = ("alias", L.AliasGetAliasee(a))
            a = L.GetNextGlobalAlias(a)

    def new_obj(self, name):
        o = self.next_obj
        self.next_obj += 8  # the low bits are the alignment class (see skew)
        self.objnames[o] = name
        return o

    # -- types
    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        k = L.GetTypeKind(t)
        r = Ty()
        r.w = None
        r.size = 0
        r.name = None
        if k == 8:
            r.k = "i"
            r.w = L.GetIntTypeWidth(t)
            r.size = L.StoreSizeOfType(self.dl, t)
        elif k == 12:
            r.k = "p"
            r.w = 64
            r.size = 8
        elif k == 10:
            r.k = "s"
            n = L.CountStructElementTypes(t)
            self.types[t] = r
            r.elems = [self.ty(L.StructGetTypeAtIndex(t, i)) for i in range(n)]
            r.size = L.ABISizeOfType(self.dl, t)
            r.offs = [L.OffsetOfElement(self.dl, t, i) for i in range(n)]
        elif k == 11:
            r.k = "a"
            r.el = self.ty(L.GetElementType(t))
            r.n = L.GetArrayLength2(t)
            r.size = L.ABISizeOfType(self.dl, t)
        elif k == 13:
            r.k = "v"
            r.el = self.ty(L.GetElementType(t))
            r.n = L.GetVectorSize(t)
            r.size = L.ABISizeOfType(self.dl, t)
        elif k == 0:
            r.k = "void"
        elif k in (2, 3):
            r.k = "f"
            r.w = 32 if k == 2 else 64
            r.size = r.w // 8
        elif k == 4:
            r.k = "f"
            r.w = 80
            r.size = 16
        elif k == 14:
            r.k = "md"
        elif k == 16:
            r.k = "token"
        elif k == 9:
            r.k = "fnty"
        elif k == 7:
            r.k = "label"
        else:
            raise Unsupported("type kind %d" % k)
        self.types[t] = r
        return r

    def typeof(self, v):
        return self.ty(L.TypeOf(v))

    # -- constants
    def const(self, v):
        k = L.GetValueKind(v)
        if k in (5, 8):
            return self.byval[v]
        if k == 6:
            return self.const(self.byval[v][1])
        if k == 18:
            t = self.typeof(v)
            if t.w <= 64:
                return L.ConstIntGetZExtValue(v) & ((1 << t.w) - 1)
            return int(L.to_str(v).split()[-1]) & ((1 << t.w) - 1)
        if k == 20:
            return NULL
        if k in (14, 25):
            return undef_of(self.typeof(v))
        if k == 15:
            return zero_of(self.typeof(v))
        if k in (11, 12, 13, 16, 17):
            t = self.typeof(v)
            n = len(t.elems) if t.k == "s" else t.n
            return tuple(self.const(L.GetAggregateElement(v, i)) for i in range(n))
        if k == 19:
            loses = L.B()
            return FP(L.ConstRealGetDouble(v, C.byref(loses)))
        if k == 10:
            return self.constexpr(v)
        if k == 22:
            return ("metadata",)
        if k == 21:
            return ("token-none",)
        if k == 23:
            return ("inlineasm", L.to_str(v))
        raise Unsupported("constant kind %d: %s" % (k, L.to_str(v)[:120]))

    def constexpr(self, v):
        op = L.GetConstOpcode(v)
        if op == 29:
            base = self.const(L.GetOperand(v, 0))
            off, dyn = self.gep(v)
            if dyn:
                raise Unsupported("dynamic const gep")
            return Ptr(base.obj, (base.off + off) & M64)
        if op == 39:
            p = self.const(L.GetOperand(v, 0))
            return ptr2int(p)
        if op == 40:
            return int2ptr(self.const(L.GetOperand(v, 0)))
        if op == 41:
            return self.const(L.GetOperand(v, 0))
        if op == 30:
            return self.const(L.GetOperand(v, 0)) & ((1 << self.typeof(v).w) - 1)
        if op == 10:
            a = self.const(L.GetOperand(v, 0))
            b = self.const(L.GetOperand(v, 1))
            return (a - b) & ((1 << self.typeof(v).w) - 1)
        if op == 8:
            a = self.const(L.GetOperand(v, 0))
            b = self.const(L.GetOperand(v, 1))
            return (a + b) & ((1 << self.typeof(v).w) - 1)
        raise Unsupported("constexpr op %d %s" % (op, L.to_str(v)[:150]))

    def gep(self, v, reg=None):
        """returns (constant offset, [(operand, scale, width)])"""
        n = L.GetNumOperands(v)
        t = L.GetGEPSourceElementType(v)
        off = 0
        dyn = []
        cur = self.ty(t)
        for i in range(1, n):
            o = L.GetOperand(v, i)
            k = L.GetValueKind(o)
            isc = k == 18
            if isc:
                w = self.typeof(o).w
                c = L.ConstIntGetZExtValue(o)
                if c >> (w - 1):
                    c -= 1 << w
            if k in (15, 14, 25):
                isc, c = True, 0
            if i == 1:
                if isc:
                    off += c * self.abisize(cur, t)
                else:
                    dyn.append((reg(o), self.abisize(cur, t), self.typeof(o).w))
                continue
            if cur.k == "s":
                off += cur.offs[c]
                cur = cur.elems[c]
            elif cur.k in ("a", "v"):
                cur = cur.el
                if isc:
                    off += c * cur_size(cur)
                else:
                    dyn.append((reg(o), cur_size(cur), self.typeof(o).w))
            else:
                raise Unsupported("gep into %s" % cur.k)
        return off, dyn

    def abisize(self, t, tv):
        return L.ABISizeOfType(self.dl, tv)

    # -- functions
    def translate(self, fn):
        if fn.translated:
            return fn
        regs = {}
        n = 0
        ptys = []
        for i in range(fn.nparams):
            p = L.GetParam(fn.v, i)
            regs[p] = n
            ptys.append(self.typeof(p))
            n += 1
        fn.params = ptys
        blocks = {}
        blist = []
        b = L.GetFirstBasicBlock(fn.v)
        while b:
            B = Block()
            B.idx = len(blist)
            B.fn = fn
            B.phis = []
            B.ins = []
            B.name = None
            blocks[L.BasicBlockAsValue(b)] = B.idx
            blist.append((b, B))
            i = L.GetFirstInstruction(b)
            while i:
                if self.typeof(i).k != "void":
                    regs[i] = n
                    n += 1
                i = L.GetNextInstruction(i)
            b = L.GetNextBasicBlock(b)

        def opnd(v):
            r = regs.get(v)
            if r is not None:
                return (True, r)
            return (False, self.const(v))

        def bidx(bb):
            return blocks[L.BasicBlockAsValue(bb)]

        for bb, B in blist:
            i = L.GetFirstInstruction(bb)
            while i:
                op = L.GetInstructionOpcode(i)
                I = Instr()
                I.op = op
                I.v = i
                I.res = regs.get(i, -1)
                I.ty = self.typeof(i)
                I.line = L.GetDebugLocLine(i)
                I.ops = ()
                I.x = None
                I.blk = B
                if op == 44:  # phi
                    m = {}
                    for j in range(L.CountIncoming(i)):
                        m[bidx(L.GetIncomingBlock(i, j))] = opnd(L.GetIncomingValue(i, j))
                    I.x = m
                    B.phis.append(I)
                    i = L.GetNextInstruction(i)
                    continue
                if op == 2:
                    if L.IsConditional(i):
                        I.ops = (opnd(L.GetCondition(i)),)
                        I.x = (bidx(L.GetSuccessor(i, 0)), bidx(L.GetSuccessor(i, 1)))
                    else:
                        I.x = (bidx(L.GetSuccessor(i, 0)),)
                elif op == 3:
                    I.ops = (opnd(L.GetOperand(i, 0)),)
                    cases = []
                    no = L.GetNumOperands(i)
                    for j in range(2, no, 2):
                        cases.append((self.const(L.GetOperand(i, j)),
                                      blocks[L.GetOperand(i, j + 1)]))
                    I.x = (bidx(L.GetSwitchDefaultDest(i)), cases)
                    w = self.typeof(L.GetOperand(i, 0)).w
                    I.x = I.x + (w,)
                elif op in (5, 45):
                    self.call(I, i, opnd, bidx, op)
                elif op == 29:
                    off, dyn = self.gep(i, opnd)
                    I.ops = (opnd(L.GetOperand(i, 0)),)
                    I.x = (off, dyn)
                elif op == 26:
                    t = L.GetAllocatedType(i)
                    I.ops = (opnd(L.GetOperand(i, 0)),)
                    I.x = L.ABISizeOfType(self.dl, t)
                    I.al = L.GetAlignment(i)
                elif op == 27:
                    I.ops = (opnd(L.GetOperand(i, 0)),)
                    I.x = L.GetOrdering(i)
                    I.al = L.GetAlignment(i)
                elif op == 28:
                    I.ops = (opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)))
                    I.x = (self.typeof(L.GetOperand(i, 0)), L.GetOrdering(i))
                    I.al = L.GetAlignment(i)
                elif op == 42:
                    I.ops = (opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)))
                    t = self.typeof(L.GetOperand(i, 0))
                    I.x = (L.GetICmpPredicate(i), t)
                elif op == 43:
                    I.ops = (opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)))
                    I.x = (L.GetFCmpPredicate(i), self.typeof(L.GetOperand(i, 0)))
                elif op in (53, 54):
                    idx = L.GetIndices(i)
                    I.x = tuple(idx[j] for j in range(L.GetNumIndices(i)))
                    I.ops = tuple(opnd(L.GetOperand(i, j))
                                  for j in range(L.GetNumOperands(i)))
                elif op == 56:
                    I.ops = tuple(opnd(L.GetOperand(i, j)) for j in range(3))
                    I.x = (self.typeof(L.GetOperand(i, 1)), L.GetCmpXchgSuccessOrdering(i),
                           L.GetCmpXchgFailureOrdering(i), bool(L.GetWeak(i)))
                elif op == 57:
                    I.ops = tuple(opnd(L.GetOperand(i, j)) for j in range(2))
                    I.x = (L.GetAtomicRMWBinOp(i), L.GetOrdering(i))
                elif op == 55:
                    I.x = L.GetOrdering(i)
                elif op == 59:
                    cl = []
                    for j in range(L.GetNumClauses(i)):
                        c = L.GetClause(i, j)
                        t = self.typeof(c)
                        if t.k == "a":
                            cv = self.const(c) if L.GetValueKind(c) != 15 else ()
                            cl.append(("filter", cv))
                        else:
                            cl.append(("catch", self.const(c)))
                    I.x = (cl, bool(L.IsCleanup(i)))
                elif op == 1:
                    I.ops = (opnd(L.GetOperand(i, 0)),) if L.GetNumOperands(i) else ()
                elif op == 52:
                    I.ops = (opnd(L.GetOperand(i, 0)), opnd(L.GetOperand(i, 1)))
                    I.x = tuple(L.GetMaskValue(i, j)
                                for j in range(L.GetNumMaskElements(i)))
                else:
                    I.ops = tuple(opnd(L.GetOperand(i, j))
                                  for j in range(L.GetNumOperands(i)))
                    if op in (30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41):
                        I.x = self.typeof(L.GetOperand(i, 0))
                B.ins.append(I)
                i = L.GetNextInstruction(i)
        fn.blocks = [B for _, B in blist]
        fn.nregs = n
        fn.translated = True
        return fn

    def call(self, I, i, opnd, bidx, op):
        na = L.GetNumArgOperands(i)
        cal = L.GetCalledValue(i)
        k = L.GetValueKind(cal)
        args = []
        name = None
        if k == 5:
            name = L.value_name(cal)
        if name and name.startswith("llvm.dbg"):
            args = []
        else:
            for j in range(na):
                a = L.GetOperand(i, j)
                if L.GetValueKind(a) == 22:
                    args.append((False, ("metadata",)))
                else:
                    args.append(opnd(a))
        I.ops = tuple(args)
        byval = None
        nd = ud = None
        if op == 5:
            nd = bidx(L.GetNormalDest(i))
            ud = bidx(L.GetUnwindDest(i))
        if k == 23:
            callee = ("asm", L.to_str(cal))
        elif k == 6:
            callee = (False, self.const(cal))
        else:
            callee = opnd(cal)
        nounw = bool(L.GetCallSiteEnumAttribute(i, L.ATTR_FN, L.NOUNWIND))
        argtys = None
        I.x = (callee, name, nd, ud, nounw)

    def argtypes(self, I):
        return [self.typeof(L.GetOperand(I.v, j))
                for j in range(L.GetNumArgOperands(I.v))]

    def srcloc(self, I):
        if not I.line:
            return "?"
        n = C.c_uint()
        p = L.GetDebugLocFilename(I.v, C.byref(n))
        f = C.string_at(p, n.value).decode() if p else "?"
        return "%s:%d" % (f, I.line)


class FP:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "fp%r" % self.v


def cur_size(t):
    if t.k == "i":
        # ABI alloc size of odd ints
        s = t.size
        p = 1
        while p < s:
            p *= 2
        return p
    return t.size


def undef_of(t):
    if t.k == "s":
        return tuple(undef_of(e) for e in t.elems)
    if t.k in ("a", "v"):
        return tuple(undef_of(t.el) for _ in range(t.n))
    return UNDEF


def zero_of(t):
    if t.k == "s":
        return tuple(zero_of(e) for e in t.elems)
    if t.k in ("a", "v"):
        return tuple(zero_of(t.el) for _ in range(t.n))
    if t.k == "p":
        return NULL
    if t.k == "f":
        return FP(0.0)
    return 0


def skew(o):
    """Objects lie at the least aligned address that they may have: object ids carry the class of their
    alignment, 1 for 1, 2 for 2, 3 for 4 ... 7 for 64; 0 is for any alignment."""
    c = o & 7
    return 1 << (c - 1) if c else 0


def align_class(align):
    if align is None or align <= 0 or align & (align - 1) or align > 64:
        return 0
    return align.bit_length()


def ptr2int(p):
    if isinstance(p.off, int):
        return ((p.obj << OBJ_SHIFT) + skew(p.obj) + p.off) & M64
    return p.off + ((p.obj << OBJ_SHIFT) + skew(p.obj))


def int2ptr(v):
    # offsets are small and may be slightly negative or past the end
    o = (v + (1 << (OBJ_SHIFT - 1))) >> OBJ_SHIFT
    return Ptr(o & ((1 << 28) - 1), (v - (o << OBJ_SHIFT) - skew(o)) & M64)


def demangle(names):
    import subprocess
    if not names:
        return {}
    import os
    exe = "/usr/lib/llvm-18/bin/llvm-cxxfilt"
    p = subprocess.run([exe if os.path.exists(exe) else "c++filt"], input="\n".join(names), capture_output=True, text=True)
    out = p.stdout.split("\n")
    return dict(zip(names, out))
