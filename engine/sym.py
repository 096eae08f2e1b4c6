"""Verification-condition generation by symbolic execution of LLVM IR.

Every path of a proof function is executed over symbolic values; every access, assertion,
contract clause and exit is an obligation which is discharged by z3 (or by constant
evaluation).  Loops are either fully evaluated (when their control is decided by the path
condition) or cut with an inductive invariant (see loops.py)."""
import sys
import time
import z3
from .ir import (skew, align_class, Ptr, UNDEF, NULL, FP, Unsupported, ptr2int, int2ptr, undef_of, zero_of, M64,
                 Module)

sys.setrecursionlimit(20000)


class PathEnd(Exception):
    def __init__(self, kind, msg=""):
        self.kind = kind
        self.msg = msg


class Violation(Exception):
    def __init__(self, label, msg, cond=None):
        self.label = label
        self.msg = msg
        self.cond = cond


class Retry(Exception):
    """re-execute the current instruction"""


class Undecided(Exception):
    pass


class Restart(Exception):
    """loop analysis learned something: run the whole proof again"""


class Obj:
    __slots__ = ("id", "kind", "size", "alive", "cells", "fill", "owner", "name", "align",
                 "freed_by", "ro", "site", "arr", "meta", "seq")

    def copy(self, owner):
        o = Obj()
        o.id = self.id
        o.kind = self.kind
        o.size = self.size
        o.alive = self.alive
        o.cells = dict(self.cells)
        o.fill = self.fill
        o.owner = owner
        o.name = self.name
        o.align = self.align
        o.freed_by = self.freed_by
        o.ro = self.ro
        o.site = self.site
        o.arr = dict(self.arr) if self.arr is not None else None
        o.meta = self.meta
        o.seq = self.seq
        return o


class Frame:
    __slots__ = ("fn", "regs", "blk", "ip", "prev", "allocas", "inject", "k", "loopst", "ins",
                 "entry_mem")

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.regs = list(self.regs)
        f.blk = self.blk
        f.ip = self.ip
        f.prev = self.prev
        f.allocas = list(self.allocas)
        f.inject = self.inject
        f.k = self.k
        f.loopst = dict(self.loopst) if self.loopst else None
        f.ins = self.ins
        return f


class State:
    __slots__ = ("frames", "mem", "token", "pc", "model", "nondet", "choices", "cidx", "exc",
                 "caught", "next_obj", "x", "steps", "ghost", "trace", "cur_exc", "allocseq",
                 "uncaught", "forks", "mt")


_tok = [0]


def newtok():
    _tok[0] += 1
    return _tok[0]


def isz(v):
    return isinstance(v, z3.ExprRef)


def mask(w):
    return (1 << w) - 1


def sext(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def tobool(v):
    if isinstance(v, int):
        return bool(v & 1)
    return v


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


class Engine:
    def __init__(self, module, stubs, opts=None):
        self.m = module
        self.stubs = stubs
        self.opts = opts or {}
        self.solver = z3.Solver()
        self.solver.set("timeout", int(self.opts.get("z3_timeout_ms", 30000)))
        self.sstack = []
        self.nq = 0
        self.tq = 0.0
        self.obl = {}          # label -> [solver discharged, evaluated]
        self.viol = []         # violations
        self.undecided = []
        self.covers = set()
        self.fns = {}
        self.contracts_used = {}
        self.npaths = 0
        self.ends = {}
        self.nsteps = 0
        self.fresh = 0
        self.max_paths = self.opts.get("max_paths", 200000)
        self.max_steps = self.opts.get("max_steps", 400000)
        self.deadline = None
        self.globals_init = {}
        self.warn = set()
        self.overrides = {}
        self.stubcache = {}
        self.loopcuts = self.opts.get("loopcuts", {})
        self.assumptions = set()
        self.maxviol = self.opts.get("max_violations", 3)
        self.inst_stats = {}
        self.bounded = bool(self.opts.get("bounded", False))
        if self.bounded:
            self.assumptions.add("bounded stand-in: %s" % self.opts["bounded"])
        from . import threads
        self.threads = threads

    # ------------------------------------------------------------------ solver
    def sync(self, pc):
        st = self.sstack
        n = 0
        lim = min(len(st), len(pc))
        while n < lim and st[n] is pc[n]:
            n += 1
        k = len(st) - n
        if k:
            self.solver.pop(k)
            del st[n:]
        for i in range(n, len(pc)):
            self.solver.push()
            self.solver.add(pc[i])
            st.append(pc[i])

    def check(self, st, cond):
        """is pc & cond satisfiable?  returns model, None (unsat)"""
        self.sync(st.pc)
        t = time.time()
        self.solver.push()
        self.solver.add(cond)
        r = self.solver.check()
        m = self.solver.model() if r == z3.sat else None
        reason = None
        if r == z3.unknown:
            reason = self.solver.reason_unknown()
        self.solver.pop()
        self.nq += 1
        self.tq += time.time() - t
        if r == z3.unknown:
            # second opinion with a fresh solver
            s = z3.SolverFor("QF_AUFBV") if not self.opts.get("quant") else z3.Solver()
            s.set("timeout", 60000)
            s.add(*st.pc)
            s.add(cond)
            r = s.check()
            if r == z3.sat:
                return s.model()
            if r == z3.unknown:
                raise Undecided("solver returned unknown (%s)" % reason)
        return m

    def evalm(self, st, cond):
        if st.model is None:
            st.model = self.check(st, z3.BoolVal(True))
            if st.model is None:
                raise PathEnd("infeasible")
        v = st.model.eval(cond, model_completion=True)
        return z3.is_true(v)

    def add(self, st, cond, model=None):
        st.pc.append(cond)
        st.model = model

    def freshbv(self, w, name="f"):
        self.fresh += 1
        return z3.BitVec("%s!%d" % (name, self.fresh), w)

    # ------------------------------------------------------------------ forking
    def clone(self, st):
        s = State()
        s.frames = [f.copy() for f in st.frames]
        s.mem = dict(st.mem)
        s.token = newtok()
        st.token = newtok()
        s.pc = list(st.pc)
        s.model = st.model
        s.nondet = list(st.nondet)
        s.choices = list(st.choices)
        s.cidx = 0
        s.exc = dict(st.exc)
        s.caught = list(st.caught)
        s.next_obj = st.next_obj
        s.x = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)
               for k, v in st.x.items()}
        s.steps = st.steps
        s.ghost = st.ghost
        s.trace = list(st.trace)
        s.cur_exc = st.cur_exc
        s.allocseq = st.allocseq
        s.uncaught = st.uncaught
        s.forks = st.forks
        s.mt = st.mt.copy() if st.mt is not None else None
        return s

    def choose(self, st, n):
        """n-way choice; the current instruction is re-executed in the other branches"""
        if st.cidx < len(st.choices):
            c = st.choices[st.cidx]
            st.cidx += 1
            return c
        if n == 1:
            return 0
        for i in range(n - 1, 0, -1):
            s = self.clone(st)
            s.choices = st.choices + [i]
            s.cidx = 0
            self.work.append(s)
        st.choices = st.choices + [0]
        st.cidx = len(st.choices)
        return 0

    def decide(self, st, cond):
        """Fork on a boolean; returns a Python bool for this path"""
        if isinstance(cond, (int, bool)):
            return bool(cond)
        if cond is UNDEF:
            raise Violation("uninitialised", "control depends on an uninitialised value")
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if st.cidx < len(st.choices):
            c = st.choices[st.cidx]
            st.cidx += 1
            # the constraint was added to pc when forking
            return c
        v = self.evalm(st, cond)
        other = z3.Not(cond) if v else cond
        m = self.check(st, other)
        st.forks += 1
        mine = cond if v else z3.Not(cond)
        if m is not None:
            s = self.clone(st)
            s.choices = st.choices + [not v]
            s.cidx = 0
            self.add(s, other, m)
            self.work.append(s)
            mm = st.model
            self.add(st, mine, mm)
        st.choices = st.choices + [v]
        st.cidx = len(st.choices)
        return v

    def concretize(self, st, e, what="value"):
        """Fork over the feasible values of a bit-vector expression"""
        if isinstance(e, int):
            return e
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if st.cidx < len(st.choices):
            c = st.choices[st.cidx]
            st.cidx += 1
            if isinstance(c, tuple):   # continue enumerating
                return self._enum(st, e, c[1], what)
            return c
        return self._enum(st, e, 0, what)

    def _enum(self, st, e, cnt, what):
        if cnt > self.opts.get("max_enum", 64):
            raise Undecided("more than %d values for a symbolic %s" % (cnt, what))
        if st.model is None:
            st.model = self.check(st, z3.BoolVal(True))
            if st.model is None:
                raise PathEnd("infeasible")
        v = st.model.eval(e, model_completion=True).as_long()
        m = self.check(st, e != v)
        base = st.choices[:-1] if (st.choices and isinstance(st.choices[-1], tuple)) else st.choices
        if m is not None:
            s = self.clone(st)
            s.choices = list(base) + [("enum", cnt + 1)]
            s.cidx = 0
            self.add(s, e != v, m)
            self.work.append(s)
            mm = st.model
            self.add(st, e == v, mm)
        st.choices = list(base) + [v]
        st.cidx = len(st.choices)
        return v

    # ------------------------------------------------------------------ obligations
    def oblig(self, label, solver):
        r = self.obl.get(label)
        if r is None:
            r = self.obl[label] = [0, 0]
        r[0 if solver else 1] += 1

    def require(self, st, cond, label, msg, assume_after=True):
        """obligation: cond must hold on this path.  Raises Violation when it can fail"""
        if isinstance(cond, (int, bool)):
            if not cond:
                raise Violation(label, msg)
            self.oblig(label, False)
            return
        if cond is UNDEF:
            raise Violation(label, msg + " (uninitialised value)")
        c = z3.simplify(cond)
        if z3.is_true(c):
            self.oblig(label, False)
            return
        if z3.is_false(c):
            # the path itself must be feasible
            if st.model is None:
                st.model = self.check(st, z3.BoolVal(True))
                if st.model is None:
                    raise PathEnd("infeasible")
            raise Violation(label, msg)
        m = self.check(st, z3.Not(c))
        if m is None:
            self.oblig(label, True)
            return
        raise Violation(label, msg, (c, m))

    def report(self, st, v):
        model = None
        if v.cond is not None:
            model = v.cond[1]
        else:
            model = st.model
            if model is None:
                try:
                    model = self.check(st, z3.BoolVal(True))
                except Undecided:
                    model = None
                if model is None:
                    return
        vals = []
        for name, kind, w, e in st.nondet:
            if isz(e):
                x = model.eval(e, model_completion=True)
                if z3.is_bool(x):
                    x = 1 if z3.is_true(x) else 0
                else:
                    x = x.as_long()
            else:
                x = e
            vals.append((name, kind, w, x))
        where = self.backtrace(st)
        self.viol.append(dict(label=v.label, msg=v.msg, inputs=vals, where=where,
                              trace=list(st.trace)))

    def backtrace(self, st):
        out = []
        for f in reversed(st.frames):
            try:
                b = f.fn.blocks[f.blk]
                I = b.ins[min(f.ip, len(b.ins) - 1)]
                out.append("%s (%s)" % (f.fn.demangled[:160], self.m.srcloc(I)))
            except Exception:
                out.append(f.fn.demangled[:160])
            if len(out) > 14:
                break
        return out

    # ------------------------------------------------------------------ memory
    def alloc(self, st, kind, size, name, align=16):
        o = Obj()
        o.id = st.next_obj + align_class(align if type(align) is int else None)
        st.next_obj += 8
        o.kind = kind
        o.size = size
        o.alive = True
        o.cells = {}
        o.fill = None
        o.owner = st.token
        o.name = name
        o.align = align
        o.freed_by = None
        o.ro = False
        o.site = None
        o.arr = None
        o.meta = None
        st.allocseq += 1
        o.seq = st.allocseq
        st.mem[o.id] = o
        return Ptr(o.id, 0)

    def getobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.init_global(st, oid)
        return o

    def wobj(self, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = self.init_global(st, oid)
        if o.owner != st.token:
            o = o.copy(st.token)
            st.mem[oid] = o
        return o

    def init_global(self, st, oid):
        info = self.m.gobj_info.get(oid)
        if info is None:
            raise Violation("memory", "access to unknown object %s" % oid)
        if info[0] == "fn":
            raise Violation("memory", "data access to a function")
        base = self.globals_init.get(oid)
        if base is None:
            from . import llvmc as L
            _, g, name = info
            o = Obj()
            o.id = oid
            o.kind = "global"
            t = self.m.ty(L.GlobalGetValueType(g))
            o.size = t.size
            o.alive = True
            o.cells = {}
            o.fill = None
            o.owner = 0
            o.name = name
            o.align = max(16, L.GetAlignment(g))
            o.freed_by = None
            o.ro = bool(L.IsGlobalConstant(g))
            o.site = None
            o.arr = None
            o.meta = None
            o.seq = 0
            ini = L.GetInitializer(g)
            if ini:
                if t.size > 4096 and L.GetValueKind(ini) == 15:
                    o.fill = 0
                else:
                    self.initcells(o, 0, t, self.m.const(ini))
            elif name == "__libc_single_threaded":
                o.fill = 0      # several threads may exist: the atomic paths are taken
            elif o.kind == "global":
                o.fill = None
                o.meta = "external"
            base = self.globals_init[oid] = o
        st.mem[oid] = base
        return base

    def initial_globals(self, oid):
        base = self.globals_init.get(oid)
        if base is None:
            st = State()
            st.mem = {}
            base = self.init_global(st, oid)
        return base

    def initcells(self, o, off, t, v):
        if t.k == "s":
            for e, eo, ev in zip(t.elems, t.offs, v):
                self.initcells(o, off + eo, e, ev)
        elif t.k in ("a", "v"):
            from .ir import cur_size
            sz = cur_size(t.el)
            for i, ev in enumerate(v):
                self.initcells(o, off + i * sz, t.el, ev)
        elif v is UNDEF:
            pass
        else:
            o.cells[off] = (t.size, v)

    def desc(self, st, p):
        o = st.mem.get(p.obj)
        if p.obj == 0:
            return "null%+d" % p.off if isinstance(p.off, int) else "null+sym"
        if o is None:
            return self.m.objnames.get(p.obj, "?")
        return "%s '%s' offset %s of %s bytes" % (o.kind, o.name, p.off, o.size)

    def access(self, st, p, n, what, write=False):
        """validity of [p, p+n); returns (object, concrete offset)"""
        if p is UNDEF:
            raise Violation("memory", "%s through an uninitialised pointer" % what)
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                p = int2ptr(p)
            else:
                v = self.concretize(st, p, "pointer")
                p = int2ptr(v)
        if p.obj == 0:
            raise Violation("memory", "%s through a null pointer" % what)
        o = st.mem.get(p.obj)
        if o is None:
            o = self.init_global(st, p.obj)
        if not o.alive:
            if not (st.ghost and o.freed_by and o.freed_by.startswith("#")):
                raise Violation("memory", "%s of %s after its lifetime ended (%s)"
                                % (what, o.name, o.freed_by))
        off = p.off
        if not isinstance(off, int):
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                off = off.as_long()
        if not isinstance(off, int):
            size = o.size
            if isinstance(size, int):
                if size < n:
                    raise Violation("memory", "%s beyond %s" % (what, self.desc(st, p)))
                c = z3.ULE(off, size - n)
            else:
                c = z3.And(z3.ULE(off, size - n), z3.UGE(size, n))
            self.require(st, c, "memory", "%s out of bounds of %s" % (what, self.desc(st, p)))
            if o.arr is not None:
                return o, off
            off = self.concretize(st, off, "offset")
            return o, off
        if isinstance(o.size, int):
            if off + n > o.size:
                raise Violation("memory", "%s of %d bytes out of bounds: %s"
                                % (what, n, self.desc(st, p)))
        else:
            self.require(st, z3.And(z3.UGE(o.size, n), z3.ULE(off, o.size - n)), "memory",
                         "%s of %d bytes out of bounds: %s" % (what, n, self.desc(st, p)))
        if write and o.ro:
            raise Violation("memory", "write to constant %s" % o.name)
        return o, off

    def fillcheck(self, o):
        pass

    def rawload(self, st, o, off, n):
        """value of n bytes as stored (int, BV, Ptr, FP or UNDEF)"""
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        # gather
        bytes_ = []
        anydef = False
        i = off
        end = off + n
        parts = []
        while i < end:
            hit = None
            for j in range(i, i - 16, -1):
                cc = o.cells.get(j)
                if cc is not None:
                    if j + cc[0] > i:
                        hit = (j, cc)
                    break
            if hit is None:
                if o.fill is not None:
                    parts.append((1, o.fill))
                    anydef = True
                elif o.meta == "external":
                    parts.append((1, self.freshbv(8, "ext")))
                    anydef = True
                else:
                    parts.append((1, UNDEF))
                i += 1
                continue
            j, (sz, v) = hit
            anydef = True
            take = min(j + sz, end) - i
            if v is UNDEF:
                parts.append((take, UNDEF))
                i += take
                continue
            if isinstance(v, FP):
                v = self.fpbits(v, sz)
            if isinstance(v, Ptr):
                v = ptr2int(v)
            sh = (i - j) * 8
            if isinstance(v, int):
                pv = (v >> sh) & mask(take * 8)
            else:
                v = bv(v, sz * 8)
                pv = z3.Extract(sh + take * 8 - 1, sh, v) if take != sz else v
            parts.append((take, pv))
            i += take
        if not anydef:
            return UNDEF
        if all(isinstance(v, int) for _, v in parts):
            r = 0
            sh = 0
            for sz, v in parts:
                r |= v << sh
                sh += sz * 8
            return r
        if all(v is UNDEF for _, v in parts):
            return UNDEF
        es = []
        for sz, v in parts:
            if v is UNDEF:
                v = self.freshbv(sz * 8, "undef")
            es.append(bv(v, sz * 8))
        if len(es) == 1:
            return es[0]
        return z3.simplify(z3.Concat(*reversed(es)))

    def fpbits(self, v, sz):
        import struct
        return int.from_bytes(struct.pack("<d" if sz == 8 else "<f", v.v), "little")

    def coerce(self, st, v, t):
        if v is UNDEF:
            return v
        k = t.k
        if k == "i":
            if isinstance(v, Ptr):
                v = ptr2int(v)
            elif isinstance(v, FP):
                v = self.fpbits(v, t.size)
            if isinstance(v, int):
                return v & mask(t.w)
            if t.w == 1:
                return z3.Extract(0, 0, bv(v, 8)) == 1
            if v.size() != t.w:
                return z3.Extract(t.w - 1, 0, v)
            return v
        if k == "p":
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return int2ptr(v)
            v = z3.simplify(v)
            if z3.is_bv_value(v):
                return int2ptr(v.as_long())
            c = self.concretize(st, v, "pointer")
            return int2ptr(c)
        if k == "f":
            if isinstance(v, FP):
                return v
            if isinstance(v, int):
                import struct
                return FP(struct.unpack("<d" if t.size == 8 else "<f",
                                        v.to_bytes(t.size, "little"))[0])
            return v
        raise Unsupported("coerce to %s" % t)

    def aligned(self, st, p, al, what):
        """the address is a multiple of what the accessed type needs (symbolic offsets are assumed to be)"""
        if type(p) is not Ptr:
            return
        off = p.off
        o = st.mem.get(p.obj)
        if type(off) is int and (off + skew(p.obj)) & (al - 1):
            raise Violation("memory", "misaligned %s: offset %d in %s, which is only aligned to %s; %d is needed"
                            % (what, off, o and o.name, o and o.align, al))
        if type(off) is int and skew(p.obj):
            return
        if o is not None and type(o.align) is int and o.align < al:
            raise Violation("memory", "misaligned %s: %s is only aligned to %d, %d is needed"
                            % (what, o.name, o.align, al))

    def load(self, st, p, t):
        if t.k in ("s", "a", "v"):
            if t.k == "s":
                return tuple(self.load(st, self.padd(p, o), e)
                             for e, o in zip(t.elems, t.offs))
            from .ir import cur_size
            sz = cur_size(t.el)
            return tuple(self.load(st, self.padd(p, i * sz), t.el) for i in range(t.n))
        o, off = self.access(st, p, t.size, "read")
        self.nmem += 1
        if o.arr is not None:
            return self.arrload(st, o, off, t)
        v = self.rawload(st, o, off, t.size)
        return self.coerce(st, v, t)

    def padd(self, p, n):
        if n == 0:
            return p
        if isinstance(p.off, int):
            return Ptr(p.obj, (p.off + n) & M64)
        return Ptr(p.obj, p.off + n)

    def clear(self, o, off, n):
        """remove the cells overlapping [off, off+n), keeping the remainders"""
        cells = o.cells
        end = off + n
        if not cells:
            return
        if n > 4 * len(cells) + 16:
            keys = [k for k, c in cells.items() if k < end and k + c[0] > off]
        else:
            keys = []
            for k in range(off - 15, end):
                c = cells.get(k)
                if c is not None and k + c[0] > off:
                    keys.append(k)
        for k in keys:
            sz, v = cells.pop(k)
            if k < off:
                cells[k] = (off - k, self.bytes_of(v, sz, 0, off - k))
            if k + sz > end:
                cells[end] = (k + sz - end, self.bytes_of(v, sz, end - k, k + sz - end))

    def bytes_of(self, v, sz, frm, n):
        if v is UNDEF:
            return v
        if isinstance(v, Ptr):
            v = ptr2int(v)
        if isinstance(v, FP):
            v = self.fpbits(v, sz)
        if isinstance(v, int):
            return (v >> (8 * frm)) & mask(8 * n)
        v = bv(v, sz * 8)
        return z3.Extract(8 * (frm + n) - 1, 8 * frm, v)

    def store(self, st, p, t, v):
        if t.k in ("s", "a", "v"):
            if t.k == "s":
                for e, o, x in zip(t.elems, t.offs, v):
                    self.store(st, self.padd(p, o), e, x)
                return
            from .ir import cur_size
            sz = cur_size(t.el)
            for i, x in enumerate(v):
                self.store(st, self.padd(p, i * sz), t.el, x)
            return
        n = t.size
        o, off = self.access(st, p, n, "write", True)
        self.nmem += 1
        if o.owner != st.token:
            o = self.wobj(st, o.id)
        if o.arr is not None:
            return self.arrstore(st, o, off, t, v)
        self.rawstore(o, off, n, v, t.w)

    def rawstore(self, o, off, n, v, w=None):
        c = o.cells.get(off)
        if c is None or c[0] != n:
            self.clear(o, off, n)
        if v is UNDEF:
            if o.fill is not None or o.meta == "external":
                o.cells[off] = (n, UNDEF)
            else:
                o.cells.pop(off, None)
            return
        if isz(v):
            if z3.is_bool(v):
                v = bv(v, n * 8)
            elif z3.is_bv(v) and v.size() != n * 8:
                v = z3.ZeroExt(n * 8 - v.size(), v)
        o.cells[off] = (n, v)

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        so, soff = self.access(st, s, n, "read (memcpy)")
        do, doff = self.access(st, d, n, "write (memcpy)", True)
        if so.arr is not None or do.arr is not None:
            raise Unsupported("memcpy on unbounded array")
        do = self.wobj(st, do.id)
        so = st.mem[so.id]
        items = []
        i = soff
        end = soff + n
        cells = so.cells
        if len(cells) < n:
            keys = sorted(k for k, c in cells.items() if k < end and k + c[0] > soff)
        else:
            keys = [k for k in range(soff - 15, end) if k in cells and k + cells[k][0] > soff]
        for k in keys:
            sz, v = cells[k]
            a = max(k, soff)
            b = min(k + sz, end)
            if a == k and b == k + sz:
                items.append((a - soff, sz, v))
            else:
                items.append((a - soff, b - a, self.bytes_of(v, sz, a - k, b - a)))
        if so.fill is not None:
            # materialise fill bytes
            cov = set()
            for o_, sz, _ in items:
                cov.update(range(o_, o_ + sz))
            for j in range(n):
                if j not in cov:
                    items.append((j, 1, so.fill))
        self.clear(do, doff, n)
        if do.fill is not None and so.fill is None:
            cov = set()
            for o_, sz, _ in items:
                cov.update(range(o_, o_ + sz))
            for j in range(n):
                if j not in cov:
                    do.cells[doff + j] = (1, UNDEF)
        for o_, sz, v in items:
            do.cells[doff + o_] = (sz, v)
            if st.mt is not None:
                self.threads.plain(self, st, so, soff + o_, sz, False, "read")
                self.threads.plain(self, st, do, doff + o_, sz, True, "write")

    def memset(self, st, d, byte, n):
        if n == 0:
            return
        o, off = self.access(st, d, n, "write (memset)", True)
        o = self.wobj(st, o.id)
        if off == 0 and n == o.size and isinstance(byte, int):
            o.cells = {}
            o.fill = byte
            return
        self.clear(o, off, n)
        i = off
        while i < off + n:
            k = 8 if (i % 8 == 0 and i + 8 <= off + n) else 1
            if isinstance(byte, int):
                o.cells[i] = (k, int.from_bytes(bytes([byte]) * k, "little"))
            else:
                o.cells[i] = (k, byte if k == 1 else z3.Concat(*([byte] * k)))
            i += k

    def free(self, st, p, what, align=None, size=None):
        if p is UNDEF:
            raise Violation("memory", "%s of an uninitialised pointer" % what)
        if p.obj == 0:
            return
        o = self.getobj(st, p.obj)
        if o.kind != "heap":
            raise Violation("memory", "%s of non-heap %s" % (what, o.name))
        if not o.alive:
            raise Violation("memory", "%s of %s twice (%s)" % (what, o.name, o.freed_by))
        if p.off != 0:
            raise Violation("memory", "%s of an interior pointer" % what)
        if o.meta is not None and o.meta != what_family(what):
            raise Violation("memory", "%s releases memory obtained from %s" % (what, o.meta))
        if size is not None:
            self.require(st, bvcmp_eq(size, o.size), "memory",
                         "%s with a size that differs from the allocation" % what)
        if align is not None and o.align is not None and align != o.align:
            raise Violation("memory", "%s with alignment %s of memory allocated with %s"
                            % (what, align, o.align))
        o = self.wobj(st, o.id)
        if st.mt is not None and not st.ghost:
            self.threads.freed(self, st, o)
        o.alive = False
        o.freed_by = what
        o.cells = {}
        o.fill = None

    # unbounded arrays -------------------------------------------------
    def arrload(self, st, o, off, t):
        return self.arrays.load(self, st, o, off, t)

    def arrstore(self, st, o, off, t, v):
        return self.arrays.store(self, st, o, off, t, v)

    # strings
    def cstr(self, st, p):
        o, off = self.access(st, p, 1, "read")
        out = []
        while True:
            v = self.rawload(st, o, off, 1)
            if not isinstance(v, int):
                raise Unsupported("symbolic string")
            if v == 0:
                break
            out.append(v)
            off += 1
        return bytes(out).decode(errors="replace")

    # ------------------------------------------------------------------ running
    def initial(self, fn):
        st = State()
        st.frames = []
        st.mem = {}
        st.token = newtok()
        st.pc = []
        st.model = None
        st.nondet = []
        st.choices = []
        st.cidx = 0
        st.exc = {}
        st.caught = []
        st.next_obj = self.m.next_obj + 128
        st.x = {}
        st.steps = 0
        st.ghost = 0
        st.trace = []
        st.cur_exc = None
        st.allocseq = 0
        st.uncaught = 0
        st.forks = 0
        st.mt = None
        self.push(st, fn, [])
        return st

    def push(self, st, fn, args, inject=None, k=None):
        if not fn.translated:
            if not fn.hasdef:
                raise Unsupported("call to external function %s" % fn.demangled)
            self.m.translate(fn)
        f = Frame()
        f.fn = fn
        f.regs = [None] * fn.nregs
        f.regs[:len(args)] = args
        f.blk = 0
        f.ip = 0
        f.prev = -1
        f.allocas = []
        f.inject = inject
        f.k = k
        f.loopst = None
        f.ins = fn.blocks[0].ins
        st.frames.append(f)
        if len(st.frames) > 400:
            raise Undecided("recursion deeper than 400 frames: %s" % fn.demangled)
        c = self.fns.get(fn.name)
        if c is None:
            self.fns[fn.name] = 1
        return f

    def run(self, fn):
        self.nmem = 0
        self.work = [self.initial(fn)]
        t0 = time.time()
        while self.work:
            st = self.work.pop()
            self.npaths += 1
            if self.npaths > self.max_paths:
                raise Undecided("more than %d paths" % self.max_paths)
            if self.deadline and time.time() > self.deadline:
                raise Undecided("time budget exhausted")
            try:
                self.runpath(st)
            except PathEnd as e:
                self.ends[e.kind] = self.ends.get(e.kind, 0) + 1
            except Violation as v:
                self.report(st, v)
                self.ends["violation"] = self.ends.get("violation", 0) + 1
                if len(self.viol) >= self.maxviol:
                    break
            except Undecided as e:
                self.undecided.append((str(e), self.backtrace(st)))
                self.ends["undecided"] = self.ends.get("undecided", 0) + 1
                if len(self.undecided) >= 3:
                    break
            except Unsupported as e:
                self.undecided.append(("unsupported: " + str(e), self.backtrace(st)))
                self.ends["undecided"] = self.ends.get("undecided", 0) + 1
                if len(self.undecided) >= 3:
                    break
        self.oblig("memory", False)
        self.obl["memory"][1] += self.nmem

    def runpath(self, st):
        steps = 0
        maxs = self.max_steps
        step = self.step
        if st.mt is not None and st.mt.resched:
            self.threads.resched(self, st)
        while True:
            f = st.frames[-1]
            ins = f.ins
            I = ins[f.ip]
            try:
                step(st, f, I)
            except Retry:
                if st.choices:
                    st.choices = []
                    st.cidx = 0
                if st.mt.resched:
                    self.threads.resched(self, st)
            steps += 1
            if steps > maxs:
                raise Undecided("more than %d instructions on a path" % maxs)
            if not (steps & 4095) and self.deadline and time.time() > self.deadline:
                raise Undecided("time budget exhausted")

    def jump(self, st, f, target):
        """transfer control to a block, evaluating its phis"""
        cur = f.blk
        if self.loops is not None and self.loops.onjump(st, f, cur, target):
            return
        self.dojump(st, f, target)

    loops = None

    def dojump(self, st, f, target):
        cur = f.blk
        b = f.fn.blocks[target]
        if b.phis:
            regs = f.regs
            vals = []
            for ph in b.phis:
                r, v = ph.x[cur]
                vals.append(regs[v] if r else v)
            for ph, v in zip(b.phis, vals):
                regs[ph.res] = v
        f.prev = cur
        f.blk = target
        f.ip = 0
        f.ins = b.ins

    def step(self, st, f, I):
        op = I.op
        regs = f.regs
        if op == 45 or op == 5:
            self.docall(st, f, I)
            return
        if op == 29:  # gep
            r, v = I.ops[0]
            p = regs[v] if r else v
            off, dyn = I.x
            if p is UNDEF:
                regs[I.res] = UNDEF
            else:
                if not isinstance(p, Ptr):
                    p = self.aspt(st, p)
                o = p.off
                if off:
                    o = (o + off) & M64 if isinstance(o, int) else o + off
                for (r, v), sc, w in dyn:
                    x = regs[v] if r else v
                    if x is UNDEF:
                        raise Violation("uninitialised", "address depends on an uninitialised value")
                    if isinstance(x, int):
                        x = sext(x, w) * sc
                        o = (o + x) & M64 if isinstance(o, int) else o + x
                    else:
                        if w < 64:
                            x = z3.SignExt(64 - w, x)
                        if sc != 1:
                            x = x * sc
                        o = x + o
                regs[I.res] = Ptr(p.obj, o)
            f.ip += 1
            return
        if op == 27:  # load
            r, v = I.ops[0]
            p = regs[v] if r else v
            if I.al > 1:
                self.aligned(st, p, I.al, "read")
            if I.x:
                if st.mt is not None:
                    if self.threads.schedpoint(self, st):
                        return
                elif self.atomic_pre(st, f, I, p, "load", I.x):
                    return
                val = self.load(st, p, I.ty)
                regs[I.res] = val
                f.ip += 1
                if st.choices:
                    st.choices = []
                    st.cidx = 0
                if st.mt is not None:
                    self.threads.atomic(self, st, I, p, "load", I.x, val)
                    return
                self.atomic_post(st, f, I, p, "load", val, val, I.x, I.ty)
                return
            regs[I.res] = self.load(st, p, I.ty)
            if st.mt is not None:
                self.mtplain(st, p, I.ty, False, "read")
            f.ip += 1
            if st.choices:
                st.choices = []
                st.cidx = 0
            return
        if op == 28:  # store
            r, v = I.ops[0]
            val = regs[v] if r else v
            r, v = I.ops[1]
            p = regs[v] if r else v
            if I.al > 1:
                self.aligned(st, p, I.al, "write")
            t, order = I.x
            if order:
                if st.mt is not None:
                    if self.threads.schedpoint(self, st):
                        return
                elif self.atomic_pre(st, f, I, p, "store", order):
                    return
                if not isinstance(p, Ptr):
                    p = self.aspt(st, p)
                old = None
                if self.is_shared(st, p):
                    old = self.load(st, p, t)
                self.store(st, p, t, val)
                f.ip += 1
                if st.choices:
                    st.choices = []
                    st.cidx = 0
                if st.mt is not None:
                    self.threads.atomic(self, st, I, p, "store", order, val)
                    return
                self.atomic_post(st, f, I, p, "store", old, val, order, t)
                return
            self.store(st, p, t, val)
            if st.mt is not None:
                self.mtplain(st, p, t, True, "write")
            f.ip += 1
            if st.choices:
                st.choices = []
                st.cidx = 0
            return
        if op == 2:  # br
            x = I.x
            if len(x) == 1:
                self.jump(st, f, x[0])
                return
            r, v = I.ops[0]
            c = regs[v] if r else v
            if isinstance(c, int):
                self.jump(st, f, x[0] if c & 1 else x[1])
                return
            d = self.decide(st, c)
            st.choices = []
            st.cidx = 0
            if self.loops is not None:
                self.loops.symbranch(st, f)
            self.jump(st, f, x[0] if d else x[1])
            return
        if op == 1:  # ret
            rv = None
            if I.ops:
                r, v = I.ops[0]
                rv = regs[v] if r else v
            self.ret(st, f, rv)
            return
        h = self.HANDLERS.get(op)
        if h is None:
            raise Unsupported("opcode %d" % op)
        h(self, st, f, I)
        if st.choices:
            st.choices = []
            st.cidx = 0

    def mtplain(self, st, p, t, write, what):
        if st.ghost:
            return
        if not isinstance(p, Ptr):
            p = self.aspt(st, p)
        if isinstance(p.off, int):
            self.threads.plain(self, st, st.mem[p.obj], p.off, t.size, write, what)

    def val(self, f, o):
        return f.regs[o[1]] if o[0] else o[1]

    def aspt(self, st, v):
        if isinstance(v, Ptr):
            return v
        if v is UNDEF:
            return v
        if isinstance(v, int):
            return int2ptr(v)
        return int2ptr(self.concretize(st, v, "pointer"))

    # ------------------------------------------------------------------ calls
    def ret(self, st, f, rv):
        for a in f.allocas:
            o = self.wobj(st, a)
            if st.mt is not None:
                self.threads.scope_end(self, st, o)
            o.alive = False
            o.freed_by = "function returned"
            o.cells = {}
        st.frames.pop()
        if f.inject is not None:
            if f.inject == "ghost":
                st.ghost -= 1
            if f.k is not None:
                f.k(self, st, rv)
            if not st.frames:
                raise PathEnd("return")
            return
        if not st.frames:
            if st.mt is not None and st.mt.cur != 0:
                self.threads.thread_done(self, st)
            raise PathEnd("return")
        c = st.frames[-1]
        I = c.ins[c.ip]
        if I.res >= 0:
            c.regs[I.res] = rv
        self.advance(st, c, I)

    def advance(self, st, c, I):
        if I.op == 5:
            self.jump(st, c, I.x[2])
        else:
            c.ip += 1

    def docall(self, st, f, I):
        callee, name, nd, ud, nounw = I.x
        if callee[0] == "asm":
            raise_if = self.opts.get("asm")
            if '""' in callee[1] or "pause" in callee[1] or "rep; nop" in callee[1]:
                if I.res >= 0:
                    f.regs[I.res] = UNDEF
                self.advance(st, f, I)
                return
            raise Unsupported("inline asm %s" % callee[1][:80])
        if name is not None and name.startswith("llvm."):
            self.intrinsic(st, f, I, name)
            if st.choices:
                st.choices = []
                st.cidx = 0
            return
        regs = f.regs
        args = [regs[v] if r else v for r, v in I.ops]
        cv = regs[callee[1]] if callee[0] else callee[1]
        if not isinstance(cv, Ptr):
            cv = self.aspt(st, cv)
        if cv is UNDEF:
            raise Violation("memory", "call through an uninitialised function pointer")
        if cv.obj == 0:
            raise Violation("memory", "call through a null function pointer")
        if not isinstance(cv.off, int):
            raise Violation("memory", "call through a corrupted pointer")
        info = self.m.gobj_info.get(cv.obj)
        if info is None or info[0] != "fn" or cv.off != 0:
            raise Violation("memory", "call through a pointer that is not a function: %s"
                            % self.desc(st, cv))
        self.callfn(st, f, I, info[1], args)

    def findstub(self, fn):
        s = self.stubcache.get(fn.name, 0)
        if s == 0:
            s = self.stubs.find(self, fn)
            self.stubcache[fn.name] = s
        return s

    def callfn(self, st, f, I, fn, args):
        s = self.findstub(fn)
        if s is not None:
            try:
                r = s(self, st, args, I, fn)
            except CallInstead as ci:
                self.push(st, ci.fn, ci.args)
                if st.choices:
                    st.choices = []
                    st.cidx = 0
                return
            except ThrowExc as te:
                st.choices = []
                st.cidx = 0
                self.unwind(st, te.obj)
                return
            if r is PUSHED:
                if st.choices:
                    st.choices = []
                    st.cidx = 0
                return
            if I.res >= 0:
                f.regs[I.res] = r
            if st.choices:
                st.choices = []
                st.cidx = 0
            self.advance(st, f, I)
            # frames queued by the stub run before the caller continues
            q = st.x.get("queue")
            if q:
                st.x["queue"] = []
                for fn2, a2, inj, k in reversed(q):
                    if inj == "ghost":
                        st.ghost += 1
                    self.push(st, fn2, a2, inject=inj, k=k)
            return
        self.push(st, fn, args)

    def queue(self, st, fn, args, inject="call", k=None):
        q = st.x.get("queue")
        if q is None:
            q = st.x["queue"] = []
        q.append((fn, args, inject, k))

    def fnof(self, p):
        info = self.m.gobj_info.get(p.obj)
        if info is None or info[0] != "fn":
            raise Violation("memory", "not a function pointer")
        return info[1]

    # ------------------------------------------------------------------ exceptions
    def unwind(self, st, eo):
        """propagate exception object eo from the current instruction of the top frame"""
        st.cur_exc = eo
        first = True
        while True:
            if not st.frames:
                raise Violation("exception", "exception escapes the proof function")
            f = st.frames[-1]
            I = f.ins[f.ip]
            if I.op == 5:
                ud = I.x[3]
                lp = f.fn.blocks[ud].ins[0]
                if lp.op == 59:
                    sel = self.selector(st, lp, eo)
                    if sel is not None:
                        st.x["sel"] = sel
                        self.jump(st, f, ud)
                        return
            elif I.op == 45 and I.x[4] and not first:
                pass
            if f.fn.nounwind:
                # clang emits a terminate pad for noexcept; a nounwind function without
                # one cannot throw by construction
                self.terminate(st, "exception escapes noexcept function " + f.fn.demangled)
            for a in f.allocas:
                o = self.wobj(st, a)
                o.alive = False
                o.freed_by = "function unwound"
                o.cells = {}
            st.frames.pop()
            if f.inject is not None:
                if f.inject == "ghost":
                    st.ghost -= 1
                self.terminate(st, "exception escapes %s" % f.fn.demangled)
            first = False

    def selector(self, st, lp, eo):
        cl, cleanup = lp.x
        ti = st.exc[eo]["tinfo"]
        for kind, t in cl:
            if kind == "catch":
                if t.obj == 0:
                    return 1
                if self.subtype(ti, t.obj):
                    return t.obj
            else:
                if not any(self.subtype(ti, x.obj) for x in t):
                    return -1 & 0xffffffff
        if cleanup:
            return 0
        return None

    KNOWN_BASES = {
        "_ZTISt13runtime_error": "_ZTISt9exception",
        "_ZTISt11logic_error": "_ZTISt9exception",
        "_ZTISt9bad_alloc": "_ZTISt9exception",
        "_ZTISt12out_of_range": "_ZTISt11logic_error",
        "_ZTISt16invalid_argument": "_ZTISt11logic_error",
        "_ZTISt12system_error": "_ZTISt13runtime_error",
        "_ZTISt18bad_variant_access": "_ZTISt9exception",
        "_ZTISt17bad_function_call": "_ZTISt9exception",
        "_ZTISt8bad_cast": "_ZTISt9exception",
        "_ZTISt10bad_typeid": "_ZTISt9exception",
        "_ZTISt12length_error": "_ZTISt11logic_error",
    }

    def tinfoname(self, oid):
        info = self.m.gobj_info.get(oid)
        return info[2] if info and info[0] == "global" else None

    def subtype(self, ti, target):
        seen = 0
        tn = self.tinfoname(target)
        cur = [ti]
        while cur:
            x = cur.pop()
            if x == target:
                return True
            n = self.tinfoname(x)
            if n is not None and n == tn:
                return True
            cur.extend(self.bases(x))
        return False

    def bases(self, ti):
        info = self.m.gobj_info.get(ti)
        if not info or info[0] != "global":
            return []
        from . import llvmc as L
        ini = L.GetInitializer(info[1])
        if not ini:
            b = self.KNOWN_BASES.get(info[2])
            out = []
            while b:
                for oid, i2 in self.m.gobj_info.items():
                    if i2[0] == "global" and i2[2] == b:
                        out.append(oid)
                b = self.KNOWN_BASES.get(b)
            return out
        c = self.m.const(ini)
        vt = self.tinfoname(c[0].obj)
        if vt == "_ZTVN10__cxxabiv120__si_class_type_infoE":
            return [c[2].obj]
        if vt == "_ZTVN10__cxxabiv121__vmi_class_type_infoE":
            return [c[i].obj for i in range(4, len(c), 2)]
        return []

    def terminate(self, st, msg):
        h = st.x.get("expect_terminate")
        if h:
            self.covers.add("terminate")
            raise PathEnd("expected-terminate", msg)
        raise Violation("terminate", "std::terminate reached: " + msg)

    # ------------------------------------------------------------------ atomics
    def is_shared(self, st, p):
        sh = st.x.get("shared")
        if not sh or st.ghost:
            return None
        if p is UNDEF or not isinstance(p, Ptr):
            return None
        for s in sh:
            if s[0] == p.obj:
                off = p.off
                if isinstance(off, int) and s[1] <= off < s[1] + s[2]:
                    return s
        return None

    def atomic_pre(self, st, f, I, p, kind, order):
        """returns True when a rely hook was scheduled first"""
        if st.ghost or not st.x.get("shared"):
            return False
        if not isinstance(p, Ptr):
            return False
        s = self.is_shared(st, p)
        if s is None or s[3] is None:
            return False
        key = st.x.get("predone")
        if key:
            return False
        st.x["predone"] = True
        st.ghost += 1
        self.push(st, s[3], [p, OPK[kind], order], inject="ghost")
        if st.choices:
            st.choices = []
            st.cidx = 0
        return True

    def atomic_post(self, st, f, I, p, kind, old, new, order, t):
        if st.ghost or not st.x.get("shared"):
            return
        s = self.is_shared(st, p)
        if s is None:
            return
        st.x["predone"] = False
        if s[4] is None:
            return

        def cv(v):
            if v is None or v is UNDEF:
                return UNDEF
            if isinstance(v, Ptr):
                return ptr2int(v)
            if isinstance(v, int):
                return v
            if z3.is_bool(v):
                return bv(v, 64)
            if v.size() < 64:
                return z3.ZeroExt(64 - v.size(), v)
            return v
        st.ghost += 1
        self.push(st, s[4], [p, OPK[kind], cv(old), cv(new), order], inject="ghost")

    # ------------------------------------------------------------------ instructions
    def h_alloca(self, st, f, I):
        n = self.val(f, I.ops[0])
        if not isinstance(n, int):
            raise Unsupported("variable length alloca")
        p = self.alloc(st, "stack", I.x * n, f.fn.demangled.split("(")[0][-60:] + "::local", I.al)
        f.allocas.append(p.obj)
        f.regs[I.res] = p
        f.ip += 1

    def h_bin(self, st, f, I):
        a = self.val(f, I.ops[0])
        b = self.val(f, I.ops[1])
        t = I.ty
        if t.k == "v":
            f.regs[I.res] = tuple(self.binop(st, I.op, x, y, t.el.w) for x, y in zip(a, b))
        else:
            f.regs[I.res] = self.binop(st, I.op, a, b, t.w)
        f.ip += 1

    def binop(self, st, op, a, b, w):
        if a is UNDEF or b is UNDEF:
            if w == 1:
                if op == 23 and (a == 0 if a is not UNDEF else b == 0):
                    return 0
                if op == 24 and (a == 1 if a is not UNDEF else b == 1):
                    return 1
                return UNDEF
            if a is UNDEF:
                a = self.freshbv(w, "undef")
            if b is UNDEF:
                b = self.freshbv(w, "undef")
        if isinstance(a, Ptr):
            a = ptr2int(a)
        if isinstance(b, Ptr):
            b = ptr2int(b)
        ia = isinstance(a, int)
        ib = isinstance(b, int)
        if ia and ib:
            m = mask(w)
            if op == 8:
                return (a + b) & m
            if op == 10:
                return (a - b) & m
            if op == 23:
                return a & b
            if op == 24:
                return a | b
            if op == 25:
                return a ^ b
            if op == 12:
                return (a * b) & m
            if op == 20:
                return (a << b) & m if b < w else 0
            if op == 21:
                return a >> b if b < w else 0
            if op == 22:
                return (sext(a, w) >> min(b, w - 1)) & m
            if op in (14, 17):
                if b == 0:
                    raise Violation("arithmetic", "division by zero")
                return a // b if op == 14 else a % b
            if op in (15, 18):
                if b == 0:
                    raise Violation("arithmetic", "division by zero")
                x, y = sext(a, w), sext(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 15 else x - q * y) & m
            raise Unsupported("binop %d" % op)
        if w == 1:
            a = tobool(a)
            b = tobool(b)
            if op == 23:
                return z3.simplify(z3.And(a, b))
            if op == 24:
                return z3.simplify(z3.Or(a, b))
            if op in (25, 8, 10):
                return z3.simplify(z3.Xor(z3.BoolVal(a) if isinstance(a, bool) else a,
                                          z3.BoolVal(b) if isinstance(b, bool) else b))
            raise Unsupported("i1 binop %d" % op)
        if op == 8:
            if ib and b == 0:
                return a
            if ia and a == 0:
                return b
            return a + b
        if op == 10:
            if ib and b == 0:
                return a
            return a - b
        if op == 23:
            if (ib and b == 0) or (ia and a == 0):
                return 0
            return a & b
        if op == 24:
            return a | b
        if op == 25:
            return a ^ b
        if op == 12:
            return a * b
        if op == 20:
            return bv(a, w) << b
        if op == 21:
            return z3.LShR(bv(a, w), b)
        if op == 22:
            return bv(a, w) >> b
        if op in (14, 15, 17, 18):
            self.require(st, bv(b, w) != 0, "arithmetic", "division by zero")
            a = bv(a, w)
            b = bv(b, w)
            if op == 14:
                return z3.UDiv(a, b)
            if op == 17:
                return z3.URem(a, b)
            if op == 15:
                return a / b
            return z3.SRem(a, b)
        raise Unsupported("binop %d" % op)

    def h_fbin(self, st, f, I):
        a = self.val(f, I.ops[0])
        b = self.val(f, I.ops[1])
        if not (isinstance(a, FP) and isinstance(b, FP)):
            raise Unsupported("symbolic floating point")
        x, y = a.v, b.v
        op = I.op
        if op == 9:
            r = x + y
        elif op == 11:
            r = x - y
        elif op == 13:
            r = x * y
        elif op == 16:
            r = x / y if y else float("nan")
        else:
            raise Unsupported("fp op")
        f.regs[I.res] = FP(r)
        f.ip += 1

    def h_icmp(self, st, f, I):
        a = self.val(f, I.ops[0])
        b = self.val(f, I.ops[1])
        p, t = I.x
        if t.k == "v":
            f.regs[I.res] = tuple(self.icmp(st, p, x, y, t.el) for x, y in zip(a, b))
        else:
            f.regs[I.res] = self.icmp(st, p, a, b, t)
        f.ip += 1

    def icmp(self, st, p, a, b, t):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = t.w
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    a, b = a.off, b.off
                    if isinstance(a, int) and isinstance(b, int):
                        # offsets are compared as signed displacements
                        a, b = sext(a, 64), sext(b, 64)
                        return int({32: a == b, 33: a != b, 34: a > b, 35: a >= b, 36: a < b,
                                    37: a <= b, 38: a > b, 39: a >= b, 40: a < b,
                                    41: a <= b}[p])
                elif p == 32:
                    return 0
                elif p == 33:
                    return 1
                else:
                    a, b = ptr2int(a), ptr2int(b)
            else:
                a = ptr2int(a) if isinstance(a, Ptr) else a
                b = ptr2int(b) if isinstance(b, Ptr) else b
        if isinstance(a, int) and isinstance(b, int):
            if p == 32:
                return int(a == b)
            if p == 33:
                return int(a != b)
            if p == 34:
                return int(a > b)
            if p == 35:
                return int(a >= b)
            if p == 36:
                return int(a < b)
            if p == 37:
                return int(a <= b)
            a, b = sext(a, w), sext(b, w)
            if p == 38:
                return int(a > b)
            if p == 39:
                return int(a >= b)
            if p == 40:
                return int(a < b)
            return int(a <= b)
        if w == 1:
            a = tobool(a)
            b = tobool(b)
            a = z3.BoolVal(a) if isinstance(a, bool) else a
            b = z3.BoolVal(b) if isinstance(b, bool) else b
            if p == 32:
                return z3.simplify(a == b)
            if p == 33:
                return z3.simplify(a != b)
            a = bv(a, 1)
            b = bv(b, 1)
        else:
            a = bv(a, w)
            b = bv(b, w)
        if p == 32:
            r = a == b
        elif p == 33:
            r = a != b
        elif p == 34:
            r = z3.UGT(a, b)
        elif p == 35:
            r = z3.UGE(a, b)
        elif p == 36:
            r = z3.ULT(a, b)
        elif p == 37:
            r = z3.ULE(a, b)
        elif p == 38:
            r = a > b
        elif p == 39:
            r = a >= b
        elif p == 40:
            r = a < b
        else:
            r = a <= b
        r = z3.simplify(r)
        if z3.is_true(r):
            return 1
        if z3.is_false(r):
            return 0
        return r

    def h_fcmp(self, st, f, I):
        a = self.val(f, I.ops[0])
        b = self.val(f, I.ops[1])
        if not (isinstance(a, FP) and isinstance(b, FP)):
            raise Unsupported("symbolic floating point")
        p = I.x[0]
        x, y = a.v, b.v
        r = {1: x == y, 2: x > y, 3: x >= y, 4: x < y, 5: x <= y, 6: x != y, 9: x == y,
             10: x > y, 11: x >= y, 12: x < y, 13: x <= y, 14: x != y}.get(p)
        if r is None:
            raise Unsupported("fcmp %d" % p)
        f.regs[I.res] = int(r)
        f.ip += 1

    def h_cast(self, st, f, I):
        v = self.val(f, I.ops[0])
        ft = I.x
        t = I.ty
        op = I.op
        if t.k == "v":
            f.regs[I.res] = tuple(self.cast(st, op, x, ft.el if ft.k == "v" else ft, t.el)
                                  for x in v)
        else:
            f.regs[I.res] = self.cast(st, op, v, ft, t)
        f.ip += 1

    def cast(self, st, op, v, ft, t):
        if v is UNDEF:
            return UNDEF
        if op == 31:  # zext
            if isinstance(v, int):
                return v
            if z3.is_bool(v):
                return bv(v, t.w)
            return z3.ZeroExt(t.w - ft.w, v)
        if op == 30:
            if isinstance(v, int):
                return v & mask(t.w)
            if t.w == 1:
                r = z3.simplify(z3.Extract(0, 0, v) == 1)
                return r
            return z3.Extract(t.w - 1, 0, v)
        if op == 32:
            if isinstance(v, int):
                return sext(v, ft.w) & mask(t.w)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(mask(t.w), t.w), z3.BitVecVal(0, t.w))
            return z3.SignExt(t.w - ft.w, v)
        if op == 39:
            r = ptr2int(v) if isinstance(v, Ptr) else v
            if t.w != 64:
                r = r & mask(t.w) if isinstance(r, int) else z3.Extract(t.w - 1, 0, r)
            return r
        if op == 40:
            if isinstance(v, Ptr):
                return v
            if isinstance(v, int):
                return int2ptr(v)
            return int2ptr(self.concretize(st, v, "pointer"))
        if op in (41, 60):
            if t.k == ft.k:
                return v
            return self.coerce(st, v, t)
        if op in (35, 36):
            if isinstance(v, int):
                return FP(float(v if op == 35 else sext(v, ft.w)))
            raise Unsupported("symbolic int to fp")
        if op in (33, 34):
            if isinstance(v, FP):
                return int(v.v) & mask(t.w)
            raise Unsupported("symbolic fp to int")
        if op in (37, 38):
            return v
        raise Unsupported("cast %d" % op)

    def h_select(self, st, f, I):
        c = self.val(f, I.ops[0])
        a = self.val(f, I.ops[1])
        b = self.val(f, I.ops[2])
        if isinstance(c, int):
            r = a if c & 1 else b
        elif c is UNDEF:
            r = UNDEF if I.ty.k not in ("s", "a", "v") else undef_of(I.ty)
        elif isinstance(c, tuple):
            raise Unsupported("vector select")
        else:
            c = z3.simplify(c)
            if z3.is_true(c):
                r = a
            elif z3.is_false(c):
                r = b
            elif a is UNDEF or b is UNDEF or isinstance(a, (tuple, FP)) or I.ty.k == "p":
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj \
                        and isinstance(a.off, int) and a.off == b.off:
                    r = a
                else:
                    r = a if self.decide(st, c) else b
            elif I.ty.w == 1:
                a = tobool(a)
                b = tobool(b)
                r = z3.simplify(z3.If(c, a, b))
                if z3.is_true(r):
                    r = 1
                elif z3.is_false(r):
                    r = 0
            else:
                r = z3.If(c, bv(a, I.ty.w), bv(b, I.ty.w))
        f.regs[I.res] = r
        f.ip += 1

    def h_extractvalue(self, st, f, I):
        v = self.val(f, I.ops[0])
        for i in I.x:
            v = v[i] if v is not UNDEF else UNDEF
        f.regs[I.res] = v
        f.ip += 1

    def h_insertvalue(self, st, f, I):
        v = self.val(f, I.ops[0])
        x = self.val(f, I.ops[1])
        if v is UNDEF:
            v = undef_of(I.ty)

        def ins(v, idx):
            if not idx:
                return x
            l = list(v)
            l[idx[0]] = ins(l[idx[0]], idx[1:])
            return tuple(l)
        f.regs[I.res] = ins(v, I.x)
        f.ip += 1

    def h_switch(self, st, f, I):
        v = self.val(f, I.ops[0])
        dflt, cases, w = I.x
        if v is UNDEF:
            raise Violation("uninitialised", "switch on an uninitialised value")
        if isinstance(v, int):
            for c, b in cases:
                if c == v:
                    self.jump(st, f, b)
                    return
            self.jump(st, f, dflt)
            return
        if w == 1:
            v = bv(v, 1)
        for c, b in cases:
            if self.decide(st, v == c):
                st.choices = []
                st.cidx = 0
                self.jump(st, f, b)
                return
        st.choices = []
        st.cidx = 0
        self.jump(st, f, dflt)

    def h_unreachable(self, st, f, I):
        raise Violation("unreachable", "code marked unreachable is reached")

    def h_resume(self, st, f, I):
        v = self.val(f, I.ops[0])
        eo = v[0].obj
        # continue unwinding from the caller
        for a in f.allocas:
            o = self.wobj(st, a)
            o.alive = False
            o.freed_by = "function unwound"
            o.cells = {}
        if f.fn.nounwind:
            self.terminate(st, "exception escapes noexcept function " + f.fn.demangled)
        st.frames.pop()
        if f.inject is not None:
            self.terminate(st, "exception escapes %s" % f.fn.demangled)
        self.unwind(st, eo)

    def h_landingpad(self, st, f, I):
        f.regs[I.res] = (Ptr(st.cur_exc, 0), st.x["sel"])
        f.ip += 1

    def h_freeze(self, st, f, I):
        v = self.val(f, I.ops[0])
        if v is UNDEF:
            if I.ty.k == "p":
                v = NULL
            elif I.ty.w == 1:
                self.fresh += 1
                v = z3.Bool("undef!%d" % self.fresh)
            else:
                v = self.freshbv(I.ty.w, "undef")
        f.regs[I.res] = v
        f.ip += 1

    def h_fence(self, st, f, I):
        if st.mt is not None and not st.ghost:
            self.threads.fence(self, st, I.x)
        f.ip += 1

    def h_cmpxchg(self, st, f, I):
        p = self.val(f, I.ops[0])
        cmp_ = self.val(f, I.ops[1])
        new = self.val(f, I.ops[2])
        t, so, fo, weak = I.x
        if st.mt is not None:
            if self.threads.schedpoint(self, st):
                return
        elif self.atomic_pre(st, f, I, p, "cmpxchg", so):
            return
        old = self.load(st, p, t)
        if old is UNDEF:
            raise Violation("uninitialised", "compare-exchange on uninitialised memory")
        eq = self.icmp(st, 32, old, cmp_, t)
        if weak and self.opts.get("spurious", True) and not isinstance(eq, int):
            ok = self.decide(st, eq)
        elif isinstance(eq, int):
            ok = bool(eq)
        else:
            ok = self.decide(st, eq)
        if ok and weak and st.x.get("spurious"):
            # a weak compare-exchange may fail spuriously
            if self.choose(st, 2) == 1:
                ok = False
        if ok:
            self.store(st, p, t, new)
        f.regs[I.res] = (old, int(ok))
        f.ip += 1
        if st.mt is not None:
            if not isinstance(p, Ptr):
                p = self.aspt(st, p)
            self.threads.atomic(self, st, I, p, "rmw" if ok else "load", so if ok else fo, old)
            return
        self.atomic_post(st, f, I, p, "cmpxchg" if ok else "cmpxchg_fail", old,
                         new if ok else old, so if ok else fo, t)

    def h_rmw(self, st, f, I):
        p = self.val(f, I.ops[0])
        v = self.val(f, I.ops[1])
        kop, order = I.x
        if st.mt is not None:
            if self.threads.schedpoint(self, st):
                return
        elif self.atomic_pre(st, f, I, p, "rmw", order):
            return
        t = I.ty
        old = self.load(st, p, t)
        w = t.w
        if kop == 0:
            new = v
        else:
            if old is UNDEF:
                raise Violation("uninitialised", "atomic update of uninitialised memory")
            if kop == 1:
                new = self.binop(st, 8, old, v, w)
            elif kop == 2:
                new = self.binop(st, 10, old, v, w)
            elif kop == 3:
                new = self.binop(st, 23, old, v, w)
            elif kop == 5:
                new = self.binop(st, 24, old, v, w)
            elif kop == 6:
                new = self.binop(st, 25, old, v, w)
            elif kop in (7, 8, 9, 10):
                c = self.icmp(st, {7: 38, 8: 40, 9: 34, 10: 36}[kop], old, v, t)
                new = (old if c else v) if isinstance(c, int) else z3.If(c, bv(old, w), bv(v, w))
            else:
                raise Unsupported("atomicrmw %d" % kop)
        self.store(st, p, t, new)
        f.regs[I.res] = old
        f.ip += 1
        if st.mt is not None:
            if not isinstance(p, Ptr):
                p = self.aspt(st, p)
            if order == 2:
                for g in st.frames[-4:]:
                    if "_Sp_atomic" in g.fn.demangled and "::unlock" in g.fn.demangled:
                        # libstdc++ unlocks a read of atomic<shared_ptr> with relaxed order
                        # (its own formal data race, not the code's)
                        self.assumptions.add("std::atomic<std::shared_ptr>: a load's unlock is "
                                             "taken to be a release (libstdc++ uses relaxed)")
                        order = 5
            same = (isinstance(old, int) or isinstance(old, Ptr)) and old == new
            if same and kop == 0:
                # an update that changes nothing (a try-lock): still a release/acquire
                self.threads.atomic(self, st, I, p, "rmwsame", order, old)
            else:
                self.threads.atomic(self, st, I, p, "rmw", order, old)
            return
        self.atomic_post(st, f, I, p, "rmw", old, new, order, t)

    def h_extractelement(self, st, f, I):
        v = self.val(f, I.ops[0])
        i = self.val(f, I.ops[1])
        f.regs[I.res] = v[i]
        f.ip += 1

    def h_insertelement(self, st, f, I):
        v = list(self.val(f, I.ops[0]))
        v[self.val(f, I.ops[2])] = self.val(f, I.ops[1])
        f.regs[I.res] = tuple(v)
        f.ip += 1

    def h_shuffle(self, st, f, I):
        a = self.val(f, I.ops[0])
        b = self.val(f, I.ops[1])
        ab = a + b
        f.regs[I.res] = tuple(ab[i] if i >= 0 else UNDEF for i in I.x)
        f.ip += 1

    HANDLERS = {26: h_alloca, 42: h_icmp, 43: h_fcmp, 46: h_select, 53: h_extractvalue,
                54: h_insertvalue, 3: h_switch, 7: h_unreachable, 58: h_resume,
                59: h_landingpad, 68: h_freeze, 55: h_fence, 56: h_cmpxchg, 57: h_rmw,
                50: h_extractelement, 51: h_insertelement, 52: h_shuffle}
    for _o in (8, 10, 12, 14, 15, 17, 18, 20, 21, 22, 23, 24, 25):
        HANDLERS[_o] = h_bin
    for _o in (9, 11, 13, 16, 19):
        HANDLERS[_o] = h_fbin
    for _o in (30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 60):
        HANDLERS[_o] = h_cast

    # ------------------------------------------------------------------ intrinsics
    def intrinsic(self, st, f, I, name):
        n = name[5:]
        res = None
        if n.startswith(("dbg.", "lifetime.", "assume", "experimental.noalias", "donothing",
                         "invariant.", "prefetch", "var.annotation", "pseudoprobe",
                         "sideeffect")):
            if n.startswith("lifetime.end"):
                p = self.val(f, I.ops[1])
                if isinstance(p, Ptr) and p.obj in st.mem:
                    o = self.wobj(st, p.obj)
                    if o.kind == "stack":
                        if st.mt is not None:
                            self.threads.scope_end(self, st, o)
                        o.alive = False
                        o.freed_by = "scope ended"
                        o.cells = {}
            elif n.startswith("lifetime.start"):
                p = self.val(f, I.ops[1])
                if isinstance(p, Ptr) and p.obj in st.mem:
                    o = self.wobj(st, p.obj)
                    if o.kind == "stack":
                        o.alive = True
                        o.cells = {}
            elif n.startswith("assume"):
                c = self.val(f, I.ops[0])
                if c == 0:
                    raise Violation("unreachable", "llvm.assume(false) reached")
            elif n.startswith("invariant.start"):
                res = NULL
        elif n.startswith(("memcpy", "memmove")):
            d, s, k = (self.val(f, o) for o in I.ops[:3])
            k = self.concretize(st, k, "length")
            self.memcpy(st, self.aspt(st, d), self.aspt(st, s), k)
        elif n.startswith("memset"):
            d, b, k = (self.val(f, o) for o in I.ops[:3])
            k = self.concretize(st, k, "length")
            self.memset(st, self.aspt(st, d), b, k)
        elif n.startswith("threadlocal.address") and st.mt is not None:
            res = self.threads.tls(self, st, self.val(f, I.ops[0]))
        elif n.startswith(("launder.", "strip.", "threadlocal.address")):
            res = self.val(f, I.ops[0])
        elif n.startswith("expect"):
            res = self.val(f, I.ops[0])
        elif n.startswith("eh.typeid.for"):
            res = self.val(f, I.ops[0]).obj
        elif n.startswith(("umax", "umin", "smax", "smin")):
            a = self.val(f, I.ops[0])
            b = self.val(f, I.ops[1])
            c = self.icmp(st, {"umax": 34, "umin": 36, "smax": 38, "smin": 40}[n[:4]], a, b,
                          I.ty)
            if c is UNDEF:
                res = UNDEF
            elif isinstance(c, int):
                res = a if c else b
            else:
                res = z3.If(c, bv(a, I.ty.w), bv(b, I.ty.w))
        elif n.startswith(("ctlz", "cttz", "ctpop")):
            a = self.val(f, I.ops[0])
            w = I.ty.w
            if isinstance(a, int):
                if n.startswith("ctpop"):
                    res = bin(a).count("1")
                elif n.startswith("ctlz"):
                    res = w - a.bit_length()
                else:
                    res = w if a == 0 else (a & -a).bit_length() - 1
            else:
                bits = [z3.Extract(i, i, a) == 1 for i in range(w)]
                if n.startswith("ctpop"):
                    res = z3.simplify(sum([z3.If(b, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
                                           for b in bits[1:]],
                                          z3.If(bits[0], z3.BitVecVal(1, w),
                                                z3.BitVecVal(0, w))))
                else:
                    r = z3.BitVecVal(w, w)
                    seq = range(w) if n.startswith("ctlz") else range(w - 1, -1, -1)
                    for i in seq:
                        k = (w - 1 - i) if n.startswith("ctlz") else i
                        r = z3.If(bits[i], z3.BitVecVal(k, w), r)
                    res = r
        elif n.startswith("abs."):
            a = self.val(f, I.ops[0])
            w = I.ty.w
            if isinstance(a, int):
                res = abs(sext(a, w)) & mask(w)
            else:
                res = z3.If(a < 0, -a, a)
        elif n.startswith(("uadd.with.overflow", "usub.with.overflow", "umul.with.overflow",
                           "sadd.with.overflow", "ssub.with.overflow", "smul.with.overflow")):
            a = self.val(f, I.ops[0])
            b = self.val(f, I.ops[1])
            w = I.ty.elems[0].w
            if isinstance(a, int) and isinstance(b, int):
                if n[0] == "s":
                    x, y = sext(a, w), sext(b, w)
                else:
                    x, y = a, b
                r = x + y if n[1:4] == "add" else x - y if n[1:4] == "sub" else x * y
                ov = r != (sext(r & mask(w), w) if n[0] == "s" else r & mask(w))
                res = (r & mask(w), int(ov))
            else:
                ext = z3.SignExt if n[0] == "s" else z3.ZeroExt
                x, y = ext(w, bv(a, w)), ext(w, bv(b, w))
                r = x + y if n[1:4] == "add" else x - y if n[1:4] == "sub" else x * y
                lo = z3.Extract(w - 1, 0, r)
                res = (z3.simplify(lo), z3.simplify(ext(w, lo) != r))
        elif n.startswith(("usub.sat", "uadd.sat")):
            a = self.val(f, I.ops[0])
            b = self.val(f, I.ops[1])
            w = I.ty.w
            if isinstance(a, int) and isinstance(b, int):
                res = max(a - b, 0) if n[1:4] == "sub" else min(a + b, mask(w))
            elif n[1:4] == "sub":
                a, b = bv(a, w), bv(b, w)
                res = z3.If(z3.ULT(a, b), z3.BitVecVal(0, w), a - b)
            else:
                a, b = bv(a, w), bv(b, w)
                res = z3.If(z3.ULT(a + b, a), z3.BitVecVal(mask(w), w), a + b)
        elif n.startswith(("fshl", "fshr")):
            a, b, c = (self.val(f, o) for o in I.ops[:3])
            w = I.ty.w
            if isinstance(c, int):
                c %= w
                cat = z3.Concat(bv(a, w), bv(b, w))
                if n.startswith("fshl"):
                    res = z3.simplify(z3.Extract(2 * w - 1 - c, w - c, cat))
                else:
                    res = z3.simplify(z3.Extract(w - 1 + c, c, cat))
                if z3.is_bv_value(res):
                    res = res.as_long()
            else:
                raise Unsupported("fsh symbolic")
        elif n.startswith("bswap"):
            a = self.val(f, I.ops[0])
            if not isinstance(a, int):
                raise Unsupported("bswap")
            res = int.from_bytes(a.to_bytes(I.ty.w // 8, "little"), "big")
        elif n.startswith("is.constant"):
            res = 0
        elif n.startswith("objectsize"):
            res = M64
        elif n.startswith("stacksave"):
            res = NULL
        elif n.startswith("stackrestore"):
            pass
        elif n in ("trap", "debugtrap", "ubsantrap"):
            raise Violation("terminate", "trap reached")
        elif n.startswith("coro."):
            r = self.coro(st, f, I, n)
            if r is PUSHED:
                return
            res = r
        elif n.startswith("returnaddress") or n.startswith("frameaddress"):
            res = NULL
        elif n.startswith("x86.sse2.pause"):
            self.stubs.yieldpoint(self, st, "pause")
        else:
            raise Unsupported("intrinsic " + name)
        if I.res >= 0:
            f.regs[I.res] = res
        self.advance(st, f, I)
        q = st.x.get("queue")
        if q:
            st.x["queue"] = []
            for fn2, a2, inj, k in reversed(q):
                if inj == "ghost":
                    st.ghost += 1
                self.push(st, fn2, a2, inject=inj, k=k)

    def coro(self, st, f, I, n):
        raise Unsupported("coroutine intrinsic " + n)


class _Pushed:
    pass


PUSHED = _Pushed()


class CallInstead(Exception):
    def __init__(self, fn, args):
        self.fn = fn
        self.args = args


class ThrowExc(Exception):
    def __init__(self, obj):
        self.obj = obj


OPK = {"load": 0, "store": 1, "rmw": 2, "cmpxchg": 3, "cmpxchg_fail": 4}


def what_family(what):
    if what.startswith("operator delete[]"):
        return "operator new[]"
    if what.startswith("operator delete"):
        return "operator new"
    if what.startswith("free"):
        return "malloc"
    if what.startswith("allocator"):
        return "allocator"
    return what


def bvcmp_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return bv(a, 64) == bv(b, 64)
