"""Loops without a bound.

Opt-in per proof (//@proofopt NAME loops="cut").  A path that comes back to a loop header in a
state that is an instance of the state it had there before is finished: everything it can do
was already done from the earlier visit (co-induction, partial correctness).  When the states
differ only in integers, the earlier state is generalised: the integers are replaced by fresh
symbols that are constrained by an inductive invariant.  The invariant is inferred from
templates (linear relations between the changed integers, bounds) and every conjunct is an
obligation: it is proved at loop entry and preserved by the body, otherwise it is dropped and
the proof starts again (Houdini)."""
import os
import z3
from .ir import Ptr, UNDEF, FP, M64
from .sym import PathEnd, Undecided, Restart, isz, bv, newtok, mask

GEN_AFTER = 3
IGNORED = ("clock", "sel", "predone", "leakbase")


class LoopDB:
    def __init__(self):
        self.gen = {}       # key -> dict(locs={loc: delta}, inv=None or list, where)
        self.subsumed = {}

    def summary(self):
        out = []
        for k, g in sorted(self.gen.items(), key=str):
            out.append(dict(loop=g["where"], kind="inductive invariant",
                            generalised=[str(x) for x in g["locs"]],
                            invariant=[str(x) for x in g["inv"] or []]))
        for k, n in sorted(self.subsumed.items()):
            out.append(dict(loop=k, kind="state subsumption", cut_paths=n))
        return out


class Snap:
    __slots__ = ("regs", "mem", "pc", "consts", "caught", "exc", "x", "uncaught", "ghost",
                 "nlive", "gen", "entry", "nchoice", "visits", "prev", "terms", "invs", "first")


def consts_of(e, out):
    if isz(e):
        seen = set()
        todo = [e]
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.decl().name()] = t
            todo += t.children()


class Mismatch(Exception):
    pass


class Loops:
    def __init__(self, eng, db):
        self.eng = eng
        self.db = db
        self.on = eng.opts.get("loops")
        self.hdr = {}

    def symbranch(self, st, f):
        pass

    # ------------------------------------------------------------------
    def headers(self, fn):
        h = self.hdr.get(fn.name)
        if h is None:
            h = self.hdr[fn.name] = self.compute(fn)
        return h

    def compute(self, fn):
        n = len(fn.blocks)
        succ = [[] for _ in range(n)]
        # predecessor information is in the phis; derive successors from the terminators
        for b in fn.blocks:
            I = b.ins[-1]
            succ[b.idx] = fn_succ(I)
        color = [0] * n
        back = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            u, it = stack[-1]
            for v in it:
                if color[v] == 0:
                    color[v] = 1
                    stack.append((v, iter(succ[v])))
                    break
                if color[v] == 1:
                    back.append((u, v))
            else:
                color[u] = 2
                stack.pop()
        pred = [[] for _ in range(n)]
        for u in range(n):
            for v in succ[u]:
                pred[v].append(u)
        out = {}
        for u, h in back:
            body = out.setdefault(h, {h})
            todo = [u]
            while todo:
                x = todo.pop()
                if x in body:
                    continue
                body.add(x)
                todo += pred[x]
        res = {}
        live = self.liveness(fn, succ) if out else None
        for h, body in out.items():
            defs = set()
            for x in body:
                b = fn.blocks[x]
                for I in list(b.phis) + list(b.ins):
                    if I.res is not None and I.res >= 0 and not (x == h and I in b.phis):
                        defs.add(I.res)
            allregs = set(self.nregs(fn))
            res[h] = (body, defs | (allregs - live[h]))
        return res

    def nregs(self, fn):
        return range(fn.nregs)

    def liveness(self, fn, succ):
        """registers that may be read from the start of each block (after its phis)"""
        n = len(fn.blocks)
        use = [set() for _ in range(n)]
        dfn = [set() for _ in range(n)]
        phiuse = [dict() for _ in range(n)]     # predecessor -> registers

        def collect(x, out):
            if isinstance(x, (tuple, list)):
                if len(x) == 2 and x[0] is True and isinstance(x[1], int):
                    out.add(x[1])
                else:
                    for y in x:
                        collect(y, out)
        for b in fn.blocks:
            k = b.idx
            for ph in b.phis:
                for p, (r, v) in ph.x.items():
                    if r:
                        phiuse[k].setdefault(p, set()).add(v)
            for I in b.ins:
                u = set()
                collect(I.ops, u)
                if I.op in (45, 5):
                    collect((I.x[0],), u)
                elif I.op == 29:
                    collect(I.x, u)
                use[k] |= u - dfn[k]
                if I.res is not None and I.res >= 0:
                    dfn[k].add(I.res)
        phis = [set(ph.res for ph in b.phis) for b in fn.blocks]
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for k in range(n - 1, -1, -1):
                o = set()
                for t in succ[k]:
                    o |= live[t] - phis[t]
                    o |= phiuse[t].get(k, set())
                x = use[k] | (o - dfn[k])
                if x != live[k]:
                    live[k] = x
                    changed = True
        return live

    def onjump(self, st, f, cur, target):
        if not self.on or st.mt is not None or st.ghost:
            return False
        hs = self.headers(f.fn)
        if not hs:
            return False
        h = hs.get(target)
        if h is None:
            # leaving loops: forget their snapshots
            self.forget(f, hs, target)
            return False
        self.forget(f, hs, target)
        eng = self.eng
        eng.dojump(st, f, target)
        body, defs = h
        key = self.key(st, f, target)
        sn = f.loopst.get(target) if f.loopst else None
        if sn is None or cur not in body:
            sn = self.snapshot(st, f, target, defs)
            g = self.db.gen.get(key)
            if g is not None:
                self.generalise(st, f, target, sn, g)
                sn = self.snapshot(st, f, target, defs, sn)
            f.loopst = dict(f.loopst or {})
            f.loopst[target] = sn
            return True
        # second or later visit
        self.revisit(st, f, target, sn, key, defs)
        return True

    def forget(self, f, hs, target):
        """drop the snapshots of loops that are left"""
        if f.loopst:
            gone = set(t for t in f.loopst if isinstance(t, int) and t != target
                       and target not in hs[t][0])
            if gone:
                f.loopst = {k: v for k, v in f.loopst.items()
                            if (k if isinstance(k, int) else k[1]) not in gone}

    def key(self, st, f, target):
        return (f.fn.name, target, tuple((g.fn.name, g.blk, g.ip) for g in st.frames[:-1]),
                tuple(st.trace))

    def snapshot(self, st, f, target, defs, old=None):
        s = Snap()
        s.regs = {i: v for i, v in enumerate(f.regs) if v is not None and i not in defs}
        s.mem = dict(st.mem)
        st.token = newtok()
        s.pc = list(st.pc)
        s.caught = list(st.caught)
        s.exc = {k: e for k, e in st.exc.items() if e["rc"] > 0}
        s.x = {k: v for k, v in st.x.items() if k not in IGNORED}
        s.uncaught = st.uncaught
        s.ghost = st.ghost
        s.visits = 1
        s.gen = None
        s.entry = None
        s.prev = None
        s.first = None
        s.terms = None
        s.invs = []
        if old is not None:
            s.gen = old.gen
            s.entry = old.entry
            s.terms = old.terms
            s.invs = old.invs
        return s

    # ------------------------------------------------------------------ matching
    def match(self, st, f, sn, defs):
        """yields the differences (loc, v1, v2); raises Mismatch"""
        if sn.caught != list(st.caught) or sn.uncaught != st.uncaught or sn.ghost != st.ghost:
            raise Mismatch("exception state")
        exc = {k: e for k, e in st.exc.items() if e["rc"] > 0}
        if exc != sn.exc:
            raise Mismatch("exceptions")
        x = {k: v for k, v in st.x.items() if k not in IGNORED and v}
        if x != {k: v for k, v in sn.x.items() if v}:
            raise Mismatch("engine state %s" % [k for k in set(x) | set(sn.x) if x.get(k) != sn.x.get(k)])
        diffs = []
        omap = {}
        inv = {}
        work = []

        def bind(a, b):
            if a in omap:
                if omap[a] != b:
                    raise Mismatch("aliasing")
                return
            if b in inv:
                raise Mismatch("aliasing")
            omap[a] = b
            inv[b] = a
            work.append((a, b))

        def val(loc, a, b):
            if a is b:
                if isinstance(a, Ptr) and a.obj:
                    bind(a.obj, b.obj)
                elif isinstance(a, tuple):
                    for k, x in enumerate(a):
                        val(loc + (k,), x, x)
                return
            if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
                for k, (x, y) in enumerate(zip(a, b)):
                    val(loc + (k,), x, y)
                return
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if (a.obj == 0) != (b.obj == 0):
                    o = st.mem.get(loc[1]) if loc[0] == "m" else None
                    raise Mismatch("pointer at %s%s %s, %s" % (loc, " in " + o.name if o else "", a, b))
                if a.obj:
                    bind(a.obj, b.obj)
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return
                diffs.append((loc + ("off",), a.off, b.off, 64))
                return
            if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
                if int(a) != int(b):
                    diffs.append((loc, a, b, None))
                return
            if (isz(a) or isinstance(a, int)) and (isz(b) or isinstance(b, int)):
                if isz(a) and isz(b) and a.eq(b):
                    return
                diffs.append((loc, a, b, None))
                return
            if isinstance(a, FP) and isinstance(b, FP) and a.v == b.v:
                return
            if a is UNDEF and b is UNDEF:
                return
            raise Mismatch("value at %s" % (loc,))

        def ident(v):
            if isinstance(v, Ptr):
                if v.obj and v.obj in sn.mem and sn.mem[v.obj].alive:
                    bind(v.obj, v.obj)
            elif isinstance(v, tuple):
                for x in v:
                    ident(x)

        m2 = st.mem
        # registers
        for i, a in sn.regs.items():
            b = f.regs[i]
            if b is None:
                raise Mismatch("register")
            val(("r", i), a, b)
        # every object that is live in the snapshot, unless it was matched already
        for fr in st.frames:
            for o in fr.allocas:
                if o in sn.mem and sn.mem[o].alive and o not in omap and o not in inv:
                    bind(o, o)

        # suspended callers keep their registers
        for fr in st.frames[:-1]:
            for v in fr.regs:
                ident(v)

        def drain():
            while work:
                a, b = work.pop()
                oa = sn.mem.get(a)
                ob = m2.get(b)
                if oa is None and ob is None:
                    if a != b:
                        raise Mismatch("object")
                    continue
                if oa is None:
                    # a global that was touched for the first time: compare with its initialiser
                    if a != b:
                        raise Mismatch("object")
                    oa = self.eng.globals_init.get(a)
                    if oa is None:
                        raise Mismatch("global")
                if ob is None:
                    raise Mismatch("object")
                if oa is ob:
                    continue
                if oa.alive != ob.alive:
                    raise Mismatch("lifetime of %s" % oa.name)
                if not oa.alive:
                    continue
                if oa.kind != ob.kind or oa.size != ob.size or oa.name != ob.name:
                    raise Mismatch("object %s" % oa.name)
                if oa.arr is not None or ob.arr is not None:
                    if oa.arr != ob.arr:
                        raise Mismatch("array")
                if not (oa.fill is ob.fill or (isinstance(oa.fill, int) and oa.fill == ob.fill)):
                    raise Mismatch("fill")
                ka, kb = oa.cells, ob.cells
                for off in set(ka) | set(kb):
                    ca, cb = ka.get(off), kb.get(off)
                    if ca is None and oa.fill is None and oa.kind != "global":
                        # the first state knows nothing about this cell; extra knowledge is fine
                        # only when nothing overlaps
                        n = cb[0]
                        if not any(k < off + n and k + c[0] > off for k, c in ka.items()):
                            continue
                    if ca is None and isinstance(oa.fill, int):
                        ca = (cb[0], int.from_bytes(bytes([oa.fill & 255]) * cb[0], "little"))
                    if cb is None and isinstance(ob.fill, int):
                        cb = (ca[0], int.from_bytes(bytes([ob.fill & 255]) * ca[0], "little"))
                    if ca is None or cb is None or ca[0] != cb[0]:
                        raise Mismatch("cells of %s at %d" % (oa.name, off))
                    val(("m", a, off, ca[0]), ca[1], cb[1])

        drain()
        for a, oa in sn.mem.items():
            if a in omap:
                continue
            ob = m2.get(a)
            if oa is ob:
                # untouched; still has to be consistent with the renaming
                if oa.alive:
                    if a in inv:
                        raise Mismatch("aliasing")
                    bind(a, a)
                    for off, (n, v) in oa.cells.items():
                        if isinstance(v, Ptr) and v.obj:
                            bind(v.obj, v.obj) if v.obj in sn.mem and sn.mem[v.obj].alive else None
                continue
            if oa.alive:
                bind(a, a)
            drain()
        # globals touched for the first time since: compared with their initialisers
        for b, ob in m2.items():
            if b not in sn.mem and b not in inv and b in self.eng.globals_init and ob.alive:
                bind(b, b)
        drain()
        for b, ob in m2.items():
            if ob.alive and b not in inv and ob.kind in ("heap", "exc", "stack"):
                raise Mismatch("an object allocated in the loop stays alive: %s" % ob.name)
        self.diffs_consts(sn, diffs)
        return diffs

    def diffs_consts(self, sn, diffs):
        pass

    def revisit(self, st, f, target, sn, key, defs):
        eng = self.eng
        visits = f.loopst.get(("n", target), 1) + 1
        f.loopst = dict(f.loopst)
        f.loopst[("n", target)] = visits
        where = self.where(f, target)
        if sn.gen is None:
            for s2 in f.loopst.get(("s", target), ()):
                try:
                    self.subsumes(st, f, s2, self.match(st, f, s2, defs), key, where)
                except Mismatch:
                    pass
            more = f.loopst.get(("s", target), ())
            if len(more) < 12:
                f.loopst[("s", target)] = more + (self.snapshot(st, f, target, defs),)
        try:
            diffs = self.match(st, f, sn, defs)
        except Mismatch as e:
            # a state of another shape: not an instance of the generalised one, explored on its own
            if sn.gen is not None and visits > GEN_AFTER + 8:
                raise Undecided("loop at %s: the state cannot be generalised (%s)" % (where, e))
            if os.environ.get("VC_LOOPDEBUG"):
                print("loop", where, "visit", visits, e)
            if visits > eng.opts.get("unroll", 40):
                raise Undecided("loop at %s is not cut: %s" % (where, e))
            return
        self.subsumes(st, f, sn, diffs, key, where)
        if os.environ.get("VC_LOOPDEBUG"):
            print("loop", where, "visit", visits, diffs)
        if sn.gen is not None:
            self.learn(st, sn, key, diffs, where)
            return
        npc = f.loopst.get(("c", target), len(sn.pc))
        symbolic = len(st.pc) != npc     # the last iteration depended on a symbolic condition
        f.loopst[("c", target)] = len(st.pc)
        if visits > GEN_AFTER and symbolic and self.on == "cut":
            self.learn(st, sn, key, diffs, where, f.loopst.get(("p", target)))
        f.loopst[("p", target)] = {l: b for l, a, b, w in diffs}
        if visits > eng.opts.get("unroll", 60 if symbolic else 2000):
            raise Undecided("loop at %s is not cut after %d iterations" % (where, visits))

    def subsumes(self, st, f, sn, diffs, key, where):
        """finishes the path when the state is an instance of the snapshot"""
        eng = self.eng
        sub = []
        eqs = []
        mapped = {}
        ok = True
        for loc, a, b, w in diffs:
            if isz(a) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = a.decl().name()
                if nm in mapped:
                    eqs.append((mapped[nm], b, a))
                else:
                    mapped[nm] = b
                    sub.append((a, self.term(b, a)))
            elif isz(a):
                eqs.append((a, b, None))
            else:
                # a concrete value that changed
                ok = False
        if ok:
            # constants that are mapped must not occur unchanged elsewhere
            names = set(mapped)
            if names and self.occurs_unchanged(st, f, sn, names, diffs):
                ok = False
        if ok:
            conds = []
            for a, b, c in eqs:
                if c is None:
                    x = z3.substitute(a, *sub) if sub else a
                    conds.append(x == self.term(b, a))
                else:
                    conds.append(self.term(a, c) == self.term(b, c))
            for p in sn.pc:
                cs = {}
                consts_of(p, cs)
                if set(cs) & set(mapped):
                    conds.append(z3.substitute(p, *sub))
            if sn.gen is not None:
                # invariants that are not inductive are dropped
                self.check_invs(st, sn, sub, key)
            if not conds or eng.check(st, z3.Not(z3.And(*conds))) is None:
                self.db.subsumed[where] = self.db.subsumed.get(where, 0) + 1
                for c in conds:
                    eng.oblig("loop invariant is preserved", True)
                raise PathEnd("loop-cut")
        return ok

    def term(self, b, like):
        if isz(b):
            if z3.is_bool(like) and not z3.is_bool(b):
                return b == 1
            if not z3.is_bool(like) and z3.is_bool(b):
                return bv(b, like.size())
            return b
        if z3.is_bool(like):
            return z3.BoolVal(bool(b))
        return z3.BitVecVal(int(b), like.size())

    def occurs_unchanged(self, st, f, sn, names, diffs):
        locs = set(d[0] for d in diffs)

        def has(loc, v):
            if isinstance(v, tuple):
                return any(has(loc + (k,), x) for k, x in enumerate(v))
            if isinstance(v, Ptr):
                return has(loc + ("off",), v.off)
            if not isz(v) or loc in locs:
                return False
            cs = {}
            consts_of(v, cs)
            return bool(set(cs) & names)
        for i, v in sn.regs.items():
            if has(("r", i), v):
                return True
        for k, fr in enumerate(st.frames[:-1]):
            for i, v in enumerate(fr.regs):
                if has(("frame", k, i), v):
                    return True
        for oid, o in sn.mem.items():
            if not o.alive:
                continue
            for off, (n, v) in o.cells.items():
                if (isz(v) or isinstance(v, (tuple, Ptr))) and has(("m", oid, off, n), v):
                    return True
        return False

    def where(self, f, target):
        b = f.fn.blocks[target]
        for I in b.ins:
            if I.line:
                return "%s (%s)" % (f.fn.demangled.split("(")[0][-80:], self.eng.m.srcloc(I))
        return f.fn.demangled[:100]

    def in_repo(self, f, target):
        b = f.fn.blocks[target]
        for I in b.ins:
            if I.line:
                return "/include/" in self.eng.m.srcloc(I) or True
        return True

    # ------------------------------------------------------------------ generalisation
    def learn(self, st, sn, key, diffs, where, prev=None):
        g = self.db.gen.setdefault(key, dict(locs={}, inv=None, where=where, dropped=set()))
        new = False
        for loc, a, b, w in diffs:
            if isz(a) and loc in (sn.gen or {}):
                continue
            if loc in g["locs"]:
                continue
            p = prev.get(loc, a) if prev else a
            if isinstance(p, int) and isinstance(b, int):
                d = b - p
            elif isinstance(p, int) and isinstance(a, int):
                d = p - a
            else:
                try:
                    x = z3.simplify(self.term(b, p if isz(p) else b) - (p if isz(p) else self.term(p, b)))
                    d = x.as_signed_long() if z3.is_bv_value(x) else 0
                except Exception:
                    d = 0
            g["locs"][loc] = d
            new = True
        if not new:
            raise Undecided("loop at %s: the inferred invariant is not inductive" % where)
        g["inv"] = None
        g["dropped"] = set()
        raise Restart()

    def getloc(self, st, f, loc):
        if loc[0] == "r":
            v = f.regs[loc[1]]
            rest = loc[2:]
        else:
            o = st.mem.get(loc[1]) or self.eng.globals_init.get(loc[1])
            if o is None or not o.alive:
                return None
            c = o.cells.get(loc[2])
            if c is None or c[0] != loc[3]:
                if c is None and isinstance(o.fill, int):
                    v = int.from_bytes(bytes([o.fill & 255]) * loc[3], "little")
                else:
                    return None
            else:
                v = c[1]
            rest = loc[4:]
        for k in rest:
            if k == "off":
                v = v.off
            else:
                v = v[k]
        return v

    def setloc(self, st, f, loc, nv):
        def upd(v, rest):
            if not rest:
                return nv
            if rest[0] == "off":
                return Ptr(v.obj, nv)
            t = list(v)
            t[rest[0]] = upd(t[rest[0]], rest[1:])
            return tuple(t)
        if loc[0] == "r":
            f.regs[loc[1]] = upd(f.regs[loc[1]], loc[2:])
        else:
            o = self.eng.wobj(st, loc[1])
            c = o.cells.get(loc[2])
            old = c[1] if c else self.getloc(st, f, loc[:4])
            o.cells[loc[2]] = (loc[3], upd(old, loc[4:]))

    def width(self, f, loc, v):
        if loc[-1] == "off":
            return 64
        if isz(v):
            return 0 if z3.is_bool(v) else v.size()
        if loc[0] == "m":
            return loc[3] * 8
        # a register: find its type
        for b in f.fn.blocks:
            for I in list(b.phis) + list(b.ins):
                if I.res == loc[1] and len(loc) == 2:
                    return I.ty.w if I.ty.k == "i" else 64
        return 64

    def generalise(self, st, f, target, sn, g):
        eng = self.eng
        hs = {}
        entry = {}
        for loc in sorted(g["locs"], key=str):
            if loc[0] == "m" and loc[1] not in st.mem and loc[1] in eng.m.gobj_info:
                eng.init_global(st, loc[1])
            e = self.getloc(st, f, loc)
            if e is None or not (isinstance(e, int) or isz(e)):
                raise Undecided("loop at %s: cannot generalise %s" % (g["where"], loc))
            w = self.width(f, loc, e)
            if w == 0:
                eng.fresh += 1
                h = z3.Bool("loop!%d" % eng.fresh)
            else:
                h = eng.freshbv(w, "loop")
            hs[loc] = h
            entry[loc] = e
        terms = self.terms(st, f, sn, hs)
        if g["inv"] is None:
            g["inv"] = self.candidates(g, hs, entry, terms)
        # the invariant holds at loop entry
        keep = []
        for d in g["inv"]:
            c = self.inst(d, {l: self.term(entry[l], hs[l]) for l in hs}, entry, terms, hs)
            if c is None:
                continue
            c = z3.simplify(c)
            if z3.is_true(c) or (not z3.is_false(c) and eng.check(st, z3.Not(c)) is None):
                keep.append(d)
        if len(keep) != len(g["inv"]):
            g["inv"] = keep
            raise Restart()
        invs = []
        for d in keep:
            eng.oblig("loop invariant holds at entry", True)
            invs.append((d, self.inst(d, hs, entry, terms, hs)))
        for loc, h in hs.items():
            self.setloc(st, f, loc, h)
        for d, c in invs:
            eng.add(st, c)
        st.model = None
        sn.gen = hs
        sn.entry = entry
        sn.terms = terms
        sn.invs = invs

    def terms(self, st, f, sn, hs):
        out = {}
        gl = set(hs)
        for i, v in sn.regs.items():
            if ("r", i) in gl:
                continue
            if isz(v) and not z3.is_bool(v) and v.size() >= 8:
                out["r%d" % i] = v
        cs = {}
        for p in st.pc:
            consts_of(p, cs)
        for nm, knd, w, e in st.nondet:
            if isz(e):
                consts_of(e, cs)
        for nm, c in cs.items():
            if not z3.is_bool(c) and z3.is_bv(c) and c.size() >= 8:
                out["c" + nm] = c
        return out

    def candidates(self, g, hs, entry, terms):
        locs = sorted(hs, key=str)
        out = []
        for a in range(len(locs)):
            for b in range(a + 1, len(locs)):
                la, lb = locs[a], locs[b]
                da, db = g["locs"][la], g["locs"][lb]
                if da and db:
                    out.append(("lin", la, lb, db, da))
        for l in locs:
            if z3.is_bool(hs[l]):
                continue
            out.append(("ge_entry", l))
            out.append(("le_entry", l))
            out.append(("sge_entry", l))
            for t in terms:
                out.append(("ule", l, t))
                out.append(("uge", l, t))
                out.append(("ult", l, t))
                out.append(("sle", l, t))
        return out

    def inst(self, d, v, entry, terms, hs):
        def ext(x, w):
            if x.size() < w:
                return z3.ZeroExt(w - x.size(), x)
            return x

        def sex(x, w):
            if x.size() < w:
                return z3.SignExt(w - x.size(), x)
            return x
        k = d[0]
        if k == "lin":
            _, a, b, ka, kb = d
            if a not in v or b not in v or z3.is_bool(v[a]) or z3.is_bool(v[b]):
                return None
            w = max(v[a].size(), v[b].size())
            ea, eb = self.term(entry[a], hs[a]), self.term(entry[b], hs[b])
            return (ext(v[a], w) - ext(ea, w)) * z3.BitVecVal(ka, w) == \
                (ext(v[b], w) - ext(eb, w)) * z3.BitVecVal(kb, w)
        l = d[1]
        x = v.get(l)
        if x is None or z3.is_bool(x):
            return None
        if k == "ge_entry":
            return z3.UGE(x, self.term(entry[l], hs[l]))
        if k == "le_entry":
            return z3.ULE(x, self.term(entry[l], hs[l]))
        if k == "sge_entry":
            return x >= self.term(entry[l], hs[l])
        t = terms.get(d[2])
        if t is None:
            return None
        w = max(x.size(), t.size())
        if k == "sle":
            return sex(x, w) <= sex(t, w)
        x, t = ext(x, w), ext(t, w)
        return {"ule": z3.ULE, "uge": z3.UGE, "ult": z3.ULT}[k](x, t)

    def check_invs(self, st, sn, sub, key):
        eng = self.eng
        g = self.db.gen[key]
        bad = []
        if not sub:
            return
        conds = [(d, z3.substitute(c, *sub)) for d, c in sn.invs if c is not None]
        m = eng.check(st, z3.Not(z3.And(*[c for _, c in conds]))) if conds else None
        if m is None:
            return
        for d, c in conds:
            if eng.check(st, z3.Not(c)) is not None:
                bad.append(d)
        g["inv"] = [d for d in g["inv"] if d not in bad]
        raise Restart()


def fn_succ(I):
    return list(I.x) if I.op == 2 else succ_of(I)


def succ_of(I):
    if I.op == 3:    # switch
        dflt, cases = I.x[0], I.x[1]
        return [dflt] + [b for _, b in cases]
    if I.op == 5:    # invoke
        return [I.x[2], I.x[3]]
    return []
