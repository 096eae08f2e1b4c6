"""Contracts of the external functions (C++ runtime, libc, threads) and the vc_* interface."""
import re
import z3
from .ir import Ptr, UNDEF, NULL, FP, Unsupported, ptr2int, int2ptr, M64
from .sym import (PathEnd, Violation, Undecided, ThrowExc, CallInstead, PUSHED, isz, bv,
                  tobool)

TABLE = {}
PATTERNS = []


def stub(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


def pstub(rx):
    def d(f):
        PATTERNS.append((re.compile(rx), f))
        return f
    return d


def find(eng, fn):
    o = eng.overrides
    if o:
        for rx, target in o.items():
            if fn.name != target and rx.search(fn.demangled or fn.name):
                t = eng.m.functions.get(target)
                if t is None:
                    raise Unsupported("contract function %s missing" % target)

                def call(eng, st, args, I, f, t=t):
                    eng.contracts_used[f.demangled] = eng.contracts_used.get(f.demangled, 0) + 1
                    raise CallInstead(t, args)
                return call
    s = TABLE.get(fn.name)
    if (s is clock_now or s is error_category) and fn.hasdef:
        return None
    if s is not None:
        return s
    if fn.hasdef:
        return None
    for rx, f in PATTERNS:
        if rx.search(fn.name) or rx.search(fn.demangled or ""):
            return f
    raise Unsupported("no contract for external function %s (%s)" % (fn.name, fn.demangled))


# ---------------------------------------------------------------------------- vc interface
def nondet(eng, st, w, name, kind):
    key = (name, len(st.nondet))
    eng.fresh += 1
    if w == 1:
        v = z3.Bool("%s#%d" % (name, len(st.nondet)))
    else:
        v = z3.BitVec("%s#%d" % (name, len(st.nondet)), w)
    st.nondet.append((name, kind, w, v))
    return v


def _mk(w, kind):
    def f(eng, st, args, I, fn):
        return nondet(eng, st, w, eng.cstr(st, args[0]), kind)
    return f


TABLE["vc_u64"] = _mk(64, "u64")
TABLE["vc_u32"] = _mk(32, "u32")
TABLE["vc_u16"] = _mk(16, "u16")
TABLE["vc_u8"] = _mk(8, "u8")
TABLE["vc_bool"] = _mk(1, "bool")


@stub("vc_choice")
def vc_choice(eng, st, a, I, fn):
    n = a[0]
    if not isinstance(n, int):
        n = eng.concretize(st, n)
    name = eng.cstr(st, a[1])
    c = eng.choose(st, n)
    st.nondet.append((name, "choice", 32, c))
    st.trace.append("%s=%d" % (name, c))
    return c


@stub("vc_assume")
def vc_assume(eng, st, a, I, fn):
    c = a[0]
    if c is UNDEF:
        raise Violation("uninitialised", "assumption over an uninitialised value")
    if isinstance(c, int):
        if not c & 1:
            raise PathEnd("assume")
        return None
    c = z3.simplify(c)
    if z3.is_true(c):
        return None
    if z3.is_false(c):
        raise PathEnd("assume")
    if st.model is not None and z3.is_true(st.model.eval(c, model_completion=True)):
        eng.add(st, c, st.model)
        return None
    m = eng.check(st, c)
    if m is None:
        raise PathEnd("assume")
    eng.add(st, c, m)
    return None


@stub("vc_assert")
def vc_assert(eng, st, a, I, fn):
    label = eng.cstr(st, a[1])
    eng.asserted.add(label)
    eng.require(st, a[0] if not isinstance(a[0], int) else a[0] & 1, label,
                "contract clause can fail")
    return None


@stub("vc_fail")
def vc_fail(eng, st, a, I, fn):
    label = eng.cstr(st, a[0])
    eng.require(st, 0, label, "contract clause fails")


@stub("vc_cover")
def vc_cover(eng, st, a, I, fn):
    eng.covers.add(eng.cstr(st, a[0]))


@stub("vc_end")
def vc_end(eng, st, a, I, fn):
    raise PathEnd("end")


@stub("vc_trace")
def vc_trace(eng, st, a, I, fn):
    v = a[1]
    st.trace.append("%s=%s" % (eng.cstr(st, a[0]), v if not isz(v) else z3.simplify(v)))


@stub("vc_no_leaks")
def vc_no_leaks(eng, st, a, I, fn):
    label = eng.cstr(st, a[0])
    eng.asserted.add(label)
    base = st.x.get("leakbase", 0)
    for o in st.mem.values():
        if o.kind in ("heap", "exc") and o.alive and o.seq > base and o.meta != "env":
            raise Violation(label, "%s of %s bytes is still allocated" % (o.name, o.size))
    eng.oblig(label, False)


@stub("vc_leak_base")
def vc_leak_base(eng, st, a, I, fn):
    st.x["leakbase"] = st.allocseq


@stub("vc_live")
def vc_live(eng, st, a, I, fn):
    base = st.x.get("leakbase", 0)
    return sum(1 for o in st.mem.values()
               if o.kind == "heap" and o.alive and o.seq > base)


@stub("vc_expect_terminate")
def vc_expect_terminate(eng, st, a, I, fn):
    st.x["expect_terminate"] = bool(a[0] & 1)


@stub("vc_oom")
def vc_oom(eng, st, a, I, fn):
    st.x["oom"] = bool(a[0] & 1)


@stub("vc_spurious")
def vc_spurious(eng, st, a, I, fn):
    st.x["spurious"] = bool(a[0] & 1)


@stub("vc_alive")
def vc_alive(eng, st, a, I, fn):
    p = a[0]
    o = st.mem.get(p.obj) if isinstance(p, Ptr) else None
    return 1 if o is not None and o.alive else 0


@stub("vc_kill")
def vc_kill(eng, st, a, I, fn):
    """ownership of the object passed to another party, which may destroy it at once"""
    p = a[0]
    o = eng.wobj(st, p.obj)
    o.alive = False
    o.freed_by = "#" + eng.cstr(st, a[1])


@stub("vc_revive")
def vc_revive(eng, st, a, I, fn):
    o = eng.wobj(st, a[0].obj)
    o.alive = True
    o.freed_by = None


@stub("vc_release")
def vc_release(eng, st, a, I, fn):
    """the object is deallocated by the environment"""
    o = eng.wobj(st, a[0].obj)
    o.alive = False
    o.freed_by = "#" + eng.cstr(st, a[1])
    o.meta = "env"


@stub("vc_env_owned")
def vc_env_owned(eng, st, a, I, fn):
    """the object belongs to the environment: it is not part of leak accounting"""
    o = eng.wobj(st, a[0].obj)
    o.meta = "env"


@stub("vc_havoc")
def vc_havoc(eng, st, a, I, fn):
    p, n = a[0], a[1]
    name = eng.cstr(st, a[2])
    o, off = eng.access(st, p, n, "havoc")
    o = eng.wobj(st, o.id)
    i = off
    while i < off + n:
        k = 8 if off + n - i >= 8 else 4 if off + n - i >= 4 else 1
        eng.rawstore(o, i, k, nondet(eng, st, 8 * k, name, "u%d" % (8 * k)))
        i += k


@stub("vc_shared")
def vc_shared(eng, st, a, I, fn):
    p, n, pre, post = a
    sh = st.x.setdefault("shared", [])
    st.x["shared"] = sh + [(p.obj, p.off, n, None if pre.obj == 0 else eng.fnof(pre),
                            None if post.obj == 0 else eng.fnof(post))]


@stub("vc_unshare")
def vc_unshare(eng, st, a, I, fn):
    st.x["shared"] = [s for s in st.x.get("shared", []) if s[0] != a[0].obj]


@stub("vc_ghost")
def vc_ghost(eng, st, a, I, fn):
    st.ghost += 1 if a[0] & 1 else -1


@stub("vc_mutex_hooks")
def vc_mutex_hooks(eng, st, a, I, fn):
    st.x["mutex_hooks"] = (None if a[0].obj == 0 else eng.fnof(a[0]),
                           None if a[1].obj == 0 else eng.fnof(a[1]))


@stub("vc_wait_hook")
def vc_wait_hook(eng, st, a, I, fn):
    st.x["wait_hook"] = None if a[0].obj == 0 else eng.fnof(a[0])


@stub("vc_yield_hook")
def vc_yield_hook(eng, st, a, I, fn):
    st.x["yield_hook"] = None if a[0].obj == 0 else eng.fnof(a[0])


@stub("vc_set_thread")
def vc_set_thread(eng, st, a, I, fn):
    st.x["tid"] = a[0]


@stub("vc_mutex_held")
def vc_mutex_held(eng, st, a, I, fn):
    return 1 if st.x.get("mtx", {}).get((a[0].obj, a[0].off)) else 0


@stub("vc_fork_if")
def vc_fork_if(eng, st, a, I, fn):
    """case split: returns a concrete boolean"""
    return 1 if eng.decide(st, tobool(a[0]) if not isinstance(a[0], int) else a[0] & 1) else 0


@stub("vc_fork_u64")
def vc_fork_u64(eng, st, a, I, fn):
    return eng.concretize(st, a[0])


@stub("vc_is_symbolic_run")
def vc_is_symbolic_run(eng, st, a, I, fn):
    return 1


# ---------------------------------------------------------------------------- allocation
def new(eng, st, n, align, family, nothrow=False):
    if n is UNDEF:
        raise Violation("uninitialised", "allocation size is uninitialised")
    if st.x.get("oom") and not st.ghost:
        c = eng.choose(st, 2)
        st.nondet.append(("oom", "choice", 32, c))
        if c == 1:
            st.trace.append("allocation fails")
            if nothrow:
                return NULL
            raise ThrowExc(bad_alloc(eng, st))
    if isz(n):
        n = z3.simplify(n)
        if z3.is_bv_value(n):
            n = n.as_long()
    if isz(n):
        # sizes beyond PTRDIFF_MAX fail
        lim = z3.ULE(n, 1 << 40)
        m = eng.check(st, lim)
        if m is None:
            raise ThrowExc(bad_alloc(eng, st))
        eng.add(st, lim, m)
        eng.assumptions.add("allocations of more than 2^40 bytes are not explored")
    elif n > (1 << 46):
        raise ThrowExc(bad_alloc(eng, st))
    p = eng.alloc(st, "heap", n, "heap block #%d" % (st.allocseq + 1), align)
    st.mem[p.obj].meta = family
    return p


def bad_alloc(eng, st):
    ti = None
    for oid, info in eng.m.gobj_info.items():
        if info[0] == "global" and info[2] == "_ZTISt9bad_alloc":
            ti = oid
    if ti is None:
        # never named in the module: only catch-all handlers can match
        ti = -1
    p = eng.alloc(st, "exc", 8, "std::bad_alloc")
    st.exc[p.obj] = dict(tinfo=ti, dtor=NULL, rc=1)
    st.uncaught += 1
    return p.obj


@stub("_Znwm", "_Znam")
def op_new(eng, st, a, I, fn):
    return new(eng, st, a[0], 16, "operator new" + ("[]" if fn.name == "_Znam" else ""))


@stub("_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t")
def op_new_nt(eng, st, a, I, fn):
    return new(eng, st, a[0], 16, "operator new" + ("[]" if "_Znam" in fn.name else ""), True)


@stub("_ZnwmSt11align_val_t", "_ZnamSt11align_val_t")
def op_new_al(eng, st, a, I, fn):
    return new(eng, st, a[0], a[1], "operator new" + ("[]" if "_Znam" in fn.name else ""))


@stub("_ZdlPv", "_ZdaPv")
def op_del(eng, st, a, I, fn):
    eng.free(st, a[0], "operator delete" + ("[]" if "_Zda" in fn.name else ""), align=16)


@stub("_ZdlPvm", "_ZdaPvm")
def op_dels(eng, st, a, I, fn):
    eng.free(st, a[0], "operator delete" + ("[]" if "_Zda" in fn.name else ""), align=16,
             size=a[1])


@stub("_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t")
def op_dela(eng, st, a, I, fn):
    eng.free(st, a[0], "operator delete" + ("[]" if "_Zda" in fn.name else ""), align=a[1])


@stub("_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t")
def op_delsa(eng, st, a, I, fn):
    eng.free(st, a[0], "operator delete" + ("[]" if "_Zda" in fn.name else ""), align=a[2],
             size=a[1])


@stub("malloc")
def malloc(eng, st, a, I, fn):
    return new(eng, st, a[0], 16, "malloc", True)


@stub("aligned_alloc")
def c_aligned_alloc(eng, st, a, I, fn):
    return new(eng, st, a[1], a[0], "malloc", True)


@stub("free")
def cfree(eng, st, a, I, fn):
    eng.free(st, a[0], "free")


@stub("memcpy", "memmove")
def c_memcpy(eng, st, a, I, fn):
    eng.memcpy(st, eng.aspt(st, a[0]), eng.aspt(st, a[1]), eng.concretize(st, a[2]))
    return a[0]


@stub("memset")
def c_memset(eng, st, a, I, fn):
    b = a[1] & 255 if isinstance(a[1], int) else z3.Extract(7, 0, a[1])
    eng.memset(st, eng.aspt(st, a[0]), b, eng.concretize(st, a[2]))
    return a[0]


@stub("strlen")
def c_strlen(eng, st, a, I, fn):
    return len(eng.cstr(st, a[0]).encode())


@stub("memcmp", "bcmp")
def c_memcmp(eng, st, a, I, fn):
    n = eng.concretize(st, a[2])
    for i in range(n):
        o, off = eng.access(st, eng.padd(a[0], i), 1, "read")
        x = eng.rawload(st, o, off, 1)
        o, off = eng.access(st, eng.padd(a[1], i), 1, "read")
        y = eng.rawload(st, o, off, 1)
        if isz(x) or isz(y):
            if eng.decide(st, bv(x, 8) != bv(y, 8)):
                return 1 if eng.decide(st, z3.UGT(bv(x, 8), bv(y, 8))) else M64 >> 32
            continue
        if x != y:
            return 1 if x > y else M64 >> 32
    return 0


@stub("strcmp")
def c_strcmp(eng, st, a, I, fn):
    x, y = eng.cstr(st, a[0]), eng.cstr(st, a[1])
    return 0 if x == y else (1 if x > y else M64 >> 32)


# ---------------------------------------------------------------------------- termination
@stub("_ZSt9terminatev", "abort", "_ZSt21__glibcxx_assert_failPKciS0_S0_")
def terminate(eng, st, a, I, fn):
    if fn.name.startswith("_ZSt21"):
        raise Violation("assertion", "libstdc++ assertion " + eng.cstr(st, a[3]))
    eng.terminate(st, fn.demangled)


@stub("__assert_fail")
def assert_fail(eng, st, a, I, fn):
    raise Violation("assertion", "assertion in the code fails: %s (%s:%s)"
                    % (eng.cstr(st, a[0]), eng.cstr(st, a[1]), a[2]))


@stub("__cxa_pure_virtual")
def pure(eng, st, a, I, fn):
    raise Violation("memory", "pure virtual call")


# the destructor of an abstract class without members
@stub("_ZNSt3pmr15memory_resourceD2Ev")
def memory_resource_dtor(eng, st, a, I, fn):
    return 0


@stub("exit", "_exit", "quick_exit")
def c_exit(eng, st, a, I, fn):
    raise Violation("terminate", "exit called")


# ---------------------------------------------------------------------------- exceptions
@stub("__cxa_allocate_exception")
def cxa_alloc(eng, st, a, I, fn):
    p = eng.alloc(st, "exc", a[0], "exception object")
    st.exc[p.obj] = dict(tinfo=0, dtor=NULL, rc=0)
    return p


@stub("__cxa_init_primary_exception")
def cxa_init(eng, st, a, I, fn):
    st.exc[a[0].obj] = dict(tinfo=a[1].obj, dtor=a[2], rc=0)
    return a[0]


@stub("__cxa_free_exception")
def cxa_free(eng, st, a, I, fn):
    o = eng.wobj(st, a[0].obj)
    o.alive = False
    o.freed_by = "__cxa_free_exception"


@stub("__cxa_throw")
def cxa_throw(eng, st, a, I, fn):
    st.exc[a[0].obj] = dict(tinfo=a[1].obj, dtor=a[2], rc=1)
    st.uncaught += 1
    raise ThrowExc(a[0].obj)


@stub("__cxa_begin_catch")
def begin_catch(eng, st, a, I, fn):
    st.caught.append((a[0].obj, False))
    st.uncaught -= 1
    return a[0]


@stub("__cxa_get_exception_ptr")
def get_eptr(eng, st, a, I, fn):
    return a[0]


def exc_release(eng, st, eo):
    e = st.exc.get(eo)
    if e is None:
        raise Violation("exception", "release of something that is not an exception")
    rc = e["rc"] - 1
    if rc < 0:
        raise Violation("exception", "exception reference count underflow")
    st.exc[eo] = dict(e, rc=rc)
    if rc == 0:
        def fin(eng, st, rv, eo=eo):
            o = eng.wobj(st, eo)
            o.alive = False
            o.freed_by = "last exception reference released"
            o.cells = {}
        d = e["dtor"]
        if d.obj:
            f = eng.fnof(d)
            if f.hasdef:
                eng.queue(st, f, [Ptr(eo, 0)], "call", fin)
                return
        fin(eng, st, None)


@stub("__cxa_end_catch")
def end_catch(eng, st, a, I, fn):
    if not st.caught:
        raise Violation("exception", "__cxa_end_catch without a handler")
    eo, re_ = st.caught.pop()
    if not re_:
        exc_release(eng, st, eo)


@stub("__cxa_rethrow")
def cxa_rethrow(eng, st, a, I, fn):
    if not st.caught:
        eng.terminate(st, "rethrow without an active exception")
    eo, _ = st.caught[-1]
    st.caught[-1] = (eo, True)
    st.uncaught += 1
    raise ThrowExc(eo)


@stub("_ZSt17current_exceptionv")
def current_exception(eng, st, a, I, fn):
    from .ir import Ty
    p = a[0]
    v = NULL
    if st.caught:
        eo = st.caught[-1][0]
        e = st.exc[eo]
        st.exc[eo] = dict(e, rc=e["rc"] + 1)
        v = Ptr(eo, 0)
    o, off = eng.access(st, p, 8, "write", True)
    eng.rawstore(eng.wobj(st, o.id), off, 8, v)


def eptr_load(eng, st, p):
    o, off = eng.access(st, p, 8, "read")
    v = eng.rawload(st, o, off, 8)
    if v is UNDEF:
        raise Violation("uninitialised", "exception_ptr is uninitialised")
    if isinstance(v, int):
        v = int2ptr(v)
    return v


@stub("_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE")
def rethrow_exception(eng, st, a, I, fn):
    v = eptr_load(eng, st, a[0])
    if v.obj == 0:
        raise Violation("terminate", "rethrow_exception of a null exception_ptr")
    e = st.exc.get(v.obj)
    if e is None or not st.mem[v.obj].alive:
        raise Violation("exception", "rethrow_exception of a dead exception")
    st.exc[v.obj] = dict(e, rc=e["rc"] + 1)
    st.uncaught += 1
    raise ThrowExc(v.obj)


@stub("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv")
def addref(eng, st, a, I, fn):
    v = eptr_load(eng, st, a[0])
    if v.obj:
        e = st.exc.get(v.obj)
        if e is None or e["rc"] <= 0:
            raise Violation("exception", "copy of a dead exception_ptr")
        st.exc[v.obj] = dict(e, rc=e["rc"] + 1)


@stub("_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv")
def release(eng, st, a, I, fn):
    v = eptr_load(eng, st, a[0])
    if v.obj:
        o, off = eng.access(st, a[0], 8, "write", True)
        eng.rawstore(eng.wobj(st, o.id), off, 8, NULL)
        exc_release(eng, st, v.obj)


@stub("_ZNSt15__exception_ptr13exception_ptrC1EPv", "_ZNSt15__exception_ptr13exception_ptrC2EPv")
def eptr_ctor(eng, st, a, I, fn):
    o, off = eng.access(st, a[0], 8, "write", True)
    eng.rawstore(eng.wobj(st, o.id), off, 8, a[1])
    if a[1].obj:
        e = st.exc[a[1].obj]
        st.exc[a[1].obj] = dict(e, rc=e["rc"] + 1)


@stub("_ZNSt15__exception_ptr13exception_ptrC1ERKS0_",
      "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_")
def eptr_copy(eng, st, a, I, fn):
    v = eptr_load(eng, st, a[1])
    o, off = eng.access(st, a[0], 8, "write", True)
    eng.rawstore(eng.wobj(st, o.id), off, 8, v)
    if v.obj:
        e = st.exc[v.obj]
        st.exc[v.obj] = dict(e, rc=e["rc"] + 1)


@stub("_ZNSt15__exception_ptr13exception_ptrD1Ev", "_ZNSt15__exception_ptr13exception_ptrD2Ev")
def eptr_dtor(eng, st, a, I, fn):
    v = eptr_load(eng, st, a[0])
    if v.obj:
        exc_release(eng, st, v.obj)


@stub("_ZNSt15__exception_ptr13exception_ptr4swapERS0_")
def eptr_swap(eng, st, a, I, fn):
    x = eptr_load(eng, st, a[0])
    y = eptr_load(eng, st, a[1])
    for p, v in ((a[0], y), (a[1], x)):
        o, off = eng.access(st, p, 8, "write", True)
        eng.rawstore(eng.wobj(st, o.id), off, 8, v)


@stub("_ZNKSt15__exception_ptr13exception_ptr6_M_getEv")
def eptr_get(eng, st, a, I, fn):
    return eptr_load(eng, st, a[0])


@stub("_ZSt19uncaught_exceptionsv", "_ZSt18uncaught_exceptionv")
def uncaught(eng, st, a, I, fn):
    return st.uncaught


@stub("__cxa_bad_cast")
def bad_cast(eng, st, a, I, fn):
    raise ThrowExc(bad_alloc(eng, st))


@pstub(r"^_ZNSt(13runtime_error|11logic_error|9exception|12out_of_range|9bad_alloc|8bad_cast|"
       r"16invalid_argument|12system_error|12length_error|17bad_function_call|"
       r"18bad_variant_access)[CD][0-2]E")
def exc_ctor(eng, st, a, I, fn):
    return None


@pstub(r"^_ZSt\d+__throw_")
def std_throw(eng, st, a, I, fn):
    p = eng.alloc(st, "exc", 16, fn.demangled)
    st.exc[p.obj] = dict(tinfo=-1, dtor=NULL, rc=1)
    st.uncaught += 1
    raise ThrowExc(p.obj)


# the generic "what" of an exception type thrown by the standard library is opaque


# ---------------------------------------------------------------------------- statics
@stub("__cxa_guard_acquire")
def guard_acq(eng, st, a, I, fn):
    o, off = eng.access(st, a[0], 1, "read")
    v = eng.rawload(st, o, off, 1)
    return 0 if v == 1 else 1


@stub("__cxa_guard_release")
def guard_rel(eng, st, a, I, fn):
    o, off = eng.access(st, a[0], 1, "write", True)
    eng.rawstore(eng.wobj(st, o.id), off, 1, 1)


@stub("__cxa_guard_abort")
def guard_ab(eng, st, a, I, fn):
    return None


@stub("__cxa_atexit", "__cxa_thread_atexit", "atexit")
def atexit(eng, st, a, I, fn):
    return 0


# ---------------------------------------------------------------------------- threads
def mkey(p):
    return (p.obj, p.off)


def recursive(eng, st, p):
    return eng.load(st, eng.padd(p, 16), _I32) == 1      # PTHREAD_MUTEX_RECURSIVE_NP


@stub("pthread_mutex_lock")
def mtx_lock(eng, st, a, I, fn):
    eng.access(st, a[0], 40, "lock of a mutex")
    if recursive(eng, st, a[0]):
        m = st.mt.mtx if st.mt is not None else st.x.setdefault("mtx", {})
        me = st.mt.ths[st.mt.cur].tid + 1 if st.mt is not None else 1
        k = mkey(a[0])
        if m.get(k) == me:
            m[("again",) + k] = m.get(("again",) + k, 0) + 1
            return 0
    if st.mt is not None and not st.ghost:
        eng.threads.mt_lock(eng, st, mkey(a[0]))
        return 0
    m = st.x.setdefault("mtx", {})
    k = mkey(a[0])
    if m.get(k):
        raise Violation("locking", "mutex is locked again by the thread that holds it")
    m[k] = 1
    h = st.x.get("mutex_hooks")
    if h and h[0] and not st.ghost:
        eng.queue(st, h[0], [a[0]], "ghost")
    return 0


@stub("pthread_mutex_trylock")
def mtx_trylock(eng, st, a, I, fn):
    eng.access(st, a[0], 40, "lock of a mutex")
    if st.mt is not None and not st.ghost:
        return eng.threads.mt_trylock(eng, st, mkey(a[0]))
    m = st.x.setdefault("mtx", {})
    if m.get(mkey(a[0])):
        return 16
    c = eng.choose(st, 2)
    st.nondet.append(("trylock", "choice", 32, c))
    if c:
        return 16
    m[mkey(a[0])] = 1
    h = st.x.get("mutex_hooks")
    if h and h[0] and not st.ghost:
        eng.queue(st, h[0], [a[0]], "ghost")
    return 0


@stub("pthread_mutex_unlock")
def mtx_unlock(eng, st, a, I, fn):
    k = ("again",) + mkey(a[0])
    m = st.mt.mtx if st.mt is not None else st.x.setdefault("mtx", {})
    if m.get(k):
        eng.access(st, a[0], 40, "unlock of a mutex")
        me = st.mt.ths[st.mt.cur].tid + 1 if st.mt is not None else 1
        if m.get(k[1:]) != me:
            raise Violation("locking", "unlock of a mutex that is not held")
        m[k] -= 1
        return 0
    if st.mt is not None and not st.ghost:
        eng.access(st, a[0], 40, "unlock of a mutex")
        eng.threads.mt_unlock(eng, st, mkey(a[0]))
        return 0
    if st.x.get("mtx_relhook_done"):
        st.x["mtx_relhook_done"] = False
    else:
        h = st.x.get("mutex_hooks")
        if h and h[1] and not st.ghost:
            st.x["mtx_relhook_done"] = True
            st.ghost += 1
            eng.push(st, h[1], [a[0]], inject="ghost")
            return PUSHED
    eng.access(st, a[0], 40, "unlock of a mutex")
    m = st.x.setdefault("mtx", {})
    k = mkey(a[0])
    if not m.get(k):
        raise Violation("locking", "unlock of a mutex that is not held")
    m[k] = 0
    # after the release other threads run
    h = st.x.get("mutex_hooks")
    return 0


@stub("_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableC2Ev",
      "_ZNSt18condition_variableD1Ev", "_ZNSt18condition_variableD2Ev")
def cv_ctor(eng, st, a, I, fn):
    return None


@stub("_ZNSt18condition_variable10notify_oneEv", "_ZNSt18condition_variable10notify_allEv")
def cv_notify(eng, st, a, I, fn):
    eng.access(st, a[0], 48, "notify on a condition variable")
    n = st.x.setdefault("notified", {})
    n[mkey(a[0])] = n.get(mkey(a[0]), 0) + 1
    if st.mt is not None:
        eng.threads.mt_notify(eng, st, mkey(a[0]), "all" in fn.name)
    return None


@stub("vc_notified")
def vc_notified(eng, st, a, I, fn):
    return st.x.get("notified", {}).get(mkey(a[0]), 0)


@stub("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE")
def cv_wait(eng, st, a, I, fn):
    eng.access(st, a[0], 48, "wait on a condition variable")
    # releases and re-acquires the mutex: the protected data may change
    mp, off = eng.access(st, a[1], 8, "read")
    mtx = eng.rawload(st, mp, off, 8)
    if st.mt is not None:
        eng.threads.mt_cv_wait(eng, st, mkey(a[0]), mkey(mtx), False)
        return None
    if not st.x.get("mtx", {}).get(mkey(mtx)):
        raise Violation("locking", "condition variable wait without holding the mutex")
    wait_hooks(eng, st, mtx, a[0])
    return None


def wait_hooks(eng, st, mtx, cv):
    h = st.x.get("mutex_hooks")
    w = st.x.get("wait_hook")
    if w is None and not (h and h[0]):
        raise Undecided("blocking wait with no model of the other threads")
    if h and h[1]:
        eng.queue(st, h[1], [mtx], "ghost")
    if w is not None:
        eng.queue(st, w, [cv], "ghost")
    if h and h[0]:
        eng.queue(st, h[0], [mtx], "ghost")


@stub("pthread_cond_clockwait", "pthread_cond_timedwait", "pthread_cond_wait")
def cond_wait(eng, st, a, I, fn):
    eng.access(st, a[0], 48, "wait on a condition variable")
    if st.mt is not None:
        return eng.threads.mt_cv_wait(eng, st, mkey(a[0]), mkey(a[1]),
                                      fn.name != "pthread_cond_wait")
    if not st.x.get("mtx", {}).get(mkey(a[1])):
        raise Violation("locking", "condition variable wait without holding the mutex")
    c = 0
    if fn.name != "pthread_cond_wait":
        c = eng.choose(st, 2)
        st.nondet.append(("timeout", "choice", 32, c))
    wait_hooks(eng, st, a[1], a[0])
    return 110 if c else 0


@stub("pthread_self", "gettid")
def pself(eng, st, a, I, fn):
    if st.mt is not None:
        return 4096 + st.mt.cur
    return st.x.get("tid", 4096)


@stub("sched_yield")
def syield(eng, st, a, I, fn):
    yieldpoint(eng, st, "yield")
    return 0


def yieldpoint(eng, st, what):
    if st.mt is not None and not st.ghost:
        # does not return to the caller's instruction: continue after it
        eng.threads.yield_after(st)
        return
    h = st.x.get("yield_hook")
    if h is not None and not st.ghost:
        eng.queue(st, h, [], "ghost")


@stub("syscall")
def c_syscall(eng, st, a, I, fn):
    if a[0] == 202:   # futex
        op = a[2]
        w = st.x.get("wait_hook")
        if st.mt is not None:
            p = eng.aspt(st, a[1])
            if (op & 127) in (0, 9):
                eng.threads.mt_futex_wait(eng, st, mkey(p), p, a[3] & 0xffffffff)
            else:
                n = st.x.setdefault("notified", {})
                n[mkey(p)] = n.get(mkey(p), 0) + 1
                eng.threads.mt_notify(eng, st, mkey(p), a[3] != 1)
            return 0
        if isinstance(op, int) and (op & 127) in (0, 9):
            if w is None:
                raise Undecided("blocking wait with no model of the other threads")
            eng.queue(st, w, [a[1]], "ghost")
            return 0
        # wake: counted so that contracts can demand it
        n = st.x.setdefault("notified", {})
        p = eng.aspt(st, a[1])
        n[mkey(p)] = n.get(mkey(p), 0) + 1
        return 0
    raise Unsupported("system call %s" % a[0])


@stub("_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv")
def clock_now(eng, st, a, I, fn):
    v = nondet(eng, st, 64, "clock", "u64")
    last = st.x.get("clock")
    if last is not None:
        eng.add(st, v >= last, None)
    else:
        eng.add(st, v >= 0, None)
    eng.add(st, v < (1 << 62), None)
    st.x["clock"] = v
    return v


@stub("nanosleep", "clock_nanosleep", "usleep")
def c_sleep(eng, st, a, I, fn):
    yieldpoint(eng, st, "sleep")
    return 0


@stub("_ZNSt6thread20hardware_concurrencyEv")
def hwc(eng, st, a, I, fn):
    return nondet(eng, st, 32, "hardware_concurrency", "u32")


@stub("_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE")
def start_thread(eng, st, a, I, fn):
    """the thread body is verified on its own; here its state object changes owner"""
    c = 0
    if st.x.get("oom") and not st.ghost:
        c = eng.choose(st, 2)
        st.nondet.append(("thread creation fails", "choice", 32, c))
    if c:
        p = eng.alloc(st, "exc", 16, "std::system_error")
        st.exc[p.obj] = dict(tinfo=-1, dtor=NULL, rc=1)
        st.uncaught += 1
        raise ThrowExc(p.obj)
    o, off = eng.access(st, a[1], 8, "read")
    s = eng.rawload(st, o, off, 8)
    eng.rawstore(eng.wobj(st, o.id), off, 8, NULL)
    if st.mt is not None:
        tid = eng.threads.start_std_thread(eng, st, s)
        o, off = eng.access(st, a[0], 8, "write", True)
        eng.rawstore(eng.wobj(st, o.id), off, 8, 0x1000 + tid)
        return None
    th = st.x.setdefault("threads", [])
    st.x["threads"] = th + [s]
    o, off = eng.access(st, a[0], 8, "write", True)
    eng.rawstore(eng.wobj(st, o.id), off, 8, 0x1000 + len(th))
    return None


@stub("_ZNSt3_V216generic_categoryEv", "_ZNSt3_V215system_categoryEv")
def error_category(eng, st, a, I, fn):
    """two objects of static storage duration, only their identity is used"""
    d = dict(st.x.get("categories", {}))
    if fn.name not in d:
        d[fn.name] = eng.alloc(st, "external", 8, "std::error_category")
        st.x["categories"] = d
    return d[fn.name]


@stub("vc_thread_count")
def vc_thread_count(eng, st, a, I, fn):
    return len(st.x.get("threads", []))


@stub("vc_thread_state")
def vc_thread_state(eng, st, a, I, fn):
    return st.x["threads"][a[0]]


@stub("_ZNSt6thread4joinEv")
def thread_join(eng, st, a, I, fn):
    o, off = eng.access(st, a[0], 8, "read")
    v = eng.rawload(st, o, off, 8)
    if v == 0:
        raise Violation("terminate", "join of a thread that is not joinable")
    if st.mt is not None:
        eng.threads.mt_join(eng, st, v - 0x1000)
        o = eng.wobj(st, o.id)
        eng.rawstore(o, off, 8, 0)
        return None
    eng.rawstore(eng.wobj(st, o.id), off, 8, 0)
    j = st.x.get("join_hook")
    st.x["joined"] = st.x.get("joined", 0) + 1
    if j is not None and not st.ghost:
        eng.queue(st, j, [v - 0x1000], "ghost")
    return None


@stub("vc_joined")
def vc_joined(eng, st, a, I, fn):
    return st.x.get("joined", 0)


@stub("vc_join_hook")
def vc_join_hook(eng, st, a, I, fn):
    st.x["join_hook"] = None if a[0].obj == 0 else eng.fnof(a[0])


@stub("_ZNSt6thread6_StateD2Ev", "_ZNSt6thread6_StateD1Ev")
def thread_state_dtor(eng, st, a, I, fn):
    return None


@stub("__dynamic_cast")
def dyncast(eng, st, a, I, fn):
    # a[0] object, a[1] static type, a[2] target
    p = a[0]
    o, off = eng.access(st, p, 8, "read")
    vp = eng.rawload(st, o, off, 8)
    if vp is not UNDEF:
        vp = eng.coerce(st, vp, _PT)        # its bytes may have been copied one at a time
    if not hasattr(vp, "off") or not eng.access(st, eng.padd(vp, -16), 16, "read")[0].ro:
        raise Violation("memory", "dynamic_cast of something that is not an object")
    ti = eng.load(st, eng.padd(vp, -8), _PT)
    top = eng.load(st, eng.padd(vp, -16), _I64)
    whole = eng.padd(p, top - (1 << 64) if isinstance(top, int) and top >> 63 else top)
    if eng.subtype(ti.obj, a[2].obj):
        return whole
    return NULL


class _T:
    pass


_PT = _T()
_PT.k, _PT.w, _PT.size = "p", 64, 8
_I32 = _T()
_I32.k, _I32.w, _I32.size = "i", 32, 4
_I64 = _T()
_I64.k, _I64.w, _I64.size = "i", 64, 8


@stub("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE",
      "_ZNSt13random_device7_M_finiEv")
def random_device(eng, st, a, I, fn):
    return None


@stub("_ZNSt13random_device9_M_getvalEv")
def random_device_get(eng, st, a, I, fn):
    eng.assumptions.add("std::random_device returns one fixed value: random choices are those of "
                        "one seed")
    return 0x9E3779B9
