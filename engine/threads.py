"""Interleaving of several threads of real code inside one proof (bounded preemptions) with
happens-before race detection.  A bounded stand-in: used where no thread-modular contract is
given; evidence labels it as bounded.

Threads are switched only at synchronising operations (atomics, mutexes, condition variables,
futexes, thread creation/join); this is exhaustive for data-race-free code, and data races
themselves are obligations, checked with vector clocks that follow the memory orders in the
code."""
from .ir import Ptr, UNDEF, NULL
from .sym import PathEnd, Violation, Undecided, Retry, isz
from .stubs import stub

FIELDS = ("tid", "name", "frames", "caught", "uncaught", "cur_exc", "sel", "ghost", "status",
          "on", "vc", "yielded", "sp", "seen", "grace", "ph", "relf", "pend", "tls")


class Ctx:
    __slots__ = FIELDS

    def __init__(self):
        self.frames = None
        self.caught = []
        self.uncaught = 0
        self.cur_exc = None
        self.sel = None
        self.ghost = 0
        self.status = "run"
        self.on = None
        self.vc = {}
        self.yielded = False
        self.sp = False
        self.seen = {}
        self.grace = 0
        self.ph = None
        self.relf = None
        self.pend = {}
        self.tls = {}

    def copy(self):
        c = Ctx()
        c.tid = self.tid
        c.name = self.name
        c.frames = [f.copy() for f in self.frames] if self.frames is not None else None
        c.caught = list(self.caught)
        c.uncaught = self.uncaught
        c.cur_exc = self.cur_exc
        c.sel = self.sel
        c.ghost = self.ghost
        c.status = self.status
        c.on = self.on
        c.vc = dict(self.vc)
        c.yielded = self.yielded
        c.sp = self.sp
        c.seen = dict(self.seen)
        c.grace = self.grace
        c.ph = self.ph
        c.relf = self.relf
        c.pend = dict(self.pend)
        c.tls = dict(self.tls)
        return c


class MT:
    """per-state multi-threading data"""
    __slots__ = ("ths", "cur", "preempt", "race", "loc", "mtx", "fin", "resched", "idle", "nsp",
                 "tmo", "shared", "own")

    def copy(self):
        m = MT()
        m.ths = [t.copy() for t in self.ths]
        m.cur = self.cur
        m.preempt = self.preempt
        m.race = dict(self.race)
        m.loc = dict(self.loc)
        m.mtx = dict(self.mtx)
        m.fin = dict(self.fin)
        m.resched = self.resched
        m.idle = self.idle
        m.nsp = self.nsp
        m.tmo = self.tmo
        m.shared = set(self.shared)
        m.own = dict(self.own)
        return m


def start(eng, st):
    m = MT()
    c = Ctx()
    c.tid = 0
    c.name = "main"
    c.vc = {0: 1}
    m.ths = [c]
    m.cur = 0
    m.preempt = eng.opts.get("preemptions", 2)
    m.race = {}
    m.loc = {}
    m.mtx = {}
    m.fin = {}
    m.resched = False
    m.idle = 0
    m.nsp = 0
    m.shared = set()
    m.own = {}
    m.tmo = 0 if eng.opts.get("untimed") else eng.opts.get("timeouts", 1)
    st.mt = m
    eng.bounded = True
    eng.assumptions.add("bounded stand-in: interleavings of the spawned threads with at most %d "
                        "preemptions per path (switches at blocking points not limited), "
                        "sequentially consistent atomics, races checked by happens-before"
                        % m.preempt)
    return m


def switch(st, i):
    m = st.mt
    if i == m.cur:
        return
    c = m.ths[m.cur]
    c.frames = st.frames
    c.caught = st.caught
    c.uncaught = st.uncaught
    c.cur_exc = st.cur_exc
    c.sel = st.x.get("sel")
    c.ghost = st.ghost
    m.cur = i
    c = m.ths[i]
    st.frames = c.frames
    st.caught = c.caught
    st.uncaught = c.uncaught
    st.cur_exc = c.cur_exc
    st.x["sel"] = c.sel
    st.ghost = c.ghost
    c.frames = None
    st.nondet.append(("schedule", "sched", 64, (m.nsp << 8) | i))
    st.trace.append("-> thread %s" % c.name)


def enabled(st, i):
    m = st.mt
    t = m.ths[i]
    s = t.status
    if s == "run":
        return True
    if s == "mutex":
        return not m.mtx.get(t.on)
    if s == "joinall":
        return all(u.status == "done" for u in m.ths if u is not t)
    if s == "join":
        return m.ths[t.on].status == "done"
    if s == "cvt":
        return m.tmo > 0
    if s == "await":
        o = st.mem.get(t.on[0])
        c = o.cells.get(t.on[1]) if o is not None and o.alive else None
        return c is None or c[0] != 4 or not (isinstance(c[1], int) and c[1] == 0)
    return False


def wake(st, i):
    """thread i was chosen: leave its blocked state"""
    m = st.mt
    t = m.ths[i]
    if t.status == "cvt":
        t.ph = ("timeout", t.on)
        m.tmo -= 1
    t.status = "run"
    t.on = None


def done_choice(st):
    if st.choices:
        st.choices = []
        st.cidx = 0


def resched(eng, st):
    """the current thread is blocked, finished or yields: choose who runs next"""
    m = st.mt
    me = m.ths[m.cur]
    n = len(m.ths)
    cands = [i for i in range(n) if i != m.cur and enabled(st, i)]
    fresh = [i for i in cands if not m.ths[i].yielded]
    reset = False
    if not fresh:
        if me.status == "run" and not me.yielded:
            fresh = [m.cur]
        elif cands or me.status == "run":
            reset = True
            fresh = cands or [m.cur]
    if not fresh and enabled(st, m.cur):
        fresh = [m.cur]
    if not fresh:
        tm = [i for i in range(n) if m.ths[i].status == "cvt"]
        if tm and not eng.opts.get("untimed"):
            m.tmo += 1
            m.idle += 4
            fresh = tm
        else:
            who = ", ".join("%s waits (%s)" % (t.name, t.status) for t in m.ths
                            if t.status != "done")
            raise Violation("progress", "deadlock: " + who)
    k = eng.choose(st, len(fresh))
    i = fresh[k]
    m.resched = False
    if i != m.cur:
        m.nsp += 1
    if reset:
        for t in m.ths:
            t.yielded = False
        me.yielded = me.status == "run" and i != m.cur
        # not every repeated look is a spin: let it go on when nobody else can do anything
        m.ths[i].grace = 40
    m.idle += 1
    if m.idle > 60:
        raise Violation("progress", "livelock: threads spin for ever (%s)" % ", ".join(
            t.name for t in m.ths if t.status != "done"))
    wake(st, i)
    switch(st, i)
    done_choice(st)


def schedpoint(eng, st):
    """called before a synchronising operation.  Returns True when another thread was
    scheduled instead (the operation is re-executed later)."""
    m = st.mt
    if st.ghost:
        return False
    t = m.ths[m.cur]
    if t.sp:
        return False
    cands = [m.cur]
    if m.preempt > 0:
        cands += [i for i in range(len(m.ths)) if i != m.cur and enabled(st, i)
                  and not m.ths[i].yielded]
    if len(cands) > 1:
        k = eng.choose(st, len(cands))
    else:
        k = 0
    if k == 0:
        return False
    m.nsp += 1
    m.preempt -= 1
    t.sp = True
    i = cands[k]
    wake(st, i)
    switch(st, i)
    done_choice(st)
    return True


def opdone(st):
    """the synchronising operation was executed"""
    m = st.mt
    m.nsp += 1
    m.ths[m.cur].sp = False


def progress(st):
    """some thread changed shared state: yielded threads may look again"""
    m = st.mt
    m.idle = 0
    for t in m.ths:
        t.yielded = False


def do_yield(st):
    m = st.mt
    t = m.ths[m.cur]
    t.yielded = True
    m.resched = True
    raise Retry()


def yield_after(st):
    """sched_yield and the like: others run first, then the caller continues"""
    m = st.mt
    t = m.ths[m.cur]
    if t.ph == "yielded":
        t.ph = None
        opdone(st)
        return
    t.ph = "yielded"
    t.yielded = True
    m.resched = True
    done_choice(st)
    raise Retry()


def block(st, status, on):
    """block the current thread; its instruction is re-executed when it is resumed"""
    m = st.mt
    t = m.ths[m.cur]
    t.status = status
    t.on = on
    t.sp = True
    m.resched = True
    done_choice(st)
    raise Retry()


# ---------------------------------------------------------------- happens-before
def vcjoin(a, b):
    for k, v in b.items():
        if a.get(k, 0) < v:
            a[k] = v


def tracked(eng, o):
    if o.kind == "global":
        return False
    return True


def plain(eng, st, o, off, n, write, what):
    if st.ghost or o.kind == "global" or not isinstance(off, int):
        return
    m = st.mt
    t = m.ths[m.cur]
    tid = t.tid
    vc = t.vc
    key = (o.id, off)
    if m.own.setdefault(o.id, tid) != tid:
        m.shared.add(o.id)
    r = m.race.get(key)
    clk = vc[tid]
    if r is None:
        m.race[key] = (tid, clk, ()) if write else (-1, 0, ((tid, clk),))
        return
    wt, wc, reads = r
    if wt >= 0 and wt != tid and vc.get(wt, 0) < wc:
        raise Violation("data race", "%s of %s+%s by thread %s is not ordered after a write by "
                        "thread %s" % (what, o.name, off, t.name, m.ths[wt].name))
    if write:
        for rt, rc in reads:
            if rt != tid and vc.get(rt, 0) < rc:
                raise Violation("data race", "%s of %s+%s by thread %s is not ordered after a "
                                "read by thread %s" % (what, o.name, off, t.name,
                                                       m.ths[rt].name))
        m.race[key] = (tid, clk, ())
    else:
        for i, (rt, rc) in enumerate(reads):
            if rt == tid:
                if rc != clk:
                    m.race[key] = (wt, wc, reads[:i] + ((tid, clk),) + reads[i + 1:])
                return
        m.race[key] = (wt, wc, reads + ((tid, clk),))


def freed(eng, st, o):
    """deallocation conflicts with every access that does not happen before it"""
    m = st.mt
    t = m.ths[m.cur]
    for key in [k for k in m.race if k[0] == o.id]:
        wt, wc, reads = m.race.pop(key)
        for rt, rc in ((wt, wc),) + reads:
            if rt >= 0 and rt != t.tid and t.vc.get(rt, 0) < rc:
                raise Violation("data race", "%s is deallocated by thread %s while an access at "
                                "+%s by thread %s is not ordered before it"
                                % (o.name, t.name, key[1], m.ths[rt].name))
    # atomic accesses too
    for rt, rc in m.fin.pop(o.id, ()):
        if rt != t.tid and t.vc.get(rt, 0) < rc:
            raise Violation("data race", "%s is deallocated by thread %s while an atomic access "
                            "by thread %s is not ordered before it"
                            % (o.name, t.name, m.ths[rt].name))


def scope_end(eng, st, o):
    """a local variable dies: accesses by other threads must happen before"""
    m = st.mt
    if st.ghost:
        return
    if o.id in m.shared:
        freed(eng, st, o)


def atomic(eng, st, I, p, kind, order, val):
    """after an atomic operation.  kind: load, store, rmw (a successful update)"""
    m = st.mt
    if st.ghost:
        return
    t = m.ths[m.cur]
    key = (p.obj, p.off)
    tid = t.tid
    m.nsp += 1
    t.sp = False
    # plain accesses to an atomic location (construction, destruction) must be ordered
    r = m.race.get(key)
    if r is not None:
        wt, wc, reads = r
        if wt >= 0 and wt != tid and t.vc.get(wt, 0) < wc:
            raise Violation("data race", "atomic access to %s+%s by thread %s is not ordered "
                            "after a plain write by thread %s"
                            % (st.mem[p.obj].name, p.off, t.name, m.ths[wt].name))
    L = m.loc.get(key)
    acq = order in (4, 6, 7)
    rel = order in (5, 6, 7)
    if L and kind != "store":
        if acq:
            vcjoin(t.vc, L)
        else:
            vcjoin(t.pend, L)
    if m.own.setdefault(p.obj, tid) != tid:
        m.shared.add(p.obj)
    fa = m.fin.get(p.obj, ())
    m.fin[p.obj] = tuple(x for x in fa if x[0] != tid) + ((tid, t.vc[tid]),)
    pub = t.vc if rel else t.relf
    if kind == "store":
        m.loc[key] = dict(pub) if pub else {}
    elif kind in ("rmw", "rmwsame"):
        if kind == "rmwsame":
            t.vc[tid] += 1
        if pub:
            n = dict(L) if L else {}
            vcjoin(n, pub)
            m.loc[key] = n
    if kind not in ("load", "rmwsame"):
        # the next accesses are not covered by this release
        t.vc[tid] += 1
        progress(st)
        t.seen = {}
        t.yielded = False
    else:
        # a repeated look at an unchanged value is a spin
        k = (id(I), key, val if isinstance(val, (int, Ptr)) else None)
        c = t.seen.get(k, 0) + 1
        t.seen[k] = c
        if c >= 2 and len(m.ths) > 1:
            if t.grace > 0:
                t.grace -= 1
            else:
                do_yield(st)


def fence(eng, st, order):
    m = st.mt
    t = m.ths[m.cur]
    if order in (4, 6, 7):
        vcjoin(t.vc, t.pend)
    if order in (5, 6, 7):
        t.relf = dict(t.vc)
        t.vc[t.tid] += 1


# ---------------------------------------------------------------- thread creation
def new_thread(eng, st, name, push):
    if st.mt is None:
        start(eng, st)
    m = st.mt
    c = Ctx()
    c.tid = len(m.ths)
    c.name = name
    me = m.ths[m.cur]
    c.vc = dict(me.vc)
    c.vc[c.tid] = 1
    me.vc[me.tid] += 1
    save_frames = st.frames
    st.frames = []
    push()
    c.frames = st.frames
    st.frames = save_frames
    m.ths.append(c)
    progress(st)
    return c


@stub("vc_threads")
def vc_threads(eng, st, a, I, fn):
    if st.mt is None:
        start(eng, st)
    return None


@stub("vc_spawn")
def vc_spawn(eng, st, a, I, fn):
    c = new_thread(eng, st, eng.cstr(st, a[2]),
                   lambda: eng.push(st, eng.fnof(a[0]), [a[1]]))
    return c.tid


@stub("vc_join_all")
def vc_join_all(eng, st, a, I, fn):
    m = st.mt
    if m is None:
        return None
    t = m.ths[m.cur]
    if not all(u.status == "done" for u in m.ths if u is not t):
        block(st, "joinall", None)
    for u in m.ths:
        if u is not t:
            vcjoin(t.vc, u.vc)
    opdone(st)
    return None


@stub("vc_thread_id")
def vc_thread_id(eng, st, a, I, fn):
    return st.mt.ths[st.mt.cur].tid if st.mt else 0


@stub("vc_sched")
def vc_sched(eng, st, a, I, fn):
    """a schedule point without synchronisation: any thread may run here"""
    if st.mt is not None:
        if schedpoint(eng, st):
            raise Retry()
        opdone(st)
    return None


@stub("vc_await")
def vc_await(eng, st, a, I, fn):
    """block until *a[0] (a ghost flag of the contract) is non-zero; no synchronisation"""
    m = st.mt
    o, off = eng.access(st, a[0], 4, "read")
    v = eng.rawload(st, o, off, 4)
    if v == 0:
        if m is None:
            raise Undecided("vc_await without threads")
        block(st, "await", (o.id, off))
    return None


def thread_done(eng, st):
    m = st.mt
    t = m.ths[m.cur]
    t.status = "done"
    progress(st)
    m.resched = True
    raise Retry()


def start_std_thread(eng, st, state):
    """std::thread: runs state->_M_run() and then deletes the state"""
    vp = eng.load(st, state, _PT)
    dtor = eng.load(st, eng.padd(vp, 8), _PT)
    run = eng.load(st, eng.padd(vp, 16), _PT)

    def push():
        eng.push(st, eng.fnof(dtor), [state])
        eng.push(st, eng.fnof(run), [state], inject="call")
    n = len(st.mt.ths)
    c = new_thread(eng, st, "std::thread %d" % n, push)
    return c.tid


def mt_join(eng, st, tid):
    m = st.mt
    t = m.ths[m.cur]
    u = m.ths[tid]
    if u.status != "done":
        if u is t:
            raise Violation("progress", "a thread joins itself")
        block(st, "join", tid)
    vcjoin(t.vc, u.vc)
    opdone(st)


# ---------------------------------------------------------------- mutexes, condition variables
def mt_lock(eng, st, k):
    m = st.mt
    if schedpoint(eng, st):
        raise Retry()
    t = m.ths[m.cur]
    h = m.mtx.get(k)
    if h:
        if h == t.tid + 1:
            raise Violation("locking", "mutex is locked again by the thread that holds it")
        block(st, "mutex", k)
    acquire(m, t, k)
    opdone(st)


def acquire(m, t, k):
    m.mtx[k] = t.tid + 1
    L = m.loc.get(("m",) + k)
    if L:
        vcjoin(t.vc, L)
    t.seen = {}


def mt_trylock(eng, st, k):
    m = st.mt
    if schedpoint(eng, st):
        raise Retry()
    t = m.ths[m.cur]
    opdone(st)
    if m.mtx.get(k):
        return 16
    acquire(m, t, k)
    return 0


def mt_unlock(eng, st, k):
    m = st.mt
    t = m.ths[m.cur]
    if m.mtx.get(k) != t.tid + 1:
        raise Violation("locking", "unlock of a mutex that is not held")
    m.mtx[k] = 0
    m.loc[("m",) + k] = dict(t.vc)
    t.vc[t.tid] += 1
    t.seen = {}
    progress(st)


def mt_cv_wait(eng, st, cv, mtx, timed):
    """returns 0 notified, 110 timed out"""
    m = st.mt
    t = m.ths[m.cur]
    if t.ph is None:
        if m.mtx.get(mtx) != t.tid + 1:
            raise Violation("locking", "condition variable wait without holding the mutex")
        mt_unlock(eng, st, mtx)
        t.ph = ("waiting", cv)
        block(st, "cvt" if timed else "cv", cv)
    if m.mtx.get(mtx):
        block(st, "mutex", mtx)
    acquire(m, t, mtx)
    r = 110 if t.ph[0] == "timeout" else 0
    t.ph = None
    opdone(st)
    return r


def mt_notify(eng, st, cv, all_):
    m = st.mt
    ws = [t for t in m.ths if t.status in ("cv", "cvt", "futex") and t.on == cv]
    if not ws:
        return
    if not all_ and len(ws) > 1:
        k = eng.choose(st, len(ws))
        st.nondet.append(("woken", "choice", 32, ws[k].tid))
        ws = [ws[k]]
    for t in ws:
        t.status = "run"
        t.on = None
        t.ph = ("woken", cv)
    progress(st)


def mt_futex_wait(eng, st, key, p, val):
    m = st.mt
    t = m.ths[m.cur]
    if t.ph is not None:
        t.ph = None
        opdone(st)
        return 0
    if schedpoint(eng, st):
        raise Retry()
    o, off = eng.access(st, p, 4, "futex wait")
    v = eng.rawload(st, o, off, 4)
    if v != val:
        opdone(st)
        return 0
    t.seen = {}
    block(st, "futex", key)


def tls(eng, st, p):
    """address of this thread's copy of a thread-local variable"""
    m = st.mt
    if m is None or m.cur == 0:
        return p
    t = m.ths[m.cur]
    q = t.tls.get(p.obj)
    if q is None:
        st0 = eng.initial_globals(p.obj)
        n = eng.alloc(st, "tls", st0.size, st0.name, st0.align)
        o = eng.wobj(st, n.obj)
        o.cells = dict(st0.cells)
        o.fill = st0.fill
        q = t.tls[p.obj] = n.obj
    return Ptr(q, p.off)


class _T:
    pass


_PT = _T()
_PT.k, _PT.w, _PT.size = "p", 64, 8
