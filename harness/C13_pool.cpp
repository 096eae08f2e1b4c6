// static_thread_pool: every task runs once, on a thread of the pool, and none is forgotten
#include "lib.h"
#include <exec/static_thread_pool.hpp>
using namespace vt;
using pool_t = exec::static_thread_pool;
namespace {
constexpr int NR = 4;
std::atomic<int> done[NR]{};
struct rec_t { int ran = 0, stopped = 0; unsigned tid = 0; int payload = 0; void (*then)() = nullptr; };
rec_t rec[NR];
unsigned main_tid;
template <int I, class Env = ex::env<>>
struct prcvr {
  using receiver_concept = ex::receiver_t;
  Env e{};
  void fin() noexcept {
    vc_assert(rec[I].ran + rec[I].stopped == 1, "each operation is completed once");
    rec[I].tid = vc_thread_id();
    vc_assert(rec[I].tid != main_tid, "an operation completes on a thread of the pool");
    if (rec[I].then) rec[I].then();
    done[I].store(1, std::memory_order_release);
  }
  void set_value() noexcept { ++rec[I].ran; vc_assert(rec[I].payload == 5, "what was written before start is seen"); fin(); }
  void set_stopped() noexcept { ++rec[I].stopped; fin(); }
  Env get_env() const noexcept { return e; }
};
void await(int i) { vc_await((int const *)&done[i]); (void)done[i].load(std::memory_order_acquire); }
template <int I, class Sch, class Env = ex::env<>>
struct opr {
  ex::connect_result_t<decltype(ex::schedule(std::declval<Sch>())), prcvr<I, Env>> op;
  static inline opr* cur = nullptr;
  explicit opr(Sch s, Env e = {}) : op(ex::connect(ex::schedule(s), prcvr<I, Env>{e})) { cur = this; }
  void go() { rec[I].payload = 5; ex::start(op); }
};
using sch_t = decltype(std::declval<pool_t&>().get_scheduler());
void begin() { vc_threads(); main_tid = vc_thread_id(); }
void fini() { vc_no_leaks("all memory is released"); }
}  // namespace

//@proofopt one_thread preemptions=2
PROOF(one_thread) {
  begin();
  {
    pool_t pool(1, exec::bwos_params{2, 1});
    opr<0, sch_t> a(pool.get_scheduler());
    opr<1, sch_t> b(pool.get_scheduler());
    a.go();
    b.go();
    await(1);
    await(0);
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1, "every operation runs exactly once");
  fini();
}
//@proofopt sleeping_wakes preemptions=2
// one operation after the other: the thread may have gone to sleep in between
PROOF(sleeping_wakes) {
  begin();
  {
    pool_t pool(1, exec::bwos_params{2, 1});
    opr<0, sch_t> a(pool.get_scheduler());
    a.go();
    await(0);
    opr<1, sch_t> b(pool.get_scheduler());
    b.go();
    await(1);
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1, "every operation runs exactly once");
  fini();
}
namespace { void start1() { opr<1, sch_t>::cur->go(); } void start2() { opr<2, sch_t>::cur->go(); } void start12() { start1(); start2(); } }
//@proofopt from_inside preemptions=1
// operations started by a task of the pool go to its own queue
PROOF(from_inside) {
  begin();
  {
    pool_t pool(1, exec::bwos_params{2, 1});
    opr<0, sch_t> a(pool.get_scheduler());
    opr<1, sch_t> b(pool.get_scheduler());
    opr<2, sch_t> c(pool.get_scheduler());
    rec[0].then = start12;
    a.go();
    await(1);
    await(2);
    await(0);
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1 && rec[2].ran == 1, "every operation runs exactly once");
  fini();
}
//@proofopt two_threads preemptions=1
PROOF(two_threads) {
  begin();
  {
    pool_t pool(2, exec::bwos_params{2, 1});
    opr<0, sch_t> a(pool.get_scheduler());
    opr<1, sch_t> b(pool.get_scheduler());
    a.go();
    b.go();
    await(1);
    await(0);
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1, "every operation runs exactly once");
  fini();
}
//@proofopt steal preemptions=0
PROOF(steal) {
  begin();
  {
    pool_t pool(2, exec::bwos_params{2, 1});
    opr<0, sch_t> a(pool.get_scheduler());
    opr<1, sch_t> b(pool.get_scheduler());
    opr<2, sch_t> c(pool.get_scheduler());
    rec[0].then = start12;
    a.go();
    await(1);
    await(2);
    await(0);
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1 && rec[2].ran == 1, "every operation runs exactly once");
  fini();
}
namespace { std::atomic<int> started0{0}; }
//@proofopt two_starters preemptions=2
// two threads outside the pool start operations on the same thread of the pool
PROOF(two_starters) {
  begin();
  {
    pool_t pool(1, exec::bwos_params{2, 1});
    auto s = pool.get_scheduler();
    opr<0, sch_t> a(s);
    opr<1, sch_t> b(s);
    vc_spawn([](void*) { opr<0, sch_t>::cur->go(); started0.store(1, std::memory_order_release); }, nullptr, "starter");
    b.go();
    await(0);
    await(1);
    vc_await((int const *)&started0);   // start() has returned
    (void)started0.load(std::memory_order_acquire);
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1, "every operation runs exactly once");
  fini();
}
//@proofopt stoppable preemptions=1
PROOF(stoppable) {
  begin();
  {
    ex::inplace_stop_source s;
    pool_t pool(1, exec::bwos_params{2, 1});
    opr<0, sch_t, stop_env> a(pool.get_scheduler(), stop_env{s.get_token()});
    bool before = vc_bool("stop before start");
    if (before) s.request_stop();
    a.go();
    if (!before && vc_bool("stop after start")) s.request_stop();
    await(0);
    vc_assert(rec[0].ran + rec[0].stopped == 1, "completed exactly once");
    if (before) vc_assert(rec[0].stopped == 1, "stopped when stop was requested before it runs");
    if (!s.stop_requested()) vc_assert(rec[0].ran == 1, "not stopped without a request");
    if (rec[0].stopped) vc_cover("stopped"); else vc_cover("ran");
  }
  fini();
}
//@proofopt on_thread preemptions=1
// a scheduler for one thread of the pool
PROOF(on_thread) {
  begin();
  {
    pool_t pool(2, exec::bwos_params{2, 1});
    opr<0, sch_t> a(pool.get_scheduler_on_thread(1));
    a.go();
    await(0);
    vc_assert(rec[0].ran == 1, "every operation runs exactly once");
  }
  fini();
}

// threads on two NUMA nodes, and schedulers constrained to some nodes or to none
namespace {
struct two_nodes {
  std::size_t num_nodes() const noexcept { return 2; }
  std::size_t num_cpus(int) const noexcept { return 1; }
  int bind_to_node(int) const noexcept { return 0; }
  int thread_index_to_node(std::size_t i) const noexcept { return (int)(i & 1); }
};
using csch_t = decltype(std::declval<pool_t&>().get_constrained_scheduler(nullptr));
}
//@proofopt constrained preemptions=0
PROOF(constrained) {
  begin();
  {
    pool_t pool(2, exec::bwos_params{2, 1}, exec::numa_policy{two_nodes{}});
    exec::nodemask mask{};
    bool some = vc_bool("first node");
    if (some) mask.set(0);
    auto s = pool.get_constrained_scheduler(&mask);
    opr<0, csch_t> a(s);
    opr<1, csch_t> b(s);
    rec[0].then = start1;
    a.go();
    await(1);
    await(0);
    vc_cover("done");
  }
  vc_assert(rec[0].ran == 1 && rec[1].ran == 1, "every operation runs exactly once");
  fini();
}

// ------------------------------------------------------------------ bulk on the pool
namespace {
constexpr int SH = 4;
std::atomic<int> calls[SH]{};
int payload_calls[SH];
int throw_at = -1;
std::atomic<int> bthrown{0};
struct brcvr {
  using receiver_concept = ex::receiver_t;
  template <class... As> void set_value(As&&... as) noexcept { first_completion(); out.kind = VALUE; out.nv = sizeof...(As); int i = 0; ((out.v[i++] = idof(as)), ...); done[0].store(1, std::memory_order_release); }
  template <class X> void set_error(X&& e) noexcept { first_completion(); out.kind = ERROR; out.err = 1; out.v[0] = idof(e); done[0].store(1, std::memory_order_release); }
  void set_stopped() noexcept { first_completion(); out.kind = STOPPED; done[0].store(1, std::memory_order_release); }
  ex::env<> get_env() const noexcept { return {}; }
};
struct body {
  void operator()(int i, ntok& t) const {
    vc_assert(i >= 0 && i < SH, "an index of the shape");
    vc_assert(calls[i].fetch_add(1, std::memory_order_relaxed) == 0, "each index is visited once");
    vc_assert(t.get() == 31, "with the values that were sent");
    payload_calls[i] = 1;
    if (i == throw_at) { bthrown.fetch_add(1); throw thrown{(uint32_t)(500 + i)}; }
  }
};
struct nbody {
  void operator()(int i, ntok& t) const noexcept {
    vc_assert(i >= 0 && i < SH, "an index of the shape");
    vc_assert(calls[i].fetch_add(1, std::memory_order_relaxed) == 0, "each index is visited once");
    vc_assert(t.get() == 31, "with the values that were sent");
    payload_calls[i] = 1;
  }
};
template <class B, class Pol> void run_bulk(unsigned threads, int shape, Pol pol) {
  begin();
  {
    pool_t pool(threads, exec::bwos_params{2, 1});
    auto op = ex::connect(ex::schedule(pool.get_scheduler()) | ex::then([]() noexcept { return ntok(31); })
                            | ex::bulk_unchunked(pol, shape, B{}), brcvr{});
    ex::start(op);
    await(0);
    if (throw_at >= 0 && throw_at < shape) {
      vc_cover("threw");
      vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == 500u + throw_at, "an exception is delivered as that error");
      int n = 0;
      for (int i = 0; i < SH; ++i) n += calls[i].load();
      vc_assert(n <= shape && bthrown.load() == 1, "nothing is visited twice");
    } else {
      vc_cover("done");
      vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == 31, "the values are passed on");
      for (int i = 0; i < SH; ++i) {
        vc_assert(calls[i].load() == (i < shape), "every index is visited exactly once");
        vc_assert(payload_calls[i] == (i < shape), "the effects of all calls are visible at completion");
      }
    }
  }
  vc_assert(live == 0, "every value is destroyed");
  fini();
}
}  // namespace
//@proofopt bulk_par_one preemptions=1
PROOF(bulk_par_one) { run_bulk<nbody>(1, (int)vc_choice(4, "shape"), ex::par); }
//@proofopt bulk_par_two preemptions=0
PROOF(bulk_par_two) { run_bulk<nbody>(2, (int)vc_choice(5, "shape"), ex::par); }
//@proofopt bulk_par_throws preemptions=0
PROOF(bulk_par_throws) { throw_at = (int)vc_choice(3, "throws at"); run_bulk<body>(2, 3, ex::par); }
//@proofopt bulk_seq preemptions=0
PROOF(bulk_seq) { throw_at = (int)vc_choice(4, "throws at"); run_bulk<body>(2, 3, ex::seq); }
// ------------------------------------------------------------------ shares
namespace {
template <class Sh> void share(uint32_t size, uint32_t r, Sh n) {
  auto [b, e] = exec::_pool_::even_share(n, r, size);
  vc_assert(b >= 0 && b <= e && e <= n, "a share lies within the shape");
  if (r == 0) vc_assert(b == 0, "the first share starts at zero");
  else { auto p = exec::_pool_::even_share(n, r - 1, size); vc_assert(p.second == b, "a share starts where the one before ends"); }
  if (r == size - 1) vc_assert(e == n, "the last share ends with the shape");
}
}
PROOF(even_share_u8) {
  uint32_t size = vc_choice(64, "size") + 1, r = vc_u32("rank");
  vc_assume(r < size);
  share<uint8_t>(size, r, vc_u8("shape"));
}
PROOF(even_share_i32) {
  uint32_t size = vc_choice(16, "size") + 1, r = vc_choice(16, "rank");
  vc_assume(r < size);
  int n = (int)vc_u32("shape");
  vc_assume(n >= 0);
  share<int>(size, r, n);
}
PROOF(even_share_u64) {
  uint32_t size = vc_choice(8, "size") + 1, r = vc_choice(8, "rank");
  vc_assume(r < size);
  share<uint64_t>(size, r, vc_u64("shape"));
}
//@proofopt bulk_negative preemptions=0
PROOF(bulk_negative) { run_bulk<nbody>(1, -1 - (int)vc_choice(2, "shape"), ex::par); }
