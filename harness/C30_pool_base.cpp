// thread_pool_base: senders of a pool that somebody else supplies
#include "lib.h"
#include <exec/thread_pool_base.hpp>
using namespace vt;

namespace {
// a pool that only promises to run what is enqueued, once, with the given id
struct pool_t : exec::thread_pool_base<pool_t> {
  struct job { exec::_pool_::task_base* t; uint32_t tid; };
  job jobs[8];
  unsigned n = 0, total = 0;
  uint32_t par = 1;
  bool immediate = false;
  bool* gone = nullptr;
  ntok self{9};
  auto available_parallelism() const noexcept -> uint32_t { self.check(); return par; }
  static constexpr auto forward_progress_guarantee() noexcept { return ex::forward_progress_guarantee::concurrent; }
  void enqueue(exec::_pool_::task_base* t, uint32_t tid = 0) noexcept {
    self.check();
    ++total;
    vc_assert(total <= 8, "no more tasks are enqueued than asked for");
    if (immediate) return t->execute_(t, tid);
    jobs[n++] = {t, tid};
  }
  void run() {
    while (n) {
      unsigned i = vc_choice(n, "job");
      job j = jobs[i];
      jobs[i] = jobs[--n];
      j.t->execute_(j.t, j.tid);
    }
  }
  // a stop may be requested between jobs
  void run_with_stop() {
    if (vc_bool("stop before")) ask_stop();
    run();
  }
};
pool_t* pool;
void begin(uint32_t par = 1) {
  pool = new pool_t;
  pool->par = par;
  pool->immediate = vc_bool("the pool runs tasks at once");
}
void over() {
  vc_assert(pool->n == 0, "nothing is left in the pool");
  delete pool;
}
}  // namespace

PROOF(schedule) {
  begin();
  vc_assert(launch(ex::schedule(pool->get_scheduler()), rcvr<>{}), "connect does not throw");
  vc_assert(pool->total == 1, "one task per operation");
  if (!pool->immediate) vc_assert(out.n == 0, "the operation completes when the pool runs it");
  pool->run();
  finished();
  vc_assert(out.kind == VALUE, "scheduling completes with a value");
  over();
  all_destroyed();
}
PROOF(schedule_stop) {
  begin();
  auto r = stop_rcvr();
  vc_assert(launch(ex::schedule(pool->get_scheduler()), r), "connect does not throw");
  if (pool->immediate) { vc_assert(out.kind == VALUE, "no stop was requested"); }
  else {
    pool->run_with_stop();
    vc_assert(out.kind == (stop_asked ? STOPPED : VALUE), "a stop request makes the operation complete with stopped");
  }
  finished();
  stop_done();
  over();
  all_destroyed();
}
PROOF(attributes) {
  begin();
  auto sch = pool->get_scheduler();
  pool_t other;
  auto s = ex::schedule(sch);
  auto e = ex::get_env(s);
  vc_assert(ex::get_completion_scheduler<ex::set_value_t>(e) == sch, "the completion scheduler is the scheduler");
  vc_assert(!(sch == other.get_scheduler()), "schedulers of different pools differ");
  vc_assert(ex::get_forward_progress_guarantee(sch) == ex::forward_progress_guarantee::concurrent, "the pool's guarantee is forwarded");
  over();
}

// ------------------------------------------------------------------ bulk
namespace {
// values have to be default constructible
struct dtok : tok { dtok() noexcept : tok(0) {} using tok::tok; };
struct dntok : ntok { dntok() noexcept : ntok(0) {} using ntok::ntok; };
uint32_t lo[8], hi[8];
unsigned chunks = 0;
dtok const * arg = nullptr;
struct fun {
  tok state{31};
  template <class N>
  void operator()(N b, N e, dtok& t) const {
    vc_assert(state.get() == 31, "the function is intact");
    vc_assert(t.get() == 77, "the function sees the value that was sent");
    vc_assert(!arg || arg == &t, "all calls share one value");
    arg = &t;
    vc_assert(chunks < 8, "no more chunks than agents");
    lo[chunks] = b;
    hi[chunks] = e;
    ++chunks;
    if (throws_left) maybe_throw("function throws");
  }
};
// whether x lies in exactly one chunk
void covered(uint32_t x, uint32_t n) {
  unsigned k = 0;
  for (unsigned i = 0; i < chunks; ++i) {
    vc_assert(lo[i] < hi[i] && hi[i] <= n, "chunks are not empty and lie within the shape");
    k += lo[i] <= x && x < hi[i];
  }
  vc_assert(k == 1, "every index lies in exactly one chunk");
}
template <class N> auto work(N n) {
  return ex::bulk_chunked(ex::then(ex::schedule(pool->get_scheduler()), []() noexcept { return dtok(77); }), ex::par, n, fun{});
}
template <class N> void over_shape(uint32_t par) {
  begin(par);
  N n = (N)vc_u8("shape");
  uint32_t x = vc_u8("index");
  vc_assume(x < (uint32_t)n);
  vc_assert(launch(work(n), rcvr<>{}), "connect does not throw");
  pool->run();
  finished();
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == 77, "the value that was sent is passed on");
  covered(x, n);
  vc_assert(chunks == (n < par ? n : par), "as many agents as the pool has, and no more than there is work");
  over();
  all_destroyed();
}
}  // namespace
PROOF(bulk_1) { over_shape<uint8_t>(1); }
PROOF(bulk_2) { over_shape<uint8_t>(2); }
PROOF(bulk_3) { over_shape<uint16_t>(3); }
PROOF(bulk_signed) {
  begin(2);
  int n = 1 + (int)vc_choice(5, "shape");
  vc_assert(launch(work(n), rcvr<>{}), "connect does not throw");
  pool->run();
  finished();
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == 77, "the value that was sent is passed on");
  for (int x = 0; x < n; ++x) covered(x, n);
  over();
  all_destroyed();
}
PROOF(bulk_none) {
  begin(2);
  vc_assert(launch(work(0u), rcvr<>{}), "connect does not throw");
  pool->run();
  finished();
  vc_assert(out.kind == VALUE && out.v[0] == 77 && chunks == 0, "an empty shape calls nothing and passes the value on");
  over();
  all_destroyed();
}
// throwing: copies of the function, moves of the value, the function itself
PROOF(bulk_throws) {
  begin(2);
  throws_left = vc_choice(3, "throws");
  bool ok = go([] { return work(3u); });
  if (!ok) {
    vc_cover("connect throws");
    over();
    return aborted();
  }
  unsigned before = thrown_count;
  pool->run();
  finished();
  vc_assert(out.kind == (thrown_count ? ERROR : VALUE), "a throw ends in an error, nothing else does");
  if (out.kind == VALUE) vc_assert(chunks == 2, "every chunk is run");
  else { vc_cover("throws"); vc_assert(out.err == 2, "the error is the exception"); }
  if (thrown_count > before) vc_cover("function throws");
  over();
  all_destroyed();
}
PROOF(bulk_copy) {
  begin(2);
  throws_left = 1;
  bool ok = go_copy([] { return work(3u); });
  if (!ok) {
    vc_cover("connect throws");
    over();
    return aborted();
  }
  pool->run();
  finished();
  vc_assert(out.kind == (thrown_count ? ERROR : VALUE), "a throw ends in an error, nothing else does");
  over();
  all_destroyed();
}
// of several exceptions the first is delivered
namespace {
unsigned first_thrown = 0, thrown_n = 0;
struct fails {
  void operator()(uint32_t b, uint32_t e, dntok& t) const {
    vc_assert(t.get() == 77, "the function sees the value that was sent");
    lo[chunks] = b;
    hi[chunks] = e;
    ++chunks;
    if (vc_bool("throws")) {
      if (thrown_n++ == 0) first_thrown = 50 + b;
      throw thrown{50 + b};
    }
  }
};
}  // namespace
PROOF(bulk_first_exception) {
  begin(3);
  vc_assert(launch(ex::bulk_chunked(ex::then(ex::schedule(pool->get_scheduler()), []() noexcept { return dntok(77); }), ex::par, 6u, fails{}), rcvr<>{}),
            "connect does not throw");
  pool->run();
  finished();
  vc_assert(out.kind == (thrown_n ? ERROR : VALUE), "a throw ends in an error, nothing else does");
  for (uint32_t x = 0; x < 6; ++x) covered(x, 6);
  if (thrown_n) vc_assert(out.err == 2 && out.v[0] == first_thrown, "the first exception is delivered");
  if (thrown_n > 1) vc_cover("several exceptions");
  over();
  all_destroyed();
}
// the child's other completions pass through
namespace {
struct pool_attrs {
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return pool->get_scheduler(); }
  auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept -> pool_t::domain { return {}; }
};
struct vfun {
  template <class N> void operator()(N b, N e, dntok& t) const noexcept {
    vc_assert(t.get() == kids[0].v, "the function sees the value that was sent");
    lo[chunks] = b;
    hi[chunks] = e;
    ++chunks;
  }
};
}  // namespace
PROOF(bulk_channels) {
  begin(2);
  bool ok = go([] {
    return ex::bulk_chunked(tchild<0, sigs<ex::set_value_t(dntok), E<etok>, S>, true, pool_attrs>{}, ex::par, 2u, vfun{});
  });
  vc_assert(ok, "connect does not throw");
  drain();
  pool->run();
  finished();
  vc_assert(out.kind == kids[0].kind, "the child's channel is kept");
  if (out.kind != STOPPED) vc_assert(out.v[0] == kids[0].v, "what it sent is delivered");
  vc_assert(chunks == (out.kind == VALUE ? 2 : 0), "the function runs for values only");
  if (out.kind == VALUE) vc_cover("value");
  if (out.kind == ERROR) vc_cover("error");
  if (out.kind == STOPPED) vc_cover("stopped");
  over();
  all_destroyed();
}
// a noexcept function does not let the operation fail, one that may throw does -- whatever else the
// function may be called with
namespace {
struct chunk_overloads {
  void operator()(uint32_t, dntok&) const noexcept { vc_assert(false, "not a call with a chunk"); }
  void operator()(uint32_t b, uint32_t e, dntok& t) const {
    vc_assert(t.get() == 77, "the function sees the value that was sent");
    lo[chunks] = b;
    hi[chunks] = e;
    ++chunks;
    if (throws_left) maybe_throw("function throws");
  }
};
struct vfun77 {
  void operator()(uint32_t b, uint32_t e, dntok& t) const noexcept {
    vc_assert(t.get() == 77, "the function sees the value that was sent");
    lo[chunks] = b;
    hi[chunks] = e;
    ++chunks;
  }
};
template <class F> auto nwork() {
  return ex::bulk_chunked(ex::then(ex::schedule(pool->get_scheduler()), []() noexcept { return dntok(77); }), ex::par, 4u, F{});
}
}
PROOF(bulk_overloads) {
  begin(2);
  throws_left = 1;
  vc_assert(launch(nwork<chunk_overloads>(), rcvr<>{}), "connect does not throw");
  pool->run();
  finished();
  vc_assert(out.kind == (thrown_count ? ERROR : VALUE), "a throw ends in an error, nothing else does");
  if (out.kind == ERROR) { vc_cover("throws"); vc_assert(out.err == 2, "the error is the exception"); }
  over();
  all_destroyed();
}
PROOF(bulk_nothrow) {
  begin(2);
  auto s = ex::bulk_chunked(ex::then(ex::schedule(pool->get_scheduler()), []() noexcept { return dntok(77); }), ex::par, 4u, vfun77{});
  vc_assert(launch(std::move(s), rcvr<>{}), "connect does not throw");
  pool->run();
  finished();
  vc_assert(out.kind == VALUE && out.v[0] == 77, "the value that was sent is passed on");
  for (uint32_t x = 0; x < 4; ++x) covered(x, 4);
  over();
  all_destroyed();
}

// agents on different threads
namespace {
std::atomic<int> parts{0};
unsigned ran[4];
bool bad = false;
template <bool Nx> struct pfun {
  void operator()(uint32_t b, uint32_t e, dntok& t) const noexcept(Nx) {
    vc_assert(t.get() == 77, "the function sees the value that was sent");
    for (uint32_t i = b; i < e; ++i) ++ran[i];  // unsynchronised: each index belongs to one agent
    parts.fetch_add(1, std::memory_order_relaxed);
    if constexpr (!Nx) if (bad && b == 0) throw thrown{5};
  }
};
void run_job(void* p) { auto* j = static_cast<pool_t::job*>(p); j->t->execute_(j->t, j->tid); }
template <bool Nx> void concurrent() {
  begin(3);
  pool->immediate = false;
  on_complete = [] { vc_assert(parts.load(std::memory_order_relaxed) == 3, "completion comes after every chunk");
    if (out.kind == VALUE) vc_assert(ran[0] == 1 && ran[1] == 1 && ran[2] == 1 && ran[3] == 1, "every index is run once"); };
  vc_assert(launch(ex::bulk_chunked(ex::then(ex::schedule(pool->get_scheduler()), []() noexcept { return dntok(77); }), ex::par, 4u, pfun<Nx>{}), rcvr<>{}),
            "connect does not throw");
  pool_t::job first = pool->jobs[0];
  pool->n = 0;
  first.t->execute_(first.t, first.tid);
  vc_assert(pool->n == 3, "three agents");
  vc_spawn(run_job, &pool->jobs[0], "agent 1");
  vc_spawn(run_job, &pool->jobs[1], "agent 2");
  run_job(&pool->jobs[2]);
  vc_join_all();
  pool->n = 0;
  finished();
  vc_assert(out.kind == (bad ? ERROR : VALUE), "an exception is reported");
  if (out.kind == VALUE) vc_assert(out.v[0] == 77, "the value is passed on");
  over();
  all_destroyed();
}
}  // namespace
//@proofopt agents preemptions=2
PROOF(agents) { vc_threads(); concurrent<false>(); }
//@proofopt agents_nothrow preemptions=2
PROOF(agents_nothrow) { vc_threads(); concurrent<true>(); }
//@proofopt agents_throw preemptions=2
PROOF(agents_throw) { vc_threads(); bad = true; concurrent<false>(); }
