// parallel_scheduler: schedule() and bulk on an arbitrary backend
#include "lib.h"
#include <memory>
using namespace vt;
namespace repl = ex::parallel_scheduler_replacement;

namespace {
// An arbitrary backend.  It may use the scratch space from when it is given until it completes, may
// complete at once or later, executes the items in any partition and order, and completes once.
struct backend : repl::parallel_scheduler_backend {
  tok guard{90};
  void schedule(repl::receiver_proxy& r, std::span<std::byte> s) noexcept override;
  void schedule_bulk_chunked(std::size_t n, repl::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override;
  void schedule_bulk_unchunked(std::size_t n, repl::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept override;
};
std::shared_ptr<backend> the_backend;
int scheduled;
std::size_t items;
bool chunked, only_value, serial;
repl::receiver_proxy* proxy;
repl::bulk_item_receiver_proxy* bproxy;
std::span<std::byte> scratch;
bool threads;   // the two items run on two threads
int how;   // the channel the backend used
constexpr int MAXN = 4;
int visited[MAXN + 1];
kid_t& k = kids[0];

void use_scratch() {
  if (scratch.size() >= 16) {
    for (int i = 0; i < 16; ++i) scratch[i] = std::byte(0xA5);
    scratch[scratch.size() - 1] = std::byte(0xA5);
  }
}
void scratch_intact() {
  if (scratch.size() >= 16) {
    for (int i = 0; i < 16; ++i) vc_assert(scratch[i] == std::byte(0xA5), "the scratch space belongs to the backend");
    vc_assert(scratch[scratch.size() - 1] == std::byte(0xA5), "the scratch space belongs to the backend");
  }
}
void backend_completes() {
  if (threads) {
    vc_spawn([](void*) { bproxy->execute(0, 1); }, nullptr, "agent");
    bproxy->execute(1, 2);
    vc_join_all();
  } else if (bproxy) {
    if (chunked) {
      std::size_t b = 0;
      while (b < items) {
        std::size_t e = b + 1 + vc_choice(items - b, "chunk");
        bproxy->execute(b, e);
        scratch_intact();
        b = e;
      }
    } else {
      bool up = vc_bool("ascending");
      for (std::size_t i = 0; i < items; ++i) {
        std::size_t j = up ? i : items - 1 - i;
        bproxy->execute(j, j + 1);
        scratch_intact();
      }
    }
  }
  scratch_intact();
  how = only_value ? VALUE : VALUE + (int)vc_choice(3, "backend completes with");
  repl::receiver_proxy* p = bproxy ? bproxy : proxy;
  proxy = nullptr;
  bproxy = nullptr;
  if (how == VALUE) p->set_value();
  else if (how == ERROR) p->set_error(std::make_exception_ptr(thrown{77}));
  else p->set_stopped();
}
void begin(std::span<std::byte> s) {
  ++scheduled;
  scratch = s;
  use_scratch();
  if (!vc_choice(2, "backend completes later")) backend_completes();
}
void backend::schedule(repl::receiver_proxy& r, std::span<std::byte> s) noexcept {
  guard.check();
  proxy = &r;
  begin(s);
}
void backend::schedule_bulk_chunked(std::size_t n, repl::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept {
  guard.check();
  bproxy = &r;
  items = n;
  chunked = true;
  begin(s);
}
void backend::schedule_bulk_unchunked(std::size_t n, repl::bulk_item_receiver_proxy& r, std::span<std::byte> s) noexcept {
  guard.check();
  bproxy = &r;
  items = n;
  chunked = false;
  begin(s);
}
void later() {
  drain();
  if (proxy || bproxy) backend_completes();
}
}  // namespace
namespace STDEXEC::parallel_scheduler_replacement {
auto query_parallel_scheduler_backend() -> std::shared_ptr<parallel_scheduler_backend> { return the_backend; }
}
namespace {
ex::parallel_scheduler sched() {
  if (!the_backend) the_backend = std::make_shared<backend>();
  return ex::get_parallel_scheduler();
}
void released() {
  vc_assert(the_backend.use_count() == 1, "the operation gives back its share of the backend");
  the_backend.reset();
}
// a stop token that the scheduler does not know
struct other_token {
  ex::inplace_stop_token t;
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(other_token const &) const noexcept = default;
  template <class F> using callback_type = ex::inplace_stop_callback<F>;
  operator ex::inplace_stop_token() const noexcept { return t; }
};
struct other_env {
  ex::inplace_stop_token t;
  auto query(ex::get_stop_token_t) const noexcept -> other_token { return {t}; }
};
bool backend_sees_stop() {
  repl::receiver_proxy* p = bproxy ? bproxy : proxy;
  auto t = p->try_query<ex::inplace_stop_token>(ex::get_stop_token);
  vc_assert(t.has_value(), "the backend can ask for the stop token");
  return t->stop_requested();
}
template <class R>
void schedule_with(R r) {
  bool early = src && stop_before();
  if (!go([] { return ex::schedule(sched()); }, r)) return vc_fail("connect does not throw");
  if (proxy && src) {
    vc_cover("stop while scheduled");
    vc_assert(!backend_sees_stop(), "no stop was requested");
    ask_stop();
    vc_assert(backend_sees_stop(), "a stop request reaches the backend");
  }
  later();
  finished();
  if (early) {
    vc_assert(scheduled == 0 && out.kind == STOPPED, "nothing is scheduled when a stop was requested before");
  } else {
    vc_assert(scheduled == 1, "the backend is asked once");
    vc_assert(out.kind == how, "the result of the backend is delivered");
    if (how == ERROR) vc_assert(out.err == 2 && out.v[0] == 77, "the error of the backend is delivered unchanged");
  }
  released();
  if (src) stop_done();
  all_destroyed();
}
}  // namespace
PROOF(schedule) { schedule_with(rcvr<>{}); }
PROOF(schedule_stoppable) { schedule_with(stop_rcvr()); }
PROOF(schedule_other_token) {
  src = new ex::inplace_stop_source;
  schedule_with(rcvr<other_env>{other_env{src->get_token()}});
}
PROOF(schedule_copy) {
  if (!go_copy([] { return ex::schedule(sched()); })) return vc_fail("connect does not throw");
  later();
  finished();
  vc_assert(scheduled == 1 && out.kind == how, "the result of the backend is delivered");
  released();
  all_destroyed();
}
PROOF(schedule_unstarted) {
  {
    auto op = ex::connect(ex::schedule(sched()), rcvr<>{});
    (void)op;
  }
  vc_assert(scheduled == 0 && out.n == 0, "nothing happens before start");
  released();
  all_destroyed();
}
PROOF(properties) {
  {
    auto s = sched(), t = sched();
    vc_assert(s == t && !(s != t), "schedulers of one backend are equal");
    auto c = s;
    vc_assert(c == s, "a copy is equal");
    vc_assert(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(s))) == s, "schedule() completes on its scheduler");
  }
  released();
  all_destroyed();
}

// ------------------------------------------------------------------ bulk
namespace {
struct attrs {
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return ex::get_parallel_scheduler(); }
  auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept { return ex::__parallel_scheduler_domain{}; }
};
struct each {
  ntok guard{4};
  template <class T>
  void operator()(uint64_t i, T& t) {
    guard.check();
    vc_assert(i < MAXN, "only indices below the shape are visited");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    maybe_throw("f throws");
    ++visited[i];
  }
};
struct chunk {
  ntok guard{4};
  template <class T>
  void operator()(uint64_t b, uint64_t e, T& t) {
    guard.check();
    vc_assert(b <= e && e <= MAXN, "only indices below the shape are visited");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    maybe_throw("f throws");
    for (; b < e; ++b) ++visited[b];
  }
};
[[gnu::noinline]] void threw() { vc_cover("threw"); }
template <class F>
struct nx : F {
  template <class... A> void operator()(A&&... a) noexcept { F::operator()(a...); }
};
template <class T, class Sigs, class Mk>
void bulk(Mk mk, int throws, bool parallel) {
  int n = vc_choice(MAXN + 1, "shape");
  sched();
  throws_left = throws;
  bool ok = go([&] { return child<0, Sigs, true, attrs>{} | mk(n); });
  if (ok) later();
  else { the_backend.reset(); return aborted(); }
  throws_left = 0;
  finished();
  if (k.kind != VALUE) {
    vc_assert(scheduled == 0, "the backend is not asked for another channel");
    vc_assert(out.kind == k.kind, "errors and stopped pass through");
    if (k.kind == ERROR) vc_assert(out.v[0] == k.v, "errors pass through unchanged");
  } else {
    for (int i = 0; i <= MAXN; ++i) {
      vc_assert(visited[i] <= (i < n), "every index is visited at most once");
      if (!thrown_count) vc_assert(visited[i] == (i < n), "every index below the shape is visited");
    }
    if (thrown_count && (scheduled == 0 || how == VALUE)) {
      threw();
      vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] > 1000 && out.v[0] <= 1000u + (uint32_t)thrown_count, "an exception is delivered as set_error with that exception");
    } else {
      vc_assert(scheduled == 1, "the backend is asked once");
      if (!parallel) vc_assert(items <= 1, "without a parallel policy the backend runs a single agent");
      if (how == VALUE) vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "the child's values are delivered unchanged");
      else {
        vc_assert(out.kind == how || (thrown_count && out.kind == ERROR), "the result of the backend is delivered");
        if (how == ERROR && !thrown_count) vc_assert(out.err == 2 && out.v[0] == 77, "the error of the backend is delivered unchanged");
      }
    }
  }
  released();
  all_destroyed();
}
using all_sigs = sigs<V<ntok>, E<etok>, S>;
using val_sigs = sigs<V<ntok>>;
using tok_sigs = sigs<V<tok>>;
}  // namespace
//@proofopt bulk_par bounded="shapes up to 4"
//@proofopt bulk_chunked_par bounded="shapes up to 4"
//@proofopt bulk_unchunked_par bounded="shapes up to 4"
//@proofopt bulk_seq bounded="shapes up to 4"
//@proofopt bulk_chunked_seq bounded="shapes up to 4"
//@proofopt bulk_unchunked_unseq bounded="shapes up to 4"
//@proofopt bulk_throws bounded="shapes up to 4"
//@proofopt bulk_chunked_throws bounded="shapes up to 4"
//@proofopt bulk_unchunked_throws bounded="shapes up to 4"
//@proofopt bulk_seq_throws bounded="shapes up to 4"
//@proofopt bulk_values_throw bounded="shapes up to 4"
//@proofopt bulk_connect_throws bounded="shapes up to 4"
//@proofopt bulk_copies_throw bounded="shapes up to 4"
//@proofopt bulk_stop bounded="shapes up to 4"
PROOF(bulk_par) { bulk<ntok, all_sigs>([](int n) { return ex::bulk(ex::par, n, nx<each>{}); }, 0, true); }
PROOF(bulk_chunked_par) { bulk<ntok, all_sigs>([](int n) { return ex::bulk_chunked(ex::par, n, nx<chunk>{}); }, 0, true); }
PROOF(bulk_unchunked_par) { bulk<ntok, all_sigs>([](int n) { return ex::bulk_unchunked(ex::par, n, nx<each>{}); }, 0, true); }
PROOF(bulk_seq) { bulk<ntok, val_sigs>([](int n) { return ex::bulk(ex::seq, n, nx<each>{}); }, 0, false); }
PROOF(bulk_chunked_seq) { bulk<ntok, val_sigs>([](int n) { return ex::bulk_chunked(ex::seq, n, nx<chunk>{}); }, 0, false); }
PROOF(bulk_unchunked_unseq) { bulk<ntok, val_sigs>([](int n) { return ex::bulk_unchunked(ex::unseq, n, nx<each>{}); }, 0, false); }
PROOF(bulk_throws) { only_value = true; bulk<ntok, val_sigs>([](int n) { return ex::bulk(ex::par, n, each{}); }, 2, true); }
PROOF(bulk_chunked_throws) { bulk<ntok, val_sigs>([](int n) { return ex::bulk_chunked(ex::par_unseq, n, chunk{}); }, 2, true); }
PROOF(bulk_unchunked_throws) { bulk<ntok, val_sigs>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 2, true); }
PROOF(bulk_seq_throws) { bulk<ntok, val_sigs>([](int n) { return ex::bulk_unchunked(ex::seq, n, each{}); }, 2, false); }
struct quiet {
  template <class T>
  void operator()(uint64_t i, T& t) noexcept {
    vc_assert(i < MAXN, "only indices below the shape are visited");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    ++visited[i];
  }
};
//@proofopt bulk_values_lvalue bounded="shapes up to 4"
PROOF(bulk_values_lvalue) { bulk<xtok, sigs<V<xtok const &>>>([](int n) { return ex::bulk_unchunked(ex::par, n, quiet{}); }, 1, true); }
PROOF(bulk_values_throw) { bulk<tok, tok_sigs>([](int n) { return ex::bulk_unchunked(ex::par, n, quiet{}); }, 1, true); }
PROOF(bulk_connect_throws) {
  only_value = true;
  sched();
  throws_left = 1;
  bool ok = go([] { return child<0, val_sigs, false, attrs>{} | ex::bulk_unchunked(ex::par, 2, quiet{}); });
  if (ok) { later(); finished(); vc_assert(out.kind == VALUE && out.v[0] == k.v, "the child's values are delivered unchanged"); }
  else vc_cover("connect throws");
  released();
  if (ok) all_destroyed();
  else aborted();
}
PROOF(bulk_copies_throw) {
  only_value = true;
  sched();
  throws_left = 1;
  struct f {
    tok guard{5};
    void operator()(uint64_t i, ntok& t) noexcept { guard.check(); quiet{}(i, t); }
  };
  bool ok = vc_bool("connect a copy") ? go_copy([] { return tchild<0, val_sigs, true, attrs>{} | ex::bulk_unchunked(ex::par, 2, f{}); })
                                      : go([] { return tchild<0, val_sigs, true, attrs>{} | ex::bulk_unchunked(ex::par, 2, f{}); });
  if (ok) { later(); finished(); vc_assert(out.kind == VALUE && out.v[0] == k.v, "the child's values are delivered unchanged"); }
  else vc_cover("connect throws");
  released();
  if (ok) all_destroyed();
  else aborted();
}
PROOF(bulk_stop) {
  sched();
  auto r = stop_rcvr();
  stop_before();
  if (!go([] { return child<0, all_sigs, true, attrs>{} | ex::bulk_unchunked(ex::par, 2, quiet{}); }, r)) return vc_fail("connect does not throw");
  if (kid_pending(0) && !stop_asked && vc_bool("stop before the values")) ask_stop();
  bool early = stop_asked;
  drain();
  if (bproxy && !early) {
    vc_assert(!backend_sees_stop(), "no stop was requested");
    ask_stop();
    vc_assert(backend_sees_stop(), "a stop request reaches the backend");
  }
  later();
  finished();
  if (early) {
    vc_assert(scheduled == 0, "nothing is scheduled when a stop was requested before");
    if (k.kind == VALUE) { vc_cover("stopped in time"); vc_assert(out.kind == STOPPED, "stopped is delivered when a stop was requested before"); }
  } else if (k.kind == VALUE) vc_assert(out.kind == how, "the result of the backend is delivered");
  if (k.kind != VALUE) vc_assert(out.kind == k.kind, "errors and stopped pass through");
  released();
  stop_done();
  all_destroyed();
}
PROOF(bulk_negative) {
  only_value = true;
  sched();
  int n = -1 - (int)vc_choice(2, "shape");
  bool par = vc_bool("parallel");
  auto f = [](auto, ntok&) { vc_fail("a negative shape visits nothing"); };
  if (!(par ? go([&] { return child<0, val_sigs, true, attrs>{} | ex::bulk_unchunked(ex::par, n, f); })
            : go([&] { return child<0, val_sigs, true, attrs>{} | ex::bulk_unchunked(ex::seq, n, f); }))) return vc_fail("connect does not throw");
  later();
  finished();
  vc_assert(out.kind == VALUE && out.v[0] == k.v, "the child's values are delivered unchanged");
  released();
  all_destroyed();
}
namespace {
bool fails[2];
struct two {
  template <class T>
  void operator()(uint64_t i, T&) {
    vc_assert(i < 2, "only indices below the shape are visited");
    ++visited[i];
    if (fails[i]) throw thrown{1000 + (uint32_t)i};
  }
};
}
//@proofopt bulk_threads preemptions=2
//@proofopt bulk_threads bounded="two items on two threads"
PROOF(bulk_threads) {
  threads = only_value = true;
  defer_mode = 0;
  fails[0] = vc_bool("item 0 throws");
  fails[1] = vc_bool("item 1 throws");
  sched();
  vc_threads();
  if (!go([&] { return child<0, val_sigs, true, attrs>{} | ex::bulk_unchunked(ex::par, 2, two{}); })) return vc_fail("connect does not throw");
  later();
  finished();
  vc_assert(visited[0] == 1 && visited[1] == 1, "every index below the shape is visited");
  if (fails[0] || fails[1]) {
    vc_assert(out.kind == ERROR && out.err == 2, "an exception is delivered as set_error with that exception");
    vc_assert((out.v[0] == 1000 && fails[0]) || (out.v[0] == 1001 && fails[1]), "an exception is delivered as set_error with that exception");
  } else vc_assert(out.kind == VALUE && out.v[0] == k.v, "the child's values are delivered unchanged");
  released();
  all_destroyed();
}
PROOF(bulk_unstarted) {
  sched();
  {
    auto op = ex::connect(child<0, val_sigs, true, attrs>{} | ex::bulk_unchunked(ex::par, 3, nx<each>{}), rcvr<>{});
    (void)op;
  }
  vc_assert(scheduled == 0 && out.n == 0, "nothing happens before start");
  vc_assert(k.live_ops == 0 && k.connected == 1, "every child operation is destroyed");
  released();
  all_destroyed();
}

// what the backend can ask the receiver: its stop token, allocator and start scheduler
namespace {
template <class T>
struct alloc_t {
  using value_type = T;
  uint32_t id;
  explicit alloc_t(uint32_t i) noexcept : id(i) {}
  template <class U> alloc_t(alloc_t<U> const & o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) { return std::allocator<T>{}.allocate(n); }
  void deallocate(T* p, std::size_t n) { std::allocator<T>{}.deallocate(p, n); }
  bool operator==(alloc_t const &) const noexcept = default;
};
struct rich_env {
  ctoken t;
  uint32_t id;
  auto query(ex::get_stop_token_t) const noexcept -> ctoken { return t; }
  auto query(ex::get_allocator_t) const noexcept -> alloc_t<int> { return alloc_t<int>{id}; }
  auto query(ex::get_start_scheduler_t) const noexcept -> ex::inline_scheduler { return {}; }
};
uint32_t alloc_id;
void asks(repl::receiver_proxy* p) {
  auto it = p->try_query<ex::inplace_stop_token>(ex::get_stop_token);
  vc_assert(it && it->stop_possible() && it->stop_requested() == stop_asked, "the backend is given a stop token that follows the receiver's");
  auto own = p->try_query<ctoken>(ex::get_stop_token);
  vc_assert(own && *own == ctoken{src->get_token()}, "the backend is given the receiver's own stop token");
  auto nt = p->try_query<ex::never_stop_token>(ex::get_stop_token);
  vc_assert(nt.has_value(), "the backend may ask for a token that never stops");
  auto al = p->try_query<alloc_t<std::byte>>(ex::get_allocator);
  vc_assert(al && al->id == alloc_id, "the backend is given the receiver's allocator");
  auto no = p->try_query<std::allocator<std::byte>>(ex::get_allocator);
  vc_assert(!no, "a query of another type has no answer");
  auto sch = p->try_query<ex::task_scheduler>(ex::get_start_scheduler);
  vc_assert(sch && *sch == ex::task_scheduler(ex::inline_scheduler{}), "the backend is given the receiver's start scheduler");
  auto un = p->try_query<int>(ex::get_domain);
  vc_assert(!un, "a query that is not supported has no answer");
  vc_cover("asked");
}
template <class Make>
void asks_all(Make make) {
  alloc_id = vc_u32("allocator");
  src = new ex::inplace_stop_source;
  on_complete = no_callbacks;
  if (!go(make, rcvr<rich_env>{rich_env{ctoken{src->get_token()}, alloc_id}})) return vc_fail("connect does not throw");
  if (proxy || bproxy) {
    asks(bproxy ? bproxy : proxy);
    if (vc_bool("stop")) { ask_stop(); asks(bproxy ? bproxy : proxy); }
  }
  later();
  finished();
  released();
  stop_done();
  all_destroyed();
}
}  // namespace
PROOF(backend_queries) { asks_all([] { return ex::schedule(sched()); }); }
namespace {
// a receiver that answers nothing
void asks_nothing() {
  repl::receiver_proxy* p = proxy;
  if (!p) return;
  auto it = p->try_query<ex::inplace_stop_token>(ex::get_stop_token);
  vc_assert(it && !it->stop_possible(), "without a stop token the backend is given one that never stops");
  auto al = p->try_query<std::allocator<std::byte>>(ex::get_allocator);
  (void)al;
  auto sch = p->try_query<ex::task_scheduler>(ex::get_start_scheduler);
  vc_assert(!sch || *sch == ex::task_scheduler(ex::inline_scheduler{}), "without a start scheduler the backend is given none of its own");
  vc_cover("asked");
}
}
PROOF(backend_queries_none) {
  if (!go([] { return ex::schedule(sched()); })) return vc_fail("connect does not throw");
  asks_nothing();
  later();
  finished();
  released();
  all_destroyed();
}
