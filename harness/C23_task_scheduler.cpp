// task_scheduler: schedule() and bulk on an arbitrary infallible scheduler and bulk implementation
#include "lib.h"
#include <new>
using namespace vt;

namespace {
kid_t& k = kids[0];   // predecessor of bulk
kid_t& sk = kids[1];  // what the scheduler runs
constexpr std::size_t MAXN = 3;
int visited[MAXN + 1];
int bulks;            // bulk operations asked of the wrapped scheduler's domain
std::size_t items;    // their size
int how;              // how they complete
bool bulk_fails;      // they may complete with an error
void (*pending)(void*);
bool threads;         // the bulk runs its two items on two threads
void (*part)(void*);
void* pending_op;

struct plain_dom : ex::default_domain {};

template <class D>
struct sch {
  using scheduler_concept = ex::scheduler_tag;
  ntok guard{30};
  int which = 0;
  struct attrs {
    sch s;
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return s; }
    auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept { return D{}; }
  };
  struct snd {
    using sender_concept = ex::sender_t;
    sch s;
    template <class T> using compl_t = std::conditional_t<ex::unstoppable_token<T>, ex::completion_signatures<ex::set_value_t()>, ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>>;
    template <class, class Env>
    static consteval auto get_completion_signatures() noexcept { return compl_t<ex::stop_token_of_t<Env>>{}; }
    template <class R>
    auto connect(R r) const noexcept -> child_op<1, R, compl_t<ex::stop_token_of_t<ex::env_of_t<R>>>> {
      s.guard.check();
      ++sk.connected;
      return child_op<1, R, compl_t<ex::stop_token_of_t<ex::env_of_t<R>>>>{static_cast<R&&>(r)};
    }
    auto get_env() const noexcept -> attrs { return {s}; }
  };
  auto schedule() const noexcept -> snd { guard.check(); return {*this}; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept { return D{}; }
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return *this; }
  auto query(ex::get_forward_progress_guarantee_t) const noexcept { return ex::forward_progress_guarantee::concurrent; }
  bool operator==(sch const & o) const noexcept { return which == o.which; }
};

// A bulk operation of the wrapped scheduler: any partition in any order, inline or later.
template <bool Chunked, std::size_t Pad, class F, class R>
struct bulk_op {
  using operation_state_concept = ex::operation_state_t;
  F f;
  R r;
  std::size_t n;
  uint32_t magic = ALIVE;
  char pad[Pad];   // the operation may be larger than the scratch space
  bulk_op(F f_, R r_, std::size_t n_) : f(static_cast<F&&>(f_)), r(static_cast<R&&>(r_)), n(n_) { maybe_throw("the scheduler's bulk connect throws"); }
  bulk_op(bulk_op&&) = delete;
  ~bulk_op() { vc_assert(magic == ALIVE, "the scheduler's operation is destroyed once"); magic = DEAD; }
  void start() & noexcept {
    vc_assert(magic == ALIVE, "the scheduler's operation is alive when it is started");
    ++bulks;
    items = n;
    if (vc_choice(2, "the bulk runs later")) {
      pending = [](void* p) { static_cast<bulk_op*>(p)->run(); };
      pending_op = this;
    } else run();
  }
  void run() noexcept {
    if (threads) {
      part = [](void* p) { if constexpr (Chunked) static_cast<bulk_op*>(p)->f(0, 1); else static_cast<bulk_op*>(p)->f(0); };
      vc_spawn([](void* p) { part(p); }, this, "agent");
      if constexpr (Chunked) f(1, 2); else f(1);
      vc_join_all();
    } else if constexpr (Chunked) {
      std::size_t b = 0;
      while (b < n) {
        std::size_t e = b + 1 + vc_choice(n - b, "chunk");
        f(b, e);
        vc_assert(magic == ALIVE, "the scheduler's operation lives until it completes");
        b = e;
      }
    } else {
      bool up = vc_bool("ascending");
      for (std::size_t i = 0; i < n; ++i) {
        f(up ? i : n - 1 - i);
        vc_assert(magic == ALIVE, "the scheduler's operation lives until it completes");
      }
    }
    how = VALUE;
    if (bulk_fails && vc_bool("the scheduler's bulk fails")) {
      how = ERROR;
      return ex::set_error(static_cast<R&&>(r), std::make_exception_ptr(thrown{77}));
    }
    ex::set_value(static_cast<R&&>(r));
  }
};
template <bool Chunked, std::size_t Pad, class F>
struct bulk_snd {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_error_t(std::exception_ptr)>;
  F f;
  std::size_t n;
  template <class R>
  auto connect(R r) && -> bulk_op<Chunked, Pad, F, R> { return {static_cast<F&&>(f), static_cast<R&&>(r), n}; }
  auto get_env() const noexcept -> ex::env<> { return {}; }
};
template <std::size_t Pad>
struct any_dom : ex::default_domain {
  template <class Sndr, class Env>
    requires(std::is_same_v<ex::tag_of_t<Sndr>, ex::bulk_chunked_t> || std::is_same_v<ex::tag_of_t<Sndr>, ex::bulk_unchunked_t>)
  auto transform_sender(ex::set_value_t, Sndr sndr, Env const &) const {
    auto& [tag, data, child] = sndr;
    auto& [pol, shape, fn] = data;
    return bulk_snd<std::is_same_v<ex::tag_of_t<Sndr>, ex::bulk_chunked_t>, Pad, std::decay_t<decltype(fn)>>{static_cast<decltype(fn)&&>(fn), static_cast<std::size_t>(shape)};
  }
};
using dom = any_dom<40>;
using big_dom = any_dom<200>;
void later() {
  drain();
  if (pending) {
    auto f = pending;
    pending = nullptr;
    f(pending_op);
  }
}
struct other_token {
  ex::inplace_stop_token t;
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(other_token const &) const noexcept = default;
  template <class F> using callback_type = ex::inplace_stop_callback<F>;
  operator ex::inplace_stop_token() const noexcept { return t; }
};
struct other_env {
  ex::inplace_stop_token t;
  auto query(ex::get_stop_token_t) const noexcept -> other_token { return {t}; }
};
ex::task_scheduler plain() { return ex::task_scheduler{sch<plain_dom>{}}; }

template <class R>
void schedule_with(R r) {
  sk.watch_stop = src != nullptr;
  if (src) stop_before();
  if (!go([] { return ex::schedule(plain()); }, r)) return vc_fail("connect does not throw");
  if (src && !stop_asked && kid_pending(1) && vc_bool("stop while scheduled")) ask_stop();
  bool asked = stop_asked;
  drain();
  finished();
  vc_assert(sk.connected == 1 && sk.started == 1, "the scheduler is asked once");
  vc_assert(out.kind == sk.kind, "the result of the scheduler is delivered");
  if (src) vc_assert(sk.stop_seen == asked, "a stop request reaches the scheduler");
  if (src) stop_done();
  all_destroyed();
}
}  // namespace
PROOF(schedule) { schedule_with(rcvr<>{}); }
PROOF(schedule_stoppable) { schedule_with(stop_rcvr()); }
PROOF(schedule_other_token) {
  src = new ex::inplace_stop_source;
  schedule_with(rcvr<other_env>{other_env{src->get_token()}});
}
PROOF(schedule_copy) {
  if (!go_copy([] { return ex::schedule(plain()); })) return vc_fail("connect does not throw");
  drain();
  finished();
  vc_assert(sk.started == 1 && out.kind == VALUE, "the result of the scheduler is delivered");
  all_destroyed();
}
PROOF(schedule_unstarted) {
  {
    auto op = ex::connect(ex::schedule(plain()), rcvr<>{});
    (void)op;
  }
  vc_assert(sk.started == 0 && out.n == 0, "nothing happens before start");
  all_destroyed();
}
PROOF(properties) {
  {
    auto s = plain(), t = plain();
    auto u = ex::task_scheduler{sch<plain_dom>{.which = 1}};
    auto v = ex::task_scheduler{sch<dom>{}};
    vc_assert(s == t && !(s != t), "task_schedulers of equal schedulers are equal");
    vc_assert(!(s == u) && !(u == s), "task_schedulers of different schedulers differ");
    vc_assert(!(s == v) && !(v == s), "task_schedulers of different types of scheduler differ");
    auto c = u;
    vc_assert(c == u, "a copy is equal");
    auto m = static_cast<decltype(c)&&>(c);
    vc_assert(m == u, "a moved scheduler keeps its value");
    m = s;
    vc_assert(m == s && !(m == u), "assignment takes over the value");
    vc_assert(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(u))) == u, "schedule() completes on its scheduler");
    vc_assert(ex::get_forward_progress_guarantee(u) == ex::forward_progress_guarantee::concurrent, "the progress guarantee is the scheduler's");
  }
  all_destroyed();
}

// ------------------------------------------------------------------ bulk
namespace {
template <class D>
struct attrs {
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return ex::task_scheduler{sch<D>{}}; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept { return ex::task_scheduler_domain{}; }
};
std::size_t shape;
struct each {
  ntok guard{4};
  template <class T>
  void operator()(uint64_t i, T& t) {
    guard.check();
    vc_assert(i < shape, "only indices below the shape are visited");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    maybe_throw("f throws");
    ++visited[i];
  }
};
struct chunk {
  ntok guard{4};
  template <class T>
  void operator()(uint64_t b, uint64_t e, T& t) {
    guard.check();
    vc_assert(b <= e && e <= shape, "only indices below the shape are visited");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    maybe_throw("f throws");
    for (; b < e; ++b) ++visited[b];
  }
};
struct quiet {
  template <class T>
  void operator()(uint64_t i, T& t) noexcept {
    vc_assert(i < shape, "only indices below the shape are visited");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    ++visited[i];
  }
};
[[gnu::noinline]] void threw() { vc_cover("threw"); }
template <class Sigs, class D, bool Nx = true, class Mk>
void bulk(Mk mk, int throws, bool parallel, int n) {
  shape = n < 0 ? 0 : (std::size_t)n;
  throws_left = throws;
  bool ok = go([&] { return child<0, Sigs, Nx, attrs<D>>{} | mk(n); });
  if (!ok) return aborted();
  later();
  throws_left = 0;
  finished();
  vc_assert(pending == nullptr, "the operation does not complete before the scheduler's bulk");
  if (k.kind != VALUE) {
    vc_assert(bulks == 0, "the scheduler is not asked for another channel");
    vc_assert(out.kind == k.kind, "errors and stopped pass through");
    if (k.kind == ERROR) vc_assert(out.v[0] == k.v, "errors pass through unchanged");
  } else {
    for (std::size_t i = 0; i <= MAXN; ++i) {
      vc_assert(visited[i] <= (i < shape), "every index is visited at most once");
      if (!thrown_count) vc_assert(visited[i] == (i < shape), "every index below the shape is visited");
    }
    if (thrown_count) {
      threw();
      vc_assert(out.kind == ERROR && out.err == 2, "an exception is delivered as set_error with that exception");
      vc_assert((out.v[0] > 1000 && out.v[0] <= 1000u + (uint32_t)thrown_count) || how == ERROR, "an exception is delivered as set_error with that exception");
    } else if (how == ERROR) {
      vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == 77, "the error of the scheduler's bulk is delivered");
    } else {
      vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "the child's values are delivered unchanged");
      if (!parallel) vc_assert(items <= 1, "without a parallel policy there is a single agent");
    }
  }
  all_destroyed();
}
int any() { return vc_choice(MAXN + 1, "shape"); }
using all_sigs = sigs<V<ntok>, E<etok>, S>;
using val_sigs = sigs<V<ntok>>;
using tok_sigs = sigs<V<tok>>;
}  // namespace
//@proofopt bulk_par bounded="shapes up to 3"
PROOF(bulk_par) { bulk_fails = true; bulk<all_sigs, dom>([](int n) { return ex::bulk(ex::par, n, each{}); }, 0, true, any()); }
//@proofopt bulk_chunked_par bounded="shapes up to 3"
PROOF(bulk_chunked_par) { bulk<all_sigs, dom>([](int n) { return ex::bulk_chunked(ex::par_unseq, n, chunk{}); }, 0, true, any()); }
//@proofopt bulk_unchunked_par bounded="shapes up to 3"
PROOF(bulk_unchunked_par) { bulk<all_sigs, dom>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 0, true, any()); }
//@proofopt bulk_seq bounded="shapes up to 3"
PROOF(bulk_seq) { bulk<val_sigs, dom>([](int n) { return ex::bulk(ex::seq, n, each{}); }, 0, false, any()); }
//@proofopt bulk_chunked_seq bounded="shapes up to 3"
PROOF(bulk_chunked_seq) { bulk<val_sigs, dom>([](int n) { return ex::bulk_chunked(ex::seq, n, chunk{}); }, 0, false, any()); }
//@proofopt bulk_unchunked_unseq bounded="shapes up to 3"
PROOF(bulk_unchunked_unseq) { bulk<val_sigs, dom>([](int n) { return ex::bulk_unchunked(ex::unseq, n, each{}); }, 0, false, any()); }
//@proofopt bulk_default bounded="shapes up to 3"
PROOF(bulk_default) { bulk<all_sigs, plain_dom>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 0, true, any()); }
//@proofopt bulk_default_chunked bounded="shapes up to 3"
PROOF(bulk_default_chunked) { bulk<all_sigs, plain_dom>([](int n) { return ex::bulk_chunked(ex::par, n, chunk{}); }, 0, true, any()); }
//@proofopt bulk_default_seq bounded="shapes up to 3"
PROOF(bulk_default_seq) { bulk<val_sigs, plain_dom>([](int n) { return ex::bulk_unchunked(ex::seq, n, each{}); }, 0, true, any()); }
PROOF(bulk_negative) {
  int n = -1 - (int)vc_choice(2, "shape");
  bulk<val_sigs, dom>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 0, true, n);
}
PROOF(bulk_negative_seq) { bulk<val_sigs, dom>([](int n) { return ex::bulk_chunked(ex::seq, n, chunk{}); }, 0, false, -5); }
//@proofopt bulk_throws bounded="shapes up to 3"
PROOF(bulk_throws) { bulk<val_sigs, dom>([](int n) { return ex::bulk(ex::par, n, each{}); }, 2, true, any()); }
//@proofopt bulk_chunked_throws bounded="shapes up to 3"
PROOF(bulk_chunked_throws) { bulk<val_sigs, dom>([](int n) { return ex::bulk_chunked(ex::par, n, chunk{}); }, 2, true, any()); }
//@proofopt bulk_unchunked_throws bounded="shapes up to 3"
PROOF(bulk_unchunked_throws) { bulk<val_sigs, dom>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 2, true, any()); }
//@proofopt bulk_seq_throws bounded="shapes up to 3"
PROOF(bulk_seq_throws) { bulk<val_sigs, dom>([](int n) { return ex::bulk_unchunked(ex::seq, n, each{}); }, 2, false, any()); }
//@proofopt bulk_default_throws bounded="shapes up to 3"
PROOF(bulk_default_throws) { bulk<val_sigs, plain_dom>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 2, true, any()); }
//@proofopt bulk_values_throw bounded="shapes up to 3"
PROOF(bulk_values_throw) { bulk<tok_sigs, dom>([](int n) { return ex::bulk_unchunked(ex::par, n, quiet{}); }, 1, true, any()); }
//@proofopt bulk_values_lvalue bounded="shapes up to 3"
PROOF(bulk_values_lvalue) { bulk<sigs<V<xtok const &>>, dom>([](int n) { return ex::bulk_unchunked(ex::par, n, quiet{}); }, 1, true, any()); }
//@proofopt bulk_connect_throws bounded="shape 2"
PROOF(bulk_connect_throws) { bulk<val_sigs, dom, false>([](int n) { return ex::bulk_unchunked(ex::par, n, quiet{}); }, 1, true, 2); }
//@proofopt bulk_big bounded="shape 2"
PROOF(bulk_big) { bulk_fails = true; bulk<val_sigs, big_dom>([](int n) { return ex::bulk_unchunked(ex::par, n, each{}); }, 1, true, 2); }
//@proofopt bulk_no_memory bounded="shape 1"
PROOF(bulk_no_memory) {
  shape = 1;
  defer_mode = 1;
  if (!go([&] { return child<0, sigs<V0>, true, attrs<big_dom>>{} | ex::bulk_unchunked(ex::par, 1, [](uint64_t) { ++visited[0]; }); })) return vc_fail("connect does not throw");
  kids[0].on_finish = [] { vc_oom(true); };
  drain();
  vc_oom(false);
  later();
  finished();
  if (bulks) vc_assert(out.kind == VALUE && visited[0] == 1, "the child's values are delivered unchanged");
  else { vc_cover("no memory"); vc_assert(out.kind == ERROR && !visited[0], "the bulk that cannot be started delivers an error"); }
  all_destroyed();
}
namespace {
bool fails[2];
struct two {
  template <class T>
  void operator()(uint64_t i, T&) {
    vc_assert(i < 2, "only indices below the shape are visited");
    ++visited[i];
    if (fails[i]) throw thrown{1000 + (uint32_t)i};
  }
};
}
//@proofopt bulk_threads preemptions=2
//@proofopt bulk_threads bounded="two items on two threads"
PROOF(bulk_threads) {
  threads = true;
  defer_mode = 0;
  fails[0] = vc_bool("item 0 throws");
  fails[1] = vc_bool("item 1 throws");
  vc_threads();
  if (!go([&] { return child<0, val_sigs, true, attrs<dom>>{} | ex::bulk_unchunked(ex::par, 2, two{}); })) return vc_fail("connect does not throw");
  later();
  finished();
  vc_assert(visited[0] == 1 && visited[1] == 1, "every index below the shape is visited");
  if (fails[0] || fails[1]) {
    vc_assert(out.kind == ERROR && out.err == 2, "an exception is delivered as set_error with that exception");
    vc_assert((out.v[0] == 1000 && fails[0]) || (out.v[0] == 1001 && fails[1]), "an exception is delivered as set_error with that exception");
  } else vc_assert(out.kind == VALUE && out.v[0] == k.v, "the child's values are delivered unchanged");
  all_destroyed();
}
PROOF(bulk_unstarted) {
  {
    auto op = ex::connect(child<0, val_sigs, true, attrs<dom>>{} | ex::bulk_unchunked(ex::par, 3, each{}), rcvr<>{});
    (void)op;
  }
  vc_assert(bulks == 0 && out.n == 0, "nothing happens before start");
  vc_assert(k.live_ops == 0 && k.connected == 1, "every child operation is destroyed");
  all_destroyed();
}
