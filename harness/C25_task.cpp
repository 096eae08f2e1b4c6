// coroutines: a task run by a receiver, and senders awaited inside it
#include "lib.h"
#include <exec/task.hpp>
using namespace vt;
namespace {
kid_t& k = kids[0];
struct inl { using start_scheduler_type = ex::inline_scheduler; };
template <class T = void> using task = ex::task<T, inl>;
task<uint32_t> simple(uint32_t v) { co_return v + 1; }

using SAll = sigs<V<tok>, E<etok>, E<std::exception_ptr>, S>;
using SNx = sigs<V<ntok>, E<etok>, E<std::exception_ptr>, S>;

enum { GOT = 1, CAUGHT = 2 };
int seen = 0;           // what the coroutine body observed
uint32_t seen_id = 0;
int locals_at_end = -1; // live locals when the receiver completed

struct local {          // a local variable of the coroutine body
  static inline int n = 0;
  uint32_t magic = ALIVE;
  local() { ++n; }
  local(local const &) = delete;
  ~local() { vc_assert(magic == ALIVE, "a local variable is destroyed once"); magic = DEAD; --n; }
};
[[gnu::noinline]] void no_locals() { on_complete = [] { locals_at_end = local::n; }; }
[[gnu::noinline]] void ended() {
  vc_assert(local::n == 0, "every local variable of the body is destroyed");
  all_destroyed();
}
[[gnu::noinline]] void covers() {
  if (k.kind == VALUE) vc_cover("a value is awaited");
  if (k.kind == ERROR) vc_cover("an error is awaited");
  if (k.kind == STOPPED) vc_cover("stopped is awaited");
}
template <class C>
task<uint32_t> awaits(C c) {
  local l;
  auto v = co_await std::move(c);
  seen |= GOT;
  seen_id = v.get();
  co_return v.get();
}
template <class C>
task<uint32_t> catches(C c) {
  local l;
  try {
    auto v = co_await std::move(c);
    seen |= GOT;
    seen_id = v.get();
    co_return v.get();
  } catch (etok const & e) {
    seen |= CAUGHT;
    seen_id = e.get();
  } catch (thrown const & t) {
    seen |= CAUGHT;
    seen_id = t.id;
  }
  co_return 7u;
}
template <class C>
task<> nothing(C c) {
  local l;
  co_await std::move(c);
  seen |= GOT;
}
[[gnu::noinline]] void check_awaits() {
  // the channel the child used decides what the body sees and what the receiver gets
  if (k.started == 0 || thrown_count) {
    vc_assert(thrown_count == 1, "only an exception keeps the child from deciding the result");
    vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw && seen == 0, "what user code throws is the error");
  } else if (k.kind == VALUE) {
    vc_assert(seen == GOT && seen_id == k.v && out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "the value is the result of co_await");
  } else if (k.kind == STOPPED) {
    vc_assert(seen == 0 && out.kind == STOPPED, "stopped ends the task as stopped");
  } else {
    vc_assert(seen == 0 && out.kind == ERROR && out.v[0] == k.v, "an error is thrown from co_await and becomes the task's error");
    vc_assert(k.sig == 1 ? out.err == 5 : out.err == 2, "the error is rethrown with its own type");
  }
}
// a receiver that looks at the exception
struct xrcvr : rcvr<> {
  template <class E>
  void set_error(E&& e) noexcept {
    if constexpr (std::is_same_v<std::remove_cvref_t<E>, std::exception_ptr>) {
      first_completion();
      out.kind = ERROR;
      vc_assert((bool)e, "an exception_ptr that is delivered is never null");
      try {
        std::rethrow_exception(e);
      } catch (thrown const & t) {
        out.err = 2;
        out.v[0] = t.id;
      } catch (etok const & t) {
        out.err = 5;
        out.v[0] = t.get();
      } catch (tetok const & t) {
        out.err = 5;
        out.v[0] = t.get();
      } catch (std::system_error const & s) {
        out.err = 6;
        out.v[0] = (uint32_t) s.code().value();
      } catch (...) {
        out.err = 4;
      }
      completed();
    } else {
      rcvr<>::set_error(static_cast<E&&>(e));
    }
  }
};
}
PROOF(returns) {
  uint32_t v = vc_u32("v");
  if (!go([v] { return simple(v); })) return aborted();
  finished();
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == v + 1, "the task's result is delivered");
  all_destroyed();
}
PROOF(awaits_sender) {
  no_locals();
  if (!go([] { return awaits(child<0, SNx>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  check_awaits();
  covers();
  vc_assert(locals_at_end == 0, "the body is left before the receiver is completed");
  ended();
}
// the value may throw when it is copied or moved, and connecting the child may throw
PROOF(awaits_throwing) {
  no_locals();
  throws_left = 1;
  if (!go([] { return awaits(child<0, SAll, false>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  check_awaits();
  if (thrown_count == 1 && k.started == 0) vc_cover("connect throws");
  if (thrown_count == 1 && k.started == 1) vc_cover("the value throws");
  ended();
}
PROOF(awaits_lvalue) {
  no_locals();
  throws_left = 1;
  if (!go([] { return awaits(child<0, sigs<V<xtok const &>, E<etok>, S>>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  check_awaits();
  if (thrown_count) vc_cover("the copy throws");
  ended();
}
PROOF(body_catches) {
  if (!go([] { return catches(child<0, SNx>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  covers();
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED && seen == 0, "stopped cannot be caught");
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.v[0] == k.v && seen == GOT, "a value is returned");
  else vc_assert(out.kind == VALUE && out.v[0] == 7 && seen == CAUGHT && seen_id == k.v, "the body may handle the error");
  ended();
}
PROOF(awaits_void) {
  if (!go([] { return nothing(child<0, sigs<V0, E<etok>, S>>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  covers();
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED && seen == 0, "stopped ends the task");
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 0 && seen == GOT, "the task completes");
  else vc_assert(out.kind == ERROR && out.err == 5 && out.v[0] == k.v, "an error is the task's error");
  ended();
}
// ---------------------------------------------------------------- results and errors
namespace {
task<tok> returns_tok(uint32_t v) {
  local l;
  tok t(v);
  co_return t;
}
task<uint32_t> outer(uint32_t v, bool twice) {
  local l;
  uint32_t r = (co_await returns_tok(v)).get();
  if (twice) r += (co_await returns_tok(v + 1)).get();
  co_return r;
}
template <class C>
task<uint32_t> middle(C c) {
  local l;
  ntok extra(3);
  auto v = co_await awaits(std::move(c));
  seen |= 16;
  co_return v;
}
template <class C>
task<uint32_t> guards(C c) {
  local l;
  try {
    co_return co_await awaits(std::move(c));
  } catch (etok const & e) {
    seen |= CAUGHT;
  } catch (thrown const & t) {
    seen |= CAUGHT;
  }
  co_return 9u;
}
}
PROOF(result_throws) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go([v] { return returns_tok(v); }, xrcvr{})) return aborted();
  finished();
  if (thrown_count) vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from storing the result is the error");
  else vc_assert(out.kind == VALUE && out.v[0] == v, "the result is delivered");
  if (thrown_count) vc_cover("the result throws");
  ended();
}
PROOF(nested_result) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  bool twice = vc_choice(2, "twice");
  if (!go([v, twice] { return outer(v, twice); }, xrcvr{})) return aborted();
  finished();
  if (thrown_count) vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from the inner task is the error");
  else vc_assert(out.kind == VALUE && out.v[0] == (twice ? v + v + 1 : v), "the inner result is the result of co_await");
  if (thrown_count) vc_cover("the result throws");
  ended();
}
PROOF(nested_await) {
  no_locals();
  throws_left = 1;
  if (!go([] { return middle(child<0, SAll, false>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  if (out.kind == VALUE) { vc_assert(seen == (GOT | 16), "both bodies run to their end"); seen = GOT; }
  check_awaits();
  covers();
  vc_assert(locals_at_end == 0, "the bodies are left before the receiver is completed");
  ended();
}
PROOF(nested_caught) {
  if (!go([] { return guards(child<0, SNx>{}); }, xrcvr{})) return aborted();
  drain();
  finished();
  covers();
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED && seen == 0, "stopped unwinds every task");
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.v[0] == k.v && seen == GOT, "a value is returned");
  else vc_assert(out.kind == VALUE && out.v[0] == 9 && seen == CAUGHT, "the awaiting task may handle the inner error");
  ended();
}
namespace {
struct errs : inl { using error_types = sigs<E<tetok>, E<std::exception_ptr>>; };
struct nerr : inl { using error_types = sigs<>; };
template <class C>
ex::task<uint32_t, errs> early(C c, int how) {
  local l;
  auto v = co_await std::move(c);
  seen |= GOT;
  switch (how) {
  case 0: co_yield ex::with_error(tetok(v.get() + 1)); break;
  case 1: co_return ex::with_error(tetok(v.get() + 2)); 
  case 2: co_yield ex::with_stopped(); break;
  case 3: co_return ex::with_stopped();
  case 4: throw thrown{v.get() + 4};
  default: co_return v.get() + 5;
  }
  seen |= 32;
  co_return 0u;
}
}
PROOF(with_error) {
  no_locals();
  throws_left = 1;
  int how = vc_choice(6, "how the body ends");
  if (!go([how] { return early(child<0, sigs<V<ntok>>>{}, how); }, xrcvr{})) return aborted();
  drain();
  finished();
  vc_assert(seen == GOT, "nothing of the body runs after it has ended with an error or stopped");
  vc_assert(locals_at_end == 0, "the body is left before the receiver is completed");
  if (thrown_count) vc_assert(how < 2 && out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from storing the error is the error");
  else if (how < 2) vc_assert(out.kind == ERROR && (out.err == 1 || out.err == 5) && out.v[0] == k.v + 1 + how, "the error is delivered with its own type");
  else if (how < 4) vc_assert(out.kind == STOPPED, "the task is stopped");
  else if (how == 4) vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == k.v + 4, "an exception of the body is the error");
  else vc_assert(out.kind == VALUE && out.v[0] == k.v + 5, "the result is delivered");
  ended();
}
// making the error may throw, though moving it does not: the body sees the exception
namespace {
struct why { uint32_t v; };
struct verr : etok {
  verr(why w) : etok(w.v) { maybe_throw("the conversion of the error throws"); }
};
struct verrs : inl { using error_types = sigs<E<verr>, E<std::exception_ptr>>; };
template <class C>
ex::task<uint32_t, verrs> converts(C c, bool ret) {
  local l;
  auto v = co_await std::move(c);
  seen |= GOT;
  if (ret) co_return ex::with_error(why{v.get() + 1});
  bool caught = false;
  try {
    co_yield ex::with_error(why{v.get() + 1});
  } catch (thrown const & t) {
    vc_assert(t.id == last_throw, "the exception reaches the body");
    caught = true;
  }
  seen |= 32;
  vc_assert(caught, "nothing of the body runs after it has ended with an error");
  co_return 9u;
}
}
PROOF(with_error_converted) {
  throws_left = 1;
  bool ret = vc_bool("co_return");
  if (!go([ret] { return converts(child<0, sigs<V<ntok>>>{}, ret); }, xrcvr{})) return aborted();
  drain();
  finished();
  if (!thrown_count) vc_assert(seen == GOT && out.kind == ERROR && out.v[0] == k.v + 1, "the error is delivered");
  else if (ret) { vc_cover("co_return throws"); vc_assert(seen == GOT && out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from making the error is the error"); }
  else { vc_cover("co_yield throws"); vc_assert(seen == (GOT | 32) && out.kind == VALUE && out.v[0] == 9, "the body goes on"); }
  ended();
}
namespace {
ex::task<uint32_t, nerr> never_fails(uint32_t v) {
  local l;
  co_return v;
}
}
PROOF(no_errors) {
  uint32_t v = vc_u32("v");
  if (!go([v] { return never_fails(v); })) return aborted();
  finished();
  vc_assert(out.kind == VALUE && out.v[0] == v, "the result is delivered");
  ended();
}
// an error code is thrown as std::system_error
namespace {
struct cat_t : std::error_category {
  const char* name() const noexcept override { return "c"; }
  std::string message(int) const override { return {}; }
};
cat_t cat;
template <class R>
struct ec_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  int code;
  void start() & noexcept { ex::set_error(static_cast<R&&>(r), std::error_code(code, cat)); }
};
struct ec_sender {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V<ntok>, E<std::error_code>>;
  int code;
  template <class R>
  auto connect(R r) && noexcept -> ec_op<R> { return {static_cast<R&&>(r), code}; }
};
}
PROOF(error_code) {
  if (!go([] { return awaits(ec_sender{5}); }, xrcvr{})) return aborted();
  finished();
  vc_assert(out.kind == ERROR && out.err == 6 && out.v[0] == 5, "an error code is thrown as a system_error");
  ended();
}
// ---------------------------------------------------------------- a task that never runs
PROOF(unstarted) {
  switch (vc_choice(3, "how far it gets")) {
  case 0: {
    auto t = awaits(child<0, SNx>{});
    break;
  }
  case 1: {
    auto t = awaits(child<0, SNx>{});
    auto t2 = std::move(t);
    break;
  }
  default: {
    auto op = ex::connect(awaits(child<0, SNx>{}), xrcvr{});
    break;
  }
  }
  vc_assert(seen == 0, "nothing of the body runs");
  aborted();
}
// ---------------------------------------------------------------- stop requests
namespace {
// a stop token of another type than the task's own
int live_cbs = 0;
struct otok {
  ex::inplace_stop_token t;
  template <class F>
  struct callback_type {
    ex::inplace_stop_callback<F> cb;
    template <class I>
    callback_type(otok o, I&& i) noexcept : cb(o.t, static_cast<I&&>(i)) { ++live_cbs; }
    ~callback_type() { --live_cbs; }
  };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(otok const &) const noexcept = default;
};
template <class Tok>
struct tok_env {
  Tok t;
  auto query(ex::get_stop_token_t) const noexcept -> Tok { return t; }
};
template <class Tok>
struct tok_rcvr : xrcvr {
  tok_env<Tok> env;
  auto get_env() const noexcept -> tok_env<Tok> { return env; }
};
template <class Tok>
tok_rcvr<Tok> stoppable() {
  src = new ex::inplace_stop_source;
  tok_rcvr<Tok> r;
  r.env.t = Tok{src->get_token()};
  return r;
}
int cbs_at_end = -1;
[[gnu::noinline]] void check_stop() {
  drain_with_stop();
  finished();
  if (stop_asked) vc_cover("a stop was requested");
  vc_assert(cbs_at_end == 0, "nothing is registered with the receiver's stop token once it is completed");
  stop_done();
  ended();
}
template <class Tok, class F>
void stop_reaches(F make) {
  kids[0].watch_stop = kids[1].watch_stop = true;
  if (vc_choice(2, "stopped before")) {
    auto r = stoppable<Tok>();
    ask_stop();
    on_complete = [] { cbs_at_end = live_cbs; };
    go(make, r);
  } else {
    on_complete = [] { cbs_at_end = live_cbs; };
    go(make, stoppable<Tok>());
  }
}
template <class C, class D>
task<uint32_t> awaits_two(C c, D d) {
  local l;
  auto a = co_await std::move(c);
  auto b = co_await std::move(d);
  seen |= GOT;
  co_return a.get() + b.get();
}
template <class T>
task<uint32_t> wraps(T t) {
  local l;
  co_return co_await std::move(t);
}
using VS = sigs<V<ntok>, S>;
template <class Tok>
void stop_two() {
  kids[1].on_finish = [] { if (kids[1].watch_stop && stop_asked) vc_assert(kids[1].stop_seen, "a stop request reaches what is being awaited"); };
  kids[0].on_finish = [] { if (kids[0].watch_stop && stop_asked) vc_assert(kids[0].stop_seen, "a stop request reaches what is being awaited"); if (!stop_asked) vc_assert(!kids[0].stop_seen, "no stop is seen that was not requested"); };
  stop_reaches<Tok>([] { return awaits_two(child<0, VS>{}, child<1, VS>{}); });
  check_stop();
  if (kids[0].kind == STOPPED || kids[1].kind == STOPPED) vc_assert(out.kind == STOPPED, "stopped ends the task as stopped");
  else vc_assert(out.kind == VALUE && out.v[0] == kids[0].v + kids[1].v, "the result is delivered");
}
template <class Tok>
void stop_leaf() {
  stop_reaches<Tok>([] { return wraps(awaits(lchild<0>{})); });
  if (stop_asked) vc_assert(out.n == 1 && out.kind == STOPPED, "a stop requested before reaches the child when it is started");
  check_stop();
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED, "stopped ends the task as stopped");
  else vc_assert(out.kind == VALUE && out.v[0] == k.v, "the result is delivered");
  if (stop_asked && k.kind == VALUE) vc_assert(kids[0].order < stop_order, "a stop request completes what is being awaited");
}
}
PROOF(stop_two_inplace) { stop_two<ex::inplace_stop_token>(); }
PROOF(stop_two_other) { stop_two<otok>(); }
PROOF(stop_leaf_inplace) { stop_leaf<ex::inplace_stop_token>(); }
PROOF(stop_leaf_other) { stop_leaf<otok>(); }
// ---------------------------------------------------------------- where the task resumes
namespace {
int where = 1;      // the execution context that is running
uint32_t sched_tag;
int schedules = 0;
template <bool Inl>
struct sch {
  using scheduler_concept = ex::scheduler_t;
  uint32_t tag = 0xBAD;
  struct attrs {
    uint32_t tag;
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept -> sch { return sch{tag}; }
  };
  struct snd {
    using sender_concept = ex::sender_t;
    uint32_t tag;
    template <class T> using compl_t = std::conditional_t<ex::unstoppable_token<T>, sigs<V0>, sigs<V0, S>>;
    template <class, class Env>
    static consteval auto get_completion_signatures() noexcept { return compl_t<ex::stop_token_of_t<Env>>{}; }
    template <class R>
    auto connect(R r) const -> child_op<1, R, compl_t<ex::stop_token_of_t<ex::env_of_t<R>>>> {
      vc_assert(tag == sched_tag, "the scheduler is the receiver's start scheduler");
      ++schedules;
      return child_op<1, R, compl_t<ex::stop_token_of_t<ex::env_of_t<R>>>>{static_cast<R&&>(r)};
    }
    auto get_env() const noexcept -> attrs { return {tag}; }
  };
  auto schedule() const noexcept -> snd { return {tag}; }
  bool operator==(sch const & o) const noexcept { return tag == o.tag; }
};
using sched_t = sch<false>;
struct on_sch { using start_scheduler_type = sched_t; };
struct sch_env {
  ex::inplace_stop_token t;
  uint32_t tag;
  auto query(ex::get_stop_token_t) const noexcept -> ex::inplace_stop_token { return t; }
  auto query(ex::get_start_scheduler_t) const noexcept -> sched_t { return sched_t{tag}; }
};
struct sch_rcvr : xrcvr {
  sch_env env;
  auto get_env() const noexcept -> sch_env { return env; }
};
sch_rcvr on_scheduler() {
  src = new ex::inplace_stop_source;
  sched_tag = vc_u32("scheduler");
  kids[0].on_finish = kids[2].on_finish = [] { where = 7; };
  kids[1].on_finish = [] { where = 1; };
  sch_rcvr r;
  r.env = {src->get_token(), sched_tag};
  return r;
}
void here() { vc_assert(where == 1, "the task resumes on its scheduler"); }
template <class C, class D>
ex::task<uint32_t, on_sch> stays(C c, D d) {
  local l;
  here();
  uint32_t r = 0;
  try {
    auto a = co_await std::move(c);
    here();
    r = a.get();
  } catch (etok const & e) {
    here();
    r = e.get();
  }
  auto b = co_await std::move(d);
  here();
  auto s = co_await ex::read_env(ex::get_start_scheduler);
  vc_assert(s.tag == sched_tag, "the task's environment has its scheduler");
  auto s2 = co_await ex::read_env(ex::get_scheduler);
  vc_assert(s2.tag == sched_tag, "the task's environment has its scheduler");
  co_return r + b.get();
}
template <class T>
ex::task<uint32_t, on_sch> stays2(T t) {
  here();
  auto r = co_await std::move(t);
  here();
  co_return r;
}
[[gnu::noinline]] void check_stays() {
  drain_with_stop();
  finished();
  vc_assert(where == 1, "the task completes on its scheduler");
  if (kids[0].kind == STOPPED || kids[2].kind == STOPPED) vc_assert(out.kind == STOPPED, "stopped ends the task as stopped");
  else if (kids[2].kind == ERROR) vc_assert(out.kind == ERROR && out.v[0] == kids[2].v, "the error is delivered");
  else vc_assert(out.kind == VALUE && out.v[0] == kids[0].v + kids[2].v, "the result is delivered");
  vc_assert(schedules <= 2, "each co_await schedules at most once");
  stop_done();
  ended();
}
}
PROOF(stays) {
  if (!go([] { return stays(child<0, sigs<V<ntok>, E<etok>, S>>{}, child<2, sigs<V<ntok>, E<etok>, S>>{}); }, on_scheduler())) return aborted();
  check_stays();
}
PROOF(stays_nested) {
  if (!go([] { return stays2(stays(child<0, sigs<V<ntok>, E<etok>>>{}, child<2, sigs<V<ntok>, S>>{})); }, on_scheduler())) return aborted();
  check_stays();
}
// ---------------------------------------------------------------- the coroutine frame
namespace {
int allocs = 0, frees = 0, live_allocators = 0;
size_t alloc_sizes[2];
void* alloc_at[2];
template <class T, size_t Pad = 1>
struct alloc {
  using value_type = T;
  template <class U> struct rebind { using other = alloc<U, Pad>; };
  uint32_t tag;
  uint32_t magic = ALIVE;
  char pad[Pad];
  explicit alloc(uint32_t t) noexcept : tag(t) { ++live_allocators; }
  alloc(alloc const & o) noexcept : tag(o.tag) { vc_assert(o.magic == ALIVE, "an allocator is only used while it is alive"); ++live_allocators; }
  template <class U>
  alloc(alloc<U, Pad> const & o) noexcept : tag(o.tag) { vc_assert(o.magic == ALIVE, "an allocator is only used while it is alive"); ++live_allocators; }
  ~alloc() { vc_assert(magic == ALIVE, "an allocator is destroyed once"); magic = DEAD; --live_allocators; }
  T* allocate(size_t n) {
    maybe_throw("allocate throws");
    vc_assert(allocs == 0, "one allocation per coroutine");
    alloc_sizes[allocs] = n;
    T* p = static_cast<T*>(::operator new(n * sizeof(T)));
    alloc_at[allocs++] = p;
    return p;
  }
  void deallocate(T* p, size_t n) noexcept {
    vc_assert(magic == ALIVE && tag == 0xA110Cu, "the memory is returned to the allocator it came from");
    vc_assert(frees < allocs && p == alloc_at[frees] && n == alloc_sizes[frees], "the memory is returned as it was allocated");
    ++frees;
    ::operator delete(p);
  }
  bool operator==(alloc const & o) const noexcept { return tag == o.tag; }
};
template <class A, class C>
task<uint32_t> allocated(std::allocator_arg_t, A, C c) {
  local l;
  auto v = co_await std::move(c);
  co_return v.get();
}
template <size_t Pad>
void allocs_with() {
  throws_left = 1;
  bool start = vc_choice(2, "started");
  if (start) {
    bool ok = go([] { return allocated(std::allocator_arg, alloc<char, Pad>(0xA110Cu), child<0, SNx>{}); }, xrcvr{});
    if (ok) drain();
    vc_assert(ok == (allocs == 1), "the coroutine's memory comes from its allocator");
    vc_assert(frees == allocs && live_allocators == 0, "the memory is returned and the allocator destroyed");
    if (!ok) { vc_cover("allocation fails"); return aborted(); }
    finished();
    if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.v[0] == k.v, "the result is delivered");
    else vc_assert(out.kind == k.kind, "the child's channel decides");
    ended();
  } else {
    try {
      auto t = allocated(std::allocator_arg, alloc<char, Pad>(0xA110Cu), child<0, SNx>{});
      vc_assert(allocs == 1, "the coroutine's memory comes from its allocator");
    } catch (thrown const &) {
      vc_assert(allocs == 0, "an exception of the allocator is passed on");
    }
    vc_assert(frees == allocs && live_allocators == 0, "the memory is returned and the allocator destroyed");
    aborted();
  }
}
}
PROOF(allocates) { allocs_with<1>(); }
PROOF(allocates_large) { allocs_with<40>(); }
// ---------------------------------------------------------------- completion on another thread
namespace {
bool resumed_once = false;
task<uint32_t> on_thread() {
  local l;
  auto v = co_await child<0, sigs<V<ntok>>>{};
  vc_assert(!resumed_once, "the coroutine is resumed once");
  resumed_once = true;
  auto w = co_await child<2, VS>{};
  co_return v.get() + w.get();
}
}
//@proofopt other_thread preemptions=3
PROOF(other_thread) {
  vc_threads();
  publish = true;
  defer_mode = 1;
  vc_spawn([](void*) { await_kid(0); complete_kid(0); await_kid(2); complete_kid(2); }, nullptr, "completer");
  if (!go([] { return on_thread(); })) return aborted();
  vc_join_all();
  finished();
  if (kids[2].kind == STOPPED) vc_assert(out.kind == STOPPED, "stopped ends the task as stopped");
  else vc_assert(out.kind == VALUE && out.v[0] == k.v + kids[2].v, "the result is delivered");
  ended();
}
