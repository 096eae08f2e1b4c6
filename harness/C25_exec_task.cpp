// exec::task: awaiting, unwinding, rescheduling, and actions that run when it ends
#include "lib.h"
#include <exec/task.hpp>
#include <exec/at_coroutine_exit.hpp>
#include <exec/on_coro_disposition.hpp>
using namespace vt;
namespace {
kid_t& k = kids[0];
template <class T> using itask = exec::basic_task<T, exec::__task::inline_task_context<T>>;
template <class T> using stask = exec::task<T>;

enum { GOT = 1, CAUGHT = 2, LATE = 4 };
int seen = 0;
uint32_t seen_id = 0;
int locals_at_end = -1, cbs_at_end = -1, live_cbs = 0;
struct local {
  static inline int n = 0;
  uint32_t magic = ALIVE;
  local() { ++n; }
  local(local const &) = delete;
  ~local() { vc_assert(magic == ALIVE, "a local variable is destroyed once"); magic = DEAD; --n; }
};
// the order of the actions that run when the coroutine ends
int acts[6], nacts = 0;
void act(int i) { if (nacts < 6) acts[nacts] = i; ++nacts; }
int acts_at_end = -1;

int where = 1;
uint32_t tags[3];      // the identities of the schedulers
struct sch {
  using scheduler_concept = ex::scheduler_t;
  uint32_t tag = 0xBAD;
  int ctx = 0;         // the context it stands for: 1 or 2
  struct attrs {
    uint32_t tag;
    int ctx;
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept -> sch { return sch{tag, ctx}; }
  };
  struct snd {
    using sender_concept = ex::sender_t;
    uint32_t tag;
    int ctx;
    using completion_signatures = sigs<V0, E<std::exception_ptr>, S>;
    template <class R>
    auto connect(R r) const -> child_op<-1, R, completion_signatures> {
      vc_assert(tag == tags[ctx], "the scheduler is the one that was given");
      ++kids[ctx].connected;
      return child_op<-1, R, completion_signatures>{static_cast<R&&>(r), ctx};
    }
    auto get_env() const noexcept -> attrs { return {tag, ctx}; }
  };
  auto schedule() const noexcept -> snd { return {tag, ctx}; }
  bool operator==(sch const & o) const noexcept { return tag == o.tag; }
};
struct otok {
  ex::inplace_stop_token t;
  template <class F>
  struct callback_type {
    ex::inplace_stop_callback<F> cb;
    template <class I>
    callback_type(otok o, I&& i) noexcept : cb(o.t, static_cast<I&&>(i)) { ++live_cbs; }
    ~callback_type() { --live_cbs; }
  };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(otok const &) const noexcept = default;
};
template <class Tok>
struct env_t {
  Tok t;
  sch s;
  auto query(ex::get_stop_token_t) const noexcept -> Tok { return t; }
  auto query(ex::get_start_scheduler_t) const noexcept -> sch { return s; }
};
template <class Tok>
struct trcvr : rcvr<> {
  env_t<Tok> env;
  auto get_env() const noexcept -> env_t<Tok> { return env; }
  template <class E>
  void set_error(E&& e) noexcept {
    static_assert(std::is_same_v<std::remove_cvref_t<E>, std::exception_ptr>);
    first_completion();
    out.kind = ERROR;
    vc_assert((bool)e, "an exception_ptr that is delivered is never null");
    try {
      std::rethrow_exception(e);
    } catch (thrown const & t) {
      out.err = 2;
      out.v[0] = t.id;
    } catch (etok const & t) {
      out.err = 5;
      out.v[0] = t.get();
    } catch (...) {
      out.err = 4;
    }
    completed();
  }
};
template <class Tok = ex::inplace_stop_token>
trcvr<Tok> receiver() {
  src = new ex::inplace_stop_source;
  tags[1] = vc_u32("scheduler");
  tags[2] = vc_u32("other scheduler");
  kids[0].on_finish = kids[3].on_finish = [] { where = 7; };
  kids[1].on_finish = [] { where = 1; };
  kids[2].on_finish = [] { where = 2; };
  on_complete = [] { locals_at_end = local::n; cbs_at_end = live_cbs; acts_at_end = nacts; };
  trcvr<Tok> r;
  r.env.t = Tok{src->get_token()};
  r.env.s = sch{tags[1], 1};
  return r;
}
[[gnu::noinline]] void ended() {
  vc_assert(local::n == 0, "every local variable of the body is destroyed");
  stop_done();
  all_destroyed();
}
[[gnu::noinline]] void covers() {
  if (k.kind == VALUE) vc_cover("a value is awaited");
  if (k.kind == ERROR) vc_cover("an error is awaited");
  if (k.kind == STOPPED) vc_cover("stopped is awaited");
}
template <class C>
itask<uint32_t> awaits(C c) {
  local l;
  auto v = co_await std::move(c);
  seen |= GOT;
  co_return v.get();
}
template <class C>
itask<tok> awaits_tok(C c) {
  local l;
  auto v = co_await std::move(c);
  seen |= GOT;
  co_return std::move(v);
}
template <class C>
itask<uint32_t> catches(C c) {
  local l;
  try {
    auto v = co_await awaits(std::move(c));
    co_return v;
  } catch (etok const & e) {
    seen |= CAUGHT;
    seen_id = e.get();
  } catch (thrown const & t) {
    seen |= CAUGHT;
    seen_id = t.id;
  }
  co_return 7u;
}
template <class C>
itask<void> nothing(C c) {
  local l;
  co_await std::move(c);
  seen |= GOT;
}
using SNx = sigs<V<ntok>, E<etok>, E<std::exception_ptr>, S>;
using SAll = sigs<V<tok>, E<etok>, E<std::exception_ptr>, S>;
[[gnu::noinline]] void check_awaits() {
  if (k.started == 0 || thrown_count) {
    vc_assert(thrown_count == 1 && out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "what user code throws is the error");
  } else if (k.kind == VALUE) {
    vc_assert(seen == GOT && out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "the value is the result");
  } else if (k.kind == STOPPED) {
    vc_assert(seen == 0 && out.kind == STOPPED, "stopped ends the task as stopped");
  } else {
    vc_assert(seen == 0 && out.kind == ERROR && out.v[0] == k.v, "an error becomes the task's error");
    vc_assert(k.sig == 1 ? out.err == 5 : out.err == 2, "the error is rethrown with its own type");
  }
}
}
PROOF(awaits_sender) {
  if (!go([] { return awaits(child<0, SNx>{}); }, receiver())) return aborted();
  drain();
  finished();
  check_awaits();
  covers();
  ended();
}
PROOF(awaits_throwing) {
  throws_left = 1;
  auto r = receiver();
  if (!go([] { return awaits_tok(child<0, SAll, false>{}); }, r)) { stop_done(); return aborted(); }
  drain();
  finished();
  check_awaits();
  if (thrown_count && k.started == 0) vc_cover("connect throws");
  if (thrown_count && k.started) vc_cover("a value throws");
  ended();
}
PROOF(awaits_lvalue) {
  throws_left = 1;
  if (!go([] { return awaits(child<0, sigs<V<xtok const &>, E<etok>, S>>{}); }, receiver())) return aborted();
  drain();
  finished();
  check_awaits();
  if (thrown_count) vc_cover("the copy throws");
  ended();
}
PROOF(awaits_void) {
  if (!go([] { return nothing(child<0, sigs<V0, E<etok>, S>>{}); }, receiver())) return aborted();
  drain();
  finished();
  covers();
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED && seen == 0, "stopped ends the task");
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 0 && seen == GOT, "the task completes");
  else vc_assert(out.kind == ERROR && out.err == 5 && out.v[0] == k.v, "an error is the task's error");
  ended();
}
PROOF(nested_caught) {
  if (!go([] { return catches(child<0, SNx>{}); }, receiver())) return aborted();
  drain();
  finished();
  covers();
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED && seen == 0, "stopped unwinds every task");
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.v[0] == k.v && seen == GOT, "a value is returned");
  else vc_assert(out.kind == VALUE && out.v[0] == 7 && seen == CAUGHT && seen_id == k.v, "the awaiting task may handle the inner error");
  ended();
}
PROOF(unstarted) {
  {
    auto t = awaits(child<0, SNx>{});
    auto t2 = std::move(t);
    if (vc_choice(2, "connected")) { auto op = ex::connect(std::move(t2), receiver()); }
  }
  vc_assert(seen == 0, "nothing of the body runs");
  stop_done();
  aborted();
}
// ---------------------------------------------------------------- stop requests
namespace {
template <class Tok>
void stop_leaf() {
  auto r = receiver<Tok>();
  stop_before();
  go([] { return catches(lchild<0>{}); }, r);
  if (stop_asked) vc_assert(out.n == 1 && out.kind == STOPPED, "a stop requested before reaches the child when it is started");
  drain_with_stop();
  finished();
  if (stop_asked) vc_cover("a stop was requested");
  if (k.kind == STOPPED) vc_assert(out.kind == STOPPED, "stopped ends the task as stopped");
  else vc_assert(out.kind == VALUE && out.v[0] == k.v, "the result is delivered");
  if (stop_asked && k.kind == VALUE) vc_assert(k.order < stop_order, "a stop request completes what is being awaited");
  ended();
}
}
PROOF(stop_leaf_inplace) { stop_leaf<ex::inplace_stop_token>(); }
PROOF(stop_leaf_other) { stop_leaf<otok>(); }
// ---------------------------------------------------------------- awaited by a coroutine of another library
namespace {
int foreign_end = 0;   // 1 value, 2 stopped, 3 exception
struct foreign {
  struct promise_type {
    env_t<ex::inplace_stop_token> env;
    auto get_env() const noexcept -> env_t<ex::inplace_stop_token> const & { return env; }
    foreign get_return_object() noexcept { return {std::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_always final_suspend() noexcept { return {}; }
    void return_void() noexcept {}
    void unhandled_exception() noexcept { vc_assert(foreign_end == 0, "one result"); foreign_end = 3; }
    std::coroutine_handle<> unhandled_stopped() noexcept {
      vc_assert(foreign_end == 0, "one result");
      foreign_end = 2;
      return std::noop_coroutine();
    }
  };
  std::coroutine_handle<promise_type> h;
};
uint32_t foreign_got = 0;
template <class C> foreign awaits_task(C c) {
  local l;
  foreign_got = co_await awaits(std::move(c));
  vc_assert(foreign_end == 0, "one result");
  foreign_end = 1;
}
template <class C> void from_foreign() {
  auto r = receiver();
  stop_before();
  auto f = awaits_task(C{});
  f.h.promise().env = r.env;
  f.h.resume();
  drain_with_stop();
  vc_assert(k.started == 1 && k.completed == 1, "the child is run once");
  vc_assert(foreign_end == (k.kind == VALUE ? 1 : k.kind == STOPPED ? 2 : 3), "the coroutine goes on with the task's result");
  if (k.kind == VALUE) { vc_cover("value"); vc_assert(foreign_got == k.v && seen == GOT, "the value is the result"); }
  else { vc_cover("no value"); vc_assert(seen == 0, "nothing more of the body runs"); }
  if (stop_asked && k.kind == VALUE) vc_assert(k.stop_seen || k.order < stop_order, "a stop request reaches what is being awaited");
  f.h.destroy();
  vc_assert(local::n == 0, "every local variable of the body is destroyed");
  stop_done();
  all_destroyed();
}
}
PROOF(foreign_coroutine) { kids[0].watch_stop = true; from_foreign<child<0, SNx>>(); }
PROOF(foreign_coroutine_stop) { from_foreign<lchild<0>>(); }
// ---------------------------------------------------------------- actions at the end
namespace {
void act_on_ctx(int i) { act(i); }
template <class C>
itask<uint32_t> cleans1(C c) {
  local l;
  auto&& [a] = co_await exec::at_coroutine_exit([](uint32_t a) { return ex::just() | ex::then([a] { act((int) a); }); }, 1u);
  vc_assert(a == 1, "the action's arguments are given back");
  auto v = co_await child<4, sigs<V<ntok>, E<etok>, S>>{};
  auto&& [b, ch] = co_await exec::at_coroutine_exit([](uint32_t b, child<3, sigs<V0>> ch) { return std::move(ch) | ex::then([b] { act((int) b); }); }, 2u, child<3, sigs<V0>>{});
  vc_assert(b == 2, "the action's arguments are given back");
  b = 3;   // the action gets what the body leaves in its arguments
  auto w = co_await std::move(c);
  co_return v.get() + w.get();
}
}
PROOF(at_exit) {
  auto r = receiver();
  go([] { return cleans1(child<0, sigs<V<ntok>, E<etok>, S>>{}); }, r);
  drain();
  finished();
  auto& k4 = kids[4];
  int n = k4.kind == VALUE ? 2 : 1;
  vc_assert(nacts == n && acts_at_end == n, "every registered action runs before the task completes");
  if (n == 2) vc_assert(acts[0] == 3 && acts[1] == 1, "the actions run in reverse order");
  else vc_assert(acts[0] == 1, "only registered actions run");
  vc_assert(kids[3].started == n - 1, "only registered actions run");
  auto& last = n == 2 ? k : k4;
  if (last.kind == VALUE) { vc_cover("value"); vc_assert(out.kind == VALUE && out.v[0] == k4.v + k.v, "the result is delivered after the actions"); }
  else if (last.kind == ERROR) { vc_cover("error"); vc_assert(out.kind == ERROR && out.err == 5 && out.v[0] == last.v, "the error is delivered after the actions"); }
  else { vc_cover("stopped"); vc_assert(out.kind == STOPPED, "stopped is delivered after the actions"); }
  ended();
}
namespace {
template <class C>
stask<uint32_t> disposes(C c, int how) {
  local l;
  (void) co_await exec::on_coroutine_succeeded([] { return ex::just() | ex::then([] { act(1); }); });
  (void) co_await exec::on_coroutine_stopped([] { return ex::just() | ex::then([] { act(2); }); });
  (void) co_await exec::on_coroutine_failed([] { return ex::just() | ex::then([] { act(3); }); });
  (void) co_await exec::at_coroutine_exit([] { return ex::just() | ex::then([] { act(4); }); });
  auto v = co_await std::move(c);
  if (how == 1) throw thrown{v.get() + 1};
  co_return v.get();
}
}
PROOF(dispositions) {
  int how = vc_choice(2, "the body throws");
  auto r = receiver();
  kids[1].fixed = 1;
  go([how] { return disposes(child<0, sigs<V<ntok>, E<etok>, S>>{}, how); }, r);
  drain();
  finished();
  vc_assert(nacts == 2 && acts[0] == 4, "an unconditional action and the one for this outcome run");
  if (k.kind == VALUE && how == 0) { vc_cover("value"); vc_assert(acts[1] == 1 && out.kind == VALUE && out.v[0] == k.v, "the action for success runs when the body returns"); }
  else if (k.kind == STOPPED) { vc_cover("stopped"); vc_assert(acts[1] == 2 && out.kind == STOPPED, "the action for stopped runs when the body is stopped"); }
  else {
    vc_cover("error");
    vc_assert(acts[1] == 3 && out.kind == ERROR && out.v[0] == (k.kind == VALUE ? k.v + 1 : k.v), "the action for failure runs when the body throws");
  }
  ended();
}
// ---------------------------------------------------------------- where the task resumes
namespace {
void here(int i) { vc_assert(where == i, "the task resumes on its scheduler"); }
int here_at_end = 0;
template <class C, class D>
stask<uint32_t> stays(C c, D d) {
  local l;
  here(1);
  uint32_t r = 0;
  try {
    auto a = co_await std::move(c);
    here(1);
    r = a.get();
  } catch (etok const & e) {
    here(1);
    r = e.get();
  } catch (thrown const & t) {
    r = t.id;           // the scheduler failed
    where = 1;
  }
  auto b = co_await std::move(d);
  here(1);
  co_return r + b.get();
}
template <class T>
stask<uint32_t> stays2(T t) {
  here(1);
  auto r = co_await std::move(t);
  here(1);
  co_return r;
}
int sched_outcome() { return kids[1].kind; }
}
//@proofopt stays max_paths=40000
PROOF(stays) {
  auto r = receiver();
  go([] { return stays(child<0, sigs<V<ntok>, E<etok>>>{}, child<3, sigs<V<ntok>, S>>{}); }, r);
  drain_with_stop();
  finished();
  vc_assert(kids[1].started <= 2, "each co_await schedules at most once");
  if (kids[1].started && kids[1].kind == ERROR) vc_cover("the scheduler fails");
  if (kids[1].started && kids[1].kind == STOPPED) vc_cover("the scheduler is stopped");
  if (out.kind == VALUE) vc_assert(where == 1, "the task completes on its scheduler");
  if (kids[3].started && kids[3].kind == STOPPED && kids[1].kind == VALUE) vc_assert(out.kind == STOPPED, "stopped ends the task as stopped");
  if (kids[1].kind == VALUE && kids[3].kind == VALUE && kids[1].started == 2 && where == 1 && out.kind == VALUE) vc_cover("both resume on the scheduler");
  ended();
}
// awaiting a task resumes where that task completed
PROOF(stays_nested) {
  auto r = receiver();
  kids[1].fixed = 1;
  go([] { return stays2(stays2(stays(child<0, sigs<V<ntok>>>{}, child<3, sigs<V<ntok>>>{}))); }, r);
  drain();
  finished();
  if (out.kind == VALUE) vc_assert(where == 1, "the task completes on its scheduler");
  ended();
}
// moving a task to another scheduler: it resumes there until its end, and ends where it began
namespace {
template <class C>
stask<uint32_t> moves(C c) {
  local l;
  here(1);
  try {
    co_await exec::reschedule_coroutine_on(sch{tags[2], 2});
    here(2);
    seen |= LATE;
  } catch (thrown const & t) {
    seen |= CAUGHT;
    seen_id = t.id;
    co_return 5u;
  }
  auto v = co_await std::move(c);
  here(2);
  co_return v.get();
}
template <class C>
stask<uint32_t> moves_outer(C c) {
  auto v = co_await moves(std::move(c));
  here(1);
  co_return v;
}
}
PROOF(reschedules) {
  auto r = receiver();
  kids[1].fixed = 1;   // going back cannot fail: it would terminate
  bool nested = vc_choice(2, "nested");
  if (nested) go([] { return moves_outer(child<0, sigs<V<ntok>, E<etok>>>{}); }, r);
  else go([] { return moves(child<0, sigs<V<ntok>, E<etok>>>{}); }, r);
  drain();
  finished();
  if (kids[2].started == 1 && kids[2].kind == ERROR) {
    vc_cover("the scheduler fails");
    vc_assert(seen == CAUGHT && seen_id == kids[2].v && out.kind == VALUE && out.v[0] == 5, "a failure to move is thrown where it was asked for");
  } else if (kids[2].started == 1 && kids[2].kind == STOPPED) {
    vc_cover("the scheduler is stopped");
    vc_assert(seen == 0 && out.kind == STOPPED, "stopped ends the task as stopped");
  } else if (kids[2].kind == VALUE) {
    vc_assert(seen == LATE, "the task goes on after it has moved");
    if (k.kind == VALUE) { vc_cover("value"); vc_assert(out.kind == VALUE && out.v[0] == k.v, "the result is delivered"); }
    else { vc_cover("error"); vc_assert(out.kind == ERROR && out.err == 5 && out.v[0] == k.v, "the error is delivered"); }
  }
  vc_assert(where == 1, "the task ends where it began");
  ended();
}
