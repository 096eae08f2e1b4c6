// exec::async_scope: spawned, nested and future work runs once; when_empty waits for all of it
#include "lib.h"
#include <exec/async_scope.hpp>
#include <exec/start_now.hpp>
using namespace vt;
//@opt preemptions=2

namespace {
exec::async_scope* sc = nullptr;
void new_scope() { sc = new exec::async_scope; }
void drop_scope() {
  delete sc;
  sc = nullptr;
}
// the receiver of when_empty
struct empty_rcvr {
  using receiver_concept = ex::receiver_t;
  void set_value() noexcept { done(); }
  void set_error(std::exception_ptr) noexcept { vc_assert(false, "when_empty does not fail"); }
  void set_stopped() noexcept { vc_assert(false, "when_empty is not stopped"); }
  static void done() noexcept;
};
using empty_op = ex::connect_result_t<decltype(sc->on_empty()), empty_rcvr>;
struct empty_box {
  empty_op op;
  empty_box() : op(ex::connect(sc->on_empty(), empty_rcvr{})) {}
};
empty_box* eb = nullptr;
int empties = 0;
bool drop_when_empty = false;
int expect = 0;   // children that the scope waits for
void empty_rcvr::done() noexcept {
  ++empties;
  for (int i = 0; i < expect; ++i)
    vc_assert(kids[i].completed == 1 && kids[i].live_ops == 0,
              "when_empty completes only after all work has completed and is gone");
  auto* b = eb;
  eb = nullptr;
  delete b;
  if (drop_when_empty) drop_scope();
}
void wait_empty() {
  eb = new empty_box;
  ex::start(eb->op);
}
void scope_empty() {
  if (!sc) {
    vc_assert(empties == 1, "when_empty completes exactly once");
    return;
  }
  int before = empties;
  wait_empty();
  vc_assert(empties == before + 1, "the scope is empty when all work has completed");
  if (sc) drop_scope();
}
}  // namespace

// like go(), when other work has been started before
template <class F>
static bool go_on(F make) {
  try {
    auto s = make();
    using box = opbox<decltype(s), rcvr<>>;
    box::cur = new box(std::move(s), rcvr<>{});
    destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
    ex::start(box::cur->op);
    return true;
  } catch (thrown const &) {
    return false;
  }
}

// ------------------------------------------------------------------ spawn
PROOF(spawns) {
  new_scope();
  expect = 2;
  drop_when_empty = vc_choice(2, "the scope is destroyed when it is empty");
  kids[0].watch_stop = true;
  sc->spawn(child<0, sigs<V0, S>>{});
  sc->spawn(child<1, sigs<V0, S>>{});
  vc_assert(kids[0].started == 1 && kids[1].started == 1, "spawned work is started at once");
  bool pending = kid_pending(0) || kid_pending(1);
  bool stopped = vc_choice(2, "stop");
  if (stopped) sc->request_stop();
  wait_empty();
  vc_assert((empties == 1) == !pending, "when_empty waits exactly for the pending work");
  if (pending) vc_cover("pending");
  bool seen = kid_pending(0);
  drain();
  vc_assert(empties == 1, "when_empty completes once");
  if (seen) vc_assert(kids[0].stop_seen == stopped, "the scope's stop request reaches its work");
  if (sc) scope_empty();
  all_destroyed();
}
PROOF(spawn_fails) {
  new_scope();
  throws_left = 1;
  vc_oom(true);
  bool failed = false;
  try {
    sc->spawn(tchild<0, sigs<V0, S>, false>{});
  } catch (thrown const &) { failed = true; vc_cover("throws"); }
  catch (std::bad_alloc const &) { failed = true; vc_cover("no memory"); }
  vc_oom(false);
  vc_assert(kids[0].started == !failed, "work starts exactly when spawn succeeds");
  drain();
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  scope_empty();
  all_destroyed();
}
// work that is spawned when other work completes
PROOF(spawn_more) {
  new_scope();
  expect = 2;
  drop_when_empty = vc_choice(2, "the scope is destroyed when it is empty");
  kids[0].on_finish = [] { sc->spawn(child<1, sigs<V0>>{}); };
  sc->spawn(child<0, sigs<V0, S>>{});
  if (sc && kids[1].completed == 0 && vc_choice(2, "wait")) wait_empty();
  drain();
  if (sc) scope_empty();
  all_destroyed();
}
PROOF(spawn_stopping) {
  new_scope();
  expect = 1;
  sc->spawn(ex::then(lchild<0>{}, [](ntok) noexcept {}));
  if (vc_choice(2, "wait")) wait_empty();
  if (vc_choice(2, "stop")) {
    sc->request_stop();
    vc_assert(kids[0].completed == 1, "the stop request reaches the work");
  } else {
    drain();
  }
  scope_empty();
  all_destroyed();
}
// when_empty with a sender of its own
PROOF(when_empty_sender) {
  new_scope();
  sc->spawn(child<1, sigs<V0, S>>{});
  bool busy = kid_pending(1);
  throws_left = 1;
  if (!go_on([] { return sc->when_empty(tchild<0, sigs<V<ntok>, E<etok>, S>, false>{}); })) {
    vc_cover("throws");
    vc_assert(kids[0].started == 0, "nothing runs");
    drain();
    scope_empty();
    return all_destroyed();
  }
  vc_assert(kids[0].started == !busy, "the sender starts when the scope is empty");
  if (busy) {
    complete_kid(1);
    vc_assert(kids[0].started == 1, "the sender starts when the scope becomes empty");
  }
  drain();
  finished();
  vc_assert(out.kind == kids[0].kind, "the sender's completion is delivered");
  if (out.kind != STOPPED) vc_assert(out.v[0] == kids[0].v, "what the sender sent is delivered");
  scope_empty();
  all_destroyed();
}

// ------------------------------------------------------------------ nest
template <bool Copy>
static void nest() {
  new_scope();
  expect = 1;
  throws_left = 1;
  kids[0].watch_stop = true;
  auto make = [] { return sc->nest(cchild<0, sigs<ex::set_value_t(tok const &, ntok), E<tetok>, S>>{}); };
  bool ok;
  if constexpr (Copy) ok = go_copy(make); else ok = go(make);
  if (!ok) {
    vc_cover("throws");
    vc_assert(kids[0].live_ops == 0 && kids[0].started == 0, "nothing runs");
    scope_empty();
    return all_destroyed();
  }
  bool asked = false, pending = kid_pending(0);
  if (pending) {
    asked = vc_choice(2, "stop");
    if (asked) sc->request_stop();
    wait_empty();
    vc_assert(empties == 0, "nested work counts");
  }
  drain();
  if (pending) { vc_assert(empties == 1, "when_empty completes"); vc_assert(kids[0].stop_seen == asked, "the scope's stop request reaches nested work"); }
  finished();
  vc_assert(out.kind == kids[0].kind, "the nested sender's completion is delivered");
  if (out.kind == VALUE) { vc_cover("value"); vc_assert(out.nv == 2 && out.v[0] == kids[0].v && out.v[1] == kids[0].v + 1, "its values are delivered"); }
  if (out.kind == ERROR) { vc_cover("error"); vc_assert(out.v[0] == kids[0].v, "its error is delivered"); }
  scope_empty();
  all_destroyed();
}
PROOF(nest_move) { nest<false>(); }
//PROOF(nest_copy) { nest<true>(); }

// ------------------------------------------------------------------ spawn_future
namespace {
template <class Child>
void future_life(bool throwing) {
  new_scope();
  using F = decltype(sc->spawn_future(Child{}));
  F* f = new F(sc->spawn_future(Child{}));
  vc_assert(kids[0].started == 1, "the work is started at once");
  if (throwing) throws_left = 1;
  if (vc_bool("work completes first")) drain();
  if (vc_bool("the future is moved")) {
    F* g = new F(std::move(*f));
    delete f;
    f = g;
  }
  if (vc_bool("the future is discarded")) {
    vc_cover("discarded");
    delete f;
    drain();
    vc_assert(out.n == 0, "a discarded future completes nothing");
  } else {
    using box = opbox<F, rcvr<>>;
    box::cur = new box(std::move(*f), rcvr<>{});
    delete f;
    if (vc_bool("work completes before start")) drain();
    if (vc_bool("never started")) {
      vc_cover("never started");
      delete box::cur;
      drain();
      vc_assert(out.n == 0, "an operation that was not started completes nothing");
    } else {
      destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
      ex::start(box::cur->op);
      vc_assert((out.n == 1) == (kids[0].completed == 1), "the future completes when the work has completed");
      drain();
      vc_assert(out.n == 1, "a started future completes exactly once");
      if (thrown_count) {
        vc_cover("storing threw");
        vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from storing the result is delivered");
      } else {
        vc_assert(out.kind == kids[0].kind, "the future completes as the work did");
        if (out.kind == VALUE) { vc_cover("value"); vc_assert(out.v[0] == kids[0].v, "the future delivers the value of the work"); }
        if (out.kind == ERROR) { vc_cover("error"); vc_assert(out.v[0] == kids[0].v, "the future delivers the error of the work"); }
        if (out.kind == STOPPED) vc_cover("stopped");
      }
    }
  }
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  scope_empty();
  all_destroyed();
}
}  // namespace
PROOF(future_nothrow) { future_life<child<0, sigs<V<ntok>, E<etok>, S>>>(false); }
PROOF(future_throwing) { future_life<child<0, sigs<V<tok>, E<tetok>, S>>>(true); }
PROOF(future_lvalue) { future_life<child<0, xsigs>>(true); }
PROOF(future_ref) { future_life<child<0, sigs<V<tok const &>, S>>>(true); }
PROOF(future_two) { future_life<child<0, sigs<V<ntok>, ex::set_value_t(), S>>>(false); }

PROOF(future_fails) {
  new_scope();
  throws_left = 1;
  vc_oom(true);
  bool failed = false;
  try {
    auto f = sc->spawn_future(tchild<0, sigs<V0, S>, false>{});
    throws_left = 0;
    vc_oom(false);
    if (vc_bool("complete early")) drain();
  } catch (thrown const &) { failed = true; vc_cover("throws"); }
  catch (std::bad_alloc const &) { failed = true; vc_cover("no memory"); }
  vc_oom(false);
  vc_assert(kids[0].started == !failed, "work starts exactly when spawn_future succeeds");
  drain();
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  scope_empty();
  all_destroyed();
}
// a pending future is replaced by another one
PROOF(future_assign) {
  new_scope();
  expect = 1;
  {
    auto f = sc->spawn_future(child<0, sigs<V0, S>>{});
    if (vc_choice(2, "complete early")) drain();
    auto g = std::move(f);
    if (vc_choice(2, "replaced by an empty one")) g = std::move(f);
    else f = std::move(g);
  }
  drain();
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  scope_empty();
  all_destroyed();
}
// stop requests: of the scope, and of the receiver
namespace {
template <class Child>
void future_stop() {
  new_scope();
  kids[0].watch_stop = true;
  auto r = stop_rcvr();
  using F = decltype(sc->spawn_future(Child{}));
  if (vc_choice(2, "stop before spawning")) ask_stop();
  F* f = new F(sc->spawn_future(Child{}));
  using box = opbox<F, rcvr<stop_env>>;
  box::cur = new box(std::move(*f), std::move(r));
  delete f;
  if (!stop_asked && vc_choice(2, "stop before start")) ask_stop();
  destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
  ex::start(box::cur->op);
  bool scope_stop = false;
  if (kids[0].completed == 0 && vc_choice(2, "the scope is stopped")) {
    scope_stop = true;
    sc->request_stop();
  }
  drain_with_stop();
  vc_assert(out.n == 1, "a started future completes exactly once");
  if (scope_stop) vc_assert(kids[0].stop_seen, "the scope's stop request reaches the work");
  vc_assert(out.kind == kids[0].kind || (stop_asked && out.kind == STOPPED), "the result, or stopped after a stop request");
  if (out.kind == VALUE) { vc_cover("value"); vc_assert(out.v[0] == kids[0].v, "the value"); }
  if (out.kind == STOPPED) vc_cover("stopped");
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  scope_empty();
  stop_done();
  all_destroyed();
}
}  // namespace
PROOF(future_stopped) { future_stop<child<0, sigs<V<ntok>, S>>>(); }
PROOF(future_stopped_inside) { future_stop<lchild<0>>(); }

// ------------------------------------------------------------------ start_now
PROOF(starts_now) {
  new_scope();
  expect = 2;
  auto* stg = new auto(exec::start_now(*sc, child<0, sigs<V0, S>>{}, child<1, sigs<V<ntok>, S>>{}));
  vc_assert(kids[0].started == 1 && kids[1].started == 1, "the work is started at once");
  static decltype(stg) st;
  st = stg;
  on_complete = [] {
    vc_assert(kids[0].completed == 1 && kids[1].completed == 1, "async_wait completes after all work");
  };
  bool early = vc_choice(2, "wait early");
  if (early) vc_assert(go_on([] { return st->async_wait(); }), "connect does not throw");
  drain();
  if (!early) vc_assert(go_on([] { return st->async_wait(); }), "connect does not throw");
  vc_assert(out.n == 1 && out.kind == VALUE, "async_wait completes once");
  delete st;
  scope_empty();
  all_destroyed();
}
// the storage dies when the waiter completes
PROOF(start_now_dies) {
  new_scope();
  expect = 1;
  static auto* st = new auto(exec::start_now(*sc, child<0, sigs<V0, S>>{}));
  on_complete = [] {
    auto d = destroy_op;
    destroy_op = nullptr;
    d();
    delete st;
  };
  vc_assert(go_on([] { return st->async_wait(); }), "connect does not throw");
  drain();
  vc_assert(out.n == 1 && out.kind == VALUE, "async_wait completes once");
  scope_empty();
  all_destroyed();
}
PROOF(start_now_fails) {
  new_scope();
  throws_left = 1;
  bool failed = false;
  try {
    auto st = exec::start_now(*sc, child<0, sigs<V0, S>, false>{}, child<1, sigs<V0, S>, false>{});
    throws_left = 0;
    drain();
  } catch (thrown const &) { failed = true; vc_cover("throws"); }
  vc_assert(kids[0].started == !failed && kids[1].started == !failed, "nothing runs when start_now fails");
  scope_empty();
  all_destroyed();
}
PROOF(start_now_copy_fails) {
  new_scope();
  bool failed = false;
  {
    child<0, sigs<V0, S>> a;
    tchild<1, sigs<V0, S>> b;
    tchild<1, sigs<V0, S>> const & c = b;
    throws_left = 1;
    bool with_env = vc_choice(2, "an environment is given");
    try {
      if (with_env) {
        auto st = exec::start_now(ex::env<>{}, *sc, a, c);
        throws_left = 0;
        drain();
      } else {
        auto st = exec::start_now(*sc, a, c);
        throws_left = 0;
        drain();
      }
    } catch (thrown const &) { failed = true; vc_cover("throws"); }
  }
  vc_assert(kids[0].started == !failed && kids[1].started == !failed, "nothing runs when start_now fails");
  scope_empty();
  all_destroyed();
}

// ------------------------------------------------------------------ threads
PROOF(thr_spawn_empty) {
  new_scope();
  expect = 2;
  defer_mode = 1;
  drop_when_empty = true;
  sc->spawn(child<0, sigs<V0>>{});
  sc->spawn(child<1, sigs<V0>>{});
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { complete_kid(1); }, nullptr, "child 1");
  wait_empty();
  vc_join_all();
  vc_assert(empties == 1 && !sc, "when_empty completes once");
  all_destroyed();
}
namespace {
template <class C> struct race {
  using F = decltype(sc->spawn_future(C{}));
  using box = opbox<F, rcvr<stop_env>>;
  static void prepare() {
    new_scope();
    defer_mode = 1;
    auto r = stop_rcvr();
    box::cur = new box(sc->spawn_future(C{}), std::move(r));
  }
  static void start(void*) { ex::start(box::cur->op); }
  static void drop(void*) { delete box::cur; box::cur = nullptr; }
  static void complete(void*) { try_complete_kid(0); }
  static void stop(void*) { src->request_stop(); }
  static void finish() {
    delete box::cur;
    vc_assert(kids[0].live_ops == 0, "the work is destroyed");
    scope_empty();
    stop_done();
    all_destroyed();
  }
};
using R1 = race<child<0, sigs<V<ntok>>>>;
void result() {
  vc_assert(out.n == 1, "a started future completes exactly once");
  vc_assert(out.kind == STOPPED || (out.kind == kids[0].kind && out.v[0] == kids[0].v), "the future delivers the result or stopped");
}
}  // namespace
PROOF(thr_complete_start) {
  R1::prepare();
  vc_spawn(R1::complete, nullptr, "complete");
  vc_spawn(R1::start, nullptr, "start");
  vc_join_all();
  result();
  vc_assert(out.kind == VALUE, "the value is delivered");
  R1::finish();
}
PROOF(thr_complete_stop) {
  R1::prepare();
  R1::start(nullptr);
  vc_spawn(R1::complete, nullptr, "complete");
  vc_spawn(R1::stop, nullptr, "stop");
  vc_join_all();
  result();
  R1::finish();
}
PROOF(thr_complete_drop) {
  R1::prepare();
  vc_spawn(R1::complete, nullptr, "complete");
  vc_spawn(R1::drop, nullptr, "drop");
  vc_join_all();
  vc_assert(out.n == 0, "an operation that was not started completes nothing");
  R1::finish();
}
PROOF(thr_complete_drop_stop) {
  R1::prepare();
  vc_spawn(R1::complete, nullptr, "complete");
  vc_spawn(R1::drop, nullptr, "drop");
  vc_spawn(R1::stop, nullptr, "stop");
  vc_join_all();
  vc_assert(out.n == 0, "an operation that was not started completes nothing");
  R1::finish();
}
PROOF(thr_future_drop) {
  new_scope();
  defer_mode = 1;
  using F = decltype(sc->spawn_future(child<0, sigs<V<ntok>>>{}));
  static F* f;
  f = new F(sc->spawn_future(child<0, sigs<V<ntok>>>{}));
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "complete");
  vc_spawn([](void*) { delete f; }, nullptr, "drop");
  vc_join_all();
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  scope_empty();
  all_destroyed();
}
PROOF(thr_scope_stop) {
  new_scope();
  defer_mode = 1;
  expect = 1;
  using F = decltype(sc->spawn_future(lchild<0>{}));
  static F* f;
  f = new F(sc->spawn_future(lchild<0>{}));
  vc_spawn([](void*) { try_complete_kid(0); }, nullptr, "complete");
  vc_spawn([](void*) { sc->request_stop(); }, nullptr, "stop");
  vc_join_all();
  vc_assert(kids[0].completed == 1, "the work completes");
  delete f;
  scope_empty();
  all_destroyed();
}
PROOF(thr_start_now) {
  new_scope();
  defer_mode = 1;
  static auto* st = new auto(exec::start_now(*sc, child<0, sigs<V0>>{}, child<1, sigs<V0>>{}));
  on_complete = [] {
    auto d = destroy_op;
    destroy_op = nullptr;
    d();
    delete st;
  };
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { complete_kid(1); }, nullptr, "child 1");
  vc_assert(go_on([] { return st->async_wait(); }), "connect does not throw");
  vc_join_all();
  vc_assert(out.n == 1 && out.kind == VALUE, "async_wait completes once");
  scope_empty();
  all_destroyed();
}
