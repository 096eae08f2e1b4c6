// split and ensure_started: one run of the sender, its result handed to every waiter
#include "lib.h"
#include <exec/split.hpp>
#include <exec/ensure_started.hpp>
using namespace vt;

namespace {
kid_t& k = kids[0];
// waiters: each has its own receiver, operation and stop source
constexpr int NW = 3;
struct waiter_t {
  int n = 0, kind = 0, err = 0, order = 0;
  uint32_t v = 0;
  void const * addr = nullptr;
  bool is_const = false, started = false;
  void (*destroy)() = nullptr;
  void (*on_done)() = nullptr;
  ex::inplace_stop_source* src = nullptr;
  bool asked = false;
};
waiter_t w[NW];
template <int I>
struct wrcvr {
  using receiver_concept = ex::receiver_t;
  void done(int kind) noexcept {
    vc_assert(w[I].started, "a waiter is completed only after it was started");
    vc_assert(w[I].n == 0, "a waiter is completed at most once");
    ++w[I].n;
    vc_assert(ctoken::cbs[I].load() == 0, "no stop callback is left registered when a waiter completes");
    w[I].kind = kind;
    w[I].order = ++seq_no;
    if (w[I].on_done) w[I].on_done();
    if (auto d = std::exchange(w[I].destroy, nullptr)) d();
  }
  template <class T>
  void set_value(T&& t) noexcept {
    w[I].v = idof(t);
    w[I].addr = &t;
    w[I].is_const = std::is_const_v<std::remove_reference_t<T>>;
    done(VALUE);
  }
  template <class X>
  void set_error(X&& e) noexcept {
    out.err = 1;
    w[I].v = idof(e);
    w[I].err = out.err;
    w[I].addr = &e;
    done(ERROR);
  }
  void set_stopped() noexcept { done(STOPPED); }
  auto get_env() const noexcept -> cenv { return {ctoken{w[I].src ? w[I].src->get_token() : ex::inplace_stop_token{}, I}}; }
};
template <int I, class Snd>
struct wop {
  ex::connect_result_t<Snd, wrcvr<I>> op;
  static inline wop* cur = nullptr;
  explicit wop(Snd&& s) : op(ex::connect(static_cast<Snd&&>(s), wrcvr<I>{})) {}
};
template <int I, class Snd> void connect_w(Snd&& s) {
  w[I].src = new ex::inplace_stop_source;
  wop<I, Snd>::cur = new wop<I, Snd>(static_cast<Snd&&>(s));
  w[I].destroy = [] { delete std::exchange(wop<I, Snd>::cur, nullptr); };
}
template <int I, class Snd> void start_w() {
  w[I].started = true;
  ex::start(wop<I, Snd>::cur->op);
}
template <int I, class Snd> void drop_w() {
  w[I].destroy = nullptr;
  delete std::exchange(wop<I, Snd>::cur, nullptr);
}
template <int I> void stop_w() {
  w[I].asked = true;
  w[I].src->request_stop();
}
void cleanup() {
  for (auto& x : w) delete std::exchange(x.src, nullptr);
}
void same_result(int i) {
  vc_assert(w[i].n == 1, "every started waiter is completed exactly once");
  if (w[i].asked && w[i].kind == STOPPED) return;
  vc_assert(k.completed == 1, "the result comes from the one run of the sender");
  vc_assert(w[i].kind == k.kind, "every waiter gets the channel the sender completed on");
  if (k.kind != STOPPED) vc_assert(w[i].v == k.v, "every waiter gets what the sender sent");
}
using all_sigs = sigs<V<ntok>, E<etok>, S>;
template <class Sg = all_sigs, bool Nx = true> auto mk() { return exec::split(child<0, Sg, Nx>{}); }
using SP = decltype(mk());
}  // namespace

// two waiters: started before or after the sender completes, or dropped
PROOF(split_two) {
  {
    SP s = mk();
    vc_assert(k.connected == 1 && k.started == 0, "split connects its sender and does not start it");
    connect_w<0>(s);
    connect_w<1>(s);
    if (vc_bool("the sender is dropped early")) { SP t = std::move(s); }
    vc_assert(k.started == 0, "nothing starts before a waiter starts");
    start_w<0, SP&>();
    vc_assert(k.started == 1, "the first waiter starts the sender");
    if (vc_bool("completes before the second waiter")) { drain(); }
    if (vc_bool("the second waiter starts")) start_w<1, SP&>();
    else drop_w<1, SP&>();
    vc_assert(k.started == 1, "the sender runs once");
    drain();
  }
  if (k.kind == VALUE) vc_cover("value");
  same_result(0);
  if (w[1].started) {
    vc_cover("two waiters");
    same_result(1);
    vc_assert(k.kind == STOPPED || (w[0].addr == w[1].addr), "the waiters share one result");
    if (k.kind == VALUE) vc_assert(w[0].is_const && w[1].is_const, "the shared result is const");
  }
  vc_assert(k.live_ops == 0, "the sender's operation is destroyed with the last handle");
  cleanup();
  all_destroyed();
}

// copies of the sender and of the operation may be made and dropped freely; nothing started, nothing runs
PROOF(split_never_started) {
  {
    SP s = mk();
    SP c = s;
    connect_w<0>(s);
    connect_w<1>(std::move(c));
    drop_w<0, SP&>();
    if (vc_bool("assign")) s = mk();
    drop_w<1, SP>();
  }
  vc_assert(k.started == 0, "nothing starts before a waiter starts");
  vc_assert(k.live_ops == 0, "the operation is destroyed");
  cleanup();
  all_destroyed();
}

// any interleaving of starts, stop requests and the completion, in one thread
namespace {
template <int I> void nop() {}
}
PROOF(split_stop) {
  {
    SP s = mk();
    connect_w<0>(s);
    connect_w<1>(s);
    bool held = vc_bool("the sender is kept");
    if (!held) { SP t = std::move(s); }
    k.watch_stop = true;
    for (int i = 0; i < 5; ++i) {
      unsigned c = vc_choice(5, "next");
      if (c == 0 && !w[0].started) start_w<0, SP&>();
      else if (c == 1 && !w[1].started) start_w<1, SP&>();
      else if (c == 2 && !w[0].asked) stop_w<0>();
      else if (c == 3 && !w[1].asked) stop_w<1>();
      else if (c == 4 && kid_pending(0)) complete_kid(0);
      else vc_end();
      vc_assert(k.started == 0 || w[0].started || w[1].started, "started by a waiter only");
      for (int j = 0; j < 2; ++j)
        if (w[j].started && w[j].asked) vc_assert(w[j].n == 1, "a stop request completes a waiting operation at once");
      if (w[0].n && w[1].n && k.started && !k.completed && !held) vc_cover("all waiters left");
    }
    if (!w[0].started) start_w<0, SP&>();
    if (!w[1].started) start_w<1, SP&>();
    drain();
    same_result(0);
    same_result(1);
    vc_assert(k.started <= 1, "the sender runs at most once");
    if (k.started) {
      // the order of the last waiter's departure against the completion decides whether a stop is asked
      bool left = w[0].order < k.order && w[1].order < k.order;
      if (held || !left) vc_assert(!k.stop_seen, "the sender is not stopped while somebody can still wait for it");
      else { vc_cover("told to stop"); vc_assert(k.stop_seen, "the sender is asked to stop when nobody waits any more"); }
    }
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}

// the sender's start asks the first waiter to stop
PROOF(split_stop_in_start) {
  {
    SP s = mk();
    connect_w<0>(s);
    if (vc_bool("the sender is dropped")) { SP t = std::move(s); }
    k.on_start = [] { stop_w<0>(); };
    defer_mode = 1;
    start_w<0, SP&>();
    vc_assert(w[0].n == 1 && w[0].kind == STOPPED, "a stop request completes a waiting operation at once");
    vc_assert(k.started == 1, "the sender runs");
    drain();
    vc_assert(w[0].n == 1, "completed once");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
PROOF(split_stop_in_inline_start) {
  {
    SP s = mk();
    connect_w<0>(s);
    if (vc_bool("the sender is dropped")) { SP t = std::move(s); }
    k.on_start = [] { stop_w<0>(); };
    defer_mode = 0;
    start_w<0, SP&>();
    same_result(0);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
// the sender completes from inside the stop callback that its own start triggered
PROOF(split_stop_in_start_inline) {
  {
    using L = decltype(exec::split(lchild<0>{}));
    L s = exec::split(lchild<0>{});
    connect_w<0>(s);
    if (vc_bool("the sender is dropped")) { L t = std::move(s); }
    k.on_start = [] { stop_w<0>(); };
    start_w<0, L&>();
    vc_assert(w[0].n == 1 && w[0].kind == STOPPED, "stopped at once");
    { L t = std::move(s); }
    vc_assert(k.completed == 1, "the sender is asked to stop when nobody can wait any more");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
// a sender that completes from inside its stop callback
PROOF(split_stop_inline) {
  {
    using L = decltype(exec::split(lchild<0>{}));
    L s = exec::split(lchild<0>{});
    connect_w<0>(s);
    connect_w<1>(s);
    bool early = vc_bool("the sender is dropped first");
    if (early) { L t = std::move(s); }
    start_w<0, L&>();
    bool second = vc_bool("second");
    if (second) start_w<1, L&>(); else drop_w<1, L&>();
    if (vc_bool("complete first")) try_complete_kid(0);
    stop_w<0>();
    if (second) stop_w<1>();
    else if (early) vc_assert(k.completed == 1, "stopped when nobody waits");
    if (!early) { L t = std::move(s); }
    vc_assert(k.completed == 1, "the sender is asked to stop when nobody can wait any more");
    vc_assert(w[0].n == 1 && w[1].n == (second ? 1 : 0), "each waiter is completed once");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}

// the waiter's own completion starts another waiter, or drops it
namespace {
void restart() { start_w<1, SP&>(); }
void drop_other() { drop_w<1, SP&>(); }
}
PROOF(split_reentrant) {
  {
    SP s = mk();
    connect_w<0>(s);
    connect_w<1>(s);
    bool drop = vc_bool("drop the other");
    w[0].on_done = drop ? drop_other : restart;
    if (vc_bool("sender dropped")) { SP t = std::move(s); }
    start_w<0, SP&>();
    if (vc_bool("stop")) stop_w<0>();
    drain();
    same_result(0);
    if (!drop) same_result(1);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}

namespace {
template <class Sg>
void split_storing_throws() {
  {
    using T = decltype(exec::split(child<0, Sg>{}));
    throws_left = 1;
    T s = exec::split(child<0, Sg>{});
    connect_w<0>(s);
    start_w<0, T&>();
    drain();
    vc_assert(w[0].n == 1, "completed once");
    if (thrown_count) { vc_cover("threw"); vc_assert(w[0].kind == ERROR && w[0].err == 2 && w[0].v == last_throw, "an exception from storing the result is delivered as that error"); }
    else same_result(0);
    throws_left = 0;
    // a second waiter gets the same
    connect_w<1>(s);
    start_w<1, T&>();
    vc_assert(w[1].n == 1 && w[1].kind == w[0].kind && w[1].v == w[0].v, "a later waiter gets the same result");
  }
  cleanup();
  all_destroyed();
}
}  // namespace
PROOF(split_throws) { split_storing_throws<sigs<V<tok>>>(); }
PROOF(split_lvalue) { split_storing_throws<xsigs>(); }
PROOF(split_connect_throws) {
  throws_left = 1;
  try {
    auto s = exec::split(child<0, all_sigs, false>{});
    vc_assert(thrown_count == 0, "an exception from connect is thrown by split");
  } catch (thrown const &) { vc_cover("threw"); }
  vc_assert(k.started == 0 && k.live_ops == 0, "nothing runs");
  all_destroyed();
}

// ------------------------------------------------------------------ ensure_started
namespace {
template <class Sg = all_sigs> auto mke() { return exec::ensure_started(child<0, Sg>{}); }
using ES = decltype(mke());
}
PROOF(ensure_started_all) {
  {
    k.watch_stop = true;
    std::optional<ES> s(mke());
    vc_assert(k.started == 1, "ensure_started starts its sender at once");
    if (vc_bool("completes first")) drain();
    unsigned c = vc_choice(3, "dropped, connected, or started");
    bool before = k.completed;
    if (c == 0) {
      vc_cover("dropped");
      s.reset();
      drain();
      vc_assert(before || k.stop_seen, "work that nobody can wait for is asked to stop");
    } else {
      connect_w<0>(std::move(*s));
      s.reset();
      if (c == 1) {
        drop_w<0, ES>();
        drain();
        vc_assert(before || k.stop_seen, "work that nobody can wait for is asked to stop");
      } else {
        if (vc_bool("stop before start")) stop_w<0>();
        start_w<0, ES>();
        if (!w[0].asked && vc_bool("stop")) stop_w<0>();
        bool left = w[0].n == 1 && !k.completed;
        if (left) vc_assert(w[0].asked && w[0].kind == STOPPED, "only a stop request completes it early");
        drain();
        same_result(0);
        if (k.kind == VALUE && w[0].kind == VALUE) { vc_cover("value"); vc_assert(!w[0].is_const, "the result is handed over"); }
        if (!before) vc_assert(k.stop_seen == left, "the work is asked to stop exactly when nobody waits any more");
      }
    }
  }
  vc_assert(k.started == 1 && k.live_ops == 0, "the sender runs once and is destroyed");
  cleanup();
  all_destroyed();
}
PROOF(ensure_started_inline_stop) {
  {
    using L = decltype(exec::ensure_started(lchild<0>{}));
    std::optional<L> s(exec::ensure_started(lchild<0>{}));
    if (vc_bool("dropped")) s.reset();
    else {
      connect_w<0>(std::move(*s));
      s.reset();
      if (vc_bool("never started")) drop_w<0, L>();
      else { start_w<0, L>(); stop_w<0>(); vc_assert(w[0].n == 1 && w[0].kind == STOPPED, "stopped at once"); }
    }
    vc_assert(k.completed == 1, "the sender is asked to stop when nobody can wait any more");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
PROOF(ensure_started_assign) {
  {
    auto a = exec::ensure_started(lchild<0>{});
    auto b = std::move(a);
    b = std::move(a);
    vc_assert(k.completed == 1, "work that is dropped by an assignment is asked to stop");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  all_destroyed();
}
namespace {
template <class Sg>
void ensure_started_storing_throws() {
  {
    using T = decltype(exec::ensure_started(child<0, Sg>{}));
    throws_left = 1;
    T s = exec::ensure_started(child<0, Sg>{});
    connect_w<0>(std::move(s));
    start_w<0, T>();
    drain();
    vc_assert(w[0].n == 1, "completed once");
    if (thrown_count) { vc_cover("threw"); vc_assert(w[0].kind == ERROR && w[0].err == 2 && w[0].v == last_throw, "an exception from storing the result is delivered as that error"); }
    else same_result(0);
  }
  cleanup();
  all_destroyed();
}
}  // namespace
PROOF(ensure_started_throws) { ensure_started_storing_throws<sigs<V<tok>>>(); }
PROOF(ensure_started_lvalue) { ensure_started_storing_throws<xsigs>(); }

// ------------------------------------------------------------------ threads
//@proofopt thr_split_complete preemptions=2
// the sender completes on its own thread while a waiter starts
PROOF(thr_split_complete) {
  {
    SP s = mk();
    defer_mode = 1;
    connect_w<0>(s);
    connect_w<1>(s);
    if (vc_bool("dropped")) { SP t = std::move(s); }
    start_w<0, SP&>();
    vc_spawn([](void*) { complete_kid(0); }, nullptr, "child");
    vc_spawn([](void*) { start_w<1, SP&>(); }, nullptr, "second waiter");
    vc_join_all();
    same_result(0);
    same_result(1);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
//@proofopt thr_split_start preemptions=2
PROOF(thr_split_start) {
  {
    SP s = mk();
    defer_mode = 1;
    connect_w<0>(s);
    connect_w<1>(s);
    { SP t = std::move(s); }
    vc_spawn([](void*) { start_w<0, SP&>(); }, nullptr, "first");
    vc_spawn([](void*) { start_w<1, SP&>(); }, nullptr, "second");
    vc_join_all();
    vc_assert(k.started == 1, "the sender runs once");
    drain();
    same_result(0);
    same_result(1);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
//@proofopt thr_split_stop preemptions=2
// a stop request races with the completion
PROOF(thr_split_stop) {
  {
    SP s = mk();
    defer_mode = 1;
    connect_w<0>(s);
    if (vc_bool("dropped")) { SP t = std::move(s); }
    start_w<0, SP&>();
    vc_spawn([](void*) { complete_kid(0); }, nullptr, "child");
    vc_spawn([](void*) { w[0].asked = true; w[0].src->request_stop(); }, nullptr, "stop");
    vc_join_all();
    if (w[0].kind == STOPPED) vc_cover("stopped"); else vc_cover("completed");
    same_result(0);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
//@proofopt thr_split_start_stop preemptions=2
// a stop request races with start
PROOF(thr_split_start_stop) {
  {
    SP s = mk();
    connect_w<0>(s);
    if (vc_bool("dropped")) { SP t = std::move(s); }
    vc_spawn([](void*) { start_w<0, SP&>(); }, nullptr, "start");
    vc_spawn([](void*) { w[0].src->request_stop(); }, nullptr, "stop");
    vc_join_all();
    w[0].asked = true;
    drain();
    same_result(0);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
//@proofopt thr_split_two_leave preemptions=2
// two waiters leave at the same time: the sender is asked to stop
PROOF(thr_split_two_leave) {
  {
    using L = decltype(exec::split(lchild<0>{}));
    L s = exec::split(lchild<0>{});
    connect_w<0>(s);
    connect_w<1>(s);
    { L t = std::move(s); }
    start_w<0, L&>();
    start_w<1, L&>();
    vc_spawn([](void*) { w[0].src->request_stop(); }, nullptr, "stop 0");
    vc_spawn([](void*) { w[1].src->request_stop(); }, nullptr, "stop 1");
    vc_join_all();
    vc_assert(w[0].n == 1 && w[0].kind == STOPPED && w[1].n == 1 && w[1].kind == STOPPED, "a waiter that is stopped completes at once");
    vc_assert(k.completed == 1, "the sender is asked to stop when nobody waits any more");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
//@proofopt thr_ensure_drop preemptions=2
PROOF(thr_ensure_drop) {
  {
    defer_mode = 1;
    static std::optional<ES> s;
    s.emplace(mke());
    vc_spawn([](void*) { complete_kid(0); }, nullptr, "child");
    vc_spawn([](void*) { s.reset(); }, nullptr, "drop");
    vc_join_all();
    vc_assert(k.completed == 1, "completes");
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
//@proofopt thr_ensure_start preemptions=2
PROOF(thr_ensure_start) {
  {
    defer_mode = 1;
    auto s = mke();
    connect_w<0>(std::move(s));
    vc_spawn([](void*) { complete_kid(0); }, nullptr, "child");
    vc_spawn([](void*) { start_w<0, ES>(); }, nullptr, "start");
    vc_join_all();
    same_result(0);
  }
  vc_assert(k.live_ops == 0, "destroyed");
  cleanup();
  all_destroyed();
}
