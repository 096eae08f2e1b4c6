// spawn, spawn_future, associate: eagerly started work tied to a scope
#include "lib.h"
using namespace vt;
//@opt preemptions=3

namespace {
// an instrumented scope: associations are counted, and must outlive the work
struct scope_t {
  int live = 0, made = 0, refused = 0;
  bool open = true;
};
scope_t* sc;
bool ops_only = true;
struct assoc {
  scope_t* s = nullptr;
  assoc() = default;
  explicit assoc(scope_t* p) noexcept : s(p) { if (s) { ++s->live; ++s->made; } }
  assoc(assoc&& o) noexcept : s(std::exchange(o.s, nullptr)) {}
  assoc& operator=(assoc o) noexcept { std::swap(s, o.s); return *this; }
  ~assoc() {
    if (!s) return;
    --s->live;
    for (int i = 0; i < NKIDS; ++i)
      vc_assert(kids[i].live_ops == 0 || s->live > 0, "an association is held until the work that it protects is destroyed");
  }
  explicit operator bool() const noexcept { return s != nullptr; }
  assoc try_associate() const noexcept { return s && s->open ? assoc(s) : assoc(); }
};
struct token {
  template <class Snd> Snd&& wrap(Snd&& s) const noexcept { return static_cast<Snd&&>(s); }
  assoc try_associate() const noexcept {
    if (!sc->open) { ++sc->refused; return assoc(); }
    return assoc(sc);
  }
};
void new_scope(bool may_close = true) {
  sc = new scope_t;
  if (may_close) sc->open = vc_bool("the scope is open");
}
void check_scope() {
  vc_assert(sc->live == 0, "every association is released exactly once");
  delete sc;
}

// an allocator that must be used for allocation and deallocation
int alloc_live = 0, alloc_total = 0;
bool may_fail_alloc = false;
template <class T>
struct alloc_ {
  using value_type = T;
  int id;
  explicit alloc_(int i) : id(i) {}
  template <class U> alloc_(alloc_<U> const & o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) {
    vc_assert(id == 42, "the environment's allocator is used");
    if (may_fail_alloc && vc_bool("allocation fails")) { throw thrown{1}; }
    ++alloc_live; ++alloc_total;
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t) noexcept {
    vc_assert(id == 42, "memory is released through the allocator that it came from");
    vc_assert(sc->live > 0 || sc->made == 0, "the association is held until the memory is released");
    --alloc_live;
    ::operator delete(p);
  }
  template <class U> bool operator==(alloc_<U> const & o) const noexcept { return id == o.id; }
};
struct aenv {
  auto query(ex::get_allocator_t) const noexcept { return alloc_<std::byte>(42); }
};
using SV = sigs<V0, S>;
}  // namespace

PROOF(spawn_basic) {
  new_scope();
  ex::spawn(child<0, SV>{}, token{});
  if (sc->made == 0) {
    vc_cover("refused");
    vc_assert(!sc->open, "an open scope admits the work");
    vc_assert(kids[0].started == 0 && kids[0].live_ops == 0, "work that is not admitted is never started");
  } else {
    vc_cover("admitted");
    vc_assert(sc->open && sc->made == 1, "work is associated once");
    vc_assert(kids[0].started == 1, "spawned work is started at once");
    vc_assert(kids[0].completed == 0 || sc->live == 0, "the association ends with the work");
    drain();
    vc_assert(kids[0].completed == 1, "harness");
  }
  vc_assert(kids[0].live_ops == 0, "spawned work is destroyed when it has completed");
  check_scope();
  all_destroyed();
}

PROOF(spawn_alloc) {
  new_scope();
  may_fail_alloc = true;
  bool failed = false;
  try {
    ex::spawn(child<0, SV>{}, token{}, aenv{});
  } catch (thrown const &) { failed = true; }
  if (failed) { vc_cover("allocation failed"); vc_assert(kids[0].started == 0 && sc->made == 0, "nothing runs when the allocation fails"); }
  drain();
  vc_assert(failed || alloc_total == 1, "one allocation per spawn");
  vc_assert(alloc_live == 0, "memory is released");
  check_scope();
  all_destroyed();
}

PROOF(spawn_connect_throws) {
  new_scope();
  throws_left = 1;
  bool failed = false;
  try {
    ex::spawn(child<0, SV, false>{}, token{}, aenv{});
  } catch (thrown const &) { failed = true; }
  vc_assert(failed == (thrown_count > 0), "an exception from connect is thrown from spawn");
  if (failed) { vc_cover("connect threw"); vc_assert(kids[0].started == 0, "nothing runs when connect throws"); }
  throws_left = 0;
  drain();
  vc_assert(alloc_live == 0, "memory is released");
  check_scope();
  all_destroyed();
}

// ------------------------------------------------------------------ spawn_future
namespace {
template <class Sg> auto fut(bool nx = true) { return ex::spawn_future(child<0, Sg>{}, token{}); }

// the life of a future: discarded, or connected and (perhaps) started, before or after the work completes
template <class Sg, class Env = ex::env<>>
void future_life(bool throwing) {
  new_scope();
  using F = decltype(ex::spawn_future(child<0, Sg>{}, token{}));
  throws_left = 0;
  F* f = new F(ex::spawn_future(child<0, Sg>{}, token{}));
  bool admitted = sc->made == 1;
  vc_assert(admitted == sc->open, "work is admitted exactly when the scope is open");
  vc_assert(kids[0].started == admitted, "admitted work is started at once");
  if (throwing) throws_left = 1;
  if (vc_bool("work completes first")) drain();
  if (vc_bool("the future is discarded")) {
    vc_cover("discarded");
    delete f;
    if (admitted && kids[0].completed == 0) vc_assert(sc->live == 1, "abandoned work keeps its association");
    drain();
    vc_assert(out.n == 0, "a discarded future completes nothing");
  } else {
    using box = opbox<F, rcvr<>>;
    box::cur = new box(std::move(*f), rcvr<>{});
    delete f;
    if (vc_bool("work completes before start")) drain();
    if (vc_bool("never started")) {
      vc_cover("never started");
      delete box::cur;
      drain();
      vc_assert(out.n == 0, "an operation that was not started completes nothing");
    } else {
      destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
      ex::start(box::cur->op);
      bool done = out.n == 1;
      vc_assert(done == (!admitted || kids[0].completed == 1), "the future completes when the work has completed");
      drain();
      vc_assert(out.n == 1, "a started future completes exactly once");
      if (!admitted) { vc_cover("refused"); vc_assert(out.kind == STOPPED, "work that was not admitted counts as stopped"); }
      else if (thrown_count) {
        vc_cover("storing threw");
        vc_assert(out.kind == ERROR && out.v[0] == last_throw, "an exception from storing the result is delivered");
      } else {
        vc_assert(out.kind == kids[0].kind, "the future completes as the work did");
        if (out.kind == VALUE) { vc_cover("value"); vc_assert(out.v[0] == kids[0].v, "the future delivers the value of the work"); }
        if (out.kind == ERROR) { vc_cover("error"); vc_assert(out.v[0] == kids[0].v, "the future delivers the error of the work"); }
        if (out.kind == STOPPED) vc_cover("stopped");
      }
    }
  }
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  check_scope();
  all_destroyed();
}
}  // namespace
PROOF(future_nothrow) { future_life<sigs<V<ntok>, E<etok>, S>>(false); }
PROOF(future_throwing) { future_life<sigs<V<tok>, E<tetok>, S>>(true); }
PROOF(future_ref) { future_life<sigs<V<tok const &>, S>>(true); }
PROOF(future_lvalue) { future_life<xsigs>(true); }
PROOF(future_two) { future_life<sigs<V<ntok>, ex::set_value_t(), S>>(false); }

PROOF(future_alloc) {
  new_scope();
  may_fail_alloc = true;
  bool failed = false;
  throws_left = 1;
  try {
    auto f = ex::spawn_future(child<0, sigs<V<ntok>, S>, false>{}, token{}, aenv{});
    throws_left = 0;
    if (vc_bool("complete early")) drain();
  } catch (thrown const &) { failed = true; }
  if (failed) { vc_cover("failed"); vc_assert(kids[0].started == 0 && sc->made == 0, "nothing runs when spawn_future fails"); }
  drain();
  vc_assert(alloc_live == 0, "memory is released");
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  check_scope();
  all_destroyed();
}

// a discarded future asks its work to stop
PROOF(future_abandon_stops) {
  new_scope(false);
  kids[0].watch_stop = true;
  defer_mode = 1;
  {
    auto f = ex::spawn_future(child<0, sigs<V<ntok>, S>>{}, token{});
    if (vc_bool("connected only")) { auto op = ex::connect(std::move(f), rcvr<>{}); }
  }
  drain();
  vc_assert(kids[0].stop_seen, "discarding the future asks the work to stop");
  check_scope();
  all_destroyed();
}

// cancellation of a started future: the receiver is completed with stopped or with the result
namespace {
template <class Child>
void cancel_life() {
  new_scope(false);
  using F = decltype(ex::spawn_future(Child{}, token{}));
  kids[0].watch_stop = true;
  auto r = counting_rcvr();
  on_complete = no_callbacks;
  if (vc_bool("stop before spawning")) ask_stop();
  F* f = new F(ex::spawn_future(Child{}, token{}));
  using box = opbox<F, rcvr<cenv>>;
  if (vc_bool("work completes before connect")) { if (kid_pending(0)) try_complete_kid(0); }
  box::cur = new box(std::move(*f), std::move(r));
  delete f;
  if (!stop_asked && vc_bool("stop before start")) ask_stop();
  destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
  bool done_before = kids[0].completed;
  ex::start(box::cur->op);
  if (stop_asked) vc_assert(out.n == 1, "a future that is stopped completes at once");
  if (stop_asked && done_before) {
    vc_cover("result first");
    vc_assert(out.kind == kids[0].kind, "a result that is there is delivered");
  }
  drain_with_stop();
  if (!stop_asked) ask_stop();
  vc_assert(out.n == 1, "a started future completes exactly once");
  vc_assert(out.kind == STOPPED || (out.kind == kids[0].kind && out.v[0] == kids[0].v), "the future delivers the result or stopped");
  if (!kids[0].stop_seen) {}
  drain();
  if (out.kind == STOPPED && kids[0].kind != STOPPED) { vc_cover("stopped instead"); vc_assert(kids[0].stop_seen, "cancelling the future asks the work to stop"); }
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  check_scope();
  stop_done();
  all_destroyed();
}
}  // namespace
PROOF(future_cancel) { cancel_life<child<0, sigs<V<ntok>, S>>>(); }
// work that completes from inside its own stop callback
PROOF(future_cancel_inline) { cancel_life<lchild<0>>(); }

// the work completes, the future is started, and a stop is requested, all at the same time
namespace {
template <class C> using F0 = decltype(ex::spawn_future(C{}, token{}));
template <class C>
struct race {
  using box = opbox<F0<C>, rcvr<stop_env>>;
  static void prepare() {
    new_scope(false);
    defer_mode = 1;
    auto r = stop_rcvr();
    box::cur = new box(ex::spawn_future(C{}, token{}), std::move(r));
  }
  static void start(void*) { ex::start(box::cur->op); }
  static void finish() {
    vc_assert(out.n == 1, "a started future completes exactly once");
    vc_assert(out.kind == STOPPED || (out.kind == kids[0].kind && out.v[0] == kids[0].v), "the future delivers the result or stopped");
    delete box::cur;
    vc_assert(kids[0].live_ops == 0, "the work is destroyed");
    check_scope();
    stop_done();
    all_destroyed();
  }
};
using C1 = child<0, sigs<V<ntok>>>;
}  // namespace
PROOF(race_complete_start) {
  race<C1>::prepare();
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "complete");
  vc_spawn(race<C1>::start, nullptr, "start");
  vc_join_all();
  vc_assert(out.kind == VALUE, "the value is delivered");
  race<C1>::finish();
}
PROOF(race_complete_cancel) {
  race<C1>::prepare();
  race<C1>::start(nullptr);
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "complete");
  vc_spawn([](void*) { ask_stop(); }, nullptr, "stop");
  vc_join_all();
  race<C1>::finish();
}
PROOF(race_complete_start_cancel) {
  race<C1>::prepare();
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "complete");
  vc_spawn([](void*) { ask_stop(); }, nullptr, "stop");
  vc_spawn(race<C1>::start, nullptr, "start");
  vc_join_all();
  race<C1>::finish();
}
//@proofopt race_complete_start_cancel preemptions=2
PROOF(race_lchild_cancel) {
  race<lchild<0>>::prepare();
  race<lchild<0>>::start(nullptr);
  vc_spawn([](void*) { try_complete_kid(0); }, nullptr, "complete");
  vc_spawn([](void*) { ask_stop(); }, nullptr, "stop");
  vc_join_all();
  race<lchild<0>>::finish();
}
//@proofopt race_lchild_cancel preemptions=2
PROOF(race_lchild_start_cancel) {
  race<lchild<0>>::prepare();
  vc_spawn([](void*) { ask_stop(); }, nullptr, "stop");
  vc_spawn([](void*) { race<lchild<0>>::start(nullptr); }, nullptr, "start");
  vc_join_all();
  try_complete_kid(0);
  race<lchild<0>>::finish();
}
PROOF(race_complete_abandon) {
  race<C1>::prepare();
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "complete");
  vc_spawn([](void*) { delete race<C1>::box::cur; race<C1>::box::cur = nullptr; }, nullptr, "abandon");
  vc_join_all();
  vc_assert(out.n == 0, "a discarded future completes nothing");
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  check_scope();
  stop_done();
  all_destroyed();
}
