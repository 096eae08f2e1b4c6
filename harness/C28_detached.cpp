// start_detached and execute: the work starts before the call returns, runs once, and its
// operation, environment and memory live until it has completed, and no longer
#include "lib.h"
#include <exec/start_detached.hpp>
#include <exec/execute.hpp>
#include <exec/just_from.hpp>
using namespace vt;

namespace {
int alloc_live = 0;
bool may_fail_alloc = false;
template <class T>
struct alloc_ {
  using value_type = T;
  ntok id;
  explicit alloc_(uint32_t i) noexcept : id(i) {}
  template <class U> alloc_(alloc_<U> const & o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) {
    vc_assert(id.get() == 42, "the environment's allocator is used");
    if (may_fail_alloc && vc_bool("allocation fails")) { throw thrown{1}; }
    ++alloc_live;
    return static_cast<T*>(::operator new(n * sizeof(T), std::align_val_t(alignof(T))));
  }
  void deallocate(T* p, std::size_t n) noexcept {
    vc_assert(id.get() == 42 && n == 1, "memory is released through the allocator that it came from");
    vc_assert(kids[0].live_ops == 0, "memory is released after the work is destroyed");
    --alloc_live;
    ::operator delete(p, std::align_val_t(alignof(T)));
  }
  template <class U> bool operator==(alloc_<U> const & o) const noexcept { return id == o.id; }
};
template <class E, class Q> concept has_query = requires(E const & e) { e.query(Q{}); };
struct ask_t {
  static constexpr auto query(ex::forwarding_query_t) noexcept -> bool { return true; }
  template <class E>
  auto operator()(E const & e) const noexcept -> uint32_t {
    static_assert(has_query<E, ask_t>);
    return e.query(*this);
  }
};
struct env {
  ntok answer{55};
  ntok self{7};
  auto query(ask_t) const noexcept -> uint32_t { return answer.get(); }
  auto query(ex::get_allocator_t) const noexcept -> alloc_<std::byte> { self.check(); return alloc_<std::byte>(42); }
};
// a child that asks its receiver's environment when it completes
template <class R> struct asking_op {
  using operation_state_concept = ex::operation_state_t;
  child_op<0, R, sigs<V0, S>> op;
  explicit asking_op(R r) : op(static_cast<R&&>(r)) {}
  void start() & noexcept {
    static R* rc;
    rc = &op.rcvr_;
    kids[0].on_finish = [] {
      auto e = ex::get_env(*rc);
      vc_assert(ask_t{}(e) == 55, "the environment is the one that was given, and alive");
    };
    op.start();
  }
};
struct asking {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0, S>;
  tok guard{5};
  template <class R> auto connect(R r) && -> asking_op<R> {
    guard.check();
    maybe_throw("connect throws");
    ++kids[0].connected;
    return asking_op<R>{static_cast<R&&>(r)};
  }
};
void over(bool ok) {
  vc_assert(kids[0].started == ok, "the work is started before the call returns, if it succeeds");
  drain();
  if (ok) vc_assert(kids[0].completed == 1, "the work completes");
  vc_assert(kids[0].live_ops == 0, "the work is destroyed");
  vc_assert(alloc_live == 0, "its memory is released");
  all_destroyed();
}
}  // namespace

PROOF(detached) {
  bool ok = true;
  throws_left = 1;
  vc_oom(true);
  try {
    exec::start_detached(tchild<0, sigs<V0, S>, false>{});
  } catch (thrown const &) { ok = false; vc_cover("throws"); }
  catch (std::bad_alloc const &) { ok = false; vc_cover("no memory"); }
  vc_oom(false);
  over(ok);
}
PROOF(detached_copy) {
  bool ok = true;
  static int ran = 0;
  throws_left = 1;
  try {
    auto c = ex::then(ex::just(tok(5)), [](tok&& t) noexcept { vc_assert(t.get() == 5, "a copy is sent"); ++ran; });
    exec::start_detached(c);
  } catch (thrown const &) { ok = false; vc_cover("throws"); }
  vc_assert(ran == ok, "the work runs if the call succeeds");
  all_destroyed();
}
PROOF(detached_values) {
  kids[1].fixed = 0;
  exec::start_detached(child<0, sigs<ex::set_value_t(ntok, tok), V0, S>>{});
  over(true);
}
PROOF(detached_env) {
  bool ok = true;
  throws_left = 1;
  may_fail_alloc = true;
  try {
    exec::start_detached(asking{}, env{});
  } catch (thrown const &) { ok = false; vc_cover("throws"); }
  over(ok);
}
PROOF(detached_just) {
  throws_left = 1;
  int ran = 0;
  bool ok = true;
  try {
    exec::start_detached(ex::just(tok(3)) | ex::then([&](tok&& t) noexcept { ++ran; vc_assert(t.get() == 3, "the value"); }));
  } catch (thrown const &) { ok = false; vc_cover("throws"); }
  vc_assert(ran == ok, "the work runs once");
  all_destroyed();
}
namespace { int nruns = 0; }
struct fun {
  tok t{9};
  template <class F> auto operator()(F&& sink) noexcept { t.check(); ++nruns; return sink(); }
};
PROOF(detached_submit) {
  throws_left = 1;
  bool ok = true;
  try {
    exec::start_detached(exec::just_from(fun{}));
  } catch (thrown const &) { ok = false; vc_cover("throws"); }
  vc_assert(nruns == ok, "the work runs once");
  vc_assert(live == 0, "everything is destroyed");
  all_destroyed();
}
PROOF(detached_just_submit) {
  exec::start_detached(ex::just(ntok(1), ntok(2)));
  vc_cover("done");
  all_destroyed();
}
// there is nowhere for an error to go: the program ends
PROOF(detached_error) {
  vc_expect_terminate(true);
  kids[0].fixed = 2;
  if (vc_choice(2, "an environment is given")) exec::start_detached(child<0, sigs<V0, E<etok>, S>>{}, env{});
  else exec::start_detached(child<0, sigs<V0, E<etok>, S>>{});
  drain();
  vc_fail("an error of detached work terminates the program");
}
PROOF(detached_just_error) {
  vc_expect_terminate(true);
  exec::start_detached(ex::just_error(1));
  vc_fail("an error of detached work terminates the program");
}
PROOF(detached_submit_error) {
  vc_expect_terminate(true);
  exec::start_detached(exec::just_error_from([]<class F>(F&& sink) noexcept { return sink(1); }));
  vc_fail("an error of detached work terminates the program");
}

// ------------------------------------------------------------------ execute
namespace {
struct sch {
  using scheduler_concept = ex::scheduler_t;
  struct snd {
    using sender_concept = ex::sender_t;
    using completion_signatures = sigs<V0, S>;
    tok guard{5};
    template <class R> auto connect(R r) && -> child_op<0, R, sigs<V0, S>> {
      maybe_throw("connect throws");
      ++kids[0].connected;
      return child_op<0, R, sigs<V0, S>>{static_cast<R&&>(r)};
    }
    struct attrs {
      auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> sch;
    };
    auto get_env() const noexcept -> attrs { return {}; }
  };
  auto schedule() const -> snd { maybe_throw("schedule throws"); return {}; }
  bool operator==(sch const &) const noexcept = default;
};
auto sch::snd::attrs::query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> sch { return {}; }
struct runs {
  tok t{9};
  int* n;
  void operator()() noexcept { t.check(); ++*n; }
};
}  // namespace
PROOF(executes) {
  int n = 0;
  throws_left = 1;
  bool ok = true;
  try {
    runs f{tok{9}, &n};
    exec::__execute(sch{}, std::move(f));
  } catch (thrown const &) { ok = false; vc_cover("throws"); }
  vc_assert(n == (kids[0].completed == 1 && kids[0].kind == VALUE), "the function runs when the scheduler runs it");
  over(ok);
  vc_assert(n == (ok && kids[0].kind == VALUE), "the function runs once, unless it is stopped");
}
