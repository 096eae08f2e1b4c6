// awaitables connected to receivers as senders
#include "lib.h"
#include <stdexec/coroutine.hpp>
using namespace vt;
namespace {
namespace std_ = std;
using handle = std::coroutine_handle<>;
enum { SUSP_VOID, SUSP_BOOL, SUSP_HANDLE };
handle held{};          // what will be resumed
bool stays_suspended;
int readies, suspends, resumes, live_awaiters;
uint32_t answer;
struct xrcvr : rcvr<> {
  template <class E>
  void set_error(E&& e) noexcept {
    if constexpr (std::is_same_v<std::remove_cvref_t<E>, std::exception_ptr>) {
      first_completion();
      out.kind = ERROR;
      vc_assert((bool)e, "an exception_ptr that is delivered is never null");
      try {
        std::rethrow_exception(e);
      } catch (thrown const & t) {
        out.err = 2;
        out.v[0] = t.id;
      } catch (...) {
        out.err = 4;
      }
      completed();
    } else {
      rcvr<>::set_error(static_cast<E&&>(e));
    }
  }
};

template <int Mode, bool Throws, bool Void>
struct awaiter {
  bool ready;
  uint32_t magic = ALIVE;
  awaiter* self = this;
  explicit awaiter(bool r) noexcept : ready(r) { ++live_awaiters; }
  awaiter(awaiter&& o) noexcept : ready(o.ready) { vc_assert(o.magic == ALIVE, "an awaiter is only used while it is alive"); ++live_awaiters; }
  ~awaiter() { vc_assert(magic == ALIVE, "an awaiter is destroyed once"); magic = DEAD; --live_awaiters; }
  void ok() const { vc_assert(magic == ALIVE && self == this, "an awaiter is only used while it is alive"); }
  bool await_ready() noexcept(!Throws) {
    ok();
    ++readies;
    if constexpr (Throws) maybe_throw("await_ready throws");
    return ready;
  }
  auto await_suspend(handle h) noexcept(!Throws) -> std::conditional_t<Mode == SUSP_VOID, void, std::conditional_t<Mode == SUSP_BOOL, bool, handle>> {
    ok();
    vc_assert(!ready, "a ready awaiter is not suspended on");
    ++suspends;
    if constexpr (Throws) maybe_throw("await_suspend throws");
    if constexpr (Mode == SUSP_VOID) {
      held = h;
      if (vc_choice(2, "resumed before await_suspend returns")) { auto g = std::exchange(held, {}); g.resume(); }
    } else if constexpr (Mode == SUSP_BOOL) {
      stays_suspended = vc_choice(2, "stays suspended");
      if (!stays_suspended) return false;
      held = h;
      if (vc_choice(2, "resumed before await_suspend returns")) { auto g = std::exchange(held, {}); g.resume(); }
      return true;
    } else {
      if (vc_choice(2, "resumes itself")) return h;
      held = h;
      return std::noop_coroutine();
    }
  }
  auto await_resume() noexcept(!Throws) -> std::conditional_t<Void, void, ntok> {
    ok();
    ++resumes;
    if constexpr (Throws) maybe_throw("await_resume throws");
    if constexpr (!Void) return ntok(answer);
  }
};
template <int Mode, bool Throws, bool Void>
struct has_co_await {
  ntok guard{5};
  bool ready;
  explicit has_co_await(bool r) noexcept : ready(r) {}
  awaiter<Mode, Throws, Void> operator co_await() && noexcept(!Throws) {
    guard.check();
    if constexpr (Throws) maybe_throw("operator co_await throws");
    return awaiter<Mode, Throws, Void>(ready);
  }
};
int asked_promise;
template <int Mode, bool Throws, bool Void>
struct has_as_awaitable {
  using sender_concept = ex::sender_t;
  ntok guard{6};
  bool ready;
  explicit has_as_awaitable(bool r) noexcept : ready(r) {}
  template <class P>
  awaiter<Mode, Throws, Void> as_awaitable(P&) && noexcept(!Throws) {
    guard.check();
    ++asked_promise;
    if constexpr (Throws) maybe_throw("as_awaitable throws");
    return awaiter<Mode, Throws, Void>(ready);
  }
};
template <int Mode, bool Throws, bool Void>
struct has_both {
  using sender_concept = ex::sender_t;
  ntok guard{6};
  bool ready;
  explicit has_both(bool r) noexcept : ready(r) {}
  template <class P>
  has_co_await<Mode, Throws, Void> as_awaitable(P&) && noexcept(!Throws) {
    guard.check();
    ++asked_promise;
    if constexpr (Throws) maybe_throw("as_awaitable throws");
    return has_co_await<Mode, Throws, Void>(ready);
  }
};
template <template <int, bool, bool> class A, int Mode, bool Throws, bool Void>
void connects() {
  answer = vc_u32("answer");
  bool ready = vc_choice(2, "ready");
  throws_left = Throws ? 1 : 0;
  if (vc_choice(2, "never started")) {
    {
      auto op = ex::connect(A<Mode, Throws, Void>(ready), xrcvr{});
    }
    vc_assert(live_awaiters == 0 && readies == 0, "nothing is awaited before start");
    return aborted();
  }
  if (!go([ready] { return A<Mode, Throws, Void>(ready); }, xrcvr{})) return aborted();
  if (held) {
    vc_assert(out.n == 0 && !ready, "the operation completes when it is resumed");
    auto h = std::exchange(held, {});
    h.resume();
  }
  finished();
  vc_assert(readies <= 1 && suspends <= 1 && resumes <= 1, "each step of awaiting happens once");
  if (thrown_count) { vc_cover("an exception is thrown"); vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception while awaiting is the error"); }
  else {
    vc_assert(readies == 1 && resumes == 1 && suspends == (ready ? 0 : 1), "the awaitable is awaited");
    vc_assert(out.kind == VALUE && out.nv == (Void ? 0 : 1) && (Void || out.v[0] == answer), "the result of the awaitable is the value");
  }
  vc_assert(live_awaiters == 0, "the awaiter is destroyed with the operation");
  all_destroyed();
}
template <int M, bool T, bool V> using aw = awaiter<M, T, V>;
}
PROOF(awaiter_void) { connects<awaiter, SUSP_VOID, false, false>(); }
PROOF(awaiter_bool) { connects<awaiter, SUSP_BOOL, false, true>(); }
PROOF(awaiter_handle) { connects<awaiter, SUSP_HANDLE, false, false>(); }
PROOF(awaiter_void_throws) { connects<awaiter, SUSP_VOID, true, false>(); }
PROOF(awaiter_bool_throws) { connects<awaiter, SUSP_BOOL, true, false>(); }
PROOF(awaiter_handle_throws) { connects<awaiter, SUSP_HANDLE, true, true>(); }
PROOF(co_await_void) { connects<has_co_await, SUSP_VOID, false, true>(); }
PROOF(co_await_bool_throws) { connects<has_co_await, SUSP_BOOL, true, false>(); }
PROOF(co_await_handle_throws) { connects<has_co_await, SUSP_HANDLE, true, false>(); }
PROOF(as_awaitable_void) { connects<has_as_awaitable, SUSP_VOID, false, false>(); }
PROOF(as_awaitable_bool_throws) { connects<has_as_awaitable, SUSP_BOOL, true, true>(); }
PROOF(as_awaitable_handle_throws) { connects<has_as_awaitable, SUSP_HANDLE, true, false>(); }
PROOF(both_bool) { connects<has_both, SUSP_BOOL, false, false>(); }
PROOF(both_void_throws) { connects<has_both, SUSP_VOID, true, false>(); }
PROOF(both_handle_throws) { connects<has_both, SUSP_HANDLE, true, true>(); }
