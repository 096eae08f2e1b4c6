// run_loop
#include "lib.h"
using namespace vt;
//@opt preemptions=2

namespace {
constexpr int N = 5;
ex::run_loop* L;
int done_[N];      // 0: not completed, 1: value, 2: stopped
int order_[N], nord;
int done_by[N];
int in_run = -1;   // id of the thread inside run()
void (*act[N])();  // what the completion does
struct r {
  using receiver_concept = ex::receiver_t;
  int i;
  ex::inplace_stop_token t{};
  ntok g{9};
  void fin(int k) noexcept;
  void set_value() noexcept { fin(1); }
  void set_stopped() noexcept { fin(2); }
  auto get_env() const noexcept { return stop_env{t}; }
};
using sched_t = decltype(ex::schedule(std::declval<ex::run_loop&>().get_scheduler()));
using op_t = ex::connect_result_t<sched_t, r>;
struct box { op_t op; box(int i, ex::inplace_stop_token t) : op(ex::connect(ex::schedule(L->get_scheduler()), r{i, t})) {} };
box* ops[N];
void r::fin(int k) noexcept {
  g.check();
  int const i = this->i;
  vc_assert(done_[i] == 0, "a scheduled operation completes at most once");
  vc_assert((int)vc_thread_id() == in_run, "a scheduled operation completes on a thread that is inside run()");
  vc_assert((k == 2) == t.stop_requested(), "set_stopped exactly when a stop was requested");
  done_[i] = k;
  order_[nord++] = i;
  auto a = act[i];
  if (a) a();
  delete ops[i];  // the operation state may be destroyed by the completion
  ops[i] = nullptr;
}
void mk(int i, ex::inplace_stop_token t = {}) { ops[i] = new box(i, t); }
void go1(int i) { ex::start(ops[i]->op); }
void loop() { in_run = vc_thread_id(); L->run(); in_run = -1; }
}  // namespace

// every operation started before or during run() completes exactly once, first in first out
PROOF(fifo) {
  L = new ex::run_loop;
  src = new ex::inplace_stop_source;
  int n = vc_choice(4, "operations started before run()");
  int st = vc_choice(5, "a stop is requested (before completion k)");
  for (int i = 0; i < n; ++i) mk(i, src->get_token());
  for (int i = 0; i < n; ++i) go1(i);
  vc_assert(nord == 0, "nothing completes outside of run()");
  int fin = vc_choice(4, "which completion calls finish()");
  static auto f = [] { L->finish(); };
  if (st == 4) ask_stop();
  else if (st < n) act[st] = [] { ask_stop(); };
  if (fin < n && fin != st) act[fin] = [] { f(); };
  else f();
  loop();
  for (int i = 0; i < n; ++i) {
    vc_assert(done_[i] != 0, "every started operation completes before run() returns");
    vc_assert(order_[i] == i, "operations complete in the order in which they were started");
    if (done_[i] == 2) vc_cover("stopped");
  }
  vc_assert(nord == n, "every operation completes once");
  delete L;
  delete src;
  all_destroyed();
}

// completions start further operations, before and after finish()
PROOF(started_by_completions) {
  L = new ex::run_loop;
  for (int i = 0; i < 4; ++i) mk(i);
  static int w;
  w = vc_choice(3, "when finish() is called");
  act[0] = [] { go1(2); if (w == 1) L->finish(); };
  act[2] = [] { if (w == 2) L->finish(); go1(3); };
  go1(0);
  go1(1);
  if (w == 0) L->finish();
  loop();
  vc_assert(nord == 4, "operations started by completions complete before run() returns");
  vc_assert(order_[0] == 0 && order_[1] == 1 && order_[2] == 2 && order_[3] == 3, "operations complete in the order in which they were started");
  L->finish();  // finish() may be called again
  delete L;
  all_destroyed();
}

// operations that are never started do not complete, and run() may be called again after finish()
PROOF(not_started) {
  L = new ex::run_loop;
  mk(0);
  mk(1);
  go1(1);
  L->finish();
  L->finish();
  loop();
  vc_assert(done_[0] == 0 && done_[1] == 1, "only started operations complete");
  delete ops[0];
  delete L;
  all_destroyed();
}

PROOF(scheduler) {
  ex::run_loop a, b;
  auto s = a.get_scheduler();
  auto c = s;
  vc_assert(s == c && s == a.get_scheduler() && !(s == b.get_scheduler()) && s != b.get_scheduler(), "schedulers are equal exactly when they refer to the same loop");
  vc_assert(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(ex::schedule(s))) == s, "the completion scheduler of schedule(s) is s");
  vc_assert(ex::get_completion_scheduler<ex::set_stopped_t>(ex::get_env(ex::schedule(s)), ex::env<>{}) == s, "the completion scheduler of schedule(s) is s");
}

// one thread runs the loop and destroys it when run() returns; the others start operations
// and finish the loop
PROOF(run_vs_start_finish) {
  L = new ex::run_loop;
  mk(0);
  vc_spawn([](void*) { loop(); delete L; }, nullptr, "run");
  vc_spawn([](void*) { go1(0); L->finish(); }, nullptr, "start, finish");
  vc_join_all();
  vc_assert(done_[0] == 1, "an operation started before finish() completes before run() returns");
  all_destroyed();
}
//@proofopt run_vs_start_finish preemptions=4

PROOF(finish_in_completion) {
  L = new ex::run_loop;
  mk(0);
  mk(1);
  act[1] = [] { L->finish(); };
  vc_spawn([](void*) { loop(); vc_assert(nord == 2, "all complete"); delete L; }, nullptr, "run");
  vc_spawn([](void*) { go1(0); go1(1); }, nullptr, "start");
  vc_join_all();
  vc_assert(order_[0] == 0 && order_[1] == 1, "operations complete in the order in which they were started");
  all_destroyed();
}
//@proofopt finish_in_completion preemptions=4

PROOF(two_starters) {
  L = new ex::run_loop;
  mk(0);
  mk(1);
  static int left = 2;
  act[0] = act[1] = [] { if (--left == 0) L->finish(); };
  vc_spawn([](void*) { loop(); delete L; }, nullptr, "run");
  vc_spawn([](void*) { go1(0); }, nullptr, "start 0");
  vc_spawn([](void*) { go1(1); }, nullptr, "start 1");
  vc_join_all();
  vc_assert(nord == 2, "every operation completes once");
  all_destroyed();
}

PROOF(two_finishers) {
  L = new ex::run_loop;
  mk(0);
  go1(0);
  vc_spawn([](void*) { loop(); }, nullptr, "run");
  vc_spawn([](void*) { L->finish(); }, nullptr, "finish");
  vc_spawn([](void*) { L->finish(); }, nullptr, "finish");
  vc_join_all();
  vc_assert(nord == 1, "every operation completes once");
  delete L;
  all_destroyed();
}

// what happened before start() is visible to the completion
PROOF(visibility) {
  L = new ex::run_loop;
  static int* d;
  d = new int(0);
  mk(0);
  act[0] = [] { vc_assert(*d == 1, "writes before start() are visible to the completion"); *d = 2; L->finish(); };
  vc_spawn([](void*) { loop(); vc_assert(*d == 2, "writes of completions are visible after run()"); delete L; }, nullptr, "run");
  vc_spawn([](void*) { *d = 1; go1(0); }, nullptr, "start");
  vc_join_all();
  delete d;
  all_destroyed();
}
