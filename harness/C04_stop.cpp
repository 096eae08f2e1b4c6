// inplace_stop_source / inplace_stop_callback
#include "lib.h"
using namespace vt;
//@opt preemptions=3

namespace {
ex::inplace_stop_source* S_;
struct slot {
  int calls = 0;
  bool dead = false;      // the callback object is destroyed
  int running = 0;
};
slot sl[4];
struct body;
void (*in_call[4])() = {};
struct body {
  int i;
  ntok t{5};
  void operator()() noexcept {
    t.check();
    int const i = this->i;  // the callback may destroy itself
    vc_assert(!sl[i].dead, "a callback is never invoked after its deregistration returned");
    ++sl[i].calls;
    vc_assert(sl[i].calls == 1, "a callback is invoked at most once");
    vc_assert(S_->stop_requested(), "stop_requested() is true when a callback runs");
    ++sl[i].running;
    vc_sched();
    if (in_call[i]) in_call[i]();
    if (!sl[i].dead) t.check();
    --sl[i].running;
  }
};
using cb = ex::inplace_stop_callback<body>;
cb* cbs[4];
void reg(int i) { cbs[i] = new cb(S_->get_token(), body{i}); }
void dereg(int i) {
  auto* p = cbs[i];
  cbs[i] = nullptr;
  if (!p) return;
  delete p;
  sl[i].dead = true;
}
int wins = 0;
void request() {
  bool first = S_->request_stop();
  if (first) ++wins;
  vc_assert(S_->stop_requested(), "stop_requested() is true after request_stop()");
}
}  // namespace

// a sequence of register / deregister / request on up to three callbacks
PROOF(any_sequence) {
  S_ = new ex::inplace_stop_source;
  bool asked = false;
  bool before[3] = {};
  for (int k = 0; k < 6; ++k) {
    unsigned op = vc_choice(5, "operation");
    if (op == 4) break;
    if (op == 3) {
      bool r = S_->request_stop();
      vc_assert(r == !asked, "only the first request_stop() returns true");
      if (!asked)
        for (int i = 0; i < 3; ++i)
          vc_assert(sl[i].calls == (cbs[i] ? 1 : 0), "request_stop() invokes exactly the registered callbacks");
      asked = true;
    } else if (!cbs[op] && !sl[op].dead) {
      reg((int)op);
      before[op] = !asked;
      vc_assert(sl[op].calls == (asked ? 1 : 0), "registering after the request invokes the callback immediately");
    } else if (cbs[op]) {
      dereg((int)op);
    }
    vc_assert(S_->stop_requested() == asked && S_->get_token().stop_requested() == asked, "stop_requested() tells whether a stop was requested");
    vc_assert(S_->get_token().stop_possible() && !ex::inplace_stop_token{}.stop_possible() && !ex::inplace_stop_token{}.stop_requested(), "only tokens with a source can be stopped");
  }
  for (int i = 0; i < 3; ++i) {
    int c = sl[i].calls;
    if (asked && cbs[i]) { vc_cover("called"); vc_assert(c == 1, "every callback registered at the time of the request is invoked"); }
    dereg(i);
    vc_assert(sl[i].calls == c, "deregistration does not invoke the callback");
  }
  delete S_;
  all_destroyed();
}
//@proofopt any_sequence max_paths=400000

// callbacks that deregister themselves or others, register new ones or ask again
PROOF(reentrant) {
  S_ = new ex::inplace_stop_source;
  reg(0);
  reg(1);
  reg(2);
  static unsigned act;
  act = vc_choice(6, "what the callback does");
  auto f = [] {
    switch (act) {
    case 0: dereg(0); break;
    case 1: dereg(1); break;
    case 2: dereg(2); break;
    case 3: reg(3); vc_assert(sl[3].calls == 1, "a callback registered during the request is invoked immediately"); break;
    case 4: vc_assert(!S_->request_stop(), "a nested request_stop() returns false"); break;
    default: dereg(0); dereg(1); dereg(2);
    }
  };
  in_call[vc_choice(3, "which callback")] = f;
  bool first = S_->request_stop();
  vc_assert(first, "the first request_stop() returns true");
  for (int i = 0; i < 3; ++i) {
    if (cbs[i]) vc_assert(sl[i].calls == 1, "every registered callback is invoked");
    if (sl[i].dead && sl[i].calls) vc_cover("deregistered from inside a callback");
    if (sl[i].dead && !sl[i].calls) vc_cover("deregistered by another callback");
  }
  for (int i = 0; i < 4; ++i) dereg(i);
  delete S_;
  all_destroyed();
}

// deregistration races with the request
PROOF(deregister_vs_request) {
  S_ = new ex::inplace_stop_source;
  reg(0);
  reg(1);
  vc_spawn([](void*) { request(); }, nullptr, "request");
  vc_spawn([](void*) {
    dereg(0);
    vc_assert(sl[0].running == 0, "the callback is not running once its deregistration returned");
  }, nullptr, "deregister");
  vc_join_all();
  vc_assert(wins == 1, "the request succeeds");
  vc_assert(sl[1].calls == 1, "the callback that stays registered is invoked");
  if (sl[0].calls) vc_cover("called first"); else vc_cover("deregistered first");
  dereg(1);
  delete S_;
  all_destroyed();
}

// registration races with the request
PROOF(register_vs_request) {
  S_ = new ex::inplace_stop_source;
  vc_spawn([](void*) { request(); }, nullptr, "request");
  vc_spawn([](void*) {
    reg(0);
    in_call[1] = [] { dereg(0); };
    reg(1);
  }, nullptr, "register");
  vc_join_all();
  vc_assert(wins == 1, "the request succeeds");
  vc_assert(sl[1].calls == 1, "the callback is invoked exactly once");
  vc_assert(sl[0].calls == 1 || sl[0].dead, "the callback is invoked exactly once unless it was deregistered");
  dereg(0);
  dereg(1);
  delete S_;
  all_destroyed();
}

// two registrations and deregistrations race
PROOF(registrations) {
  S_ = new ex::inplace_stop_source;
  auto f = [](void* p) {
    int i = (int)(size_t)p;
    reg(i);
    dereg(i);
    vc_assert(sl[i].running == 0, "the callback is not running once its deregistration returned");
  };
  reg(2);
  vc_spawn(f, (void*)0, "A");
  vc_spawn(f, (void*)1, "B");
  vc_join_all();
  vc_assert(sl[0].calls + sl[1].calls == 0, "no callback is invoked without a request");
  request();
  vc_assert(sl[2].calls == 1 && sl[0].calls == 0 && sl[1].calls == 0, "only the callbacks still registered are invoked");
  dereg(2);
  delete S_;
  all_destroyed();
}

// two requests and a deregistration race
PROOF(two_requests) {
  S_ = new ex::inplace_stop_source;
  reg(0);
  vc_spawn([](void*) { request(); }, nullptr, "request 1");
  vc_spawn([](void*) { request(); }, nullptr, "request 2");
  vc_join_all();
  vc_assert(wins == 1, "exactly one of several requests returns true");
  vc_assert(sl[0].calls == 1, "the callback is invoked once");
  dereg(0);
  delete S_;
  all_destroyed();
}

// the callback destroys itself while another thread deregisters another callback
PROOF(self_destroy_concurrent) {
  S_ = new ex::inplace_stop_source;
  reg(0);
  reg(1);
  in_call[0] = [] { dereg(0); };
  vc_spawn([](void*) { request(); }, nullptr, "request");
  vc_spawn([](void*) { dereg(1); vc_assert(sl[1].running == 0, "the callback is not running once its deregistration returned"); }, nullptr, "deregister");
  vc_join_all();
  vc_assert(sl[0].calls == 1, "the callback is invoked once");
  delete S_;
  all_destroyed();
}

// what happened before the request is visible to the callback, and what the callback did is
// visible after its deregistration
PROOF(visibility) {
  struct data { int x = 0, y = 0; };
  static data* d;
  d = new data;
  S_ = new ex::inplace_stop_source;
  struct f {
    void operator()() const noexcept { vc_assert(d->x == 1, "writes before the request are visible to callbacks"); d->y = 2; }
  };
  using c = ex::inplace_stop_callback<f>;
  static c* p;
  p = new c(S_->get_token(), f{});
  vc_spawn([](void*) { d->x = 1; S_->request_stop(); }, nullptr, "request");
  vc_spawn([](void*) {
    delete p;
    if (S_->stop_requested()) {
      vc_cover("requested");
      vc_assert(d->x == 1, "writes before the request are visible after stop_requested()");
    }
  }, nullptr, "deregister");
  vc_join_all();
  delete S_;
  delete d;
  all_destroyed();
}

// tokens: what they observe, copies, moves, and callbacks on tokens that can never be stopped
PROOF(tokens) {
  ex::inplace_stop_source a, b;
  ex::inplace_stop_token none, ta = a.get_token(), tb = b.get_token();
  vc_assert(!none.stop_possible() && !none.stop_requested(), "a token without a source can never be stopped");
  vc_assert(ta.stop_possible() && tb.stop_possible(), "a token of a source can be stopped");
  vc_assert(ta == a.get_token() && ta != tb && ta != none && none == ex::inplace_stop_token{}, "tokens are equal exactly when they share their source");
  bool ra = vc_choice(2, "stop a"), rb = vc_choice(2, "stop b");
  if (ra) { vc_assert(a.request_stop(), "the first request succeeds"); }
  if (rb) { vc_assert(b.request_stop(), "the first request succeeds"); }
  vc_assert(ta.stop_requested() == ra && tb.stop_requested() == rb && !none.stop_requested(), "a token observes the requests of its source only");
  vc_assert(a.stop_requested() == ra && b.stop_requested() == rb, "a source observes its own requests");
  auto c = ta;
  vc_assert(c == ta && c.stop_requested() == ra, "a copy shares the source");
  auto m = std::move(c);
  vc_assert(m == ta && c == none, "a move leaves a token without a source");
  c = tb;
  vc_assert(c == tb && c.stop_requested() == rb, "assignment replaces the source");
  m = std::move(c);
  vc_assert(m == tb && c == none, "move assignment replaces the source");
  m.swap(ta);
  vc_assert(m == a.get_token() && ta == b.get_token(), "swap() exchanges the sources");
  static int calls;
  struct f { void operator()() const noexcept { ++calls; } };
  {
    ex::inplace_stop_callback<f> x{none, f{}}, y{a.get_token(), f{}};
    vc_assert(calls == (ra ? 1 : 0), "a callback registered after the request runs at once, and only then");
    a.request_stop();
    vc_assert(calls == 1, "a callback runs once; one on a token without a source never runs");
  }
  ex::never_stop_token n, n2;
  vc_assert(!n.stop_requested() && !n.stop_possible() && n == n2, "never_stop_token is never stopped");
  {
    ex::stop_callback_for_t<ex::never_stop_token, f> z{n, f{}};
  }
  vc_assert(calls == 1, "a callback on never_stop_token never runs");
  static_assert(ex::unstoppable_token<ex::never_stop_token> && !ex::unstoppable_token<ex::inplace_stop_token>);
}
