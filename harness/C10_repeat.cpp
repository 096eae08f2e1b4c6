// repeat_n / repeat / repeat_until: number of rounds, completion, lifetimes, errors
#include "lib.h"
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
using namespace vt;

namespace {
int rounds;         // completed rounds with a value
kid_t& k = kids[0];
// the child of repeat_until: sends whether to stop repeating
struct flag_t {     // convertible to bool, may throw
  tok t{9};
  bool v;
  explicit flag_t(uint32_t x) noexcept : v(x & 1) {}
  flag_t(flag_t&&) = default;
  flag_t(flag_t const &) = default;
  operator bool() const {
    t.check();
    maybe_throw("conversion throws");
    return v;
  }
  uint32_t get() const noexcept { return v; }
};
void one_at_a_time() {
  vc_assert(k.live_ops <= 1, "at most one round exists at a time");
  vc_assert(k.started == k.completed + 1, "a round starts after the one before has completed");
}
void threw() {
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
}  // namespace

// any count, the rounds complete inline or later, nothing throws
PROOF(repeat_n_later) {
  std::size_t n = vc_u64("n");
  defer_mode = 1;
  k.on_start = one_at_a_time;
  go([n] { return child<0, sigs<V0>>{} | exec::repeat_n(n); });
  if (n == 0) {
    vc_cover("no round");
    vc_assert(out.n == 1 && out.kind == VALUE && k.started == 0, "zero rounds complete at once");
  } else {
    std::size_t r = 0;
    while (kid_pending(0)) {
      vc_assert(out.n == 0, "does not complete before the last round");
      k.started = 1; k.completed = 0; k.connected = 1; k.start_order = k.order = seq_no = 0;   // counters restart each round
      ++r;
      complete_kid(0);
    }
    vc_cover("done");
    vc_assert(r == n, "exactly n rounds run");
    vc_assert(out.kind == VALUE && out.nv == 0, "completes with no value");
  }
  finished();
  all_destroyed();
}
//@proofopt repeat_n_later loops="cut"
//@proofopt repeat_n_later backed=true
PROOF(repeat_n_inline) {
  std::size_t n = vc_choice(20, "n");
  defer_mode = 0;
  k.on_start = one_at_a_time;
  go([n] { return child<0, sigs<V0>>{} | exec::repeat_n(n); });
  vc_assert(k.started == (int)n && k.completed == (int)n, "exactly n rounds run");
  vc_assert(out.kind == VALUE && out.nv == 0, "completes with no value");
  finished();
  all_destroyed();
}
//@proofopt repeat_n_inline bounded="up to 19 rounds that complete inline"
// every channel, throwing connect and values
PROOF(repeat_n_channels) {
  std::size_t n = vc_choice(4, "n");
  throws_left = 1;
  k.on_start = one_at_a_time;
  if (!go([n] { return child<0, sigs<V0, E<tetok>, S>, false>{} | exec::repeat_n(n); })) return aborted();
  drain();
  finished();
  if (thrown_count) {
    vc_cover("threw");
    threw();
  } else if (k.started == 0) {
    vc_assert(n == 0 && out.kind == VALUE, "zero rounds complete at once");
  } else if (k.kind == VALUE) {
    vc_cover("value");
    vc_assert(out.kind == VALUE && out.nv == 0 && k.completed == (int)n, "completes after exactly n rounds");
  } else {
    vc_cover("other");
    vc_assert(k.completed <= (int)n, "no more than n rounds");
    if (k.kind == ERROR) vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == k.v, "an error ends the repetition and is delivered");
    else vc_assert(out.kind == STOPPED, "stopped ends the repetition and is delivered");
  }
  all_destroyed();
}
//@proofopt repeat_n_channels bounded="up to 3 rounds"
PROOF(repeat_n_errors_nothrow) {
  std::size_t n = 1 + vc_choice(2, "n");
  if (!go_copy([n] { return child<0, sigs<V0, E<etok const &>, E<std::exception_ptr>, S>, true>{} | exec::repeat_n(n); })) return aborted();
  drain();
  finished();
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && k.completed == (int)n, "completes after exactly n rounds");
  else if (k.kind == ERROR) vc_assert(out.kind == ERROR && out.err <= 2 && out.v[0] == k.v, "an error ends the repetition and is delivered");
  else vc_assert(out.kind == STOPPED, "stopped ends the repetition and is delivered");
  all_destroyed();
}
//@proofopt repeat_n_errors_nothrow bounded="up to 2 rounds"
// the operation is asked to stop: no new round begins (the trampoline reports stopped)
PROOF(repeat_n_stop) {
  auto r = stop_rcvr();
  std::size_t n = 1 + vc_choice(3, "n");
  k.on_start = one_at_a_time;
  k.watch_stop = true;
  stop_before();
  if (!go([n] { return child<0, sigs<V0, S>>{} | exec::repeat_n(n); }, r)) return aborted();
  drain_with_stop();
  finished();
  if (out.kind == STOPPED) vc_assert(stop_asked || k.kind == STOPPED, "stopped only when asked to or when a round was stopped");
  else vc_assert(out.kind == VALUE && k.completed == (int)n, "completes after exactly n rounds");
  if (stop_asked && out.kind == STOPPED && k.kind == VALUE) vc_cover("stopped between rounds");
  if (k.started) vc_assert(k.stop_seen == (stop_asked && k.order > stop_order), "the receiver's stop token reaches the rounds");
  stop_done();
  all_destroyed();
}
//@proofopt repeat_n_stop bounded="up to 3 rounds"

// repeat_until: repeats while the child sends false
namespace { int last_flag; }
PROOF(repeat_until_later) {
  defer_mode = 1;
  k.on_start = one_at_a_time;
  static bool done;
  go([] { return child<0, sigs<V0>>{} | ex::then([]() noexcept -> bool { done = vc_bool("done"); return done; }) | exec::repeat_until(); });
  while (kid_pending(0)) {
    vc_assert(out.n == 0, "does not complete before a round sends true");
    k.started = 1; k.completed = 0; k.connected = 1; k.start_order = k.order = seq_no = 0;
    done = false;
    complete_kid(0);
    vc_assert(out.n == (done ? 1 : 0) && kid_pending(0) == !done, "completes exactly when a round sends true and starts another one otherwise");
  }
  vc_cover("done");
  vc_assert(out.kind == VALUE && out.nv == 0, "completes with no value");
  finished();
  all_destroyed();
}
//@proofopt repeat_until_later loops="subsume"
//@proofopt repeat_until_later backed=true
PROOF(repeat_until_channels) {
  throws_left = 1;
  k.on_start = one_at_a_time;
  static int trues, falses;
  static bool conv;
  if (!go([] {
        return child<0, sigs<V0, E<tetok>, S>, false>{} | ex::then([]() noexcept { bool b = falses == 2 || vc_bool("done"); (b ? trues : falses)++; return flag_t(b); })
             | exec::repeat_until();
      }))
    return aborted();
  drain();
  finished();
  if (thrown_count) {
    vc_cover("threw");
    threw();
    vc_assert(trues <= 1, "nothing runs after the end");
  } else if (k.kind == VALUE) {
    vc_cover("value");
    vc_assert(out.kind == VALUE && out.nv == 0 && trues == 1 && k.completed == falses + 1, "completes exactly when a round sends true");
  } else {
    vc_assert(trues == 0, "repeats only after false");
    if (k.kind == ERROR) vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == k.v, "an error ends the repetition and is delivered");
    else vc_assert(out.kind == STOPPED, "stopped ends the repetition and is delivered");
  }
  all_destroyed();
}
//@proofopt repeat_until_channels bounded="up to 3 rounds"
PROOF(repeat_until_constants) {
  if (!go([] { return child<0, sigs<V0>>{} | ex::then([]() noexcept { return std::true_type{}; }) | exec::repeat_until(); })) return aborted();
  drain();
  finished();
  vc_assert(out.kind == VALUE && k.completed == 1, "a constant true ends after one round");
  all_destroyed();
}
// repeat: only an error or stopped ends it
PROOF(repeat_forever) {
  defer_mode = 1;
  throws_left = 1;
  k.on_start = one_at_a_time;
  static int n;
  if (!go_copy([] {
        return child<0, sigs<V0, E<etok>, S>, false>{} | ex::let_value([]() { return child<1, sigs<E<etok>, V0>>{}; }) | exec::repeat();
      }))
    return aborted();
  // the first rounds are driven here, then the rest must fail
  for (int i = 0; i < 4 && out.n == 0; ++i) {
    if (kid_pending(0)) complete_kid(0);
    else if (kid_pending(1)) complete_kid(1);
  }
  if (out.n == 0) vc_end();
  finished();
  vc_assert(out.kind != VALUE, "repeat never completes with a value");
  if (thrown_count) threw();
  else if (out.kind == ERROR) { vc_cover("error"); vc_assert(out.v[0] == k.v || out.v[0] == kids[1].v, "an error ends the repetition and is delivered"); }
  all_destroyed();
}
//@proofopt repeat_forever bounded="up to 4 completions"
// child senders that may throw when they are copied
PROOF(repeat_n_copies_throw) {
  std::size_t n = vc_choice(3, "n");
  throws_left = 1;
  if (!(vc_bool("copy") ? go_copy([n] { return cchild<0, sigs<V0, S>>{} | exec::repeat_n(n); })
                        : go([n] { return tchild<0, sigs<V0, S>>{} | exec::repeat_n(n); }))) return aborted();
  drain();
  finished();
  if (thrown_count) { vc_cover("threw in a later round"); threw(); }
  else if (n == 0 || k.kind == VALUE) vc_assert(out.kind == VALUE && k.completed == (int)n, "completes after exactly n rounds");
  else vc_assert(out.kind == STOPPED, "stopped ends the repetition and is delivered");
  all_destroyed();
}
//@proofopt repeat_n_copies_throw bounded="up to 2 rounds"
PROOF(repeat_until_copies_throw) {
  throws_left = 1;
  static int falses;
  if (!(vc_bool("copy") ? go_copy([] { return cchild<0, sigs<V0, S>>{} | ex::then([]() noexcept { return falses++ > 0 || vc_bool("done"); }) | exec::repeat_until(); })
                        : go([] { return tchild<0, sigs<V0, S>>{} | ex::then([]() noexcept { return falses++ > 0 || vc_bool("done"); }) | exec::repeat_until(); }))) return aborted();
  drain();
  finished();
  if (thrown_count) { vc_cover("threw in a later round"); threw(); }
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE, "completes exactly when a round sends true");
  else vc_assert(out.kind == STOPPED, "stopped ends the repetition and is delivered");
  all_destroyed();
}
//@proofopt repeat_until_copies_throw bounded="up to 2 rounds"
