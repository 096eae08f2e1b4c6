// schedule_after in terms of schedule_at, and the other way round
#include "lib.h"
#include <exec/timed_scheduler.hpp>
#include <chrono>
using namespace vt;

namespace {
using dur = std::chrono::duration<int64_t>;
struct clk { using duration = dur; using rep = int64_t; using period = dur::period; using time_point = std::chrono::time_point<clk>; static constexpr bool is_steady = true; };
using tp = std::chrono::time_point<clk, dur>;
int64_t the_time = 0, asked = 0;
int nows = 0, asks = 0;
using Sg = sigs<V0, E<etok>, S>;
struct base {
  uint32_t id = 4;
  auto schedule() const noexcept { return child<1, sigs<V0, S>>{}; }
  auto now() const noexcept -> tp { vc_assert(id == 4, "the scheduler is the one given"); ++nows; return tp(dur(the_time)); }
  bool operator==(base const &) const noexcept = default;
};
struct at_sched : base {
  auto schedule_at(tp const & t) const {
    vc_assert(id == 4, "the scheduler is the one given");
    ++asks;
    asked = t.time_since_epoch().count();
    maybe_throw("schedule_at throws");
    return tchild<0, Sg, false>{};
  }
  bool operator==(at_sched const &) const noexcept = default;
};
struct after_sched : base {
  auto schedule_after(dur const & d) const {
    vc_assert(id == 4, "the scheduler is the one given");
    ++asks;
    asked = d.count();
    maybe_throw("schedule_after throws");
    return tchild<0, Sg, false>{};
  }
  bool operator==(after_sched const &) const noexcept = default;
};
int64_t sym(char const* what) {
  int64_t x = (int64_t)vc_u64(what);
  vc_assume(x > -(1ll << 60) && x < (1ll << 60));
  return x;
}
template <class Mk> void check(Mk mk, int64_t expected) {
  throws_left = 1;
  auto s = mk();
  vc_assert(nows == 0 && asks == 0, "the clock is read when the operation starts");
  bool ok = go([&] { return std::move(s); });
  vc_assert(ok || throws_left == 0, "only throws are reported");
  if (!ok) return aborted();
  vc_assert(nows == 1 && asks == 1, "the clock is read once and the operation scheduled once");
  vc_assert(asked == expected, "the time is the one asked for");
  drain();
  finished();
  if (thrown_count) {
    vc_cover("throws");
    vc_assert(out.kind == ERROR && out.err == 2, "an exception is reported");
  } else {
    vc_assert(out.kind == kids[0].kind, "the scheduling operation's completion is delivered");
    if (out.kind == ERROR) vc_assert(out.v[0] == kids[0].v, "the error is delivered");
    if (out.kind == VALUE) vc_cover("value");
  }
  all_destroyed();
}
}  // namespace

PROOF(after_by_at) {
  int64_t d = sym("duration"), t = sym("now");
  the_time = t + 1;  // the time at which the sender is made does not matter
  check([d, t] { auto s = exec::schedule_after(at_sched{}, dur(d)); the_time = t; return s; }, t + d);
}
PROOF(at_by_after) {
  int64_t p = sym("time"), t = sym("now");
  the_time = t + 1;
  check([p, t] { auto s = exec::schedule_at(after_sched{}, tp(dur(p))); the_time = t; return s; }, p - t);
}
PROOF(direct) {
  int64_t d = sym("duration");
  auto c = exec::schedule_at(at_sched{}, tp(dur(d)));
  vc_assert(asks == 1 && asked == d && nows == 0, "a scheduler's own operation is used");
  auto c2 = exec::schedule_after(after_sched{}, dur(d));
  vc_assert(asks == 2 && asked == d && nows == 0, "a scheduler's own operation is used");
  vc_assert(exec::now(at_sched{}).time_since_epoch().count() == the_time && nows == 1, "now is the scheduler's");
}
