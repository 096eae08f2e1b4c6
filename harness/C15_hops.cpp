// continues_on / starts_on / on / reschedule / transfer_just / affine: where things run, and that
// the values survive the hop
#include "lib.h"
#include <exec/reschedule.hpp>
using namespace vt;

namespace {
int ctx = -1;   // the execution context that is running
template <int Id> void enter() { ctx = Id; }
template <int Id, class Sigs = sigs<V0>, bool Nx = true>
struct sched;
template <int Id, class Sigs, bool Nx>
struct sattr {
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>) const noexcept -> sched<Id, Sigs, Nx> { return {}; }
};
template <int Id, class Sigs, bool Nx>
struct sched {
  using scheduler_concept = ex::scheduler_t;
  auto schedule() const noexcept -> child<Id, Sigs, Nx, sattr<Id, Sigs, Nx>> { kids[Id].on_finish = enter<Id>; return {}; }
  bool operator==(sched const &) const noexcept { return true; }
};
using fail_sigs = sigs<V0, E<etok>, S>;
kid_t& k = kids[0];
kid_t& s1 = kids[1];
kid_t& s2 = kids[2];
int where_done = -1;
void note_ctx() { where_done = ctx; }
void watch() { on_complete = note_ctx; k.on_finish = enter<0>; }

void same_as(kid_t const & c, uint32_t bump = 0) {
  vc_assert(out.kind == c.kind, "the completion is delivered on the same channel");
  if (c.kind != STOPPED) vc_assert(out.v[0] == c.v + bump, "the delivered value is the one that was sent");
  if (c.kind == ERROR) vc_assert(out.err == 1, "the error is delivered unchanged");
}
void threw() {
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
void one_each() {
  for (int i = 0; i < NKIDS; ++i) vc_assert(kids[i].started <= 1 && kids[i].connected <= 1 && kids[i].completed == kids[i].started, "each sender runs at most once");
}
// the child's result was handed to the scheduler s
void hopped(kid_t const & c, kid_t const & s, int sid) {
  vc_assert(c.started == 1, "the first sender is started");
  if (s.started) {
    vc_assert(s.start_order > c.order, "the hop starts after the first sender has completed");
    if (s.kind == VALUE) {
      vc_cover("hop succeeded");
      vc_assert(where_done == sid, "the completion happens on the new scheduler");
      same_as(c);
    } else {
      vc_cover("hop failed");
      same_as(s);
    }
  } else {
    vc_assert(thrown_count == 1, "the hop is only left out when the result could not be stored");
    threw();
  }
}
}  // namespace

PROOF(continues_on_all) {
  watch();
  throws_left = 1;
  if (!go([] { return child<0, sigs<V<tok>, E<tetok>, S>, false>{} | ex::continues_on(sched<1, fail_sigs, false>{}); })) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  one_each();
  if (thrown_count) vc_cover("threw");
  hopped(k, s1, 1);
  all_destroyed();
}
PROOF(continues_on_nothrow) {
  watch();
  if (!go_copy([] { return ex::continues_on(child<0, sigs<ex::set_value_t(ntok, ntok const &), E<etok>>>{}, sched<1>{}); })) return aborted();
  drain();
  finished();
  one_each();
  vc_assert(s1.started == 1, "the hop happens for every completion");
  hopped(k, s1, 1);
  if (k.kind == VALUE) vc_assert(out.nv == 2 && out.v[1] == k.v + 1, "every value is delivered");
  all_destroyed();
}
PROOF(continues_on_copies_throw) {
  watch();
  throws_left = 1;
  if (!go_copy([] { return ex::continues_on(cchild<0, sigs<V<ntok>, S>>{}, sched<1>{}); })) return aborted();
  drain();
  finished();
  one_each();
  hopped(k, s1, 1);
  all_destroyed();
}
PROOF(continues_on_moves_throw) {
  watch();
  throws_left = 1;
  if (!go([] { return ex::continues_on(tchild<0, sigs<V0>>{}, sched<1>{}); })) { vc_cover("move throws"); return aborted(); }
  drain();
  finished();
  vc_assert(k.kind == VALUE && s1.kind == VALUE && out.kind == VALUE && out.nv == 0 && where_done == 1, "the completion happens on the new scheduler");
  all_destroyed();
}
// two hops
PROOF(continues_on_twice) {
  watch();
  if (!go([] { return child<0, sigs<V<ntok>, S>>{} | ex::continues_on(sched<1, fail_sigs>{}) | ex::continues_on(sched<2, fail_sigs>{}); })) return aborted();
  drain();
  finished();
  one_each();
  vc_assert(k.started == 1 && s1.started == 1 && s2.started == 1 && s1.start_order > k.order && s2.start_order > s1.order, "each hop runs, in order");
  if (s2.kind != VALUE) same_as(s2);
  else {
    vc_assert(where_done == 2, "the completion happens on the last scheduler");
    same_as(s1.kind == VALUE ? k : s1);
  }
  all_destroyed();
}
// starts_on: nothing of the child runs before the scheduler says so
namespace {
void started_on(kid_t const & s, kid_t const & c) {
  vc_assert(s.started == 1, "the scheduler is used first");
  if (c.started) {
    vc_cover("child ran");
    vc_assert(s.kind == VALUE && c.start_order > s.order, "the child starts only on the scheduler");
  }
}
}
PROOF(starts_on_all) {
  throws_left = 1;
  watch();
  k.on_start = [] { vc_assert(ctx == 1, "the child starts on the scheduler"); };
  if (!go([] { return ex::starts_on(sched<1, fail_sigs, false>{}, child<0, sigs<V<tok>, E<etok>, S>, false>{}); })) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  one_each();
  started_on(s1, k);
  if (k.started) same_as(k);
  else if (thrown_count) threw();
  else vc_assert(s1.kind != VALUE, "the child runs when the scheduler succeeded"), same_as(s1);
  all_destroyed();
}
PROOF(starts_on_copies_throw) {
  throws_left = 1;
  watch();
  if (!go_copy([] { return ex::starts_on(sched<1, fail_sigs>{}, cchild<0, sigs<V<ntok>, E<etok>>>{}); })) { vc_cover("copy throws"); return aborted(); }
  drain();
  finished();
  one_each();
  started_on(s1, k);
  if (k.started) same_as(k);
  else if (thrown_count) threw();
  else same_as(s1);
  all_destroyed();
}
PROOF(starts_on_moves_throw) {
  throws_left = 1;
  watch();
  if (!go([] { return ex::starts_on(sched<1>{}, tchild<0, sigs<V<ntok>, E<etok>>>{}); })) { vc_cover("move throws"); return aborted(); }
  drain();
  finished();
  one_each();
  started_on(s1, k);
  if (k.started) same_as(k);
  else threw();
  all_destroyed();
}
// the child of starts_on sees the scheduler
namespace {
struct ask {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V<uint32_t>>;
  template <class R>
  struct op {
    using operation_state_concept = ex::operation_state_t;
    R r;
    void start() & noexcept {
      auto sc = ex::get_start_scheduler(ex::get_env(r));
      uint32_t id = idof_sched(sc);
      ex::set_value(static_cast<R&&>(r), id);
    }
    template <int Id, class Sg, bool Nx>
    static uint32_t idof_sched(sched<Id, Sg, Nx>) noexcept { return Id; }
  };
  template <class R>
  auto connect(R r) const noexcept -> op<R> { return {static_cast<R&&>(r)}; }
};
template <int Id, class Sg>
struct on_env {
  auto query(ex::get_start_scheduler_t) const noexcept -> sched<Id, Sg> { return {}; }
};
template <int Id, class Sg = fail_sigs>
auto on_rcvr() { return rcvr<on_env<Id, Sg>>{}; }
}
PROOF(starts_on_env) {
  go([] { return ex::starts_on(sched<1>{}, ask{}); }, on_rcvr<2>());
  drain();
  finished();
  vc_assert(out.kind == VALUE && out.v[0] == 1, "the child sees the scheduler it was started on");
  all_destroyed();
}
// on(sched, sndr): there and back
PROOF(on_all) {
  throws_left = 1;
  watch();
  k.on_start = [] { vc_assert(ctx == 1, "the child starts on the scheduler"); };
  if (!go([] { return ex::on(sched<1, fail_sigs, false>{}, child<0, sigs<V<tok>, E<etok>, S>, false>{}); }, on_rcvr<2>())) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  one_each();
  started_on(s1, k);
  if (s2.started) {
    vc_assert(s2.start_order > (k.started ? k.order : s1.order), "back again only after the work is done");
    if (s2.kind == VALUE) {
      vc_cover("back again");
      vc_assert(where_done == 2, "the completion happens on the scheduler it was started on");
      if (k.started) same_as(k);
      else if (thrown_count) threw();
      else same_as(s1);
    } else same_as(s2);
  } else threw();
  all_destroyed();
}
PROOF(on_copies_throw) {
  throws_left = 1;
  watch();
  if (!go_copy([] { return ex::on(sched<1>{}, cchild<0, sigs<V<ntok>, S>>{}); }, on_rcvr<2>())) { vc_cover("copy throws"); return aborted(); }
  drain();
  finished();
  one_each();
  started_on(s1, k);
  if (s2.started && s2.kind != VALUE) same_as(s2);
  else if (k.started) same_as(k);
  else threw();
  all_destroyed();
}
PROOF(on_env) {
  go([] { return ex::on(sched<1>{}, ask{}); }, on_rcvr<2>());
  drain();
  finished();
  if (s2.kind == VALUE) vc_assert(out.kind == VALUE && out.v[0] == 1 && where_done == -1, "the child sees the scheduler it was started on");
  all_destroyed();
}
// sndr | on(sched, closure): the closure runs on sched, the result comes back
PROOF(on_closure) {
  throws_left = 1;
  watch();
  if (!go([] {
        return child<0, sigs<V<ntok>, S>, true, sattr<3, fail_sigs, false>>{}
             | ex::on(sched<1, fail_sigs>{}, ex::then([](ntok t) {
                 vc_assert(ctx == 1, "the closure runs on the scheduler");
                 maybe_throw("f throws");
                 t.id += 7;
                 return t;
               }));
      })) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  one_each();
  auto& back = kids[3];
  vc_assert(k.started == 1, "the first sender is started");
  if (k.started) vc_assert(s1.started == 1 && s1.start_order > k.order, "the hop to the scheduler follows the child");
  vc_assert(back.started == 1 && back.start_order > s1.order, "the hop back follows the closure");
  if (back.kind != VALUE) same_as(back);
  else {
    vc_assert(where_done == 3, "the completion happens where the child completes");
    if (s1.kind != VALUE) same_as(s1);
    else if (thrown_count) { vc_cover("threw"); threw(); }
    else same_as(k, k.kind == VALUE ? 7 : 0);
  }
  all_destroyed();
}
PROOF(reschedule_all) {
  throws_left = 1;
  watch();
  if (!go([] { return child<0, sigs<V<tok>, S>, false>{} | exec::reschedule(); }, on_rcvr<1>())) return aborted();
  drain();
  finished();
  one_each();
  hopped(k, s1, 1);
  all_destroyed();
}
PROOF(transfer_just) {
  throws_left = 1;
  watch();
  uint32_t v = vc_u32("v");
  if (!go([v] { return ex::transfer_just(sched<1, fail_sigs>{}, tok(v), ntok(v + 1)); })) { vc_cover("throws"); return aborted(); }
  drain();
  finished();
  if (!s1.started) threw();
  else if (s1.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 2 && out.v[0] == v && out.v[1] == v + 1 && where_done == 1, "the values are sent on the scheduler");
  else same_as(s1);
  all_destroyed();
}
// affine: the result comes back to the starting scheduler, whatever it is
PROOF(affine_all) {
  watch();
  throws_left = 1;
  if (!go([] { return child<0, sigs<V<ntok>, E<etok>, S>, false>{} | ex::affine(); }, on_rcvr<1, sigs<V0>>())) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  one_each();
  vc_assert(s1.started == 1 && s1.start_order > k.order, "every completion hops back");
  vc_assert(where_done == 1, "the completion happens on the starting scheduler");
  same_as(k);
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(continues_on_lvalue) {
  lvalue_result([] { return child<0, xsigs>{} | ex::continues_on(sched<1>{}); });
}
PROOF(on_lvalue) {
  s2.fixed = 1;
  lvalue_result([] { return ex::on(sched<1>{}, child<0, xsigs>{}); }, on_rcvr<2>());
}
