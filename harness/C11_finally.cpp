// finally and sequence: order, which completion wins, lifetimes, exceptions
#include "lib.h"
#include <exec/finally.hpp>
#include <exec/sequence.hpp>
using namespace vt;

namespace {
kid_t& a = kids[0];
kid_t& b = kids[1];
kid_t& c = kids[2];
void threw() {
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
void delivered(kid_t& k, bool novalue = false) {
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && (novalue ? out.nv == 0 : out.nv == 1 && out.v[0] == k.v), "the values are delivered");
  else if (k.kind == ERROR) vc_assert(out.kind == ERROR && out.v[0] == k.v && out.err <= 2, "the error is delivered");
  else vc_assert(out.kind == STOPPED, "stopped is delivered");
}
void b_starts() {
  vc_assert(a.completed == 1 && a.started == 1, "the next sender starts after the one before has completed");
}
void final_starts() {
  b_starts();
  vc_assert(a.live_ops == 0, "the first operation is gone before the final sender starts");
}
void c_starts() { vc_assert(b.completed == 1, "the next sender starts after the one before has completed"); }
void finally_result() {
  if (a.started) vc_assert(a.completed == 1, "the first sender runs once");
  vc_assert(b.started <= 1 && b.completed == b.started, "the final sender runs at most once");
  if (thrown_count) {
    vc_cover("threw");
    threw();
  } else {
    vc_assert(b.started == 1, "the final sender runs whatever the first one did");
    if (b.kind == VALUE) {
      vc_cover("result of the first");
      delivered(a);
    } else {
      vc_cover("final fails");
      delivered(b);
    }
  }
}
}  // namespace

PROOF(finally_all) {
  throws_left = 1;
  b.on_start = final_starts;
  if (!go([] { return child<0, sigs<V<tok>, E<tetok>, S>>{} | exec::finally(child<1, sigs<V0, E<etok>, S>>{}); })) return aborted();
  drain();
  finished();
  finally_result();
  all_destroyed();
}
PROOF(finally_copy) {
  b.on_start = final_starts;
  if (!go_copy([] { return exec::finally(child<0, sigs<V<ntok>, E<etok const &>, E<std::exception_ptr>, S>>{}, child<1, sigs<V0>>{}); })) return aborted();
  drain();
  finished();
  finally_result();
  all_destroyed();
}
// the final sender never succeeds: only it matters
PROOF(finally_never_value) {
  b.on_start = final_starts;
  throws_left = 1;
  if (!go([] { return child<0, sigs<V<tok>, E<tetok>, S>>{} | exec::finally(child<1, sigs<E<etok>, S>>{}); })) return aborted();
  drain();
  finished();
  vc_assert(b.started == 1, "the final sender runs whatever the first one did");
  delivered(b);
  all_destroyed();
}
PROOF(finally_multi) {
  if (!go([] { return child<0, sigs<ex::set_value_t(ntok, etok), V0, V<etok>>>{} | exec::finally(child<1, sigs<V0, S>>{}); })) return aborted();
  drain();
  finished();
  if (b.kind == STOPPED) vc_assert(out.kind == STOPPED, "stopped is delivered");
  else {
    vc_assert(out.kind == VALUE, "the values are delivered");
    if (out.nv == 2) vc_assert(out.v[0] == a.v && out.v[1] == a.v + 1, "all values are delivered in order");
    if (out.nv == 1) vc_assert(out.v[0] == a.v, "all values are delivered in order");
  }
  all_destroyed();
}
PROOF(finally_connect_throws) {
  throws_left = 1;
  b.on_start = final_starts;
  if (!go([] { return child<0, sigs<V<ntok>, S>, false>{} | exec::finally(child<1, sigs<V0, S>>{}); })) { vc_cover("first connect throws"); return aborted(); }
  drain();
  finished();
  finally_result();
  all_destroyed();
}
PROOF(finally_connect_throws2) {
  throws_left = 1;
  b.on_start = final_starts;
  if (!go([] { return child<0, sigs<V<ntok>, S>>{} | exec::finally(child<1, sigs<V0, S>, false>{}); })) { vc_cover("second connect throws"); return aborted(); }
  drain();
  finished();
  finally_result();
  all_destroyed();
}
// the receiver's environment reaches both
PROOF(finally_stop) {
  auto r = stop_rcvr();
  a.watch_stop = b.watch_stop = true;
  if (!go([] { return child<0, sigs<V<ntok>, S>>{} | exec::finally(child<1, sigs<V0, S>>{}); }, r)) return aborted();
  drain_with_stop();
  finished();
  finally_result();
  vc_assert(a.stop_seen == (stop_asked && stop_order < a.order), "the receiver's stop token reaches the senders");
  vc_assert(b.stop_seen == (stop_asked && stop_order < b.order), "the receiver's stop token reaches the senders");
  stop_done();
  all_destroyed();
}

namespace {
void sequence_result(int n) {
  kid_t* k[3] = {&a, &b, &c};
  int last = -1;
  for (int i = 0; i < n; ++i) {
    vc_assert(k[i]->started <= 1 && k[i]->completed == k[i]->started, "each sender runs at most once");
    if (k[i]->started) {
      vc_assert(last == i - 1 && (i == 0 || (k[i - 1]->kind == VALUE && k[i - 1]->order < k[i]->start_order)), "the senders run in order, each after the success of the one before");
      last = i;
    }
  }
  if (thrown_count) {
    vc_cover("threw");
    threw();
  } else {
    vc_assert(last >= 0 && (last == n - 1 || k[last]->kind != VALUE), "the sequence goes on after success");
    delivered(*k[last], last != n - 1);
    if (last == n - 1) vc_cover("all ran");
    else vc_cover("ended early");
  }
}
}  // namespace
PROOF(sequence_two) {
  throws_left = 1;
  if (!go([] { return exec::sequence(child<0, sigs<V0, E<etok>, S>, false>{}, child<1, sigs<V<tok>, E<etok>, S>, false>{}); })) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  sequence_result(2);
  all_destroyed();
}
PROOF(sequence_three) {
  throws_left = 1;
  if (!go([] { return exec::sequence(child<0, sigs<V0, E<etok>>>{}, child<1, sigs<V0, E<etok>, S>, false>{}, child<2, sigs<V<ntok>, E<etok>>, false>{}); })) return aborted();
  drain();
  finished();
  sequence_result(3);
  all_destroyed();
}
PROOF(sequence_copy) {
  if (!go_copy([] { return exec::sequence(child<0, sigs<V0, E<etok const &>, S>>{}, child<1, sigs<V<ntok>, E<std::exception_ptr>, S>>{}); })) return aborted();
  drain();
  finished();
  sequence_result(2);
  all_destroyed();
}
// senders that may throw when they are copied or moved
PROOF(sequence_moves_throw) {
  throws_left = 1;
  if (!go([] { return exec::sequence(child<0, sigs<V0>>{}, tchild<1, sigs<V<ntok>>>{}); })) { vc_cover("move throws"); return aborted(); }
  drain();
  finished();
  sequence_result(2);
  all_destroyed();
}
PROOF(sequence_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return exec::sequence(child<0, sigs<V0>>{}, cchild<1, sigs<V<ntok>>>{}); })) { vc_cover("copy throws"); return aborted(); }
  drain();
  finished();
  sequence_result(2);
  all_destroyed();
}
PROOF(sequence_one_none) {
  if (vc_bool("none")) {
    if (!go([] { return exec::sequence(); })) return aborted();
    vc_assert(out.kind == VALUE && out.nv == 0, "the empty sequence completes at once");
  } else {
    if (!go([] { return exec::sequence(child<0, sigs<V<ntok>, S>>{}); })) return aborted();
    drain();
    sequence_result(1);
  }
  finished();
  all_destroyed();
}
PROOF(finally_moves_throw) {
  throws_left = 1;
  if (!go([] { return tchild<0, sigs<V<ntok>, S>>{} | exec::finally(tchild<1, sigs<V0>>{}); })) { vc_cover("move throws"); return aborted(); }
  drain();
  finished();
  finally_result();
  all_destroyed();
}
PROOF(finally_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return cchild<0, sigs<V<ntok>, S>>{} | exec::finally(cchild<1, sigs<V0>>{}); })) { vc_cover("copy throws"); return aborted(); }
  drain();
  finished();
  finally_result();
  all_destroyed();
}
PROOF(sequence_first_throws) {
  throws_left = 1;
  if (!(vc_bool("copy") ? go_copy([] { return exec::sequence(cchild<0, sigs<V0>>{}, child<1, sigs<V<ntok>>>{}); })
                        : go([] { return exec::sequence(tchild<0, sigs<V0>>{}, child<1, sigs<V<ntok>>>{}); }))) return aborted();
  drain();
  finished();
  sequence_result(2);
  all_destroyed();
}
PROOF(sequence_nested_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return exec::sequence(child<0, sigs<V0>>{}, cchild<1, sigs<V0>>{}, cchild<2, sigs<V<ntok>>>{}); })) { vc_cover("copy throws"); return aborted(); }
  drain();
  finished();
  sequence_result(3);
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(finally_lvalue) {
  kids[1].fixed = 1;
  lvalue_result([] { return exec::finally(child<0, xsigs>{}, child<1, sigs<V0, S>>{}); });
}
