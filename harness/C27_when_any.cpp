// when_any: completes once, after every child completed, with what the first child to complete
// sent (or stopped if a stop was requested); the other children are asked to stop
#include "lib.h"
#include <exec/when_any.hpp>
using namespace vt;
//@opt preemptions=2

namespace {
void all_kids_done() {
  for (int i = 0; i < NKIDS; ++i)
    vc_assert(kids[i].started == kids[i].connected && kids[i].completed == kids[i].started,
              "when_any completes only after every child has completed");
}
void outcome(int n) {
  int first = -1, nstarted = 0;
  for (int i = 0; i < n; ++i) nstarted += kids[i].started;
  if (nstarted == 0) {
    vc_cover("stopped before start");
    vc_assert(stop_asked && out.kind == STOPPED, "children are left out only when a stop was requested first");
    return;
  }
  for (int i = 0; i < n; ++i) {
    vc_assert(kids[i].started == 1 && kids[i].completed == 1, "every child runs exactly once");
    if (first < 0 || kids[i].order < kids[first].order) first = i;
  }
  if (stop_asked) {
    vc_cover("stop requested");
    vc_assert(out.kind == STOPPED || (out.kind == kids[first].kind && out.nv == 1 && out.v[0] == kids[first].v),
              "after a stop request: stopped, or the first result");
    if (stop_order < kids[first].order) vc_assert(out.kind == STOPPED, "stopped when the stop request came first");
  } else {
    vc_assert(out.kind == kids[first].kind, "the first completion is delivered, on its channel");
    if (out.kind == VALUE) {
      vc_cover("value");
      vc_assert(out.nv >= 1 && out.v[0] == kids[first].v, "the first child's value is delivered");
    }
    if (out.kind == ERROR) {
      vc_cover("error");
      vc_assert(out.v[0] == kids[first].v, "the first child's error is delivered");
    }
    if (out.kind == STOPPED) vc_cover("stopped");
  }
  for (int i = 0; i < n; ++i)
    if (i != first && kids[i].watch_stop && kids[first].order < kids[i].order)
      vc_assert(kids[i].stop_seen, "the remaining children are asked to stop after the first completion");
  for (int i = 0; i < n; ++i)
    if (stop_asked && kids[i].watch_stop && stop_order < kids[i].order)
      vc_assert(kids[i].stop_seen, "the children are asked to stop when the receiver is");
}
void watch(int n) {
  for (int i = 0; i < n; ++i) kids[i].watch_stop = true;
  on_complete = all_kids_done;
}
auto three = [] {
  return exec::when_any(child<0, sigs<V<ntok>, E<etok>, S>>{},
                        child<1, sigs<V<ntok>, S>>{},
                        child<2, sigs<V<ntok>, E<etok>>>{});
};
}  // namespace

PROOF(three_children) {
  watch(3);
  auto r = stop_rcvr();
  if (stop_before()) on_complete = nullptr;
  vc_assert(go(three, r), "connect does not throw");
  drain_with_stop();
  finished();
  outcome(3);
  stop_done();
  all_destroyed();
}

PROOF(copied) {
  watch(2);
  vc_assert(go_copy([] { return exec::when_any(child<0, sigs<V<ntok>, E<etok>, S>>{}, child<1, sigs<V<ntok>, S>>{}); }),
            "connect does not throw");
  drain();
  finished();
  outcome(2);
  all_destroyed();
}

// a stop token of another type, which counts the callbacks that are registered
PROOF(other_token) {
  watch(2);
  on_complete = [] { all_kids_done(); no_callbacks(); };
  auto r = counting_rcvr();
  if (stop_before()) on_complete = no_callbacks;
  vc_assert(go([] { return exec::when_any(child<0, sigs<V<ntok>, E<etok>, S>>{}, child<1, sigs<V<ntok>, S>>{}); }, r),
            "connect does not throw");
  drain_with_stop();
  finished();
  outcome(2);
  stop_done();
  all_destroyed();
}

// values whose copies and moves throw, connects that throw
template <bool Copy>
static void throwing() {
  watch(2);
  throws_left = 1;
  auto make = [] {
    return exec::when_any(child<0, sigs<ex::set_value_t(tok const &, ntok), E<tetok>, S>, false>{},
                          child<1, sigs<V<tok>, E<tetok>>, false>{});
  };
  bool ok;
  if constexpr (Copy) ok = go_copy(make);
  else ok = go(make);
  if (!ok) return aborted();
  drain();
  finished();
  int first = kids[0].order < kids[1].order ? 0 : 1;
  if (thrown_count) {
    vc_cover("throws");
    vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "the exception is delivered as the error");
  } else {
    outcome(2);
    if (out.kind == VALUE && first == 0) vc_assert(out.nv == 2 && out.v[1] == kids[0].v + 1, "all values of the first child");
  }
  all_destroyed();
}
PROOF(throws) { throwing<false>(); }
PROOF(throws_copied) { throwing<true>(); }

// senders whose moves and copies throw
PROOF(throwing_senders) {
  on_complete = all_kids_done;
  throws_left = 1;
  auto make = [] { return exec::when_any(tchild<0, sigs<V<ntok>, S>>{}, tchild<1, sigs<V<ntok>, S>, false>{}); };
  if (vc_choice(2, "copy") ? !go_copy(make) : !go(make)) {
    vc_cover("throws");
    return aborted();
  }
  drain();
  finished();
  outcome(2);
  all_destroyed();
}
// one of two senders throws, the other one says it does not
namespace {
template <bool First>
void one_throws() {
  on_complete = all_kids_done;
  throws_left = 1;
  auto make = [] {
    if constexpr (First) return exec::when_any(tchild<0, sigs<V<ntok>, S>, false>{}, child<1, sigs<V<ntok>, S>>{});
    else return exec::when_any(child<0, sigs<V<ntok>, S>>{}, tchild<1, sigs<V<ntok>, S>, false>{});
  };
  if (vc_choice(2, "copy") ? !go_copy(make) : !go(make)) {
    vc_cover("throws");
    return aborted();
  }
  drain();
  finished();
  outcome(2);
  all_destroyed();
}
}
PROOF(first_throws) { one_throws<true>(); }
PROOF(second_throws) { one_throws<false>(); }

// children that complete as soon as they are asked to stop
PROOF(children_that_stop) {
  on_complete = all_kids_done;
  auto r = stop_rcvr();
  if (stop_before()) on_complete = nullptr;
  vc_assert(go([] { return exec::when_any(lchild<0>{}, child<1, sigs<V<ntok>, E<etok>, S>>{}, lchild<2>{}); }, r),
            "connect does not throw");
  drain_with_stop();
  finished();
  outcome(3);
  stop_done();
  all_destroyed();
}
PROOF(only_stopping_children) {
  on_complete = all_kids_done;
  auto r = stop_rcvr();
  vc_assert(go([] { return exec::when_any(lchild<0>{}, lchild<1>{}); }, r), "connect does not throw");
  drain_with_stop();
  finished();
  outcome(2);
  stop_done();
  all_destroyed();
}

PROOF(nested) {
  on_complete = all_kids_done;
  auto r = stop_rcvr();
  vc_assert(go([] { return exec::when_any(exec::when_any(lchild<0>{}, child<1, sigs<V<ntok>, S>>{}), lchild<2>{}); }, r),
            "connect does not throw");
  drain_with_stop();
  finished();
  // the inner operation completes with its second child
  int inner = kids[0].order < kids[1].order ? 0 : 1, last = 1 - inner;
  int first = kids[last].order < kids[2].order ? inner : 2;
  if (!stop_asked) {
    vc_assert(out.kind == kids[first].kind, "the first completion is delivered, on its channel");
    if (out.kind == VALUE) { vc_cover("nested value"); vc_assert(out.v[0] == kids[first].v, "the first child's value is delivered"); }
  }
  stop_done();
  all_destroyed();
}

// ------------------------------------------------------------------ threads
PROOF(concurrent) {
  on_complete = all_kids_done;
  defer_mode = 1;
  vc_assert(go([] { return exec::when_any(child<0, sigs<V<ntok>, E<etok>, S>>{}, child<1, sigs<V<ntok>, E<etok>>>{}); }),
            "connect does not throw");
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { complete_kid(1); }, nullptr, "child 1");
  vc_join_all();
  finished();
  bool a = out.kind == kids[0].kind && (out.kind == STOPPED || out.v[0] == kids[0].v);
  bool b = out.kind == kids[1].kind && (out.kind == STOPPED || out.v[0] == kids[1].v);
  vc_assert(a || b, "the result of one of the children is delivered");
  if (out.kind == VALUE) vc_cover("value");
  if (out.kind == ERROR) vc_cover("error");
  all_destroyed();
}

PROOF(concurrent_stop) {
  on_complete = all_kids_done;
  defer_mode = 1;
  auto r = stop_rcvr();
  vc_assert(go([] { return exec::when_any(child<0, sigs<V<ntok>, S>>{}, lchild<1>{}); }, r), "connect does not throw");
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_join_all();
  finished();
  if (out.kind == VALUE) { vc_cover("value"); vc_assert(out.v[0] == kids[0].v, "the value of the first child"); }
  else { vc_cover("stopped"); vc_assert(out.kind == STOPPED, "value or stopped"); }
  stop_done();
  all_destroyed();
}

// the children have completed when the stop request arrives, while the result is delivered
PROOF(concurrent_late_stop) {
  on_complete = all_kids_done;
  defer_mode = 1;
  auto r = stop_rcvr();
  vc_assert(go([] { return exec::when_any(child<0, sigs<V<ntok>, E<etok>, S>>{}); }, r), "connect does not throw");
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_join_all();
  finished();
  if (out.kind != STOPPED) {
    vc_cover("value");
    vc_assert(out.kind == kids[0].kind && out.v[0] == kids[0].v, "the result of the child");
  } else vc_cover("stopped");
  stop_done();
  all_destroyed();
}
//@proofopt concurrent_late_stop preemptions=3

// a stop request while the operation starts; the receiver's stop source dies with the completion
PROOF(concurrent_start_stop) {
  auto r = counting_rcvr();
  on_complete = no_callbacks;
  using snd = decltype(exec::when_any(lchild<0>{}));
  using box = opbox<snd, rcvr<cenv>>;
  box::cur = new box(exec::when_any(lchild<0>{}), std::move(r));
  destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
  vc_spawn([](void*) { ex::start(box::cur->op); }, nullptr, "start");
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_join_all();
  finished();
  vc_assert(out.kind == STOPPED, "stopped");
  if (kids[0].started) vc_cover("started");
  else vc_cover("not started");
  stop_done();
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(lvalue_results) {
  lvalue_result([] { return exec::when_any(child<0, xsigs>{}); });
}
