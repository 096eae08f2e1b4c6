// when_all: completes once, after every child completed; all values in order, or the first
// error, or stopped; siblings are asked to stop when one fails
#include "lib.h"
using namespace vt;
//@opt preemptions=2

namespace {
void all_kids_done() {
  for (int i = 0; i < NKIDS; ++i)
    vc_assert(kids[i].started == kids[i].connected && kids[i].completed == kids[i].started,
              "when_all completes only after every child has completed");
}
// every child that completed after a failure saw the stop request
void outcome(int n) {
  int first_err = -1, any_stop = 0;
  for (int i = 0; i < n; ++i) {
    vc_assert(kids[i].started == 1 && kids[i].completed == 1, "every child runs exactly once");
    if (kids[i].kind == ERROR && (first_err < 0 || kids[i].order < kids[first_err].order)) first_err = i;
    if (kids[i].kind == STOPPED) any_stop = 1;
  }
  if (first_err >= 0) {
    vc_cover("error");
    vc_assert(out.kind == ERROR && out.nv == 1 && out.v[0] == kids[first_err].v, "the first error is delivered");
  } else if (any_stop || stop_asked) {
    vc_cover("stopped");
    vc_assert(out.kind == STOPPED, "stopped is delivered when a child stopped or a stop was requested");
  } else {
    vc_cover("values");
    vc_assert(out.kind == VALUE && out.nv == n, "all values are delivered");
    for (int i = 0; i < n; ++i) vc_assert(out.v[i] == kids[i].v, "values are delivered in the order of the children");
  }
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j)
      if (kids[j].kind != VALUE && kids[j].order < kids[i].order && kids[i].watch_stop)
        vc_assert(kids[i].stop_seen, "the remaining children are asked to stop after a failure");
  for (int i = 0; i < n; ++i)
    if (stop_asked && kids[i].watch_stop && stop_order < kids[i].order)
      vc_assert(kids[i].stop_seen, "the children are asked to stop when the receiver is");
}
void watch(int n) {
  for (int i = 0; i < n; ++i) kids[i].watch_stop = true;
  on_complete = all_kids_done;
}
}  // namespace

PROOF(three_children) {
  watch(3);
  auto r = stop_rcvr();
  stop_before();
  bool ok = go([] {
    return ex::when_all(child<0, sigs<V<ntok>, E<etok>, S>>{},
                        child<1, sigs<V<ntok>, S>>{},
                        child<2, sigs<V<ntok>, E<etok>>>{});
  }, r);
  vc_assert(ok, "connect does not throw");
  drain_with_stop();
  finished();
  outcome(3);
  stop_done();
  all_destroyed();
}

// a stop token of another type: nothing stays registered with it
PROOF(other_token) {
  watch(2);
  on_complete = [] { all_kids_done(); no_callbacks(); };
  auto r = counting_rcvr();
  on_complete = no_callbacks; stop_before();
  bool ok = go([] { return ex::when_all(child<0, sigs<V<ntok>, E<etok>, S>>{}, child<1, sigs<V<ntok>, S>>{}); }, r);
  vc_assert(ok, "connect does not throw");
  drain_with_stop();
  finished();
  outcome(2);
  stop_done();
  all_destroyed();
}

PROOF(throwing_values) {
  watch(2);
  throws_left = 1;
  if (!go([] {
        return ex::when_all(child<0, sigs<ex::set_value_t(tok const &, ntok), E<tetok>, S>, false>{},
                            child<1, sigs<V<tok>, E<tetok>>, false>{});
      }))
    return aborted();
  drain();
  finished();
  if (out.kind == VALUE) {
    vc_cover("values");
    vc_assert(out.nv == 3 && out.v[0] == kids[0].v && out.v[1] == kids[0].v + 1 && out.v[2] == kids[1].v, "all values in order");
    vc_assert(kids[0].kind == VALUE && kids[1].kind == VALUE && !thrown_count, "values only when all succeed");
  } else {
    if (thrown_count) {
      vc_cover("throws");
      vc_assert(out.kind == ERROR, "an exception is delivered as an error");
      if (kids[0].kind == VALUE && kids[1].kind == VALUE) vc_assert(out.err == 2 && out.v[0] == last_throw, "the exception itself is delivered");
    } else {
      outcome(2);
    }
  }
  all_destroyed();
}

PROOF(children_that_stop) {
  on_complete = all_kids_done;
  auto r = stop_rcvr();
  stop_before();
  bool ok = go([] {
    return ex::when_all(lchild<0>{}, child<1, sigs<V<ntok>, E<etok>, S>>{}, lchild<2>{});
  }, r);
  vc_assert(ok, "connect does not throw");
  drain_with_stop();
  finished();
  outcome(3);
  stop_done();
  all_destroyed();
}

PROOF(cannot_fail) {
  on_complete = all_kids_done;
  bool ok = go([] { return ex::when_all(child<0, sigs<V<ntok>>>{}, child<1, sigs<V0>>{}); });
  vc_assert(ok, "connect does not throw");
  drain();
  finished();
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == kids[0].v, "values");
  all_destroyed();
}

PROOF(with_variant) {
  on_complete = all_kids_done;
  bool ok = go([] {
    return ex::when_all_with_variant(child<0, sigs<V<ntok>, V0, S>>{}, child<1, sigs<V<ntok>>>{});
  });
  vc_assert(ok, "connect does not throw");
  drain();
  finished();
  if (out.kind == VALUE) {
    vc_cover("values");
    vc_assert(out.v[1] == 0x70000000u + kids[1].v, "the value of the second child");
    if (kids[0].v) vc_assert(out.v[0] == 0x70000000u + kids[0].v, "the value of the first child");
    else vc_assert(out.v[0] == 0x70000000u, "the empty value of the first child");
  }
  all_destroyed();
}

// children complete on their own threads while another thread requests a stop
PROOF(concurrent) {
  on_complete = all_kids_done;
  defer_mode = 1;
  auto r = stop_rcvr();
  bool ok = go([] {
    return ex::when_all(child<0, sigs<V<ntok>, E<etok>, S>>{}, child<1, sigs<V<ntok>, E<etok>>>{});
  }, r);
  vc_assert(ok, "connect does not throw");
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { complete_kid(1); }, nullptr, "child 1");
  vc_join_all();
  finished();
  if (kids[0].kind == ERROR && kids[1].kind == ERROR) {
    vc_cover("both fail");
    vc_assert(out.kind == ERROR && (out.v[0] == kids[0].v || out.v[0] == kids[1].v), "one of two concurrent errors is delivered");
  } else {
    outcome(2);
  }
  stop_done();
  all_destroyed();
}
//@proofopt concurrent preemptions=3

PROOF(concurrent_stop) {
  on_complete = all_kids_done;
  defer_mode = 1;
  auto r = stop_rcvr();
  bool ok = go([] { return ex::when_all(child<0, sigs<V<ntok>, E<etok>, S>>{}, lchild<1>{}); }, r);
  vc_assert(ok, "connect does not throw");
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "child 0");
  vc_spawn([](void*) { try_complete_kid(1); }, nullptr, "child 1");
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_join_all();
  finished();
  int e = kids[0].kind == ERROR;
  if (e) vc_assert(out.kind == ERROR && out.v[0] == kids[0].v, "the error is delivered");
  else if (kids[0].kind == STOPPED || kids[1].kind == STOPPED) { vc_cover("stopped"); vc_assert(out.kind == STOPPED, "stopped is delivered"); }
  else if (out.kind == VALUE) {
    vc_cover("values");
    vc_assert(out.nv == 2 && out.v[0] == kids[0].v && out.v[1] == kids[1].v, "values in order");
  } else vc_assert(out.kind == STOPPED, "values or stopped");
  stop_done();
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(lvalue_results) {
  kids[1].fixed = 1;
  lvalue_result([] { return ex::when_all(child<0, xsigs>{}, child<1, sigs<V<ntok>, S>>{}); });
}
