// then / upon_error / upon_stopped: routing, exceptions, exactly-once, lifetime
#include "lib.h"
using namespace vt;

namespace {
int calls;
uint32_t arg;

struct fn_tok {  // throwing function object with a throwing copy
  tok guard{5};
  template <bool N, int K, bool C>
  tok operator()(basic_tok<N, K, C> const & t) const {
    guard.check();
    ++calls;
    arg = t.get();
    maybe_throw("f throws");
    return tok(arg ^ 0x5555u);
  }
};
void check_threw() {
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw,
            "an exception is delivered as set_error with that exception");
}
void passthrough(kid_t& k) {
  vc_assert(calls == 0, "the function is not called for another channel");
  if (k.kind == ERROR)
    vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == k.v, "errors pass through unchanged");
  else if (k.kind == STOPPED)
    vc_assert(out.kind == STOPPED, "stopped passes through unchanged");
  else
    vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "values pass through unchanged");
}
}  // namespace

PROOF(then_value) {
  throws_left = 1;
  if (!go([] { return child<0, sigs<V<tok>, E<etok>, S>, false>{} | ex::then(fn_tok{}); })) {
    vc_cover("connect threw");
    return aborted();
  }
  drain();
  finished();
  auto& k = kids[0];
  vc_assert(k.started == 1 && k.completed == 1, "the child runs once");
  if (k.kind == VALUE) {
    if (thrown_count == 0) {
      vc_cover("value");
      vc_assert(calls == 1 && arg == k.v, "the function is called once with the child's value");
      vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == (k.v ^ 0x5555u),
                "the function's result is delivered");
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}

PROOF(then_nothrow_void_multi) {
  static uint32_t a, b;
  if (!go([] {
    return child<0, sigs<ex::set_value_t(ntok, ntok const &), E<etok>, S>>{}
           | ex::then([](ntok x, ntok const & y) noexcept { ++calls; a = x.get(); b = y.get(); });
  })) return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == VALUE) {
    vc_cover("value");
    vc_assert(calls == 1 && a == k.v && b == k.v + 1, "every argument is forwarded in order");
    vc_assert(out.kind == VALUE && out.nv == 0, "a void result completes with no value");
  } else
    passthrough(k);
  all_destroyed();
}

PROOF(then_multiple_value_signatures) {
  throws_left = 1;
  if (!go([] {
    return child<0, sigs<V<tok>, V<etok>, E<etok>, S>>{} | ex::then([](auto&& t) {
               ++calls;
               arg = t.get();
               maybe_throw("f throws");
               return std::remove_cvref_t<decltype(t)>(t.get() + 1);
             });
  })) return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == VALUE) {
    if (thrown_count) {
      vc_cover("throws");
      check_threw();
    } else {
      vc_cover("value");
      vc_assert(calls == 1 && arg == k.v && out.kind == VALUE && out.v[0] == k.v + 1,
                "the function's result is delivered");
    }
  } else
    passthrough(k);
  all_destroyed();
}

PROOF(upon_error) {
  throws_left = 1;
  if (!go([] {
    return child<0, sigs<V<ntok>, E<tetok>, E<std::exception_ptr>, S>, false>{}
             | ex::upon_error([g = tok(3)](auto e) {
                 g.check();
                 ++calls;
                 arg = idof(e);
                 maybe_throw("f throws");
                 return tok(arg + 9);
               });
  })) return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == ERROR) {
    if (thrown_count == 0) {
      vc_cover("value");
      vc_assert(calls == 1 && arg == k.v, "the function is called once with the error");
      vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == k.v + 9,
                "the function's result is delivered");
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}

PROOF(upon_stopped) {
  throws_left = 1;
  if (!go([] {
    return child<0, sigs<V<ntok>, E<etok>, S>, false>{} | ex::upon_stopped([g = tok(3)]() {
                 g.check();
                 ++calls;
                 maybe_throw("f throws");
                 return tok(41);
               });
  })) return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == STOPPED) {
    if (thrown_count == 0) {
      vc_cover("value");
      vc_assert(calls == 1 && out.kind == VALUE && out.nv == 1 && out.v[0] == 41,
                "the function's result is delivered");
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}

// a pipeline: each stage sees exactly the completion of the previous one
PROOF(pipeline) {
  throws_left = 1;
  static int c1, c2, c3;
  if (!go([] {
    return child<0, sigs<V<ntok>, E<etok>, S>>{}
           | ex::then([](ntok t) { ++c1; maybe_throw("f1"); return ntok(t.get() + 1); })
           | ex::upon_error([](auto&&) { ++c2; return ntok(1000); })
           | ex::upon_stopped([]() noexcept { ++c3; return ntok(2000); });
  })) return aborted();
  drain();
  finished();
  auto& k = kids[0];
  vc_assert(out.kind == VALUE && out.nv == 1, "the pipeline turns every outcome into a value");
  if (k.kind == VALUE) {
    vc_assert(c1 == 1 && c3 == 0 && c2 == thrown_count, "each stage handles its own channel");
    vc_assert(out.v[0] == (thrown_count ? 1000u : k.v + 1), "the pipeline composes");
  } else if (k.kind == ERROR) {
    vc_assert(c1 == 0 && c2 == 1 && c3 == 0 && out.v[0] == 1000, "each stage handles its own channel");
  } else {
    vc_assert(c1 == 0 && c2 == 0 && c3 == 1 && out.v[0] == 2000, "each stage handles its own channel");
  }
  all_destroyed();
}

// ------------------------------------------------------------------ the function is called as an rvalue
namespace {
struct fn_q {   // only the rvalue call may throw, and only it is right
  template <class... As>
  ntok operator()(As&&...) & noexcept { vc_assert(false, "the function is called as an rvalue"); return ntok(0); }
  template <class... As>
  ntok operator()(As&&... as) && {
    ++calls;
    ((arg = idof(as)), ...);
    maybe_throw("f throws");
    return ntok(77);
  }
};
void judge_q(int chan) {
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == chan) {
    vc_assert(calls == 1 && (chan == STOPPED || arg == k.v), "the function is called once with what the child sent");
    if (thrown_count) { vc_cover("threw"); check_threw(); }
    else vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == 77, "the function's result is delivered");
  } else passthrough(k);
  all_destroyed();
}
}  // namespace
PROOF(then_rvalue) { throws_left = 1; go([] { return child<0, sigs<V<ntok>, E<etok>, S>>{} | ex::then(fn_q{}); }); judge_q(VALUE); }
PROOF(upon_error_rvalue) { throws_left = 1; go([] { return child<0, sigs<V<ntok>, E<etok>, S>>{} | ex::upon_error(fn_q{}); }); judge_q(ERROR); }
PROOF(upon_stopped_rvalue) { throws_left = 1; go([] { return child<0, sigs<V<ntok>, E<etok>, S>>{} | ex::upon_stopped(fn_q{}); }); judge_q(STOPPED); }
// connecting the child may throw
PROOF(connect_throws) {
  throws_left = 1;
  unsigned w = vc_choice(3, "adaptor");
  bool ok = w == 0 ? go([] { return tchild<0, sigs<V<ntok>, E<etok>, S>, false>{} | ex::then([](auto&&...) noexcept { return ntok(1); }); })
          : w == 1 ? go([] { return tchild<0, sigs<V<ntok>, E<etok>, S>, false>{} | ex::upon_error([](auto&&) noexcept { return ntok(1); }); })
                   : go([] { return tchild<0, sigs<V<ntok>, E<etok>, S>, false>{} | ex::upon_stopped([]() noexcept { return ntok(1); }); });
  if (!ok) { vc_cover("connect threw"); return aborted(); }
  drain();
  finished();
  all_destroyed();
}
