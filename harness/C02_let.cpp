// let_value / let_error / let_stopped: the continuation sender runs after the first one,
// the arguments outlive it, and its completion is the completion of the whole
#include "lib.h"
using namespace vt;

namespace {
int calls;
uint32_t arg, arg2;
tok* argp;
ntok* nargp;
void arg_alive() {
  if (argp) {
    vc_assert(argp->get() == arg, "the arguments outlive the continuation's operation");
  }
  if (nargp) vc_assert(nargp->get() == arg2, "the arguments outlive the continuation's operation");
}
using second_t = child<1, sigs<V<ntok>, E<etok>, S>, false>;

void check_first_done() {
  vc_assert(kids[0].completed == 1, "the continuation is created after the first sender completes");
}
void second_started() {
  vc_assert(kids[0].live_ops == 0 || kids[0].completed == 1, "the first operation has completed before the continuation starts");
}

void second_outcome() {
  auto& k = kids[1];
  vc_assert(k.started == 1 && k.completed == 1, "the continuation runs exactly once");
  vc_assert(k.start_order > kids[0].order, "the continuation starts after the first sender completed");
  vc_assert(out.kind == k.kind, "the continuation's completion is delivered");
  if (k.kind != STOPPED) vc_assert(out.nv == 1 && out.v[0] == k.v, "the continuation's value is delivered");
}
void check_threw() {
  vc_assert(kids[1].started == 0, "no continuation runs after an exception");
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count >= 1 && out.v[0] == last_throw,
            "an exception is delivered as set_error with that exception");
}
void passthrough(kid_t& k) {
  vc_assert(calls == 0 && kids[1].started == 0, "the function is not called for another channel");
  vc_assert(out.kind == k.kind, "other channels pass through");
  if (k.kind != STOPPED) vc_assert(out.nv == 1 && out.v[0] == k.v, "other channels pass through unchanged");
}
void setup(int throws) {
  throws_left = throws;
  kids[1].on_start = [] { second_started(); arg_alive(); };
  kids[1].on_finish = arg_alive;
}
}  // namespace

PROOF(let_value) {
  setup(1);
  if (!go([] {
        return child<0, sigs<ex::set_value_t(tok, ntok const &), E<etok>, S>, false>{}
             | ex::let_value([g = tok(4)](tok& a, ntok& b) {
                 g.check();
                 check_first_done();
                 ++calls;
                 argp = &a;
                 nargp = &b;
                 arg = a.get();
                 arg2 = b.get();
                 maybe_throw("f throws");
                 return second_t{};
               });
      }))
    return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == VALUE) {
    if (thrown_count == 0) {
      vc_cover("continuation");
      vc_assert(calls == 1 && arg == k.v && arg2 == k.v + 1, "the function receives the values");
      second_outcome();
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}

// one source of exceptions at a time: storing the values, the function, connecting its result
namespace {
template <bool NxStore, bool NxFn, bool NxConnect, bool Copy>
void one_source() {
  setup(1);
  auto make = [] {
    using arg_t = basic_tok<NxStore>;
    return child<0, sigs<ex::set_value_t(ntok, arg_t const &), E<etok>, S>>{}
         | ex::let_value([g = ntok(4)](ntok& a, arg_t& b) noexcept(NxFn) {
             g.check();
             check_first_done();
             ++calls;
             nargp = &a;
             arg2 = a.get();
             vc_assert(b.get() == a.get() + 1, "the function receives the values");
             if constexpr (!NxFn) maybe_throw("f throws");
             return child<1, sigs<V<ntok>, E<etok>, S>, NxConnect>{};
           });
  };
  bool ok;
  if constexpr (Copy) ok = go_copy(make);
  else ok = go(make);
  vc_assert(ok, "connect does not throw");
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == VALUE) {
    if (thrown_count == 0) {
      vc_cover("continuation");
      vc_assert(calls == 1 && arg2 == k.v, "the function receives the values");
      second_outcome();
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}
}  // namespace
PROOF(let_value_store_throws) { one_source<false, true, true, false>(); }
PROOF(let_value_function_throws) { one_source<true, false, true, true>(); }
PROOF(let_value_connect_throws) { one_source<true, true, false, false>(); }

PROOF(let_value_nothrow_two_signatures) {
  setup(0);
  if (!go([] {
        return child<0, sigs<V<ntok>, V0, E<etok>, S>>{}
             | ex::let_value([]<class... A>(A&... a) noexcept {
                 check_first_done();
                 ++calls;
                 ((nargp = &a, arg2 = a.get()), ...);
                 return child<1, sigs<V<ntok>, E<etok>, S>, true>{};
               });
      }))
    return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == VALUE) {
    vc_cover("continuation");
    vc_assert(calls == 1, "the function is called once");
    if (nargp) { vc_cover("with a value"); vc_assert(arg2 == k.v, "the function receives the values"); }
    second_outcome();
  } else {
    passthrough(k);
  }
  all_destroyed();
}

PROOF(let_error) {
  setup(1);
  if (!go([] {
        return child<0, sigs<V<ntok>, E<tok>, E<std::exception_ptr>, S>, false>{}
             | ex::let_error([g = tok(4)]<class Err>(Err& e) {
                 g.check();
                 check_first_done();
                 ++calls;
                 arg = idof(e);
                 if constexpr (std::is_same_v<Err, tok>) argp = &e;
                 maybe_throw("f throws");
                 return second_t{};
               });
      }))
    return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == ERROR) {
    if (thrown_count == 0) {
      vc_cover("continuation");
      vc_assert(calls == 1 && arg == k.v, "the function receives the error");
      second_outcome();
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}

PROOF(let_stopped) {
  setup(1);
  if (!go([] {
        return child<0, sigs<V<ntok>, E<etok>, S>, false>{} | ex::let_stopped([g = tok(4)]() {
                 g.check();
                 check_first_done();
                 ++calls;
                 maybe_throw("f throws");
                 return second_t{};
               });
      }))
    return aborted();
  drain();
  finished();
  auto& k = kids[0];
  if (k.kind == STOPPED) {
    if (thrown_count == 0) {
      vc_cover("continuation");
      vc_assert(calls == 1, "the function is called once");
      second_outcome();
    } else {
      vc_cover("throws");
      check_threw();
    }
  } else {
    vc_cover("passthrough");
    passthrough(k);
  }
  all_destroyed();
}

// nested: the continuation is itself a let_value over a third child
PROOF(let_nested) {
  setup(0);
  kids[1].on_start = kids[1].on_finish = nullptr;
  kids[2].on_finish = arg_alive;
  if (!go([] {
        return child<0, sigs<V<ntok>, E<etok>, S>>{} | ex::let_value([](ntok& a) {
                 nargp = &a;
                 arg2 = a.get();
                 return child<1, sigs<V<ntok>, E<etok>, S>>{} | ex::let_value([&a](ntok& b) {
                          static uint32_t bv;
                          bv = b.get();
                          vc_assert(a.get() == arg2, "outer arguments stay alive");
                          return child<2, sigs<V<ntok>, E<etok>, S>>{}
                               | ex::then([&a, &b](ntok c) noexcept {
                                   vc_assert(a.get() == arg2 && b.get() == bv, "arguments stay alive");
                                   return ntok(a.get() + b.get() + c.get());
                                 });
                        });
               });
      }))
    return aborted();
  drain();
  finished();
  if (kids[0].kind == VALUE && kids[1].kind == VALUE && kids[2].kind == VALUE) {
    vc_cover("value");
    vc_assert(out.kind == VALUE && out.v[0] == kids[0].v + kids[1].v + kids[2].v, "values are combined");
  } else {
    auto& k = kids[0].kind != VALUE ? kids[0] : kids[1].kind != VALUE ? kids[1] : kids[2];
    vc_assert(out.kind == k.kind, "the first non-value outcome is delivered");
    if (k.kind == ERROR) vc_assert(out.v[0] == k.v, "the error is delivered");
  }
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(let_lvalue) {
  lvalue_result([] { return child<0, xsigs>{} | ex::let_value([](xtok& t) noexcept { return ex::just(ntok(t.id)); }) | ex::let_error([]<class E>(E& e) noexcept { return ex::just_error(static_cast<E&&>(e)); }); });
}
