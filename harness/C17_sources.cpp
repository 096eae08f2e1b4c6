// senders that start a chain or pick one: just*, just_from, read_env, write_env, create,
// variant_sender, unless_stop_requested, fork_join
#include "lib.h"
#include <exec/just_from.hpp>
#include <exec/create.hpp>
#include <exec/variant_sender.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/fork_join.hpp>
using namespace vt;

namespace {
kid_t& k = kids[0];
void threw() {
  vc_cover("threw");
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
void same_as(kid_t const & c) {
  vc_assert(out.kind == c.kind, "the completion is forwarded on the same channel");
  if (c.kind != STOPPED) vc_assert(out.v[0] == c.v, "the completion is forwarded with the same value");
}
}  // namespace

PROOF(just_values) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go([v] { return ex::just(tok(v), ntok(v + 1), tok(v + 2)); })) { vc_cover("throws"); return aborted(); }
  finished();
  vc_assert(out.kind == VALUE && out.nv == 3 && out.v[0] == v && out.v[1] == v + 1 && out.v[2] == v + 2, "just sends its values at once");
  all_destroyed();
}
PROOF(just_copy) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go_copy([v] { return ex::just(tok(v), tok(v + 1)); })) { vc_cover("throws"); return aborted(); }
  finished();
  vc_assert(out.kind == VALUE && out.nv == 2 && out.v[0] == v && out.v[1] == v + 1, "just sends its values at once");
  all_destroyed();
}
PROOF(just_lvalues) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  {
    tok a(v);
    if (!go([&] { return ex::just(a); })) {}
    else {
      finished();
      vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == v, "just sends a copy");
    }
    vc_assert(a.get() == v, "an lvalue is copied");
  }
  all_destroyed();
}
PROOF(just_error_value) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go([v] { return ex::just_error(tetok(v)); })) { vc_cover("throws"); return aborted(); }
  finished();
  vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == v, "just_error sends its error");
  all_destroyed();
}
PROOF(just_stopped) {
  if (!go_copy([] { return ex::just_stopped(); })) return aborted();
  finished();
  vc_assert(out.kind == STOPPED, "just_stopped sends stopped");
  all_destroyed();
}
// just_from: the function's sink is the completion
namespace {
int calls;
struct sender_fn {
  tok guard{5};
  uint32_t v;
  template <class Sink>
  auto operator()(Sink sink) {
    ++calls;
    guard.check();
    maybe_throw("f throws");
    uint32_t x = v;
    return sink(ntok(x), ntok(x + 1));
  }
};
struct error_fn {
  ntok guard{5};
  template <class Sink>
  auto operator()(Sink sink) noexcept { ++calls; return sink(etok(guard.get())); }
};
}
PROOF(just_from_value) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go([v] { return exec::just_from(sender_fn{tok(5), v}); })) { vc_cover("throws"); return aborted(); }
  finished();
  vc_assert(calls == 1, "the function is called exactly once");
  if (thrown_count) threw();
  else vc_assert(out.kind == VALUE && out.nv == 2 && out.v[0] == v && out.v[1] == v + 1, "the values given to the sink are sent");
  all_destroyed();
}
PROOF(just_from_copy) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go_copy([v] { return exec::just_from(sender_fn{tok(5), v}); })) { vc_cover("throws"); return aborted(); }
  finished();
  vc_assert(calls == 1, "the function is called exactly once");
  if (thrown_count) threw();
  else vc_assert(out.kind == VALUE && out.nv == 2 && out.v[0] == v, "the values given to the sink are sent");
  all_destroyed();
}
PROOF(just_from_error) {
  if (!go([] { return exec::just_error_from(error_fn{}); })) return aborted();
  finished();
  vc_assert(calls == 1 && out.kind == ERROR && out.err == 1 && out.v[0] == 5, "the error given to the sink is sent");
  all_destroyed();
}
// read_env / write_env
namespace {
template <bool Ref, bool Nx>
struct query_t {
  static constexpr bool query(ex::forwarding_query_t) noexcept { return true; }
  template <class Env>
    requires requires(Env const & e) { e.query(query_t{}); }
  auto operator()(Env const & e) const noexcept(noexcept(e.query(*this))) -> decltype(auto) { return e.query(*this); }
};
using qval = query_t<false, false>;
using qref = query_t<true, true>;
uint32_t env_v;
int env_reads;
struct env_t {
  ntok* shared = nullptr;
  auto query(qval) const -> tok {
    ++env_reads;
    maybe_throw("query throws");
    return tok(env_v);
  }
  auto query(qref) const noexcept -> ntok const & { ++env_reads; return *shared; }
};
}
PROOF(read_env_value) {
  throws_left = 1;
  env_v = vc_u32("v");
  if (!go([] { return ex::read_env(qval{}); }, rcvr<env_t>{})) return aborted();
  finished();
  vc_assert(env_reads == 1, "the query is made once");
  if (thrown_count) threw();
  else vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == env_v, "the value of the query is sent");
  all_destroyed();
}
PROOF(read_env_reference) {
  env_v = vc_u32("v");
  {
    ntok t(env_v);
    go_copy([] { return ex::read_env(qref{}); }, rcvr<env_t>{env_t{&t}});
    finished();
    vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == env_v && live == 1, "a reference is sent as a reference");
  }
  all_destroyed();
}
namespace {
struct wenv {
  tok guard{6};
  auto query(qval) const noexcept -> ntok { guard.check(); return ntok(env_v + 1); }
};
}
PROOF(write_env_overrides) {
  throws_left = 1;
  env_v = vc_u32("v");
  {
    ntok t(env_v);
    if (go([] { return ex::write_env(ex::read_env(qval{}), wenv{}); }, rcvr<env_t>{env_t{&t}})) {
      finished();
      vc_assert(out.kind == VALUE && out.v[0] == env_v + 1 && env_reads == 0, "the written environment comes first");
    } else vc_cover("throws");
  }
  all_destroyed();
}
PROOF(write_env_copy) {
  throws_left = 1;
  env_v = vc_u32("v");
  {
    ntok t(env_v);
    if (go_copy([] { return ex::write_env(child<0, sigs<V<ntok>, E<etok>, S>>{}, wenv{}); }, rcvr<env_t>{env_t{&t}})) {
      drain();
      finished();
      same_as(k);
    } else vc_cover("throws");
  }
  all_destroyed();
}
PROOF(write_env_falls_through) {
  env_v = vc_u32("v");
  {
    ntok t(env_v);
    if (go([] { return ex::write_env(ex::read_env(qref{}), wenv{}); }, rcvr<env_t>{env_t{&t}})) {
      finished();
      vc_assert(out.kind == VALUE && out.v[0] == env_v && env_reads == 1, "other queries reach the receiver");
    }
  }
  all_destroyed();
}
PROOF(unstoppable_child) {
  k.watch_stop = true;
  {
    auto r = stop_rcvr();
    bool before = stop_before();
    if (go([] { return ex::unstoppable(child<0, sigs<V<ntok>, S>>{}); }, r)) {
      if (!stop_asked) ask_stop();
      drain();
      finished();
      vc_assert(!k.stop_seen, "an unstoppable child never sees a stop request");
      same_as(k);
    }
    stop_done();
  }
  all_destroyed();
}
// unless_stop_requested: nothing starts after a stop request
PROOF(unless_stop_requested_all) {
  throws_left = 1;
  {
    auto r = stop_rcvr();
    bool before = stop_before();
    if (go([] { return child<0, sigs<V<ntok>, E<etok>>, false>{} | exec::unless_stop_requested(); }, r)) {
      drain_with_stop();
      finished();
      if (before) vc_assert(k.started == 0 && out.kind == STOPPED, "nothing is started after a stop request");
      else {
        vc_assert(k.started == 1, "without a stop request the child is started");
        same_as(k);
      }
    } else vc_cover("connect throws");
    stop_done();
  }
  all_destroyed();
}
PROOF(unless_stop_requested_copies_throw) {
  throws_left = 1;
  {
    auto r = stop_rcvr();
    if (go_copy([] { return exec::unless_stop_requested(cchild<0, sigs<V<ntok>, E<etok>>>{}); }, r)) {
      drain();
      finished();
      same_as(k);
    }
    stop_done();
  }
  all_destroyed();
}
PROOF(unless_stop_requested_unstoppable) {
  if (!go([] { return child<0, sigs<V<ntok>, E<etok>>>{} | exec::unless_stop_requested(); })) return aborted();
  drain();
  finished();
  vc_assert(k.started == 1, "the child is started");
  same_as(k);
  all_destroyed();
}
// create: the context completes the receiver, now or later
namespace {
ex::set_value_t sv;
void* ctx_p;
void (*later)(void*);
struct act {
  tok guard{3};
  template <class Ctx>
  void operator()(Ctx& c) noexcept {
    ++calls;
    guard.check();
    if (vc_choice(2, "later")) {
      ctx_p = &c;
      later = [](void* p) {
        auto& c = *static_cast<Ctx*>(p);
        finish(c);
      };
    } else finish(c);
  }
  template <class Ctx>
  static void finish(Ctx& c) noexcept {
    if (vc_choice(2, "channel")) {
      ntok t(std::get<0>(c.args).get());
      ex::set_value(std::move(c.receiver), std::move(t));
    } else ex::set_stopped(std::move(c.receiver));
  }
};
}
PROOF(create_all) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go([v] { return exec::create<V<ntok>, S>(act{}, tok(v)); })) { vc_cover("throws"); return aborted(); }
  if (later) {
    vc_cover("later");
    vc_assert(out.n == 0, "nothing completes before the function does it");
    later(ctx_p);
  }
  finished();
  vc_assert(calls == 1, "the function is called exactly once");
  if (out.kind == VALUE) vc_assert(out.v[0] == v, "the arguments are kept");
  all_destroyed();
}
PROOF(create_copy) {
  throws_left = 1;
  uint32_t v = vc_u32("v");
  if (!go_copy([v] { return exec::create<V<ntok>, S>(act{}, tok(v)); })) { vc_cover("throws"); return aborted(); }
  if (later) later(ctx_p);
  finished();
  vc_assert(calls == 1, "the function is called exactly once");
  if (out.kind == VALUE) vc_assert(out.v[0] == v, "the arguments are kept");
  all_destroyed();
}
// variant_sender: exactly the held sender runs
namespace {
template <class A>
using vsnd = exec::variant_sender<A, child<1, sigs<E<etok>, S>, false>>;
void ran(int i) {
  for (int j = 0; j < NKIDS; ++j) vc_assert(kids[j].connected == (i == j) && kids[j].started == (i == j), "exactly the held sender runs");
  same_as(kids[i]);
}
}
PROOF(variant_sender_two) {
  throws_left = 1;
  using A = child<0, sigs<V<ntok>, S>, false>;
  int which = vc_choice(2, "which");
  if (!go([which]() -> vsnd<A> {
        if (which) return child<1, sigs<E<etok>, S>, false>{};
        return A{};
      })) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  ran(which);
  all_destroyed();
}
PROOF(variant_sender_assign) {
  throws_left = 1;
  using A = cchild<0, sigs<V<ntok>, S>>;
  int which = vc_choice(2, "which");
  if (!go_copy([which]() -> vsnd<A> {
        vsnd<A> s{A{}};
        vc_assert(s.index() == 0, "the index names the held sender");
        s = child<1, sigs<E<etok>, S>, false>{};
        vc_assert(s.index() == 1, "the index names the held sender");
        if (!which) {
          A a{};
          s = a;
          vc_assert(s.index() == 0, "the index names the held sender");
        }
        return s;
      })) { vc_cover("throws"); return aborted(); }
  drain();
  finished();
  ran(which);
  all_destroyed();
}
PROOF(variant_sender_swap) {
  using A = child<0, sigs<V<ntok>, S>, false>;
  if (!go([]() -> vsnd<A> {
        vsnd<A> s{A{}}, t{child<1, sigs<E<etok>, S>, false>{}};
        s.swap(t);
        vc_assert(s.index() == 1 && t.index() == 0, "swap exchanges the senders");
        return t;
      })) return aborted();
  drain();
  finished();
  ran(0);
  all_destroyed();
}
