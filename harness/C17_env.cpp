// exec's environment tools: with, without, make_env, env_from, read_with_default, write_attrs
#include "lib.h"
#include <exec/env.hpp>
using namespace vt;

namespace {
template <class E, class Q, class... As>
concept has_query = requires(E const & e, Q q, As... as) { e.query(q, as...); };
template <int I>
struct q_t {
  static constexpr bool query(ex::forwarding_query_t) noexcept { return true; }
  template <class Env, class... As>
    requires has_query<Env, q_t, As...>
  auto operator()(Env const & e, As... as) const noexcept(noexcept(e.query(q_t{}, as...))) -> decltype(auto) {
    return e.query(q_t{}, as...);
  }
};
constexpr q_t<0> q0{};
constexpr q_t<1> q1{};
constexpr q_t<2> q2{};
uint32_t base;
struct env3 {   // answers q0 and q1, and q1 with an argument
  ntok guard{4};
  auto query(q_t<0>) const noexcept -> uint32_t { guard.check(); return base; }
  auto query(q_t<1>) const noexcept -> uint32_t { guard.check(); return base + 1; }
  auto query(q_t<1>, uint32_t x) const noexcept -> uint32_t { guard.check(); return base + x; }
};
void threw() {
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
}  // namespace

PROOF(tools) {
  base = vc_u32("base");
  uint32_t v = vc_u32("value");
  {
    auto w = exec::with(q2, v);
    vc_assert(q2(w) == v, "with() answers its query with the value");
    static_assert(!has_query<decltype(w), q_t<0>>);
    auto m = exec::make_env(env3{}, exec::with(q0, v));
    vc_assert(q0(m) == v, "in make_env() what is added comes first");
    vc_assert(q1(m) == base + 1 && q1(m, v) == base + v, "in make_env() the base answers what is not added");
    static_assert(!has_query<decltype(m), q_t<2>>);
    auto n = exec::make_env(env3{});
    vc_assert(q0(n) == base, "make_env() of one environment is that environment");
    auto o = exec::without(env3{}, q0);
    static_assert(!has_query<decltype(o), q_t<0>>);
    vc_assert(q1(o) == base + 1 && q1(o, v) == base + v, "without() leaves all other queries as they are");
    auto p = exec::without(env3{}, q2);
    vc_assert(q0(p) == base && q1(p) == base + 1, "without() a query that is not there changes nothing");
    int calls = 0;
    auto f = exec::env_from{[&](q_t<2>, uint32_t x = 7) { ++calls; return v + x; }};
    vc_assert(f.query(q2) == v + 7 && f.query(q2, 5u) == v + 5 && calls == 2, "env_from() calls its function with the query and its arguments");
    static_assert(!has_query<decltype(f), q_t<0>>);
  }
  all_destroyed();
}
// exceptions of the function behind env_from come out of the query
PROOF(env_from_throws) {
  throws_left = 1;
  {
    auto f = exec::env_from{[](q_t<2>) { maybe_throw("query throws"); return 3u; }};
    static_assert(!noexcept(f.query(q2)));
    bool caught = false;
    try { vc_assert(f.query(q2) == 3, "the query gives the result of the function"); } catch (thrown const & t) { caught = true; vc_assert(t.id == last_throw, "the exception of the function"); }
    vc_assert(caught == (thrown_count == 1), "exceptions of the function come out of the query");
    if (caught) vc_cover("threw");
  }
  all_destroyed();
}

namespace {
struct tenv {   // the query throws
  auto query(q_t<0>) const -> tok { maybe_throw("query throws"); return tok(base); }
};
struct renv {   // the query gives a reference
  ntok* t;
  auto query(q_t<0>) const noexcept -> ntok const & { return *t; }
};
}  // namespace
// the environment answers: its answer is sent
PROOF(default_not_used) {
  base = vc_u32("base");
  throws_left = 1;
  if (!go([] { return exec::read_with_default(q0, tok(9)); }, rcvr<tenv>{})) return aborted();
  finished();
  if (thrown_count) { vc_cover("threw"); threw(); }
  else vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == base, "the answer of the environment is sent");
  all_destroyed();
}
PROOF(default_not_used_ref) {
  base = vc_u32("base");
  {
    ntok t(base);
    go([] { return exec::read_with_default(q0, ntok(9)); }, rcvr<renv>{renv{&t}});
    finished();
    vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == base && live == 1, "the answer of the environment is sent");
  }
  all_destroyed();
}
// the environment does not answer: the default is sent
PROOF(default_used) {
  base = vc_u32("base");
  go([] { return exec::read_with_default(q0, ntok(base)); });
  finished();
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == base, "the default is sent when the environment does not answer");
  all_destroyed();
}
PROOF(default_throws) {
  base = vc_u32("base");
  throws_left = 1;
  if (!go([] { return exec::read_with_default(q0, tok(base)); })) { vc_cover("threw"); return aborted(); }
  finished();
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == base, "the default is sent when the environment does not answer");
  all_destroyed();
}

namespace {
struct cattrs { auto query(q_t<0>) const noexcept -> uint32_t { return base; } auto query(q_t<1>) const noexcept -> uint32_t { return base + 1; } };
struct nattrs { tok g{3}; auto query(q_t<0>) const noexcept -> uint32_t { g.check(); return base + 10; } };
using all_sigs = sigs<V<ntok>, E<etok>, S>;
}
// write_attrs: the sender's attributes with some replaced; everything else is the sender
PROOF(write_attrs_queries) {
  base = vc_u32("base");
  throws_left = 1;
  try {
    auto s = exec::write_attrs(child<0, all_sigs, true, cattrs>{}, nattrs{});
    vc_assert(q0(ex::get_env(s)) == base + 10 && q1(ex::get_env(s)) == base + 1, "the given attributes come before those of the sender");
    auto t = child<0, all_sigs, true, cattrs>{} | exec::write_attrs(nattrs{});
    vc_assert(q0(ex::get_env(t)) == base + 10 && q1(ex::get_env(t)) == base + 1, "the given attributes come before those of the sender");
    vc_cover("no throw");
  } catch (thrown const &) { vc_cover("threw"); }
  all_destroyed();
}
PROOF(write_attrs_sender) {
  base = vc_u32("base");
  throws_left = 1;
  if (!go([] { return exec::write_attrs(child<0, all_sigs, false, cattrs>{}, nattrs{}); })) return aborted();
  drain();
  finished();
  vc_assert(out.kind == kids[0].kind && (out.kind == STOPPED || (out.nv == 1 && out.v[0] == kids[0].v)), "the completion of the sender is passed on");
  all_destroyed();
}
PROOF(write_attrs_copy) {
  base = vc_u32("base");
  throws_left = 1;
  if (!go_copy([] { return exec::write_attrs(child<0, all_sigs, true, cattrs>{}, nattrs{}); })) return aborted();
  drain();
  finished();
  vc_assert(out.kind == kids[0].kind && (out.kind == STOPPED || (out.nv == 1 && out.v[0] == kids[0].v)), "the completion of the sender is passed on");
  all_destroyed();
}
