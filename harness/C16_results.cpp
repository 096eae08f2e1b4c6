// into_variant, stopped_as_optional, stopped_as_error, materialize/dematerialize, into_tuple:
// which channel a completion turns into, with exactly which values
#include "lib.h"
#include <exec/materialize.hpp>
#include <exec/into_tuple.hpp>
using namespace vt;

namespace {
kid_t& k = kids[0];
struct seen_t {
  int tag = 0;       // channel named by a materialized completion
  int index = -1;    // alternative of a variant
  int n = 0;         // number of values
  uint32_t v[4];
  int has = -1;      // optional has a value
} seen;
template <class... Ts>
void look(std::tuple<Ts...> const & t) {
  seen.n = sizeof...(Ts);
  int i = 0;
  std::apply([&](auto const &... x) { ((seen.v[i++] = idof(x)), ...); }, t);
}
template <class T>
void look(T const & t) { seen.n = 1; seen.v[0] = idof(t); }
// looks into what it is sent
struct probe {
  using receiver_concept = ex::receiver_t;
  template <class... As>
  void set_value(As&&... as) noexcept {
    first_completion();
    out.kind = VALUE;
    out.nv = sizeof...(As);
    (arg(static_cast<As&&>(as)), ...);
    completed();
  }
  template <class... Ts>
  static void arg(std::variant<Ts...>&& v) noexcept {
    seen.index = (int)v.index();
    std::visit([](auto const & t) noexcept { look(t); }, v);
  }
  template <class T>
  static void arg(std::optional<T>&& o) noexcept {
    seen.has = o.has_value();
    if (o) look(*o);
  }
  template <class... Ts>
  static void arg(std::tuple<Ts...>&& t) noexcept { look(t); }
  static void arg(ex::set_value_t) noexcept { seen.tag = VALUE; }
  static void arg(ex::set_error_t) noexcept { seen.tag = ERROR; }
  static void arg(ex::set_stopped_t) noexcept { seen.tag = STOPPED; }
  template <bool N, int K, bool C>
  static void arg(basic_tok<N, K, C> const & t) noexcept { seen.v[seen.n++] = t.get(); }
  static void arg(std::exception_ptr const & e) noexcept { seen.v[seen.n++] = idof(e); }
  template <class E>
  void set_error(E&& e) noexcept {
    first_completion();
    out.kind = ERROR;
    out.err = 1;
    out.v[0] = idof(e);
    completed();
  }
  void set_stopped() noexcept { first_completion(); out.kind = STOPPED; completed(); }
};
bool thrown_now() {
  if (!thrown_count) return false;
  vc_cover("threw");
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
  return true;
}
void error_kept() { vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == k.v, "an error is forwarded unchanged"); }
void end() {
  drain();
  finished();
  vc_assert(k.connected == 1 && k.started == 1, "the child runs once");
}
}  // namespace

PROOF(into_variant_all) {
  throws_left = 1;
  if (!go([] { return child<0, sigs<ex::set_value_t(tok, ntok), V<tok>, V0, E<tetok>, S>, false>{} | ex::into_variant(); }, probe{})) { vc_cover("connect throws"); return aborted(); }
  end();
  if (thrown_now()) ;
  else if (k.kind == VALUE) {
    vc_assert(out.kind == VALUE && out.nv == 1, "values arrive as one variant");
    vc_assert(seen.n == (k.sig == 0 ? 2 : k.sig == 1 ? 1 : 0), "the variant holds the alternative that was sent");
    if (seen.n >= 1) vc_assert(seen.v[0] == k.v, "the variant holds the values that were sent");
    if (seen.n >= 2) vc_assert(seen.v[1] == k.v + 1, "the variant holds the values that were sent");
    if (seen.n == 2) vc_cover("two values");
  } else if (k.kind == ERROR) error_kept();
  else vc_assert(out.kind == STOPPED, "stopped is forwarded");
  all_destroyed();
}
PROOF(into_variant_const_refs) {
  if (!go_copy([] { return ex::into_variant(child<0, sigs<ex::set_value_t(ntok const &, ntok&&), S>>{}); }, probe{})) return aborted();
  end();
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && seen.n == 2 && seen.v[0] == k.v && seen.v[1] == k.v + 1, "the variant holds the values that were sent");
  else vc_assert(out.kind == STOPPED, "stopped is forwarded");
  all_destroyed();
}
PROOF(into_variant_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return ex::into_variant(cchild<0, sigs<V<ntok>, S>>{}); }, probe{})) return aborted();
  end();
  all_destroyed();
}
PROOF(stopped_as_optional_one) {
  throws_left = 1;
  if (!go([] { return child<0, sigs<V<tok>, E<tetok>, S>, false>{} | ex::stopped_as_optional(); }, probe{})) { vc_cover("connect throws"); return aborted(); }
  end();
  if (thrown_now()) ;
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 1 && seen.has == 1 && seen.n == 1 && seen.v[0] == k.v, "a value arrives in an optional");
  else if (k.kind == STOPPED) vc_assert(out.kind == VALUE && out.nv == 1 && seen.has == 0, "stopped arrives as an empty optional");
  else error_kept();
  all_destroyed();
}
PROOF(stopped_as_optional_two) {
  if (!go_copy([] { return ex::stopped_as_optional(child<0, sigs<ex::set_value_t(ntok, ntok const &), E<etok>, S>>{}); }, probe{})) return aborted();
  end();
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && seen.has == 1 && seen.n == 2 && seen.v[0] == k.v && seen.v[1] == k.v + 1, "a value arrives in an optional");
  else if (k.kind == STOPPED) vc_assert(out.kind == VALUE && seen.has == 0, "stopped arrives as an empty optional");
  else error_kept();
  all_destroyed();
}
PROOF(stopped_as_error_all) {
  throws_left = 1;
  uint32_t e = vc_u32("e");
  if (!go([e] { return child<0, sigs<V<tok>, E<etok>, S>, false>{} | ex::stopped_as_error(tetok(e)); })) { vc_cover("throws"); return aborted(); }
  end();
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "a value is forwarded unchanged");
  else if (k.kind == ERROR) error_kept();
  else if (!thrown_now()) vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == e, "stopped arrives as the given error");
  all_destroyed();
}
PROOF(stopped_as_error_copy) {
  throws_left = 1;
  uint32_t e = vc_u32("e");
  if (!go_copy([e] { return ex::stopped_as_error(child<0, sigs<V<ntok>, S>>{}, tetok(e)); })) { vc_cover("throws"); return aborted(); }
  end();
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.v[0] == k.v, "a value is forwarded unchanged");
  else if (!thrown_now()) vc_assert(out.kind == ERROR && out.err == 1 && out.v[0] == e, "stopped arrives as the given error");
  all_destroyed();
}
PROOF(materialize_all) {
  throws_left = 1;
  if (!go([] { return child<0, sigs<ex::set_value_t(ntok, ntok), E<etok>, S>, false>{} | exec::materialize(); }, probe{})) { vc_cover("connect throws"); return aborted(); }
  end();
  vc_assert(out.kind == VALUE && seen.tag == k.kind, "every completion is a value that names its channel");
  vc_assert(seen.n == (k.kind == VALUE ? 2 : k.kind == ERROR ? 1 : 0), "the values follow the channel");
  if (k.kind != STOPPED) vc_assert(seen.v[0] == k.v, "the values follow the channel");
  if (k.kind == VALUE) vc_assert(seen.v[1] == k.v + 1, "the values follow the channel");
  all_destroyed();
}
PROOF(materialize_roundtrip) {
  if (!go_copy([] { return exec::dematerialize(exec::materialize(child<0, sigs<ex::set_value_t(ntok, ntok const &), E<etok>, E<std::exception_ptr>, S>>{})); })) return aborted();
  end();
  vc_assert(out.kind == k.kind, "dematerialize undoes materialize");
  if (k.kind == VALUE) vc_assert(out.nv == 2 && out.v[0] == k.v && out.v[1] == k.v + 1, "dematerialize undoes materialize");
  if (k.kind == ERROR) vc_assert(out.v[0] == k.v, "dematerialize undoes materialize");
  all_destroyed();
}
PROOF(materialize_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return exec::dematerialize(exec::materialize(cchild<0, sigs<V<ntok>, S>>{})); })) return aborted();
  end();
  vc_assert(out.kind == k.kind, "dematerialize undoes materialize");
  all_destroyed();
}
PROOF(materialize_moves_throw) {
  throws_left = 1;
  if (!go([] { return exec::dematerialize(exec::materialize(tchild<0, sigs<V<ntok>, S>>{})); })) { vc_cover("move throws"); return aborted(); }
  end();
  vc_assert(out.kind == k.kind, "dematerialize undoes materialize");
  all_destroyed();
}
PROOF(dematerialize_passes) {
  if (!go([] { return exec::dematerialize(child<0, sigs<E<etok>, S>>{}); })) return aborted();
  end();
  vc_assert(out.kind == k.kind, "errors and stopped pass");
  if (k.kind == ERROR) error_kept();
  all_destroyed();
}
PROOF(into_tuple_all) {
  throws_left = 1;
  if (!go([] { return child<0, sigs<ex::set_value_t(tok, ntok const &), E<tetok>, S>, false>{} | exec::into_tuple(); }, probe{})) { vc_cover("connect throws"); return aborted(); }
  end();
  if (thrown_now()) ;
  else if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 1 && seen.n == 2 && seen.v[0] == k.v && seen.v[1] == k.v + 1, "values arrive as one tuple");
  else if (k.kind == ERROR) error_kept();
  else vc_assert(out.kind == STOPPED, "stopped is forwarded");
  all_destroyed();
}
PROOF(into_tuple_none) {
  if (!go_copy([] { return child<0, sigs<V0, S>>{} | exec::into_tuple(); }, probe{})) return aborted();
  end();
  if (k.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 1 && seen.n == 0, "no value arrives as an empty tuple");
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(into_variant_lvalue) {
  lvalue_result([] { return child<0, xsigs>{} | ex::into_variant() | ex::let_value([](auto& v) noexcept { return ex::just(ntok(idof(std::get<0>(std::get<0>(v))))); }); });
}
PROOF(into_tuple_lvalue) {
  lvalue_result([] { return child<0, xsigs>{} | exec::into_tuple() | ex::let_value([](auto& v) noexcept { return ex::just(ntok(idof(std::get<0>(v)))); }); });
}
PROOF(stopped_as_optional_lvalue) {
  lvalue_result([] { return child<0, xsigs>{} | ex::stopped_as_optional() | ex::let_value([](auto& v) noexcept { return ex::just(ntok(idof(*v))); }); });
}
