// fork_join: one run of the sender, its result handed to every branch
#include "lib.h"
#include <exec/fork_join.hpp>
using namespace vt;

namespace {
kid_t& k = kids[0];
kid_t& b1 = kids[1];
kid_t& b2 = kids[2];
int calls[3];
bool addr_ok = true;
void const * addr;
template <int I>
struct branch {
  tok guard{9};
  template <class T>
  auto operator()(T const & t) const {
    guard.check();
    ++calls[I];
    vc_assert(k.live_ops == 0, "the first operation is gone when the branches run");
    vc_assert(t.get() == k.v, "every branch sees the value that was sent");
    if (!addr) addr = &t;
    addr_ok = addr_ok && addr == &t;
    maybe_throw("branch throws");
    return ntok(t.get() + I);
  }
};
void threw() {
  vc_cover("threw");
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
}  // namespace
PROOF(fork_join_values) {
  throws_left = 1;
  if (!go([] { return exec::fork_join(child<0, sigs<V<tok>, E<tetok>, S>>{}, ex::then(branch<1>{}), ex::then(branch<2>{})); })) { vc_cover("throws"); return aborted(); }
  drain();
  finished();
  vc_assert(k.started == 1, "the sender runs once");
  if (thrown_count) threw();
  else if (k.kind == VALUE) {
    vc_assert(out.kind == VALUE && out.nv == 2 && out.v[0] == k.v + 1 && out.v[1] == k.v + 2 && addr_ok && calls[1] == 1 && calls[2] == 1, "the results of all branches are sent, in order");
  } else {
    vc_assert(calls[1] + calls[2] == 0 && out.kind == k.kind, "errors and stopped reach every branch");
    if (k.kind == ERROR) vc_assert(out.v[0] == k.v, "errors are forwarded unchanged");
  }
  all_destroyed();
}
PROOF(fork_join_connect_throws) {
  throws_left = 1;
  if (!go([] { return exec::fork_join(child<0, sigs<V<ntok>, S>, false>{}, ex::then([](ntok const & t) noexcept { return ntok(t.get()); })); })) { vc_cover("connect throws"); return aborted(); }
  drain();
  finished();
  vc_assert(k.started == 1 && out.kind == k.kind, "the sender runs once");
  all_destroyed();
}
PROOF(fork_join_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return exec::fork_join(cchild<0, sigs<V<ntok>, S>>{}, ex::then(branch<1>{})); })) { vc_cover("throws"); return aborted(); }
  drain();
  finished();
  vc_assert(k.started == 1, "the sender runs once");
  if (thrown_count) threw();
  else vc_assert(out.kind == k.kind, "the result is forwarded");
  all_destroyed();
}
// branches that complete later see the cached value until they have completed
PROOF(fork_join_later) {
  if (!go([] {
        return exec::fork_join(child<0, sigs<V<ntok>, S>>{},
                               ex::let_value([](ntok const & t) noexcept { addr = &t; b1.on_finish = [] { vc_assert(static_cast<ntok const *>(addr)->get() == k.v, "the value stays alive while a branch runs"); }; return child<1, sigs<V<ntok>, E<etok>>>{}; }),
                               ex::let_value([](ntok const &) noexcept { return child<2, sigs<V<ntok>, S>>{}; }));
      })) return aborted();
  drain();
  finished();
  if (k.kind == VALUE) {
    vc_assert(b1.started == 1 && b2.started <= 1, "every branch runs once");
    if (b1.kind == VALUE && b2.started && b2.kind == VALUE) vc_assert(out.kind == VALUE && out.nv == 2 && out.v[0] == b1.v && out.v[1] == b2.v, "the results of all branches are sent, in order");
    else vc_assert(out.kind != VALUE, "a failed branch fails the whole");
  } else vc_assert(out.kind == STOPPED && !b1.started && !b2.started, "stopped reaches every branch");
  all_destroyed();
}
// results that are sent as lvalues and can only be copied
PROOF(fork_join_lvalue) {
  lvalue_result([] { return exec::fork_join(child<0, xsigs>{}, ex::then([](auto const & t) noexcept { return ntok(t.id); })); });
}
