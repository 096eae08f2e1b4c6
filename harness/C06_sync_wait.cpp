// sync_wait and sync_wait_with_variant
#include "lib.h"
#include <system_error>
using namespace vt;
//@opt preemptions=3

namespace {
struct cat_t : std::error_category {
  char const * name() const noexcept override { return "x"; }
  std::string message(int) const override { return {}; }
};
cat_t cat;
int result = -1;  // 0: empty, 1: values, 2: thrown token, 3: bad_alloc, 4: etok, 5: system_error, 6: other
uint32_t rv[3];
template <class F, class G>
void run(F f, G g) {
  try {
    auto r = f();
    result = r ? 1 : 0;
    if (r) g(*r);
  } catch (thrown const & t) {
    result = 2;
    rv[0] = t.id;
  } catch (std::bad_alloc const &) {
    result = 3;
  } catch (etok const & e) {
    result = 4;
    rv[0] = e.get();
  } catch (std::system_error const & e) {
    result = 5;
    rv[0] = (uint32_t)e.code().value() + (e.code().category() == cat ? 0 : 1);
  } catch (...) {
    result = 6;
  }
}
auto two = [](auto& t) { rv[0] = std::get<0>(t).get(); rv[1] = std::get<1>(t).get(); };
void check() {
  vc_assert(kids[0].started == kids[0].completed, "sync_wait() returns only after the sender completed");
  vc_assert(kids[0].live_ops == 0, "the operation is destroyed when sync_wait() returns");
  if (thrown_count) { vc_cover("threw"); vc_assert(result == 2 && rv[0] == last_throw, "an exception thrown while storing the result is rethrown"); }
  else if (kids[0].kind == VALUE) { vc_cover("value"); vc_assert(result == 1 && rv[0] == kids[0].v && rv[1] == kids[0].v + 1, "the values are returned"); }
  else if (kids[0].kind == ERROR) { vc_cover("error"); vc_assert((result == 2 || result == 4) && rv[0] == kids[0].v, "the error is rethrown"); }
  else { vc_cover("stopped"); vc_assert(result == 0, "stopped gives an empty optional"); }
}
}  // namespace

// the sender completes inside start()
PROOF(inline_) {
  defer_mode = 0;
  throws_left = 1;
  run([] { return ex::sync_wait(child<0, sigs<ex::set_value_t(tok, tok), E<etok>, S>, false>{}); }, two);
  throws_left = 0;
  check();
  all_destroyed();
}
PROOF(inline_lvalue) {
  defer_mode = 0;
  throws_left = 1;
  run([] { return ex::sync_wait(child<0, sigs<ex::set_value_t(xtok const &, ntok)>>{}); }, two);
  throws_left = 0;
  vc_assert(kids[0].live_ops == 0, "the operation is destroyed when sync_wait() returns");
  if (thrown_count) { vc_cover("the copy throws"); vc_assert(result == 2 && rv[0] == last_throw, "an exception thrown while storing the result is rethrown"); }
  else vc_assert(result == 1 && rv[0] == kids[0].v && rv[1] == kids[0].v + 1, "the values are returned");
  all_destroyed();
}
PROOF(inline_eptr) {
  defer_mode = 0;
  run([] { return ex::sync_wait(child<0, sigs<ex::set_value_t(ntok const &, ntok&), E<std::exception_ptr>, S>>{}); }, two);
  check();
  all_destroyed();
}

// the sender completes on another thread: sync_wait() returns after the completion and nothing
// touches the operation afterwards
PROOF(other_thread) {
  defer_mode = 1;
  publish = true;
  vc_spawn([](void*) { await_kid(0); complete_kid(0); }, nullptr, "completer");
  run([] { return ex::sync_wait(child<0, sigs<ex::set_value_t(ntok, ntok), E<etok>, S>>{}); }, two);
  check();
  vc_join_all();
  all_destroyed();
}

// work scheduled on the delegation scheduler runs on the waiting thread
PROOF(scheduler_in_env) {
  static unsigned who = 99;
  auto s = ex::read_env(ex::get_scheduler) | ex::let_value([](auto sch) { return ex::schedule(sch) | ex::then([] { who = vc_thread_id(); return ntok(3); }); });
  run([&] { return ex::sync_wait(std::move(s)); }, [](auto& t) { rv[0] = std::get<0>(t).get(); });
  vc_assert(result == 1 && rv[0] == 3 && who == vc_thread_id(), "work scheduled on the environment's scheduler runs inside sync_wait()");
  all_destroyed();
}
PROOF(delegation_scheduler_in_env) {
  auto s = ex::read_env(ex::get_delegation_scheduler) | ex::let_value([](auto sch) { return ex::starts_on(sch, ex::just(ntok(4))); });
  run([&] { return ex::sync_wait(std::move(s)); }, [](auto& t) { rv[0] = std::get<0>(t).get(); });
  vc_assert(result == 1 && rv[0] == 4, "work scheduled on the environment's delegation scheduler runs inside sync_wait()");
  all_destroyed();
}

namespace {
struct ecs {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V<ntok>, E<std::error_code>>;
  template <class R>
  struct op {
    R r;
    void start() & noexcept { ex::set_error(std::move(r), std::error_code(7, cat)); }
  };
  template <class R>
  auto connect(R r) const noexcept { return op<R>{std::move(r)}; }
};
}  // namespace
PROOF(error_code) {
  run([] { return ex::sync_wait(ecs{}); }, [](auto&) {});
  vc_assert(result == 5 && rv[0] == 7, "an error_code is thrown as system_error");
  all_destroyed();
}

PROOF(with_variant) {
  defer_mode = 0;
  run([] { return ex::sync_wait_with_variant(child<0, sigs<V<ntok>, V0, E<etok>, S>>{}); }, [](auto& v) { rv[0] = idof(v); });
  vc_assert(kids[0].live_ops == 0, "the operation is destroyed when sync_wait() returns");
  if (kids[0].kind == VALUE) { vc_cover("value"); vc_assert(result == 1 && rv[0] == 0x70000000u + kids[0].v, "the alternative that was sent is returned"); }
  else if (kids[0].kind == ERROR) vc_assert(result == 4 && rv[0] == kids[0].v, "the error is rethrown");
  else { vc_cover("stopped"); vc_assert(result == 0, "stopped gives an empty optional"); }
  all_destroyed();
}

// connecting may throw: nothing is started
PROOF(connect_throws) {
  throws_left = 1;
  defer_mode = 0;
  run([] { return ex::sync_wait(child<0, sigs<ex::set_value_t(ntok, ntok)>, false>{}); }, two);
  if (thrown_count) { vc_cover("threw"); vc_assert(result == 2 && kids[0].started == 0, "an exception thrown by connect escapes and nothing is started"); }
  else check();
  all_destroyed();
}
