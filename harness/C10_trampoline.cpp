// trampoline_scheduler: every scheduled operation runs once, on this thread, before the outermost start
// returns, in the order it was deferred, and never nested deeper than the limit
#include "lib.h"
#include <exec/trampoline_scheduler.hpp>
using namespace vt;

namespace {
constexpr int MAX = 6;
int made, ran, depth, limit, budget, ndeferred, nrun_deferred;
int deferred[MAX];
bool started[MAX], done[MAX];
bool stop_mode, outer;
ex::inplace_stop_source* source;
exec::trampoline_scheduler* sched;

struct env_t {
  ex::inplace_stop_token t;
  auto query(ex::get_stop_token_t) const noexcept { return t; }
};
template <bool Stoppable>
struct R {
  using receiver_concept = ex::receiver_t;
  int i;
  void set_value() noexcept;
  void set_stopped() noexcept requires Stoppable;
  auto get_env() const noexcept {
    if constexpr (Stoppable) return env_t{source->get_token()};
    else return ex::env<>{};
  }
};
template <bool S>
using op_t = ex::connect_result_t<decltype(ex::schedule(std::declval<exec::trampoline_scheduler&>())), R<S>>;
void* ops[MAX];

template <bool S>
void start_one() {
  int i = made++;
  auto* p = new op_t<S>(ex::connect(ex::schedule(*sched), R<S>{i}));
  ops[i] = p;
  started[i] = true;
  ex::start(*p);
  if (!done[i]) {
    vc_assert(depth > 0, "nothing is left waiting when the outermost start returns");
    deferred[ndeferred++] = i;
  }
}
template <bool S>
void run(int i) {
  vc_assert(started[i] && !done[i], "a scheduled operation runs once, after it is started");
  done[i] = true;
  ++ran;
  for (int j = 0; j < ndeferred; ++j)
    if (deferred[j] == i) {
      vc_cover("deferred operation runs");
      vc_assert(depth == 0, "a deferred operation starts from an unwound stack");
      vc_assert(j == nrun_deferred, "deferred operations run in the order they were started");
      ++nrun_deferred;
    }
  ++depth;
  vc_assert(depth <= limit, "operations are not nested deeper than the limit");
  delete static_cast<op_t<S>*>(ops[i]);      // an operation may go away as soon as it completes
  int n = (int)vc_choice(4, "operations started from here");
  while (n-- && made < budget) start_one<S>();
  --depth;
}
template <bool S> void R<S>::set_value() noexcept {
  if constexpr (S) vc_assert(!source->stop_requested(), "completes with stopped once a stop was requested");
  int k = i;
  if (S && vc_choice(2, "stop now")) source->request_stop();
  run<S>(k);
}
template <bool S> void R<S>::set_stopped() noexcept requires S {
  vc_assert(source->stop_requested(), "completes with stopped only if a stop was requested");
  vc_cover("stopped");
  run<S>(i);
}
}  // namespace

// no stack to spare, so every nested operation is deferred
PROOF(trampoline_deferred) {
  exec::trampoline_scheduler s{16, 0};
  sched = &s;
  limit = 1;
  budget = MAX;
  start_one<false>();
  vc_assert(ran == made && nrun_deferred == ndeferred && depth == 0, "every operation has run when the outermost start returns");
  vc_cover("done");
  // the thread is left ready for the next outermost start
  int before = made;
  budget = made + (made < MAX ? 1 : 0);
  if (made < budget) {
    start_one<false>();
    vc_assert(ran == before + 1, "a later outermost start runs at once");
  }
  vc_no_leaks("operations");
}
//@proofopt trampoline_deferred bounded="up to six operations"
// stack to spare: nested operations run inline up to the depth limit
PROOF(trampoline_depth) {
  limit = 1 + (int)vc_choice(3, "depth");
  exec::trampoline_scheduler s{(std::size_t)limit, (std::size_t)1 << 62};
  sched = &s;
  budget = 5;
  start_one<false>();
  vc_assert(ran == made && nrun_deferred == ndeferred && depth == 0, "every operation has run when the outermost start returns");
  if (ndeferred == 0 && made > 1) vc_cover("nested");
  vc_no_leaks("operations");
}
//@proofopt trampoline_depth bounded="up to five operations, nested up to three deep"
// stop requests
PROOF(trampoline_stop) {
  ex::inplace_stop_source st;
  source = &st;
  exec::trampoline_scheduler s{2, vc_choice(2, "stack") ? (std::size_t)1 << 62 : 0};
  sched = &s;
  limit = 2;
  budget = 4;
  if (vc_choice(2, "stopped before")) st.request_stop();
  start_one<true>();
  vc_assert(ran == made && nrun_deferred == ndeferred, "every operation has run when the outermost start returns");
  vc_no_leaks("operations");
}
//@proofopt trampoline_stop bounded="up to four operations"
// schedulers compare equal exactly when their limits are the same
PROOF(trampoline_equality) {
  std::size_t d1 = vc_u64("d1"), d2 = vc_u64("d2"), s1 = vc_u64("s1"), s2 = vc_u64("s2");
  exec::trampoline_scheduler a{d1, s1}, b{d2, s2};
  vc_assert((a == b) == (d1 == d2 && s1 == s2), "schedulers are equal when they behave alike");
}
