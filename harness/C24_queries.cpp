// queries: what a child asks its receiver's environment reaches the outer receiver, what is asked
// of an adaptor's attributes reaches the child, and the answers come back unchanged
#include "lib.h"
#include <exec/env.hpp>
#include <exec/finally.hpp>
#include <exec/fork_join.hpp>
#include <exec/into_tuple.hpp>
#include <exec/materialize.hpp>
#include <exec/repeat_n.hpp>
#include <exec/repeat_until.hpp>
#include <exec/reschedule.hpp>
#include <exec/sequence.hpp>
#include <exec/sequence_senders.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/start_detached.hpp>
#include <exec/when_any.hpp>
#include <exec/unless_stop_requested.hpp>
#include <exec/variant_sender.hpp>
using namespace vt;

namespace {
// ------------------------------------------------------------------ queries
#define FWD_QUERY(Q) \
  struct Q { \
    static constexpr auto query(ex::forwarding_query_t) noexcept -> bool { return true; } \
    template <class E, class... As> \
      requires requires(E const & e, Q q, As... as) { e.query(q, as...); } \
    auto operator()(E const & e, As... as) const noexcept -> decltype(e.query(std::declval<Q>(), as...)) { return e.query(Q{}, as...); } \
  }
FWD_QUERY(get_mark_t);   // a value
FWD_QUERY(get_ref_t);    // a reference
FWD_QUERY(get_key_t);    // with an argument
constexpr get_mark_t get_mark{};
constexpr get_ref_t get_ref{};
constexpr get_key_t get_key{};

ntok* marks[2];   // 0: of the receiver, 1: of the child
// an environment whose answers are held in the object itself: only the right one, intact, gives them
struct qenv {
  ntok m{0xBAD};
  ntok const * r = nullptr;
  auto query(get_mark_t) const noexcept -> uint32_t { return m.get(); }
  auto query(get_ref_t) const noexcept -> ntok const & { return *r; }
  auto query(get_key_t, uint32_t k) const noexcept -> uint32_t { return m.get() + k; }
};
template <int Which>
qenv mk() { return qenv{ntok(marks[Which]->get()), marks[Which]}; }
template <class Env>
void answers_values(Env const & e, int which) {
  uint32_t m = marks[which]->get();
  if constexpr (requires { get_mark(e); }) vc_assert(get_mark(e) == m, "the answer to a forwarding query is the one of the right environment");
  else vc_assert(false, "forwarding queries are forwarded");
  uint32_t k = vc_u32("argument");
  if constexpr (requires { get_key(e, k); }) vc_assert(get_key(e, k) == m + k, "the arguments of a query are forwarded");
  else vc_assert(false, "forwarding queries with arguments are forwarded");
}
template <class Env>
void answers(Env const & e, int which) {
  answers_values(e, which);
  if constexpr (requires { get_ref(e); }) vc_assert(&get_ref(e) == marks[which], "a reference is forwarded as it is");
  else vc_assert(false, "forwarding queries are forwarded");
}
void setup() {
  marks[0] = new ntok(vc_u32("mark of the receiver"));
  marks[1] = new ntok(vc_u32("mark of the child"));
}
void done() {
  delete marks[0];
  delete marks[1];
  all_destroyed();
}

// ------------------------------------------------------------------ schedulers with a runtime identity
template <int Id>
struct sch {
  using scheduler_concept = ex::scheduler_t;
  uint32_t tag = 0xBAD;
  struct attrs {
    uint32_t tag;
    template <class... E>
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept -> sch { return sch{tag}; }
  };
  auto schedule() const noexcept;
  bool operator==(sch const & o) const noexcept { return tag == o.tag; }
};
uint32_t tags[3];   // of sch<0>, sch<1>, sch<2>
template <int Id> sch<Id> the() { return sch<Id>{tags[Id]}; }

// ------------------------------------------------------------------ children that ask
int asked[NKIDS];
int expect[NKIDS];          // the scheduler they should be started on, -1: none, -2: not stated
struct keep_scheduler_t {};
template <class Env>
void ask(int id, Env const & e) {
  ++asked[id];
  answers(e, 0);
  if (expect[id] == -2) return;
  if constexpr (requires { ex::get_start_scheduler(e); }) {
    auto s = ex::get_start_scheduler(e);
    if constexpr (std::is_same_v<decltype(s), sch<0>>) vc_assert(expect[id] == 0 && s.tag == tags[0], "get_start_scheduler is the scheduler the child is started on");
    else if constexpr (std::is_same_v<decltype(s), sch<1>>) vc_assert(expect[id] == 1 && s.tag == tags[1], "get_start_scheduler is the scheduler the child is started on");
    else if constexpr (std::is_same_v<decltype(s), sch<2>>) vc_assert(expect[id] == 2 && s.tag == tags[2], "get_start_scheduler is the scheduler the child is started on");
  } else {
    vc_assert(expect[id] == -1, "get_start_scheduler is forwarded");
  }
}
template <int Id, class R, class Sigs>
struct asking_op : child_op<Id, R, Sigs> {
  using child_op<Id, R, Sigs>::child_op;
  void start() & noexcept {
    ask(Id, ex::get_env(this->rcvr_));
    child_op<Id, R, Sigs>::start();
  }
};
template <int Id, class Sigs = sigs<V<ntok>, E<etok>, S>, class Attrs = qenv>
struct asks {
  using sender_concept = ex::sender_t;
  using completion_signatures = Sigs;
  Attrs attrs{};
  template <class R>
  auto connect(R r) const noexcept -> asking_op<Id, R, Sigs> {
    ++kids[Id].connected;
    // the environment is there already
    answers(ex::get_env(r), 0);
    return asking_op<Id, R, Sigs>{static_cast<R&&>(r)};
  }
  auto get_env() const noexcept -> Attrs const & { return attrs; }
};
template <int Id>
auto sch<Id>::schedule() const noexcept {
  return asks<Id + 3, sigs<V0>, attrs>{attrs{tag}};
}
struct env_t : qenv {
  using qenv::query;
  auto query(ex::get_start_scheduler_t) const noexcept -> sch<0> { return the<0>(); }
};
rcvr<env_t> asked_rcvr() { return rcvr<env_t>{env_t{mk<0>()}}; }

template <int Id, class Sigs = sigs<V<ntok>, E<etok>, S>>
auto child_of() { return asks<Id, Sigs>{mk<1>()}; }

// a child that says where it completes
struct on2 : qenv {
  using qenv::query;
  template <class... E>
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept -> sch<2> { return the<2>(); }
};
template <int Id, class Sigs = sigs<V<ntok>, E<etok>, S>>
auto child_on2() { return asks<Id, Sigs, on2>{on2{mk<1>()}}; }

// the children of make() see the environment of the receiver
[[gnu::noinline]] void seen(int n) {
  for (int i = 0; i < n; ++i) vc_assert(asked[i] <= kids[i].started + 0 && asked[i] >= kids[i].started, "harness: every started child has asked");
  if (kids[n - 1].started) vc_cover("the last child was started");
}
template <class F>
void down(int n, F make) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  for (int i = 3; i < NKIDS; ++i) expect[i] = -2;
  if (!go(make, asked_rcvr())) vc_assert(false, "nothing throws");
  drain();
  finished();
  seen(n);
  done();
}
template <class F>
void down_twice(int n, F make) {   // connects an lvalue
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  for (int i = 3; i < NKIDS; ++i) expect[i] = -2;
  if (!go_copy(make, asked_rcvr())) vc_assert(false, "nothing throws");
  drain();
  finished();
  seen(n);
  done();
}
struct quiet {
  template <class... As> void operator()(As const &...) const noexcept {}
};
template <int Id>
struct next {
  template <class... As> auto operator()(As const &...) const noexcept { return child_of<Id>(); }
};
}  // namespace

// ------------------------------------------------------------------ what children see of the receiver
PROOF(env_then) { down(1, [] { return child_of<0>() | ex::then(quiet{}); }); }
PROOF(env_upon_error) { down(1, [] { return child_of<0>() | ex::upon_error(quiet{}) | ex::upon_stopped(quiet{}); }); }
PROOF(env_let_value) { down(2, [] { return child_of<0>() | ex::let_value(next<1>{}); }); }
PROOF(env_let_error) { down_twice(2, [] { return child_of<0>() | ex::let_error(next<1>{}); }); }
PROOF(env_let_stopped) { down(2, [] { return child_of<0>() | ex::let_stopped(next<1>{}); }); }
PROOF(env_bulk) { down(1, [] { return child_of<0>() | ex::bulk(ex::par, 2, [](int, auto&) noexcept {}) | ex::bulk_chunked(ex::par, 2, [](int, int, auto&) noexcept {}) | ex::bulk_unchunked(ex::par, 2, [](int, auto&) noexcept {}); }); }
PROOF(env_into_variant) { down(1, [] { return child_of<0, sigs<V<ntok>, V0, E<etok>, S>>() | ex::into_variant(); }); }
PROOF(env_stopped_as) { down(1, [] { return child_of<0>() | ex::stopped_as_optional() | ex::stopped_as_error(etok(1)); }); }
PROOF(env_when_all) { down(2, [] { return ex::when_all(child_of<0>(), child_of<1>()); }); }
PROOF(env_when_all_with_variant) { down_twice(2, [] { return ex::when_all_with_variant(child_of<0>(), child_of<1, sigs<V0, V<ntok>>>()); }); }
PROOF(env_finally) { down(2, [] { return exec::finally(child_of<0>(), child_of<1, sigs<V0, S>>()); }); }
PROOF(env_sequence) { down(3, [] { return exec::sequence(child_of<0, sigs<V0, S>>(), child_of<1, sigs<V0, E<etok>>>(), child_of<2>()); }); }
PROOF(env_materialize) { down(1, [] { return child_of<0>() | exec::materialize() | exec::dematerialize(); }); }
PROOF(env_into_tuple) { down(1, [] { return child_of<0>() | exec::into_tuple(); }); }
PROOF(env_fork_join) { down(1, [] { return child_of<0>() | exec::fork_join(ex::then([](ntok const &) noexcept {})); }); }
PROOF(env_unless_stop_requested) { down(1, [] { return child_of<0>() | exec::unless_stop_requested(); }); }
PROOF(env_variant_sender) { down(1, [] { return exec::variant_sender<asks<1>, asks<0>>(child_of<0>()); }); }
PROOF(env_write_attrs) { down(1, [] { return exec::write_attrs(child_of<0>(), ex::env<>{}); }); }
//@proofopt env_repeat_n bounded="2 rounds"
PROOF(env_repeat_n) { down(1, [] { return child_of<0, sigs<V0, E<etok>, S>>() | exec::repeat_n(2); }); }
//@proofopt env_repeat_until bounded="one child sender that succeeds at most twice"
namespace {
int round_no = 0;
struct twice {
  bool operator()() const noexcept { return ++round_no == 2; }
};
}  // namespace
PROOF(env_repeat_until) { down(1, [] { return child_of<0, sigs<V0, E<etok>, S>>() | ex::then(twice{}) | exec::repeat_until(); }); }
PROOF(env_continues_on) {
  down(1, [] { return ex::continues_on(child_of<0>(), the<1>()); });
}
PROOF(env_starts_on) {
  expect[0] = 1;
  down(1, [] { return ex::starts_on(the<1>(), child_of<0>()); });
}
PROOF(env_on) {
  expect[0] = 1;
  down_twice(1, [] { return ex::on(the<1>(), child_of<0>()); });
  vc_assert(kids[3].started == 1, "on comes back to the scheduler of the receiver");
}
PROOF(env_on_closure) {
  expect[1] = 1;
  down(2, [] { return ex::on(child_on2<0>(), the<1>(), ex::let_value(next<1>{})); });
}
PROOF(env_reschedule) { down(1, [] { return child_of<0>() | exec::reschedule(); }); }
PROOF(env_affine) { down(1, [] { return child_of<0>() | ex::affine(); }); }
// what is started from the completion of a sender that says where it completes
PROOF(env_let_after_schedule) {
  expect[0] = 2;
  down(1, [] { return ex::schedule(the<2>()) | ex::let_value(next<0>{}); });
}
PROOF(env_let_after_continues_on) {
  expect[1] = 2;
  down_twice(2, [] { return child_of<0, sigs<V<ntok>>>() | ex::continues_on(the<2>()) | ex::let_value(next<1>{}); });
}
PROOF(env_let_after_child) {
  expect[1] = 2;
  down_twice(2, [] { return child_on2<0>() | ex::then([](ntok const & x) noexcept { return ntok(x.get()); }) | ex::let_value(next<1>{}); });
}
PROOF(env_finally_after_schedule) {
  expect[0] = 2;
  down(1, [] { return exec::finally(ex::schedule(the<2>()), child_of<0, sigs<V0, S>>()); });
}
PROOF(env_sequence_after_schedule) {
  expect[0] = 2;
  down(1, [] { return exec::sequence(ex::schedule(the<2>()), child_of<0>()); });
}
// write_env: what it answers hides the receiver's answer, the rest passes
namespace {
struct hide_ref {
  auto query(get_ref_t) const noexcept -> ntok const & { return *marks[1]; }
  ntok m{7};
};
struct hides {
  ntok m{0xBAD};
  auto query(get_mark_t) const noexcept -> uint32_t { return m.get(); }
};
template <int Id>
struct sees_hidden {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0>;
  template <class R>
  auto connect(R r) const noexcept -> child_op<Id, R, completion_signatures> {
    auto&& e = ex::get_env(r);
    vc_assert(get_mark(e) == marks[1]->get(), "write_env answers the queries it was given");
    vc_assert(&get_ref(e) == marks[0], "write_env passes the other queries to the receiver");
    vc_assert(get_key(e, 3u) == marks[0]->get() + 3, "write_env passes the other queries to the receiver");
    vc_assert(ex::get_start_scheduler(e).tag == tags[0], "write_env passes the other queries to the receiver");
    ++kids[Id].connected;
    return child_op<Id, R, completion_signatures>{static_cast<R&&>(r)};
  }
};
[[gnu::noinline]] void connected() {
  vc_assert(kids[0].connected == 1 && kids[0].started == 1, "the child is connected and started once");
  vc_cover("connected");
}
template <class F>
void hidden(F make) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  if (!go(make, asked_rcvr())) vc_assert(false, "nothing throws");
  drain();
  finished();
  connected();
  done();
}
}  // namespace
PROOF(write_env_hides) { hidden([] { return sees_hidden<0>{} | ex::write_env(hides{ntok(marks[1]->get())}); }); }
PROOF(write_env_first) {   // of two environments that are joined the first answers; the inner write wins
  hidden([] { return ex::write_env(sees_hidden<0>{}, ex::env{hides{ntok(marks[1]->get())}, hides{ntok(1)}}) | ex::write_env(hides{ntok(2)}); });
}
PROOF(write_env_prop) { hidden([] { return ex::write_env(sees_hidden<0>{}, ex::prop{get_mark, marks[1]->get()}); }); }
PROOF(write_env_ref) {
  setup();
  {
    hides h{ntok(marks[1]->get())};
    ex::env e{hides{ntok(4)}, std::ref(h)};
    ex::env e2{std::ref(h), hides{ntok(4)}};
    vc_assert(get_mark(e) == 4 && get_mark(e2) == marks[1]->get(), "the first environment answers");
    ex::env e3{hide_ref{}, std::cref(h)};
    vc_assert(get_mark(e3) == marks[1]->get() && &get_ref(e3) == marks[1], "each environment answers its own queries");
    vc_cover("answered");
  }
  done();
}
namespace {
struct cannot_stop {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0>;
  template <class R>
  auto connect(R r) const noexcept -> child_op<0, R, completion_signatures> {
    static_assert(ex::unstoppable_token<ex::stop_token_of_t<ex::env_of_t<R>>>);
    answers(ex::get_env(r), 0);
    ++kids[0].connected;
    return child_op<0, R, completion_signatures>{static_cast<R&&>(r)};
  }
};
}  // namespace
PROOF(unstoppable) {
  hidden([] { return ex::unstoppable(cannot_stop{}); });
}

// ------------------------------------------------------------------ attributes
namespace {
[[gnu::noinline]] void asked_attrs() { vc_cover("asked"); }
template <bool Refs = true, class F>
void up(F make) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  {
    auto s = make();
    if constexpr (Refs) answers(ex::get_env(s), 1);
    else answers_values(ex::get_env(s), 1);
    auto s2 = std::move(s);
    answers_values(ex::get_env(s2), 1);
    asked_attrs();
  }
  done();
}
// where it completes
template <int Id, class F>
void completes_on(F make) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  {
    auto s = make();
    auto e = env_t{mk<0>()};
    if constexpr (requires { ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), e); }) {
      auto c = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), e);
      if constexpr (std::is_same_v<decltype(c), sch<Id>>) vc_assert(c == the<Id>(), "the completion scheduler is the one the work ends on");
      else vc_assert(false, "the completion scheduler is the one the work ends on");
    } else vc_assert(false, "the completion scheduler is known");
    asked_attrs();
  }
  done();
}
}  // namespace
PROOF(attrs_then) { up([] { return child_of<0>() | ex::then(quiet{}); }); }
PROOF(attrs_upon) { up([] { return child_of<0>() | ex::upon_error(quiet{}) | ex::upon_stopped(quiet{}); }); }
PROOF(attrs_let_value) { up([] { return child_of<0>() | ex::let_value(next<1>{}); }); }
PROOF(attrs_let_error) { up([] { return child_of<0>() | ex::let_error(next<1>{}); }); }
PROOF(attrs_let_stopped) { up([] { return child_of<0>() | ex::let_stopped(next<1>{}); }); }
PROOF(attrs_bulk) { up([] { return child_of<0>() | ex::bulk(ex::par, 2, [](int, auto&) noexcept {}); }); }
PROOF(attrs_bulk_chunked) { up([] { return child_of<0>() | ex::bulk_chunked(ex::par, 2, [](int, int, auto&) noexcept {}); }); }
PROOF(attrs_into_variant) { up([] { return child_of<0>() | ex::into_variant(); }); }
PROOF(attrs_stopped_as) { up([] { return child_of<0>() | ex::stopped_as_optional(); }); }
PROOF(attrs_stopped_as_error) { up([] { return child_of<0>() | ex::stopped_as_error(etok(1)); }); }
PROOF(attrs_continues_on) { up([] { return child_of<0>() | ex::continues_on(the<1>()); }); }
PROOF(attrs_on) { up([] { return ex::on(the<1>(), child_of<0>()); }); }
PROOF(attrs_on_closure) { up([] { return ex::on(child_on2<0>(), the<1>(), ex::then(quiet{})); }); }
PROOF(attrs_write_env) { up([] { return child_of<0>() | ex::write_env(hides{}); }); }
PROOF(attrs_affine) { up<false>([] { return child_of<0>() | ex::affine(); }); }
PROOF(attrs_write_attrs) {
  up([] { return exec::write_attrs(child_of<0>(), ex::env<>{}); });
}
PROOF(attrs_sequence) { up([] { return exec::sequence(child_of<0, sigs<V0>>(), child_of<1>()); }); }

PROOF(attrs_sequence_first) { up([] { return exec::sequence(child_of<0, sigs<V0>>(), ex::just()); }); }
PROOF(attrs_sequence_three) {   // the later sender is asked first
  up([] { return exec::sequence(asks<2, sigs<V0>>{mk<0>()}, child_of<0, sigs<V0>>(), ex::just()); });
}
PROOF(completes_schedule) { completes_on<1>([] { return ex::schedule(the<1>()); }); }
PROOF(completes_then) { completes_on<1>([] { return ex::schedule(the<1>()) | ex::then(quiet{}) | ex::upon_error(quiet{}); }); }
PROOF(completes_continues_on) { completes_on<2>([] { return ex::schedule(the<1>()) | ex::continues_on(the<2>()); }); }
PROOF(completes_starts_on) { completes_on<1>([] { return ex::starts_on(the<1>(), ex::just(1)); }); }
PROOF(completes_starts_on_hop) { completes_on<2>([] { return ex::starts_on(the<1>(), ex::schedule(the<2>())); }); }
PROOF(completes_on_back) { completes_on<0>([] { return ex::on(the<1>(), ex::just(1)); }); }
PROOF(completes_on_closure) { completes_on<2>([] { return ex::on(ex::schedule(the<2>()), the<1>(), ex::then(quiet{})); }); }
PROOF(completes_sequence) { completes_on<2>([] { return exec::sequence(ex::schedule(the<1>()), ex::schedule(the<2>())); }); }
PROOF(completes_sequence_inline) { completes_on<1>([] { return exec::sequence(ex::schedule(the<1>()), ex::just(1)); }); }
PROOF(completes_just) { completes_on<0>([] { return ex::just(1) | ex::then(quiet{}); }); }
PROOF(completes_bulk) { completes_on<2>([] { return ex::schedule(the<2>()) | ex::bulk_unchunked(ex::par, 2, [](int) noexcept {}); }); }
PROOF(completes_transfer_just) { completes_on<2>([] { return ex::transfer_just(the<2>(), 1); }); }

// ------------------------------------------------------------------ environments given to consumers
namespace {
struct token {
  struct assoc {
    explicit operator bool() const noexcept { return true; }
    assoc try_associate() const noexcept { return {}; }
  };
  template <class Snd> Snd&& wrap(Snd&& s) const noexcept { return static_cast<Snd&&>(s); }
  assoc try_associate() const noexcept { return {}; }
};
[[gnu::noinline]] void ran(int n) {
  for (int i = 0; i < n; ++i) vc_assert(asked[i] == 1 && kids[i].completed == 1, "the work runs once");
  vc_cover("ran");
}
template <class F>
void given(F f) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  try { f(env_t{mk<0>()}); } catch (thrown const &) { vc_assert(false, "nothing throws"); }
  drain();
  ran(1);
  done();
}
}  // namespace
PROOF(env_spawn) { given([](env_t e) { ex::spawn(child_of<0, sigs<V0, S>>(), token{}, std::move(e)); }); }
PROOF(env_spawn_future) {
  given([](env_t e) { auto f = ex::spawn_future(child_of<0>(), token{}, std::move(e)); defer_mode = 0; });
}
PROOF(env_start_detached) { given([](env_t e) { exec::start_detached(child_of<0, sigs<V0, S>>(), std::move(e)); }); }
PROOF(env_when_any) { down(2, [] { return exec::when_any(child_of<0>(), child_of<1>()); }); }

// ------------------------------------------------------------------ sequences
namespace {
int seq_asked = 0;
// a sequence of one item, which is the child Id (or a nested sequence Id for merge_each)
template <class R>
struct item_done {
  using receiver_concept = ex::receiver_t;
  R* r;
  void set_value() noexcept { ex::set_value(static_cast<R&&>(*r)); }
  void set_stopped() noexcept { ex::set_value(static_cast<R&&>(*r)); }
  auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(*r); }
};
template <class R, class Item>
struct aseq_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  Item item;
  std::optional<vt::opbox<exec::next_sender_of_t<R, Item>, item_done<R>>> op{};
  void start() & noexcept {
    ++seq_asked;
    answers(ex::get_env(r), 0);
    op.emplace(exec::set_next(r, static_cast<Item&&>(item)), item_done<R>{&r});
    ex::start(op->op);
  }
};
template <class Item>
struct aseq {
  using sender_concept = exec::sequence_sender_t;
  using completion_signatures = sigs<V0>;
  using item_types = exec::item_types<Item>;
  Item item;
  template <class R>
  auto subscribe(R r) && noexcept -> aseq_op<R, Item> {
    answers(ex::get_env(r), 0);
    return {static_cast<R&&>(r), static_cast<Item&&>(item)};
  }
};
template <int Id>
auto seq_of() { return aseq<asks<Id, sigs<V<ntok>>>>{child_of<Id, sigs<V<ntok>>>()}; }
struct sub_rcvr : rcvr<env_t> {
  template <class Item>
  auto set_next(Item&& it) noexcept { return static_cast<Item&&>(it) | ex::then(quiet{}) | ex::upon_error(quiet{}); }
};
// the items ask in the environment of the consumer's receiver, the sequence in that of its receiver
template <class F>
void sequence_down(int n, int nseq, F make) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  {
    auto s = make();
    auto op = exec::subscribe(std::move(s), sub_rcvr{env_t{mk<0>()}});
    ex::start(op);
    drain();
  }
  ran(n);
  vc_assert(out.n == 1 && seq_asked == nseq, "the sequences run once");
  done();
}
}  // namespace
PROOF(env_transform_each) { sequence_down(1, 1, [] { return exec::transform_each(seq_of<0>(), ex::then([](ntok const & x) noexcept { return ntok(x.get()); })); }); }
PROOF(env_merge) { sequence_down(2, 2, [] { return exec::merge(seq_of<0>(), seq_of<1>()); }); }
namespace {
struct give_seq {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<ex::set_value_t(aseq<asks<0, sigs<V<ntok>>>>)>;
  template <class R>
  struct op {
    using operation_state_concept = ex::operation_state_t;
    R r;
    void start() & noexcept {
      answers(ex::get_env(r), 0);
      ex::set_value(static_cast<R&&>(r), seq_of<0>());
    }
  };
  template <class R>
  auto connect(R r) const noexcept -> op<R> { return op<R>{static_cast<R&&>(r)}; }
};
}  // namespace
PROOF(env_merge_each) { sequence_down(1, 2, [] { return exec::merge_each(aseq<give_seq>{}); }); }
PROOF(env_ignore_all_values) { down(1, [] { return exec::ignore_all_values(seq_of<0>()); }); }
// a scheduler whose work ends on another scheduler, which may pass it on again
namespace {
uint32_t link_[3];
struct chain {
  using scheduler_concept = ex::scheduler_t;
  uint32_t at = 0xBAD;
  struct attrs {
    uint32_t at;
    template <class... E>
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept -> chain { return chain{link_[at]}; }
  };
  auto schedule() const noexcept;
  template <class... E>
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept -> chain { return chain{link_[at]}; }
  bool operator==(chain const & o) const noexcept { return at == o.at; }
};
template <class R> struct quick_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  void start() & noexcept { ex::set_value(static_cast<R&&>(r)); }
};
template <class Sch> struct quick {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0>;
  Sch sch;
  template <class R> auto connect(R r) const noexcept -> quick_op<R> { return {static_cast<R&&>(r)}; }
  struct attrs {
    Sch sch;
    template <class... E>
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept { return sch.query(ex::get_completion_scheduler_t<ex::set_value_t>{}); }
  };
  auto get_env() const noexcept -> attrs { return {sch}; }
};
auto chain::schedule() const noexcept { return quick<chain>{*this}; }
// of another type
struct via {
  using scheduler_concept = ex::scheduler_t;
  auto schedule() const noexcept { return quick<via>{*this}; }
  template <class... E>
  auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept -> sch<1> { return the<1>(); }
  bool operator==(via const &) const noexcept = default;
};
template <class F> void chained(F make) {
  setup();
  link_[0] = 0;
  link_[1] = vc_choice(2, "link");
  link_[2] = vc_choice(3, "link");
  uint32_t from = vc_choice(3, "from");
  uint32_t last = from;
  for (int i = 0; i < 3; ++i) last = link_[last];
  {
    auto s = make(chain{from});
    auto c = ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), env_t{mk<0>()});
    static_assert(std::is_same_v<decltype(c), chain>);
    vc_assert(c.at == last, "the completion scheduler is the one the work ends on");
    asked_attrs();
  }
  done();
}
}  // namespace
PROOF(completes_chain) { chained([](chain c) { return ex::schedule(c); }); }
PROOF(completes_chain_then) { chained([](chain c) { return ex::schedule(c) | ex::then(quiet{}); }); }
PROOF(completes_chain_hop) { chained([](chain c) { return ex::schedule(the<1>()) | ex::continues_on(c); }); }
PROOF(completes_chain_starts_on) { chained([](chain c) { return ex::starts_on(c, ex::just(1)); }); }
PROOF(completes_via) { completes_on<1>([] { return ex::schedule(via{}); }); }
PROOF(completes_via_hop) { completes_on<1>([] { return ex::schedule(the<2>()) | ex::continues_on(via{}); }); }
PROOF(completes_inline) { completes_on<0>([] { return ex::schedule(ex::inline_scheduler{}); }); }
PROOF(completes_inline_hop) {
  setup();
  for (auto& t : tags) t = vc_u32("scheduler");
  {
    auto s = ex::schedule(the<1>()) | ex::continues_on(ex::inline_scheduler{});
    [](auto c) {
      if constexpr (std::is_same_v<decltype(c), sch<1>>) vc_assert(c == the<1>(), "the completion scheduler is the one the work ends on");
      else if constexpr (std::is_same_v<decltype(c), sch<0>>) {
        vc_assert(c == the<0>(), "the completion scheduler is that of the receiver or the one the work ends on");
        vc_assert(false, "continues_on(inline_scheduler) completes where its sender does, not where it is started");
      } else vc_assert(false, "the completion scheduler is one of those the work runs on");
    }(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s), env_t{mk<0>()}));
    asked_attrs();
  }
  done();
}
PROOF(completes_inline_then) { completes_on<0>([] { return ex::schedule(ex::inline_scheduler{}) | ex::then(quiet{}); }); }
