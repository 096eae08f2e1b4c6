// type erasure: a type-erased sender, receiver or scheduler behaves like the object it holds
#include "lib.h"
#include <exec/any_sender_of.hpp>
using namespace vt;
namespace {
kid_t& k = kids[0];
template <class Sigs, class... Qs>
using any_r = exec::any_receiver<Sigs, exec::queries<Qs...>>;
template <class Sigs, class... Qs>
using any_s = exec::any_sender<any_r<Sigs, Qs...>>;

using SAll = sigs<V<ntok>, ex::set_value_t(ntok, etok), V0, E<etok>, E<std::exception_ptr>, S>;

// a sender (and an operation state) that does not fit into the buffers
template <class C, int Pad>
struct padded {
  using sender_concept = ex::sender_t;
  using completion_signatures = typename C::completion_signatures;
  C c;
  char pad[Pad];
  template <class R>
  struct op {
    using operation_state_concept = ex::operation_state_t;
    ex::connect_result_t<C, R> o;
    char pad[Pad];
    op(C&& c, R&& r) : o(ex::connect(static_cast<C&&>(c), static_cast<R&&>(r))) {}
    op(op&&) = delete;
    void start() & noexcept { ex::start(o); }
  };
  template <class R>
  auto connect(R r) && -> op<R> { return op<R>(static_cast<C&&>(c), static_cast<R&&>(r)); }
};
template <class Any, class C> Any small() { return Any(C{}); }
template <class Any, class C> Any large() { return Any(padded<C, 96>{}); }


// a receiver that records the type of the error
struct trcvr : rcvr<> {
  template <class E>
  void set_error(E&& e) noexcept {
    first_completion();
    out.kind = ERROR;
    out.v[0] = idof(e);
    if constexpr (std::is_same_v<std::remove_cvref_t<E>, std::exception_ptr>) out.err = 2;
    else out.err = 5;
    completed();
  }
};
[[gnu::noinline]] void same() {
  vc_assert(k.started == 1, "the held sender is started once");
  vc_assert(out.kind == k.kind, "the completion channel is that of the held sender");
  if (k.kind == VALUE) {
    vc_assert(out.nv == (k.sig == 0 ? 1 : k.sig == 1 ? 2 : 0), "the number of values is that of the held sender");
    if (out.nv > 0) vc_assert(out.v[0] == k.v, "the values are those of the held sender");
    if (out.nv > 1) vc_assert(out.v[1] == k.v + 1, "the values are those of the held sender");
    vc_cover("a value");
  }
  if (k.kind == ERROR) {
    vc_assert(out.v[0] == k.v, "the error is that of the held sender");
    vc_assert(out.err == (k.sig == 3 ? 5 : 2), "the error keeps its type");
    vc_cover("an error");
  }
  if (k.kind == STOPPED) vc_cover("stopped");
}
template <class Make>
void forwards(Make make) {
  if (!go(make, trcvr{})) return aborted();
  drain();
  finished();
  same();
  all_destroyed();
}
// what is never started is destroyed all the same
template <class Any>
[[gnu::noinline]] void idle(Any a) {
  if (vc_choice(2, "connected")) {
    auto op = ex::connect(std::move(a), trcvr{});
    vc_cover("connected");
  }
}
template <class Any>
[[gnu::noinline]] void relocated(Any a) {
  Any b(std::move(a));
  a = std::move(b);
  Any c(child<1, SAll>{});
  if (vc_choice(2, "swapped")) {
    swap(a, c);
    vc_cover("swapped");
    if (!launch(std::move(c), trcvr{})) vc_assert(false, "connecting does not throw");
  } else {
    c = std::move(a);
    if (!launch(std::move(c), trcvr{})) vc_assert(false, "connecting does not throw");
  }
}
template <class Any>
void moves(Any (*make)()) {
  relocated<Any>(make());
  drain();
  finished();
  vc_assert(kids[1].connected == 0, "only the sender that was moved in is connected");
  same();
  all_destroyed();
}
}
PROOF(small_sender) { forwards(small<any_s<SAll>, child<0, SAll>>); }
PROOF(large_sender) { forwards(large<any_s<SAll>, child<0, SAll>>); }
PROOF(never_started_small) { idle(small<any_s<SAll>, child<0, SAll>>()); aborted(); }
PROOF(never_started_large) { idle(large<any_s<SAll>, child<0, SAll>>()); aborted(); }
PROOF(moves_small) { moves<any_s<SAll>>(small<any_s<SAll>, child<0, SAll>>); }
PROOF(moves_large) { moves<any_s<SAll>>(large<any_s<SAll>, child<0, SAll>>); }
// a sender whose move may throw is still held; an exception leaves nothing behind
PROOF(throwing_move) {
  throws_left = 2;
  forwards([] { return any_s<SAll>(tchild<0, SAll>{}); });
  if (thrown_count) vc_cover("moving throws");
}
PROOF(throwing_connect) {
  throws_left = 1;
  forwards(small<any_s<SAll>, child<0, SAll, false>>);
  if (thrown_count) vc_cover("connect throws");
}
PROOF(throwing_connect_large) {
  throws_left = 1;
  forwards(large<any_s<SAll>, child<0, SAll, false>>);
  if (thrown_count) vc_cover("connect throws");
}
namespace {
// a sender and an operation that need more than the usual alignment
template <class C>
struct aligned {
  using sender_concept = ex::sender_t;
  using completion_signatures = typename C::completion_signatures;
  struct alignas(32) a32 {
    uint64_t v = 7;
    a32() = default;
    a32(a32&& o) noexcept : v(o.v) {}
    void check() const noexcept { vc_assert(v == 7, "the sender is moved as it is"); }
  };
  C c;
  a32 a;
  template <class R>
  struct op {
    using operation_state_concept = ex::operation_state_t;
    a32 a;
    ex::connect_result_t<C, R> o;
    op(C&& c, R&& r) : o(ex::connect(static_cast<C&&>(c), static_cast<R&&>(r))) {}
    op(op&&) = delete;
    void start() & noexcept { a.check(); ex::start(o); }
  };
  template <class R>
  auto connect(R r) && -> op<R> { a.check(); return op<R>(static_cast<C&&>(c), static_cast<R&&>(r)); }
};
struct tiny {   // nothing but an over-aligned member
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0>;
  struct alignas(16) a16 {
    uint64_t v = 7;
    a16() = default;
    a16(a16&& o) noexcept : v(o.v) {}
  } a;
  template <class R>
  struct op {
    using operation_state_concept = ex::operation_state_t;
    a16 a;
    R r;
    op(a16&& a, R&& r) : a(std::move(a)), r(std::move(r)) {}
    op(op&&) = delete;
    void start() & noexcept { vc_assert(a.v == 7, "the operation holds what the sender held"); ex::set_value(std::move(r)); }
  };
  template <class R>
  auto connect(R r) && -> op<R> { return op<R>(std::move(a), std::move(r)); }
};
}
PROOF(alignment) { forwards([] { return any_s<SAll>(aligned<child<0, SAll>>{}); }); }
PROOF(alignment_tiny) {
  if (!go([] { return any_s<sigs<V0>>(tiny{}); })) return aborted();
  finished();
  vc_assert(out.kind == VALUE && out.nv == 0, "the completion is that of the held sender");
  all_destroyed();
}
// a sender that cannot be built in its place leaves the wrapper empty
PROOF(failed_emplace) {
  throws_left = 1;
  {
    any_s<SAll> a(child<0, SAll>{});
    tok t(1);
    struct bad : child<0, SAll> {
      explicit bad(tok const & t) { tok u(t); }
    };
    try {
      a.template emplace<bad>(t);
    } catch (thrown const &) {
      vc_cover("building it throws");
    }
    any_s<SAll> b(std::move(a));
    a = std::move(b);
    swap(a, b);
    if (!thrown_count && !launch(std::move(b), trcvr{})) vc_assert(false, "connecting does not throw");
  }
  if (thrown_count) return aborted();
  drain();
  finished();
  same();
  all_destroyed();
}
// memory may run out when the sender is wrapped and when it is connected
PROOF(sender_out_of_memory) {
  vc_oom(true);
  bool failed = false;
  try {
    auto a = large<any_s<sigs<V0>>, child<0, sigs<V0>>>();
    launch(std::move(a), trcvr{});
  } catch (std::bad_alloc const &) {
    failed = true;
  }
  vc_oom(false);
  if (failed) {
    vc_cover("out of memory");
    return aborted();
  }
  drain();
  finished();
  vc_assert(out.kind == VALUE, "the completion is that of the held sender");
  all_destroyed();
}
// ---------------------------------------------------------------- stop requests
namespace {
int live_cbs = 0;
struct otok {   // a stop token of another type
  ex::inplace_stop_token t;
  template <class F>
  struct callback_type {
    ex::inplace_stop_callback<F> cb;
    template <class I>
    callback_type(otok o, I&& i) noexcept : cb(o.t, static_cast<I&&>(i)) { ++live_cbs; }
    ~callback_type() { --live_cbs; }
  };
  bool stop_requested() const noexcept { return t.stop_requested(); }
  bool stop_possible() const noexcept { return t.stop_possible(); }
  bool operator==(otok const &) const noexcept = default;
};
template <class Tok>
struct tok_env {
  Tok t;
  auto query(ex::get_stop_token_t) const noexcept -> Tok { return t; }
};
int cbs_at_end = -1;
template <class Tok>
struct tok_rcvr : trcvr {
  tok_env<Tok> env;
  auto get_env() const noexcept -> tok_env<Tok> { return env; }
};
template <class Tok>
tok_rcvr<Tok> stoppable() {
  src = new ex::inplace_stop_source;
  on_complete = [] { cbs_at_end = live_cbs; };
  tok_rcvr<Tok> r;
  r.env.t = Tok{src->get_token()};
  return r;
}
using stop_q = ex::inplace_stop_token(ex::get_stop_token_t) noexcept;
using SLeaf = sigs<V<ntok>, S>;
template <class Tok>
void stops() {
  if (vc_choice(2, "stopped early")) stop_asked = true;
  auto r = stoppable<Tok>();
  if (stop_asked) src->request_stop();
  bool early = stop_asked;
  if (!go([] { return any_s<SLeaf, stop_q>(lchild<0>{}); }, r)) return aborted();
  drain_with_stop();
  finished();
  if (early) vc_assert(out.kind == STOPPED, "a stop request made before the start reaches the held sender");
  if (out.kind == STOPPED) vc_assert(stop_asked, "nothing stops by itself");
  if (stop_asked && out.kind == STOPPED) vc_cover("stopped");
  if (out.kind == VALUE) vc_assert(out.nv == 1 && out.v[0] == k.v, "the value is that of the held sender");
  vc_assert(cbs_at_end == 0, "nothing is registered with the receiver's stop token once it is completed");
  stop_done();
  all_destroyed();
}
// the state of the token the held sender sees
template <class Tok>
void sees() {
  k.watch_stop = true;
  k.on_start = [] { if (vc_choice(2, "a stop is requested")) ask_stop(); };
  if (!go([] { return any_s<SAll, stop_q>(child<0, SAll>{}); }, stoppable<Tok>())) return aborted();
  drain();
  finished();
  same();
  vc_assert(k.stop_seen == stop_asked, "the held sender sees the stop requests to the receiver, and no others");
  if (stop_asked) vc_cover("a stop was requested");
  vc_assert(cbs_at_end == 0, "nothing is registered with the receiver's stop token once it is completed");
  stop_done();
  all_destroyed();
}
}
PROOF(stop_inplace) { stops<ex::inplace_stop_token>(); }
PROOF(stop_other) { stops<otok>(); }
PROOF(stop_seen_inplace) { sees<ex::inplace_stop_token>(); }
PROOF(stop_seen_other) { sees<otok>(); }
// a stop request races with the start and the completion
namespace {
template <class Tok>
void stop_races() {
  vc_threads();
  auto r = stoppable<Tok>();
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  bool ok = go([] { return any_s<SLeaf, stop_q>(lchild<0>{}); }, r);
  vc_assert(ok, "connecting does not throw");
  try_complete_kid(0);
  vc_join_all();
  finished();
  if (out.kind == STOPPED) vc_cover("stopped");
  else {
    vc_assert(out.kind == VALUE && out.v[0] == k.v, "the value is that of the held sender");
    vc_cover("a value");
  }
  vc_assert(cbs_at_end == 0, "nothing is registered with the receiver's stop token once it is completed");
  stop_done();
  all_destroyed();
}
}
PROOF(stop_race_inplace) { stop_races<ex::inplace_stop_token>(); }
PROOF(stop_race_other) { stop_races<otok>(); }
// a receiver that cannot be stopped
PROOF(stop_never) {
  if (!go([] { return any_s<SAll, stop_q>(child<0, SAll>{}); }, trcvr{})) return aborted();
  drain();
  finished();
  same();
  all_destroyed();
}
// ---------------------------------------------------------------- queries
namespace {
template <class E, class Q, class... As>
concept has_query = requires(E const & e, Q q, As... as) { e.query(q, std::move(as)...); };
struct get_mark_t {
  template <class E> requires has_query<E, get_mark_t>
  auto operator()(E const & e) const noexcept -> decltype(e.query(std::declval<get_mark_t>())) { return e.query(*this); }
};
struct get_key_t {
  template <class E> requires has_query<E, get_key_t, uint32_t>
  auto operator()(E const & e, uint32_t k) const noexcept -> decltype(e.query(std::declval<get_key_t>(), std::move(k))) { return e.query(*this, std::move(k)); }
};
struct get_ref_t {
  template <class E> requires has_query<E, get_ref_t>
  auto operator()(E const & e) const noexcept -> ntok const & { return e.query(*this); }
};
ntok* marks[2];   // 0: of the receiver, 1: of the sender
struct qenv {
  ntok m{0xBAD};
  ntok const * r = nullptr;
  auto query(get_mark_t) const noexcept -> uint32_t { return m.get(); }
  auto query(get_ref_t) const noexcept -> ntok const & { return *r; }
  auto query(get_key_t, uint32_t k) const noexcept -> uint32_t { return m.get() + k; }
};
qenv mk(int w) { return qenv{ntok(marks[w]->get()), marks[w]}; }
template <class Env>
void answers(Env const & e, int w) {
  uint32_t m = marks[w]->get();
  uint32_t key = vc_u32("argument");
  vc_assert(get_mark_t{}(e) == m, "a query is answered by the held object");
  vc_assert(&get_ref_t{}(e) == marks[w], "a reference is returned as it is");
  vc_assert(get_key_t{}(e, key) == m + key, "the arguments of a query are forwarded");
}
void setup() {
  marks[0] = new ntok(vc_u32("mark of the receiver"));
  marks[1] = new ntok(vc_u32("mark of the sender"));
}
void done() {
  delete marks[0];
  delete marks[1];
  all_destroyed();
}
int asked = 0;
template <class R>
struct ask_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  void start() & noexcept {
    answers(ex::get_env(r), 0);
    ++asked;
    ex::set_value(static_cast<R&&>(r));
  }
};
struct asking {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0>;
  qenv e = mk(1);
  template <class R>
  auto connect(R r) && noexcept -> ask_op<R> {
    answers(ex::get_env(r), 0);
    ++asked;
    return {static_cast<R&&>(r)};
  }
  auto get_env() const noexcept -> qenv const & { return e; }
};
template <int Pad> struct asking_large : asking { char pad[Pad]; };
struct qrcvr : rcvr<> {
  qenv e = mk(0);
  auto get_env() const noexcept -> qenv const & { return e; }
};
template <class... Qs> using qs = exec::queries<Qs...>;
using q3 = qs<uint32_t(get_mark_t) noexcept, ntok const &(get_ref_t) noexcept, uint32_t(get_key_t, uint32_t) noexcept>;
using any_q = exec::any_sender<exec::any_receiver<sigs<V0>, q3>, q3>;
template <class Snd>
void asks() {
  setup();
  {
    any_q a{Snd{}};
    answers(ex::get_env(a), 1);
    any_q b(std::move(a));
    answers(ex::get_env(b), 1);
    auto op = ex::connect(std::move(b), qrcvr{});
    ex::start(op);
  }
  vc_assert(asked == 2, "the held sender asks");
  finished();
  vc_assert(out.kind == VALUE, "the completion is that of the held sender");
  done();
}
}
PROOF(queries_small) { asks<asking>(); }
PROOF(queries_large) { asks<asking_large<80>>(); }
// ---------------------------------------------------------------- receivers
namespace {
// a receiver that owns something; Pad decides where it is stored
template <int Pad>
struct owner : trcvr {
  char pad[Pad];
  ntok own{5};
  template <class... As>
  void set_value(As&&... as) noexcept { own.check(); trcvr::set_value(static_cast<As&&>(as)...); }
  template <class E>
  void set_error(E&& x) noexcept { own.check(); trcvr::set_error(static_cast<E&&>(x)); }
  void set_stopped() noexcept { own.check(); trcvr::set_stopped(); }
  auto get_env() const noexcept -> qenv { own.check(); return mk(0); }
};
using any_rq = exec::any_receiver<SAll, q3>;
template <class R>
[[gnu::noinline]] bool receives() {
  try {
    vc_oom(true);
    any_rq r{R{}};
    vc_oom(false);
    answers(ex::get_env(r), 0);
    any_rq s(std::move(r));
    r = std::move(s);
    any_rq t{owner<4>{}};
    swap(r, t);
    answers(ex::get_env(t), 0);
    auto op = ex::connect(child<0, SAll>{}, std::move(t));
    ex::start(op);
    drain();
  } catch (std::bad_alloc const &) {
    vc_assert(out.n == 0, "nothing is completed");
    vc_cover("out of memory");
    return false;
  }
  return true;
}
template <class R>
void receiver() {
  setup();
  bool ok = receives<R>();
  vc_oom(false);
  if (ok) {
    finished();
    same();
  }
  done();
}
}
PROOF(receiver_small) { receiver<owner<1>>(); }
PROOF(receiver_large) { receiver<owner<100>>(); }
// ---------------------------------------------------------------- schedulers
namespace {
using SSch = sigs<V0, E<etok>, S>;
template <int Id, int Pad>
struct sch {
  using scheduler_concept = ex::scheduler_t;
  uint32_t tag = 0xBAD;
  char pad[Pad];
  ntok own{6};
  explicit sch(uint32_t t) noexcept : tag(t) {}
  struct attrs {
    uint32_t tag;
    template <class... E>
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, E const &...) const noexcept -> sch { return sch{tag}; }
  };
  struct snd : child<Id, SSch> {
    uint32_t tag;
    explicit snd(uint32_t t) : tag(t) {}
    auto get_env() const noexcept -> attrs { return {tag}; }
  };
  auto schedule() const noexcept -> snd { own.check(); return snd{tag}; }
  bool operator==(sch const & o) const noexcept { return own.get() == o.own.get() && tag == o.tag; }
  auto query(get_mark_t) const noexcept -> uint32_t { return tag; }
  auto query(get_key_t, uint32_t k) const noexcept -> uint32_t { return tag + k; }
};
template <class... Qs>
using any_sch = exec::any_scheduler<exec::any_sender<exec::any_receiver<SSch, qs<Qs...>>>, qs<uint32_t(get_mark_t) noexcept, uint32_t(get_key_t, uint32_t) noexcept>>;
using ASch = any_sch<>;
// which scheduler a wrapper is expected to hold
struct held { int type; uint32_t tag; };
[[gnu::noinline]] void holds(ASch const & a, held h) {
  if (h.type == 3) {
    vc_assert(a == ASch(), "an empty wrapper is equal to an empty one");
    return;
  }
  vc_assert(get_mark_t{}(a) == h.tag, "the queries of the scheduler are answered by the held one");
  vc_assert(get_key_t{}(a, 3) == h.tag + 3, "the arguments of a query are forwarded");
}
ASch mks(held h) {
  if (h.type == 0) return ASch(sch<0, 1>(h.tag));
  if (h.type == 1) return ASch(sch<1, 1>(h.tag));
  ASch a(sch<2, 80>(h.tag));
  if (h.type == 3) ASch b(std::move(a));   // what is moved from is empty
  return a;
}
held any_or_none(const char* n) {
  int t = (int) vc_choice(4, n);
  return held{t, t == 3 ? 0u : vc_u32("tag")};
}
held some(const char* n) { return held{(int) vc_choice(3, n), vc_u32("tag")}; }
void sch_same(int id) {
  kid_t& k = kids[id];
  vc_assert(k.started == 1, "scheduling starts the held scheduler's operation");
  vc_assert(out.kind == k.kind, "the completion is that of the held scheduler");
  if (k.kind == ERROR) vc_assert(out.v[0] == k.v && out.err == 5, "the error is that of the held scheduler");
}
}
// scheduling on the wrapper is scheduling on what it holds
PROOF(schedules) {
  held h = some("held");
  {
    ASch a = mks(h);
    bool ok = go([&] { return ex::schedule(a); }, trcvr{});
    vc_assert(ok, "connecting does not throw");
    holds(a, h);
  }
  drain();
  finished();
  sch_same(h.type);
  all_destroyed();
}
// the scheduler that the attributes of schedule() name is equal to the one that was asked
PROOF(completion_scheduler) {
  held h = some("held");
  {
    ASch a = mks(h);
    auto s = ex::schedule(a);
    holds(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)), h);
    vc_assert(ex::get_completion_scheduler<ex::set_value_t>(ex::get_env(s)) == a, "the completion scheduler is the scheduler itself");
    vc_assert(ex::get_completion_scheduler<ex::set_value_t>(a) == a, "the completion scheduler is the scheduler itself");
  }
  aborted();
}
// equal means: the same type and equal
PROOF(equality) {
  held h = any_or_none("first"), g = any_or_none("second");
  {
    ASch a = mks(h), b = mks(g);
    bool eq = a == b;
    vc_assert(eq == (h.type == g.type && h.tag == g.tag), "two wrappers are equal exactly if they hold equal schedulers of one type");
    vc_assert((b == a) == eq && (a != b) == !eq, "equality is symmetric");
    vc_assert(a == a, "equality is reflexive");
    if (eq) vc_cover("equal");
  }
  aborted();
}
namespace {
// any operation (copies, moves, assignments, swaps) on two wrappers in any state
[[gnu::noinline]] void step(ASch& a, ASch& b, held& x, held& y) {
  switch (vc_choice(8, "operation")) {
  case 0: { ASch c(a); holds(c, x); b = c; y = x; break; }
  case 1: { ASch c(std::move(a)); holds(c, x); a = std::move(b); b = std::move(c); std::swap(x, y); break; }
  case 2: swap(a, b); std::swap(x, y); break;
  case 3: a = b; x = y; break;
  case 4: { ASch& c = a; a = c; break; }
  case 5: { ASch& c = a; swap(a, c); break; }
  case 6: { ASch& c = a; a = std::move(c); break; }
  case 7: x = some("assigned"); a = mks(x); break;
  }
}
}
PROOF(regular) {
  held x = any_or_none("first"), y = any_or_none("second");
  {
    ASch a = mks(x), b = mks(y);
    step(a, b, x, y);
    holds(a, x);
    holds(b, y);
  }
  aborted();
}
// memory may run out: the wrappers keep what they hold
PROOF(out_of_memory) {
  held x = some("first"), y = some("second");
  {
    ASch a = mks(x), b = mks(y);
    vc_oom(true);
    bool failed = false;
    try {
      a = b;
    } catch (std::bad_alloc const &) {
      failed = true;
    }
    vc_oom(false);
    if (failed) { vc_cover("out of memory"); }
    else x = y;
    holds(a, x);
    holds(b, y);
  }
  aborted();
}
