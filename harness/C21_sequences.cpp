// sequence senders: every item once, and one completion after all of them
#include "seq.h"
#include <exec/sequence_senders.hpp>
#include <exec/sequence/iterate.hpp>
#include <exec/sequence/transform_each.hpp>
#include <exec/sequence/ignore_all_values.hpp>
#include <exec/sequence/merge.hpp>
#include <exec/sequence/merge_each.hpp>
#include <exec/sequence/empty_sequence.hpp>
#include <span>

// the harness itself: an opaque sequence straight into the consumer
PROOF(plain) {
  may_break = true;
  sgo([] { return mk(0, 0, (int)vc_choice(3, "items")); });
  drain();
  for (int i = 0; i < nseen; ++i) saw(i, i);
  vc_assert(out.kind == seqs[0].kind, "the completion arrives");
  sdone();
}
// ------------------------------------------------------------------ transform_each
PROOF(transform_each) {
  may_break = true;
  int n = (int)vc_choice(3, "items");
  sgo([=] { return exec::transform_each(mk(0, 0, n), ex::then([](ntok t) noexcept { return ntok(t.get() + 5); })); });
  drain();
  vc_assert(nseen == seqs[0].nexts, "every item is transformed and delivered once");
  for (int i = 0; i < nseen; ++i) saw(i, i, 5);
  if (breaks) vc_assert(nseen <= n && seqs[0].broke, "a break ends the sequence");
  vc_assert(out.kind == seqs[0].kind && (out.kind != ERROR || out.v[0] == seqs[0].err), "the completion of the sequence passes through");
  sdone();
}
// ------------------------------------------------------------------ ignore_all_values
PROOF(ignore_all_values) {
  int n = (int)vc_choice(3, "items");
  go([=] { return exec::ignore_all_values(mk(0, 0, n)); });
  drain();
  int bad = -1;
  for (int i = 0; i < n; ++i) if (kids[i].started && kids[i].kind != VALUE && bad < 0) bad = i;
  for (int i = 0; i < n; ++i) vc_assert(kids[i].started == (bad < 0 || i <= bad), "every item runs until one fails");
  if (bad >= 0) {
    vc_cover("item failed");
    vc_assert(out.kind == kids[bad].kind && (out.kind != ERROR || (out.err == 1 && out.v[0] == kids[bad].v)), "a failing item is the result");
  } else vc_assert(out.kind == seqs[0].kind && (out.kind != ERROR || out.v[0] == seqs[0].err), "the completion of the sequence passes through");
  sdone();
}
// ------------------------------------------------------------------ merge
PROOF(merge) {
  defer_mode = 2;
  int n0 = (int)vc_choice(3, "items of the first"), n1 = (int)vc_choice(2, "items of the second");
  seqs[1].fixed_value = true;
  sgo([=] { return exec::merge(mk<item<vsigs>>(0, 0, n0), mk<item<vsigs>>(1, 2, n1)); });
  drain();
  vc_assert(nseen == seqs[0].nexts + seqs[1].nexts, "every item is delivered once");
  for (int i = 0; i < 4; ++i) if (kids[i].started) vc_assert(seen_of_kid(i) >= 1, "every item of every sequence is delivered");
  if (seqs[0].kind == VALUE) {
    vc_assert(kids[0].started == (n0 > 0) && kids[1].started == (n0 > 1) && kids[2].started == (n1 > 0), "every item runs");
    vc_assert(out.kind == VALUE, "the merged sequence ends when all have ended");
  } else vc_assert(out.kind == seqs[0].kind && (out.kind != ERROR || out.v[0] == seqs[0].err), "a sequence that fails fails the merged one");
  sdone();
}
PROOF(merge_break) {
  may_break = true;
  seqs[0].fixed_value = seqs[1].fixed_value = true;
  sgo([=] { return exec::merge(mk<item<vsigs>>(0, 0, 2), mk<item<vsigs>>(1, 2, 1)); });
  drain();
  vc_assert(nseen == seqs[0].nexts + seqs[1].nexts, "every item is delivered once");
  vc_assert(out.kind == (breaks ? STOPPED : VALUE), "a break stops the merged sequence");
  sdone();
}
// ------------------------------------------------------------------ merge_each
namespace {
// an item that sends a nested sequence, an error or stopped
int nested_of[NKIDS];       // which sequence it sends
bool outer_later = true;    // the items of the outer sequence may complete later
unsigned item_channels = 1; // how many of value, error, stopped it may use
using nested = oseq<item<isigs>>;
template <class R>
struct seqitem_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  int id;
  uint32_t magic = ALIVE;
  nested* held = nullptr;
  etok* eheld = nullptr;
  seqitem_op(R r, int id) : r(static_cast<R&&>(r)), id(id) { ++kids[id].live_ops; }
  seqitem_op(seqitem_op&&) = delete;
  ~seqitem_op() {
    vc_assert(magic == ALIVE, "a child operation is destroyed once");
    vc_assert(kids[id].started == kids[id].completed, "a running child operation is never destroyed");
    magic = DEAD;
    --kids[id].live_ops;
    delete held;
    delete eheld;
  }
  void start() & noexcept {
    ++kids[id].started;
    if (outer_later && vc_choice(2, "child completes later")) {
      kids[id].complete = [](void* p) { static_cast<seqitem_op*>(p)->finish(); };
      kids[id].op = this;
    } else finish();
  }
  void finish() noexcept {
    vc_assert(magic == ALIVE, "a child operation stays alive until it completes");
    ++kids[id].completed;
    unsigned c = item_channels == 1 ? 0 : vc_choice(item_channels, "channel");
    if (c == 0) {
      kids[id].kind = VALUE;
      held = new nested(mk(nested_of[id], (nested_of[id] - 1) * 2, seqs[nested_of[id]].n));
      ex::set_value(static_cast<R&&>(r), static_cast<nested&&>(*held));
    } else if (c == 1) {
      kids[id].kind = ERROR;
      eheld = new etok(kids[id].v = vc_u32("error"));
      ex::set_error(static_cast<R&&>(r), static_cast<etok&&>(*eheld));
    } else {
      kids[id].kind = STOPPED;
      ex::set_stopped(static_cast<R&&>(r));
    }
  }
};
struct seqitem {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V<nested>, E<etok>, S>;
  int id;
  template <class R>
  auto connect(R r) const noexcept -> seqitem_op<R> {
    ++kids[id].connected;
    return seqitem_op<R>{static_cast<R&&>(r), id};
  }
};
auto make_merge_each(int outer, int n1, int n2) {
  nested_of[4] = 1;
  nested_of[5] = 2;
  seqs[1].n = n1;
  seqs[2].n = n2;
  return exec::merge_each(mk<seqitem>(0, 4, outer));
}
int nerr_items() { int c = 0; for (int i = 0; i < nseen; ++i) c += seen[i].kind == ERROR; return c; }
uint32_t err_item() { for (int i = 0; i < nseen; ++i) if (seen[i].kind == ERROR) return seen[i].v; return 0; }
bool only_values = false;
void judge_merge_each() {
  // what failed first?
  int errs = 0, brk = seqs[0].kind == STOPPED;
  bool outer_err = seqs[0].kind == ERROR;
  for (int i = 0; i < 6; ++i) if (kids[i].completed && kids[i].kind == ERROR) ++errs;
  for (int i = 1; i < 3; ++i) if (seqs[i].completed && seqs[i].kind == ERROR) ++errs;
  bool match = false;
  for (int i = 0; i < 6; ++i) if (kids[i].completed && kids[i].kind == ERROR) match |= err_item() == kids[i].v;
  for (int i = 1; i < 3; ++i) if (seqs[i].completed && seqs[i].kind == ERROR) match |= err_item() == seqs[i].err;
  for (int i = 0; i < 4; ++i) if (kids[i].started && kids[i].kind == VALUE) vc_assert(seen_of_kid(i) >= 1, "every value of every nested sequence is delivered");
  if (errs == 0 && !outer_err) {
    vc_assert(out.kind == (brk ? STOPPED : VALUE), "without an error the merged sequence ends when all have ended");
    vc_assert(nerr_items() == 0, "no error is made up");
  } else if (!outer_err) {
    vc_cover("error");
    vc_assert(nerr_items() == 1 && match && out.kind != ERROR, "the first error is delivered as an item");
  } else if (errs == 0) {
    vc_cover("outer error");
    vc_assert(out.kind == ERROR, "an error of the outer sequence fails the merged one");
  }
}
}  // namespace
PROOF(merge_each_values) {
  seqs[0].fixed_value = seqs[1].fixed_value = seqs[2].fixed_value = true;
  for (int i = 0; i < 4; ++i) kids[i].watch_stop = true;
  int outer = (int)vc_choice(3, "nested sequences"), n1 = (int)vc_choice(2, "items of the first"), n2 = (int)vc_choice(2, "items of the second");
  sgo([=] { return make_merge_each(outer, n1, n2); });
  drain();
  judge_merge_each();
  sdone();
}
PROOF(merge_each_item_fails) {
  seqs[0].fixed_value = seqs[1].fixed_value = seqs[2].fixed_value = true;
  sgo([=] { return make_merge_each(2, 2, 0); });
  drain();
  judge_merge_each();
  sdone();
}
PROOF(merge_each_outer_item_fails) {
  seqs[0].fixed_value = seqs[1].fixed_value = seqs[2].fixed_value = true;
  item_channels = 3;
  sgo([=] { return make_merge_each(2, 0, 0); });
  drain();
  judge_merge_each();
  sdone();
}
PROOF(merge_each_sequence_fails) {
  sgo([=] { return make_merge_each(2, 0, 0); });
  drain();
  judge_merge_each();
  sdone();
}
namespace {
// an outer sequence that runs its two items at the same time
template <class R>
struct pseq_op {
  using operation_state_concept = ex::operation_state_t;
  struct nrcv {
    using receiver_concept = ex::receiver_t;
    pseq_op* op;
    void set_value() noexcept { op->one(); }
    void set_stopped() noexcept { op->one(); }
    auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(op->r); }
  };
  using item_op_t = ex::connect_result_t<exec::next_sender_of_t<R, seqitem>, nrcv>;
  struct box {
    item_op_t op;
    box(pseq_op* s, int i) : op(ex::connect(exec::set_next(s->r, seqitem{i}), nrcv{s})) {}
  };
  R r;
  box* b[2] = {};
  std::atomic<int> left{2};
  explicit pseq_op(R r) : r(static_cast<R&&>(r)) { ++seqs[0].live; }
  pseq_op(pseq_op&&) = delete;
  ~pseq_op() { --seqs[0].live; delete b[0]; delete b[1]; }
  void one() noexcept {
    if (left.fetch_sub(1, std::memory_order_acq_rel) == 1) {
      ++seqs[0].completed;
      seqs[0].kind = VALUE;
      ex::set_value(static_cast<R&&>(r));
    }
  }
  void start() & noexcept {
    ++seqs[0].started;
    for (int i = 0; i < 2; ++i) b[i] = new box(this, 4 + i);
    for (int i = 0; i < 2; ++i) ex::start(b[i]->op);
  }
};
struct pseq {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = sigs<V0, E<etok>, S>;
  using item_types = exec::item_types<seqitem>;
  template <class R> auto subscribe(R r) const noexcept -> pseq_op<R> { return pseq_op<R>{static_cast<R&&>(r)}; }
};
}  // namespace
// the items of the nested sequences complete on different threads
//@proofopt merge_each_threads preemptions=2
PROOF(merge_each_threads) {
  seqs[0].fixed_value = seqs[1].fixed_value = seqs[2].fixed_value = true;
  outer_later = false;
  defer_mode = 1;
  kids[0].watch_stop = kids[2].watch_stop = true;
  (void)make_merge_each(2, 1, 1);
  sgo([=] { return exec::merge_each(pseq{}); });
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "item 0");
  vc_spawn([](void*) { complete_kid(2); }, nullptr, "item 2");
  vc_join_all();
  drain();
  judge_merge_each();
  sdone();
}
//@proofopt merge_threads preemptions=2
PROOF(merge_threads) {
  seqs[0].fixed_value = seqs[1].fixed_value = true;
  defer_mode = 1;
  sgo([=] { return exec::merge(mk<item<vsigs>>(0, 0, 1), mk<item<vsigs>>(1, 2, 1)); });
  vc_spawn([](void*) { complete_kid(0); }, nullptr, "item 0");
  vc_spawn([](void*) { complete_kid(2); }, nullptr, "item 2");
  vc_join_all();
  drain();
  vc_assert(nseen == 2 && seen_of_kid(0) >= 1 && seen_of_kid(2) >= 1 && out.kind == VALUE, "every item is delivered once");
  sdone();
}
namespace {
// the outer sequence fails with an exception
struct eseq {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = sigs<V0, E<std::exception_ptr>, S>;
  using item_types = exec::item_types<seqitem>;
  template <class R>
  struct op {
    using operation_state_concept = ex::operation_state_t;
    R r;
    void start() & noexcept { ex::set_error(static_cast<R&&>(r), std::make_exception_ptr(thrown{4711})); }
  };
  template <class R> auto subscribe(R r) const noexcept -> op<R> { return {static_cast<R&&>(r)}; }
};
}  // namespace
PROOF(merge_each_exception) {
  sgo([] { return exec::merge_each(eseq{}); });
  vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == 4711, "the exception of the outer sequence is the result");
  sdone();
}
PROOF(merge_each_break) {
  seqs[0].fixed_value = seqs[1].fixed_value = seqs[2].fixed_value = true;
  may_break = true;
  for (int i = 0; i < 4; ++i) kids[i].watch_stop = true;
  sgo([] { return make_merge_each(2, 2, 0); }, srcvr<>{});
  drain();
  int brk = breaks;
  for (int i = 0; i < 4; ++i) if (kids[i].completed && kids[i].kind == VALUE) vc_assert(seen_of_kid(i) >= 1, "every value of every nested sequence is delivered");
  if (!brk) judge_merge_each();
  sdone();
}
PROOF(merge_each_stop) {
  seqs[0].fixed_value = seqs[1].fixed_value = seqs[2].fixed_value = true;
  for (int i = 0; i < 2; ++i) kids[i].watch_stop = true;
  src = new ex::inplace_stop_source;
  on_complete = no_callbacks;
  bool before = stop_before();
  sgo([] { return make_merge_each(1, 2, 0); }, srcvr<cenv>{cenv{ctoken{src->get_token()}}});
  if (before) vc_assert(out.kind == STOPPED && seqs[0].started == 0, "a sequence stopped before its start completes at once");
  drain_with_stop();
  for (int i = 0; i < 2; ++i) if (kids[i].completed && kids[i].order > stop_order && stop_asked) vc_assert(kids[i].stop_seen, "a stop request reaches the items");
  stop_done();
  sdone();
}
namespace {
// a consumer without exceptions
template <class Env = ex::env<>>
struct nrcvr : rcvr<Env> {
  nrcvr() = default;
  explicit nrcvr(Env e) : rcvr<Env>{e} {}
  template <class Item>
  auto set_next(Item&& it) noexcept -> use<std::remove_cvref_t<Item>> {
    vc_assert(out.n == 0, "no item is made after the sequence has completed");
    return {static_cast<Item&&>(it)};
  }
};
uint32_t elems[20];
int nelems;
}  // namespace
// ------------------------------------------------------------------ empty_sequence, a sender as a sequence
PROOF(empty) {
  sgo([] { return exec::empty_sequence(); }, nrcvr<>{});
  vc_assert(out.kind == VALUE && nseen == 0, "an empty sequence has no items");
  sdone();
}
// a sender is a sequence of one item
PROOF(single) {
  may_break = true;
  sgo([] { return child<0, isigs>{}; });
  drain();
  vc_assert(nseen == 1 && kids[0].started == 1, "a sender is delivered as one item");
  saw(0, 0);
  vc_assert(out.kind == VALUE, "the sequence ends after its item");
  sdone();
}
PROOF(single_stop) {
  src = new ex::inplace_stop_source;
  stop_before();
  sgo([] { return child<0, isigs>{}; }, srcvr<stop_env>{stop_env{src->get_token()}});
  drain();
  vc_assert(nseen == 1 && kids[0].started == 1, "a sender is delivered as one item");
  vc_assert(out.kind == (kids[0].kind != VALUE && stop_asked ? STOPPED : VALUE), "a break after a stop request is stopped");
  stop_done();
  sdone();
}
// ------------------------------------------------------------------ iterate
namespace {
template <class R>
void run_iterate(int n, R r) {
  nelems = n;
  for (int i = 0; i < n; ++i) elems[i] = vc_u32("element");
  sgo([=] { return exec::iterate(std::span<uint32_t>(elems, n)); }, r);
}
}  // namespace
PROOF(iterate) {
  may_break = true;
  int n = (int)vc_choice(4, "elements");
  run_iterate(n, srcvr<>{});
  vc_assert(out.kind == VALUE, "the sequence ends after its elements");
  vc_assert(breaks ? nseen <= n : nseen == n, "every element is delivered, until a break");
  for (int i = 0; i < nseen; ++i) vc_assert(seen[i].kind == VALUE && seen[i].v == elems[i], "the elements come in order");
  sdone();
}
namespace {
int stop_at;
struct stopping_rcvr : srcvr<stop_env> {
  using srcvr<stop_env>::srcvr;
  template <class Item>
  auto set_next(Item&& it) noexcept(false) -> use<std::remove_cvref_t<Item>> {
    if (nseen == stop_at) ask_stop();
    return srcvr<stop_env>::set_next(static_cast<Item&&>(it));
  }
};
}  // namespace
PROOF(iterate_stop) {
  src = new ex::inplace_stop_source;
  stop_at = (int)vc_choice(4, "stop before element");
  run_iterate(3, stopping_rcvr{stop_env{src->get_token()}});
  vc_assert(out.kind == (stop_at < 3 ? STOPPED : VALUE), "a stop request stops the sequence");
  vc_assert(nseen == (stop_at < 3 ? stop_at + 1 : 3), "no element is delivered after a stop request");
  for (int i = 0; i < nseen; ++i) vc_assert(seen[i].kind == (i == stop_at ? STOPPED : VALUE) && (i == stop_at || seen[i].v == elems[i]), "the elements come in order");
  stop_done();
  sdone();
}
namespace {
uint32_t nforget;
struct forget_rcvr {
  using receiver_concept = ex::receiver_t;
  template <class Item> auto set_next(Item&& it) noexcept {
    return ex::then(static_cast<Item&&>(it), [](uint32_t& x) noexcept { vc_assert(&x == elems + nforget, "the elements come in order"); ++nforget; });
  }
  void fin(int k) noexcept { vc_assert(out.n == 0, "the sequence completes once"); out.n = 1; out.kind = k; }
  void set_value() noexcept { fin(VALUE); }
  void set_stopped() noexcept { fin(STOPPED); }
  void set_error(std::exception_ptr) noexcept { fin(ERROR); }
};
}  // namespace
// more elements than the trampoline lets nest
PROOF(iterate_long) {
  auto op = exec::subscribe(exec::iterate(std::span<uint32_t>(elems, 20)), forget_rcvr{});
  ex::start(op);
  vc_assert(nforget == 20 && out.kind == VALUE, "every element is delivered");
}
PROOF(iterate_throws) {
  throws_left = 1;
  throw_in_next = true;
  run_iterate(2, srcvr<>{});
  if (thrown_count) { vc_cover("threw"); vc_assert(out.kind == ERROR && out.v[0] == last_throw, "an exception is the result"); }
  else vc_assert(out.kind == VALUE && nseen == 2, "every element is delivered");
  sdone();
}
// ------------------------------------------------------------------ throwing
namespace {
template <class Item = item<>>
struct tseq {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = sigs<V0, E<etok>, S>;
  using item_types = exec::item_types<Item>;
  int id;
  ntok guard{78};
  template <class R>
  auto subscribe(R r) const noexcept(false) -> seq_op<R, Item> {
    guard.check();
    maybe_throw("subscribe throws");
    return seq_op<R, Item>{static_cast<R&&>(r), id};
  }
};
tseq<> tmk(int id, int first, int n) { seqs[id].first = first; seqs[id].n = n; return {id}; }
void throws_or_done(bool started) {
  if (!started) { vc_cover("threw"); aborted(); }
  else { drain(); sdone(); }
}
}  // namespace
PROOF(transform_each_throws) {
  throws_left = 1;
  throws_or_done(sgo([] { return exec::transform_each(tmk(0, 0, 1), ex::then([](ntok t) noexcept { return t; })); }));
}
PROOF(transform_each_adaptor_throws) {
  throws_left = 1;
  throws_or_done(sgo([] { return exec::transform_each(mk(0, 0, 1), ex::then([t = tok(9)](ntok x) noexcept { return x; })); }));
}
PROOF(ignore_all_values_throws) {
  throws_left = 1;
  throws_or_done(go([] { return exec::ignore_all_values(tmk(0, 0, 1)); }));
}
PROOF(merge_throws) {
  throws_left = 1;
  seqs[0].fixed_value = seqs[1].fixed_value = true;
  throws_or_done(sgo([] { return exec::merge(tmk(0, 0, 1), mk(1, 2, 1)); }));
}
PROOF(merge_each_throws) {
  throws_left = 1;
  nested_of[4] = 1;
  seqs[1].n = 1;
  throws_or_done(sgo([] { seqs[0].first = 4; seqs[0].n = 1; return exec::merge_each(tseq<seqitem>{0}); }));
}
PROOF(set_next_throws) {
  throws_left = 1;
  throw_in_next = true;
  seqs[0].fixed_value = true;
  sgo([] { return exec::transform_each(mk(0, 0, 2), ex::then([](ntok t) noexcept { return t; })); });
  drain();
  sdone();
}
namespace {
// a nested sequence that may throw when subscribed
using tnested = tseq<item<isigs>>;
template <class R>
struct tseqitem_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  void start() & noexcept {
    tnested* t = new tnested(tmk(1, 0, seqs[1].n));
    held = t;
    ex::set_value(static_cast<R&&>(r), static_cast<tnested&&>(*t));
  }
  tnested* held = nullptr;
  ~tseqitem_op() { delete held; }
};
struct tseqitem {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V<tnested>>;
  int id;
  template <class R> auto connect(R r) const noexcept -> tseqitem_op<R> { return {static_cast<R&&>(r)}; }
};
}  // namespace
PROOF(merge_each_nested_throws) {
  throws_left = 1;
  seqs[0].fixed_value = seqs[1].fixed_value = true;
  seqs[1].n = (int)vc_choice(2, "items");
  sgo([] { return exec::merge_each(mk<tseqitem>(0, 4, 1)); });
  drain();
  if (thrown_count) {
    vc_cover("threw");
    vc_assert(seqs[1].started == 0, "a sequence that cannot be subscribed to does not run");
    vc_assert(nseen == 1 && seen[0].kind == ERROR && seen[0].v == last_throw && out.kind != ERROR, "the exception is delivered as an item");
  } else if (seqs[1].n && kids[0].kind == VALUE) vc_assert(nseen == 1 && seen_of_kid(0) == 1, "every item is delivered");
  sdone();
}
