// opaque sequences, their items, and a consumer of items
#pragma once
#include "lib.h"
#include <exec/sequence_senders.hpp>
using namespace vt;

namespace {
// ------------------------------------------------------------------ items
using isigs = sigs<V<ntok>, E<etok>, S>;
using vsigs = sigs<V<ntok>>;
template <class Sigs = isigs>
struct item {
  using sender_concept = ex::sender_t;
  using completion_signatures = Sigs;
  int id;
  ntok guard{77};
  template <class R>
  auto connect(R r) const noexcept -> child_op<-1, R, Sigs> {
    guard.check();
    ++kids[id].connected;
    return child_op<-1, R, Sigs>{static_cast<R&&>(r), id};
  }
};

// ------------------------------------------------------------------ an opaque sequence
struct seq_t {
  int first = 0, n = 0;      // the items are the children first .. first+n-1
  int started = 0, completed = 0, kind = 0, live = 0, subscribed = 0;
  int nexts = 0;             // items made
  bool broke = false;        // the consumer asked for no more items
  bool threw = false;        // making the next item threw
  bool fixed_value = false;  // complete with set_value only
  uint32_t err = 0;
  void (*on_done)() = nullptr;
};
seq_t seqs[3];
template <class R>
struct seq_base {
  R rcvr;
  explicit seq_base(R r) : rcvr(static_cast<R&&>(r)) {}
  virtual void item_done(bool) noexcept = 0;
};
template <class R>
struct next_rcvr {
  using receiver_concept = ex::receiver_t;
  seq_base<R>* op;
  void set_value() noexcept { op->item_done(false); }
  void set_stopped() noexcept { op->item_done(true); }
  auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(op->rcvr); }
};
template <class R, class Item>
struct seq_op final : seq_base<R> {
  using operation_state_concept = ex::operation_state_t;
  using seq_base<R>::rcvr;
  int id;
  uint32_t magic = ALIVE;
  etok* eheld = nullptr;
  using item_op_t = ex::connect_result_t<exec::next_sender_of_t<R, Item>, next_rcvr<R>>;
  struct box {
    item_op_t op;
    box(seq_op* s, int i) : op(ex::connect(exec::set_next(s->rcvr, Item{i}), next_rcvr<R>{s})) {}
  };
  box* cur = nullptr;
  int i = 0;
  seq_op(R r, int id) : seq_base<R>{static_cast<R&&>(r)}, id(id) { ++seqs[id].live; ++seqs[id].subscribed; }
  seq_op(seq_op&&) = delete;
  ~seq_op() {
    vc_assert(magic == ALIVE, "a sequence operation is destroyed once");
    vc_assert(seqs[id].started == seqs[id].completed, "a running sequence is never destroyed");
    magic = DEAD;
    --seqs[id].live;
    delete cur;
    delete eheld;
  }
  void start() & noexcept {
    ++seqs[id].started;
    next();
  }
  void next() noexcept {
    if (i == seqs[id].n) { finish(); return; }
    int k = seqs[id].first + i++;
    box* b = nullptr;
    try {
      b = new box(this, k);
      ++seqs[id].nexts;
    } catch (thrown const&) {
      seqs[id].threw = true;
      seqs[id].n = i;
      seqs[id].nexts++;
      done_with(VALUE);
      return;
    }
    cur = b;
    ex::start(b->op);
  }
  void item_done(bool stop) noexcept override {
    vc_assert(magic == ALIVE, "a sequence operation lives until it completed");
    box* b = cur;
    cur = nullptr;
    vc_assert(b != nullptr, "an item completes once");
    delete b;  // from inside its completion
    if (stop) { seqs[id].broke = true; done_with(ex::get_stop_token(ex::get_env(rcvr)).stop_requested() ? STOPPED : VALUE); }
    else next();
  }
  void finish() noexcept {
    unsigned c = seqs[id].fixed_value ? 0 : vc_choice(3, "sequence completes with");
    done_with(c == 0 ? VALUE : c == 1 ? ERROR : STOPPED);
  }
  void done_with(int k) noexcept {
    ++seqs[id].completed;
    seqs[id].kind = k;
    if (seqs[id].on_done) seqs[id].on_done();
    if (k == VALUE) ex::set_value(static_cast<R&&>(rcvr));
    else if (k == STOPPED) ex::set_stopped(static_cast<R&&>(rcvr));
    else {
      eheld = new etok(seqs[id].err = vc_u32("sequence error"));
      ex::set_error(static_cast<R&&>(rcvr), static_cast<etok&&>(*eheld));
    }
  }
};
template <class Item = item<>>
struct oseq {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = sigs<V0, E<etok>, S>;
  using item_types = exec::item_types<Item>;
  int id;
  ntok guard{78};
  template <class R>
  auto subscribe(R r) const noexcept -> seq_op<R, Item> {
    guard.check();
    return seq_op<R, Item>{static_cast<R&&>(r), id};
  }
};
template <class Item = item<>>
oseq<Item> mk(int id, int first, int n) {
  seqs[id].first = first;
  seqs[id].n = n;
  return oseq<Item>{id};
}

// ------------------------------------------------------------------ the consumer of the items
struct seen_t { int kind; uint32_t v; };
seen_t seen[8];
std::atomic<int> nseen{0}, active_items{0};
bool may_break = false;   // the consumer may ask for no more items
int breaks = 0;
template <class R>
struct use_base { R r; };
template <class R>
struct use_rcvr {
  using receiver_concept = ex::receiver_t;
  using base = use_base<R>;
  base* op;
  void note(int k, uint32_t v) noexcept { int i = nseen++; vc_assert(i < 8, "no more items than there are"); seen[i] = {k, v}; }
  void fin(bool brk) noexcept {
    --active_items;
    vc_assert(out.n == 0, "no item is still running when the sequence has completed");
    if (!brk && may_break && vc_choice(2, "consumer breaks")) { ++breaks; brk = true; }
    if (brk) ex::set_stopped(static_cast<R&&>(op->r));
    else ex::set_value(static_cast<R&&>(op->r));
  }
  template <class... As> void set_value(As&&... as) noexcept {
    uint32_t v = 0;
    ((v = idof(as)), ...);
    note(VALUE, v);
    fin(false);
  }
  template <class X> void set_error(X&& e) noexcept { int keep = out.err; note(ERROR, idof(e)); out.err = keep; fin(true); }
  void set_stopped() noexcept { note(STOPPED, 0); fin(true); }
  auto get_env() const noexcept -> ex::env_of_t<R> { return ex::get_env(op->r); }
};
template <class Item, class R>
struct use_op : use_rcvr<R>::base {
  using operation_state_concept = ex::operation_state_t;
  ex::connect_result_t<Item, use_rcvr<R>> op;
  use_op(Item it, R r) : use_rcvr<R>::base{static_cast<R&&>(r)}, op(ex::connect(static_cast<Item&&>(it), use_rcvr<R>{this})) {}
  use_op(use_op&&) = delete;
  void start() & noexcept {
    ++active_items;
    vc_assert(out.n == 0, "no item starts after the sequence has completed");
    ex::start(op);
  }
};
template <class Item>
struct use {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0, S>;
  Item it;
  template <class R>
  auto connect(R r) && -> use_op<Item, R> { return {static_cast<Item&&>(it), static_cast<R&&>(r)}; }
};
bool throw_in_next = false;
template <class Env = ex::env<>>
struct srcvr : rcvr<Env> {
  srcvr() = default;
  explicit srcvr(Env e) : rcvr<Env>{e} {}
  template <class Item>
  auto set_next(Item&& it) noexcept(false) -> use<std::remove_cvref_t<Item>> {
    vc_assert(out.n == 0, "no item is made after the sequence has completed");
    if (throw_in_next) maybe_throw("set_next throws");
    return {static_cast<Item&&>(it)};
  }
};
// subscribe on the heap, destroyed by its completion
template <class Seq, class R>
struct sbox {
  exec::subscribe_result_t<Seq, R> op;
  static inline sbox* cur = nullptr;
  sbox(Seq&& s, R r) : op(exec::subscribe(static_cast<Seq&&>(s), static_cast<R&&>(r))) {}
};
template <class F, class R = srcvr<>>
bool sgo(F make, R r = R{}) {
  using Seq = decltype(make());
  using box = sbox<Seq, R>;
  try {
    auto s = make();
    box::cur = new box(std::move(s), r);
  } catch (thrown const&) {
    vc_assert(out.n == 0, "nothing completes when subscribe throws");
    return false;
  }
  destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
  if (stop_late) ask_stop();
  stop_late = false;
  ex::start(box::cur->op);
  return true;
}
void sdone() {
  finished();
  vc_assert(active_items == 0, "the sequence completes after its items");
  for (auto& s : seqs) vc_assert(s.live == 0 && s.started == s.completed && s.started <= 1, "every sequence runs at most once, to its end");
  all_destroyed();
}
// item number i of sequence id was seen as the n-th one, as it was sent
void saw(int n, int kid, uint32_t add = 0) {
  vc_assert(n < nseen && seen[n].kind == kids[kid].kind, "an item completes the way it was sent");
  if (kids[kid].kind != STOPPED) vc_assert(seen[n].v == kids[kid].v + (kids[kid].kind == VALUE ? add : 0), "an item carries what was sent");
}
int seen_of_kid(int kid) {
  int c = 0;
  for (int i = 0; i < nseen; ++i) c += seen[i].kind == kids[kid].kind && (kids[kid].kind == STOPPED || seen[i].v == kids[kid].v);
  return c;
}
}  // namespace
