// a type-erased sequence delivers the items and the completion of the sequence it holds
#include "seq.h"
#include <exec/sequence/any_sequence_of.hpp>

namespace {
using AnySeq = exec::any_sequence_sender<exec::any_sequence_receiver<isigs>>;
struct big : oseq<> {   // does not fit into the buffer
  char pad[96];
};
AnySeq make(int n, bool large) {
  if (large) {
    big b{mk(0, 0, n)};
    return AnySeq(std::move(b));
  }
  return AnySeq(mk(0, 0, n));
}
void check(int n) {
  vc_assert(nseen == seqs[0].nexts, "every item is delivered once");
  for (int i = 0; i < nseen; ++i) saw(i, i);
  if (!breaks && !seqs[0].broke) vc_assert(nseen == n, "every item is delivered");
  vc_assert(seqs[0].started == 1 && out.kind == seqs[0].kind && (out.kind != ERROR || out.v[0] == seqs[0].err), "the completion of the sequence passes through");
  if (nseen == 2) vc_cover("two items");
  if (seqs[0].broke) vc_cover("a break");
}
}
PROOF(sequence) {
  may_break = true;
  int n = (int)vc_choice(3, "items");
  bool large = vc_choice(2, "large");
  sgo([=] { return make(n, large); });
  drain();
  check(n);
  sdone();
}
PROOF(moved_sequence) {
  sgo([=] {
    AnySeq a = make(1, vc_choice(2, "large")), b = make(1, vc_choice(2, "large"));
    AnySeq c(std::move(a));
    a = std::move(b);
    swap(a, c);
    return a;
  });
  drain();
  check(1);
  sdone();
}
PROOF(never_subscribed) {
  { AnySeq a = make(1, vc_choice(2, "large")); }
  aborted();
}
PROOF(never_started) {
  {
    AnySeq a = make(1, vc_choice(2, "large"));
    auto op = exec::subscribe(std::move(a), srcvr<>{});
  }
  aborted();
}
// queries reach the held sequence
namespace {
template <class E, class Q>
concept has_query = requires(E const & e, Q q) { e.query(q); };
struct get_mark_t {
  static constexpr auto query(ex::forwarding_query_t) noexcept -> bool { return true; }
  template <class E> requires has_query<E, get_mark_t>
  auto operator()(E const & e) const noexcept -> decltype(e.query(std::declval<get_mark_t>())) { return e.query(*this); }
};
struct qenv {
  uint32_t m;
  auto query(get_mark_t) const noexcept -> uint32_t { return m; }
};
uint32_t mark;
int asked = 0;
template <class R>
struct asks_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  void start() & noexcept {
    vc_assert(get_mark_t{}(ex::get_env(r)) == mark, "the queries of the receiver are forwarded");
    ++asked;
    ex::set_stopped(static_cast<R&&>(r));
  }
};
struct asks {
  using sender_concept = exec::sequence_sender_tag;
  using completion_signatures = sigs<V0, E<etok>, S>;
  using item_types = exec::item_types<item<>>;
  template <class R>
  auto subscribe(R r) const noexcept -> asks_op<R> { return {static_cast<R&&>(r)}; }
  auto query(get_mark_t) const noexcept -> uint32_t { return mark + 1; }
  auto get_env() const noexcept -> asks const & { return *this; }
};
using AnyAsk = exec::any_sequence_sender<
  exec::any_sequence_receiver<isigs, exec::queries<uint32_t(get_mark_t) noexcept>>,
  exec::queries<uint32_t(get_mark_t) noexcept>>;
}
PROOF(queries) {
  mark = vc_u32("mark");
  sgo([] {
    AnyAsk a(asks{});
    vc_assert(get_mark_t{}(ex::get_env(a)) == mark + 1, "the queries of the sequence are forwarded");
    return a;
  }, srcvr<qenv>(qenv{mark}));
  finished();
  vc_assert(asked == 1 && out.kind == STOPPED, "the completion passes through");
  all_destroyed();
}
