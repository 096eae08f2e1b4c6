// associate: a sender that is tied to a scope
#include "lib.h"
using namespace vt;

namespace {
struct scope_t { int live = 0, made = 0; bool open = true; };
scope_t* sc;
struct assoc {
  scope_t* s = nullptr;
  assoc() = default;
  explicit assoc(scope_t* p) noexcept : s(p) { if (s) { ++s->live; ++s->made; } }
  assoc(assoc&& o) noexcept : s(std::exchange(o.s, nullptr)) {}
  assoc& operator=(assoc o) noexcept { std::swap(s, o.s); return *this; }
  ~assoc() {
    if (!s) return;
    --s->live;
    for (int i = 0; i < NKIDS; ++i)
      vc_assert(kids[i].live_ops == 0 || s->live > 0, "an association is held until the work that it protects is destroyed");
  }
  explicit operator bool() const noexcept { return s != nullptr; }
  assoc try_associate() const noexcept { return s && s->open ? assoc(s) : assoc(); }
};
int wrapped_live = 0;
template <class Snd>
struct wrapped {
  using sender_concept = ex::sender_t;
  using completion_signatures = typename Snd::completion_signatures;
  Snd s;
  tok t{9};
  explicit wrapped(Snd x) noexcept : s(std::move(x)) { ++wrapped_live; }
  wrapped(wrapped&& o) : s(std::move(o.s)), t(std::move(o.t)) { ++wrapped_live; }
  wrapped(wrapped const & o) : s(o.s), t(o.t) { ++wrapped_live; }
  ~wrapped() { --wrapped_live; }
  template <class R> auto connect(R r) && { t.check(); return ex::connect(std::move(s), std::move(r)); }
  template <class R> auto connect(R r) const & { t.check(); return ex::connect(s, std::move(r)); }
};
struct token {
  template <class Snd> auto wrap(Snd s) const noexcept { return wrapped<Snd>(std::move(s)); }
  assoc try_associate() const noexcept { return sc->open ? assoc(sc) : assoc(); }
};
using SG = sigs<V<ntok>, E<etok>, S>;
void judge(bool started, bool admitted) {
  if (!started) { aborted(); return; }
  finished();
  if (!admitted) {
    vc_cover("not associated");
    vc_assert(out.kind == STOPPED && kids[0].started == 0, "a sender that could not be associated completes with stopped and runs nothing");
  } else {
    vc_cover("associated");
    vc_assert(kids[0].started == 1 && out.kind == kids[0].kind && (out.kind == STOPPED || out.v[0] == kids[0].v), "an associated sender completes as the wrapped one does");
  }
}
}  // namespace

template <bool Copy, bool NxConnect>
static void assoc_life(int throws) {
  sc = new scope_t;
  sc->open = vc_bool("the scope is open");
  throws_left = throws;
  bool admitted = false, closed_later = vc_bool("closed before the sender is connected");
  bool started = false;
  {
    auto make = [&] { return ex::associate(child<0, SG, NxConnect>{}, token{}); };
    using A = decltype(make());
    A* a = nullptr;
    try { a = new A(make()); } catch (thrown const &) {}
    if (a) {
      admitted = sc->live == 1;
      vc_assert(admitted == sc->open, "the sender is associated exactly when the scope is open");
      if (closed_later) sc->open = false;
      if constexpr (Copy) {
        // the copy is associated on its own
        admitted = admitted && sc->open;
        try {
          auto const & c = *a;
          started = launch(c, rcvr<>{});
        } catch (thrown const &) {}
      } else {
        try { started = launch(std::move(*a), rcvr<>{}); } catch (thrown const &) {}
      }
      throws_left = 0;
      delete a;
    }
  }
  drain();
  vc_assert(sc->live == 0, "every association is released exactly once");
  vc_assert(wrapped_live == 0, "the wrapped sender is destroyed");
  delete sc;
  judge(started, admitted);
  all_destroyed();
}
PROOF(assoc_move) { assoc_life<false, true>(0); }
PROOF(assoc_move_throws) { assoc_life<false, false>(1); }
PROOF(assoc_copy) { assoc_life<true, true>(0); }
PROOF(assoc_copy_throws) { assoc_life<true, false>(1); }

// copies and moves of the sender
PROOF(assoc_sender_copies) {
  sc = new scope_t;
  sc->open = vc_bool("open");
  throws_left = vc_choice(2, "throws");
  using A = decltype(ex::associate(child<0, SG>{}, token{}));
  A* a[3] = {};
  int n = 0;
  try {
    a[0] = new A(ex::associate(child<0, SG>{}, token{}));
    n = sc->open;
    vc_assert(sc->live == n, "one association per sender");
    if (vc_bool("close")) sc->open = false;
    a[1] = new A(*a[0]);
    n += n && sc->open;
    vc_assert(sc->live == n, "a copy is associated on its own, while the scope is open");
    a[2] = new A(std::move(*a[0]));
    vc_assert(sc->live == n, "a move transfers the association");
  } catch (thrown const &) {}
  if (vc_bool("copy first")) delete std::exchange(a[1], nullptr);
  for (auto* p : a) delete p;
  vc_assert(sc->live == 0, "every association is released exactly once");
  vc_assert(wrapped_live == 0, "the wrapped sender is destroyed");
  delete sc;
  all_destroyed();
}

// counting_scope: a stop request reaches all its work, together with the receiver's own
PROOF(counting_scope_stop) {
  static ex::counting_scope* cs;
  cs = new ex::counting_scope;
  kids[0].watch_stop = true;
  defer_mode = 1;
  bool early = vc_bool("the scope is stopped first");
  if (early) cs->request_stop();
  auto r = stop_rcvr();
  bool ok = go([&] { return ex::associate(child<0, SG>{}, cs->get_token()); }, r);
  bool mine = vc_bool("the receiver's stop"), scope = early || vc_bool("the scope's stop");
  if (mine) ask_stop();
  if (scope && !early) cs->request_stop();
  drain();
  finished();
  vc_assert(kids[0].stop_seen == (mine || scope), "work sees exactly the stop requests of its scope and of its receiver");
  struct jr {
    using receiver_concept = ex::receiver_t;
    void set_value() noexcept { delete cs; cs = nullptr; }
    void set_error(std::exception_ptr) noexcept {}
    void set_stopped() noexcept {}
    auto get_env() const noexcept { return ex::prop(ex::get_start_scheduler, ex::inline_scheduler{}); }
  };
  {
    auto j = ex::connect(cs->join(), jr{});
    ex::start(j);
  }
  vc_assert(cs == nullptr, "the scope drained");
  stop_done();
  all_destroyed();
}
// the fused stop callback: invoked once, for whichever source asks first
namespace {
int calls;
struct fn { void operator()() noexcept { ++calls; } };
}
PROOF(fused_callback) {
  using ft = ex::__stop_when_::__stop_when_impl::__fused_token<ex::inplace_stop_token, ex::inplace_stop_token>;
  auto* a = new ex::inplace_stop_source;
  auto* b = new ex::inplace_stop_source;
  int order = vc_choice(6, "order");
  bool reg = false;
  using cb = ft::callback_type<fn>;
  cb* c = nullptr;
  ft t{a->get_token(), b->get_token()};
  bool as = false, bs = false;
  for (int k = 0; k < 3; ++k) {
    int what = (order + k * (order < 3 ? 1 : 2)) % 3;
    if (what == 0) { c = new cb(t, fn{}); reg = true; }
    if (what == 1) { a->request_stop(); as = true; }
    if (what == 2) { b->request_stop(); bs = true; }
    vc_assert(t.stop_requested() == (as || bs), "the fused token sees either request");
    vc_assert(calls == (reg && (as || bs)), "the callback runs exactly once, on the first request");
  }
  vc_assert(t.stop_possible(), "a stop is possible");
  delete c;
  delete a;
  delete b;
  all_destroyed();
}
