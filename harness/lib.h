// Instrumented values, receivers and opaque child senders used by the contracts.
//
// A child sender is *opaque*: its behaviour is only constrained by the sender contract
// (it may complete inline in start() or later, on any of its channels, exactly once).
// Values carry a symbolic identity, may throw from copy/move, and account for every
// construction and destruction.
#pragma once
#include <stdexec/execution.hpp>
#include "vc.h"
#include <atomic>
#include <exception>
#include <new>
#include <tuple>
#include <utility>
#include <variant>
#include <optional>

namespace ex = stdexec;

namespace vt {

inline int live = 0;         // live instrumented values
inline int throws_left = 0;  // how many more user-code operations may throw on this path
inline int thrown_count = 0;
inline uint32_t last_throw = 0;

struct thrown {
  uint32_t id;
};

constexpr uint32_t ALIVE = 0xA11FE5E1u, DEAD = 0xDEADDEADu, MOVED = 0xFFFFFFFEu;

inline void maybe_throw(const char* where) {
  if (throws_left > 0) {
    if (vc_choice(2, where)) {
      --throws_left;
      ++thrown_count;
      last_throw = 1000u + (uint32_t)thrown_count;
      throw thrown{last_throw};
    }
  }
}

template <bool Nothrow, int Kind = 0, bool NxCopy = Nothrow>
struct basic_tok {
  uint32_t id;
  uint32_t magic;
  basic_tok* self;

  explicit basic_tok(uint32_t i) noexcept
    : id(i), magic(ALIVE), self(this) {
    ++live;
  }
  basic_tok(basic_tok const & o) noexcept(NxCopy) {
    o.check();
    if constexpr (!NxCopy) maybe_throw("copy throws");
    id = o.id;
    magic = ALIVE;
    self = this;
    ++live;
  }
  basic_tok(basic_tok&& o) noexcept(Nothrow) {
    o.check();
    if constexpr (!Nothrow) maybe_throw("move throws");
    id = o.id;
    o.id = MOVED;
    magic = ALIVE;
    self = this;
    ++live;
  }
  basic_tok& operator=(basic_tok const & o) noexcept(NxCopy) {
    check();
    o.check();
    if constexpr (!NxCopy) maybe_throw("copy assignment throws");
    id = o.id;
    return *this;
  }
  basic_tok& operator=(basic_tok&& o) noexcept(Nothrow) {
    check();
    o.check();
    if constexpr (!Nothrow) maybe_throw("move assignment throws");
    if (this != &o) {
      id = o.id;
      o.id = MOVED;
    }
    return *this;
  }
  ~basic_tok() {
    vc_assert(magic == ALIVE, "a value is destroyed only while it is alive");
    vc_assert(self == this, "a value is never relocated bitwise");
    magic = DEAD;
    --live;
  }
  void check() const noexcept {
    vc_assert(magic == ALIVE, "a value is only used while it is alive");
    vc_assert(self == this, "a value is never relocated bitwise");
  }
  uint32_t get() const noexcept {
    check();
    return id;
  }
  bool operator==(basic_tok const & o) const noexcept {
    return get() == o.get();
  }
};

using tok = basic_tok<false>;   // copy and move may throw
using ntok = basic_tok<true>;   // never throws
using etok = basic_tok<true, 1>;  // error values
using tetok = basic_tok<false, 1>;  // error values that may throw

using xtok = basic_tok<true, 2, false>;   // moves never throw, copies may
using xetok = basic_tok<true, 3, false>;

// ------------------------------------------------------------------ observed outcome
enum { NONE = 0, VALUE = 1, ERROR = 2, STOPPED = 3 };
struct outcome_t {
  int n;          // how many times the receiver was completed
  int kind;
  int nv;         // number of arguments
  uint32_t v[6];  // their identities
  int err;        // 1: error value, 2: exception_ptr holding vt::thrown, 3: other exception
};
inline outcome_t out{};

constexpr uint32_t EXC = 0xE0000000u;

template <bool N, int K, bool C>
inline uint32_t idof(basic_tok<N, K, C> const & t) noexcept {
  return t.get();
}
inline uint32_t idof(uint32_t x) noexcept {
  return x;
}
inline uint32_t idof(std::exception_ptr const & e) noexcept {
  vc_assert((bool)e, "an exception_ptr that is delivered is never null");
  try {
    std::rethrow_exception(e);
  } catch (thrown const & t) {
    out.err = 2;
    return t.id;
  } catch (std::bad_alloc const &) {
    out.err = 3;
    return 0xBADA110C;
  } catch (...) {
    out.err = 4;
    return 0xBAD;
  }
}
template <class... Ts>
inline uint32_t idof(std::variant<Ts...> const & t) noexcept;
template <class... Ts>
inline uint32_t idof(std::tuple<Ts...> const & t) noexcept {
  uint32_t h = 0x70000000u;
  std::apply([&](auto const &... x) { ((h = h * 1u + idof(x)), ...); }, t);
  return h;
}
template <class... Ts>
inline uint32_t idof(std::variant<Ts...> const & t) noexcept {
  return std::visit([](auto const & x) noexcept { return idof(x); }, t);
}
template <class T>
inline uint32_t idof(std::optional<T> const & t) noexcept {
  return t ? idof(*t) : 0x0u;
}

inline void (*destroy_op)() = nullptr;  // destroys the operation when it completes
inline bool in_completion = false;
inline void (*on_complete)() = nullptr;

inline void completed() noexcept {
  if (on_complete) on_complete();
  if (destroy_op) {
    auto d = destroy_op;
    destroy_op = nullptr;
    d();
  }
}

inline void first_completion() noexcept {
  vc_assert(out.n == 0, "the receiver is completed at most once");
  ++out.n;
}

template <class Env = ex::env<>>
struct rcvr {
  using receiver_concept = ex::receiver_t;
  Env env_{};

  template <class... As>
  void set_value(As&&... as) noexcept {
    first_completion();
    out.kind = VALUE;
    out.nv = sizeof...(As);
    int i = 0;
    ((out.v[i++] = idof(as)), ...);
    completed();
  }
  template <class E>
  void set_error(E&& e) noexcept {
    first_completion();
    out.kind = ERROR;
    out.nv = 1;
    out.err = 1;
    out.v[0] = idof(e);
    completed();
  }
  void set_stopped() noexcept {
    first_completion();
    out.kind = STOPPED;
    completed();
  }
  auto get_env() const noexcept -> Env const & {
    return env_;
  }
};
template <class Env>
rcvr(Env) -> rcvr<Env>;

// ------------------------------------------------------------------ opaque children
struct kid_t {
  void (*complete)(void*);  // set while the child is running
  void* op;
  int connected, started, completed, live_ops;
  int kind;      // channel used
  unsigned sig;  // index of the signature used
  uint32_t v;    // identity sent
  bool stop_seen;
  int order;     // sequence number of completion
  int start_order;
  void (*on_start)();
  void (*on_finish)();
  bool watch_stop;   // record whether a stop was requested when the child completes
  unsigned fixed;    // n > 0: it always completes with its n-th signature
};
constexpr int NKIDS = 6;
inline kid_t kids[NKIDS]{};
inline bool stop_by_child = false;
inline void stop_at_start();
inline int seq_no = 0;
inline int defer_mode = 2;   // 0: always inline, 1: always deferred, 2: either

inline bool kid_pending(int i) {
  return kids[i].complete != nullptr;
}
inline std::atomic<int> pub[NKIDS]{};
inline bool publish = false;   // children may be completed by another thread while start() runs
inline void await_kid(int i) {
  vc_await((int const *)&pub[i]);
  (void)pub[i].load(std::memory_order_acquire);
}
inline void complete_kid(int i) {
  auto f = kids[i].complete;
  auto* op = kids[i].op;
  vc_assert(f != nullptr, "harness: child is pending");
  kids[i].complete = nullptr;
  f(op);
}

template <class... Ts>
struct types {};

// channel descriptions
struct no_stop_query {};

template <int Id, class Sigs, bool NxConnect, class Attrs>
struct child;

template <int Id, class Rcvr, class Sigs>
struct child_op;

// which child this is: known statically, or (Id -1) only at run time
template <int Id>
struct kid_id {
  static constexpr int id_ = Id;
  explicit kid_id(int) noexcept {}
};
template <>
struct kid_id<-1> {
  int id_;
  explicit kid_id(int i) noexcept : id_(i) {}
};

template <int Id, class Rcvr, class... Sigs>
struct child_op<Id, Rcvr, ex::completion_signatures<Sigs...>> : kid_id<Id> {
  using operation_state_concept = ex::operation_state_t;
  Rcvr rcvr_;
  bool running = false;
  uint32_t magic = ALIVE;
  // what is sent lives in the operation, and dies with it
  void* held = nullptr;
  void (*drop)(void*) noexcept = nullptr;
  template <class T, class... Args>
  T& hold(Args... args) noexcept {
    T* t = new T(args...);
    held = t;
    drop = [](void* p) noexcept { delete static_cast<T*>(p); };
    return *t;
  }

  explicit child_op(Rcvr r, int i = Id) noexcept(std::is_nothrow_move_constructible_v<Rcvr>)
    : kid_id<Id>{i}
    , rcvr_(static_cast<Rcvr&&>(r)) {
    ++kids[this->id_].live_ops;
  }
  child_op(child_op&&) = delete;
  ~child_op() {
    vc_assert(magic == ALIVE, "a child operation is destroyed once");
    vc_assert(!running, "a running child operation is never destroyed");
    magic = DEAD;
    --kids[this->id_].live_ops;
    if (drop) drop(held);
  }

  void start() & noexcept {
    vc_assert(magic == ALIVE, "a child operation is alive when it is started");
    ++kids[this->id_].started;
    kids[this->id_].start_order = ++seq_no;
    running = true;
    if (kids[this->id_].on_start) kids[this->id_].on_start();
    stop_at_start();
    bool defer = defer_mode == 1 || (defer_mode == 2 && vc_choice(2, "child completes later"));
    if (defer) {
      kids[this->id_].complete = [](void* p) { static_cast<child_op*>(p)->finish(); };
      kids[this->id_].op = this;
      if (publish) pub[this->id_].store(1, std::memory_order_release);
    } else {
      finish();
    }
  }

  void finish() noexcept {
    vc_assert(magic == ALIVE, "a child operation stays alive until it completes");
    if (kids[this->id_].watch_stop)
      kids[this->id_].stop_seen = ex::get_stop_token(ex::get_env(rcvr_)).stop_requested();
    if (kids[this->id_].on_finish) kids[this->id_].on_finish();
    running = false;
    ++kids[this->id_].completed;
    kids[this->id_].order = ++seq_no;
    unsigned c = sizeof...(Sigs) == 1 ? 0u : kids[this->id_].fixed ? kids[this->id_].fixed - 1 : vc_choice(sizeof...(Sigs), "channel");
    kids[this->id_].sig = c;
    unsigned i = 0;
    ((i++ == c ? (send((Sigs*)nullptr), 0) : 0), ...);
  }

  template <class... As>
  void send(ex::set_value_t (*)(As...)) noexcept {
    kids[this->id_].kind = VALUE;
    if constexpr (sizeof...(As) == 0) {
      ex::set_value(static_cast<Rcvr&&>(rcvr_));
    } else {
      uint32_t x = kids[this->id_].v = vc_u32("value");
      send_value((types<As...>*)nullptr, x);
    }
  }
  template <class... As>
  void send_value(types<As...>*, uint32_t x) noexcept {
    auto& t = hold<std::tuple<holder<As>...>>(same<As>(x)...);
    // the second and later arguments have identities x+1, x+2, ...
    uint32_t k = 0;
    std::apply([&](auto&... h) { ((h.bump(k++)), ...); }, t);
    std::apply([&](auto&... h) { ex::set_value(static_cast<Rcvr&&>(rcvr_), h.fwd()...); }, t);
  }
  template <class A>
  static uint32_t same(uint32_t x) noexcept { return x; }
  template <class A>
  struct holder {
    std::remove_cvref_t<A> a;
    explicit holder(uint32_t x) noexcept : a(x) {}
    void bump(uint32_t k) noexcept {
      if constexpr (requires { a.id; }) a.id += k;
      else a += k;
    }
    A&& fwd() noexcept { return static_cast<A&&>(a); }
  };
  template <class E>
  void send(ex::set_error_t (*)(E)) noexcept {
    kids[this->id_].kind = ERROR;
    uint32_t x = kids[this->id_].v = vc_u32("error");
    if constexpr (std::is_same_v<std::remove_cvref_t<E>, std::exception_ptr>) {
      ex::set_error(static_cast<Rcvr&&>(rcvr_), std::make_exception_ptr(thrown{x}));
    } else {
      auto& e = hold<std::remove_cvref_t<E>>(x);
      ex::set_error(static_cast<Rcvr&&>(rcvr_), static_cast<E&&>(e));
    }
  }
  void send(ex::set_stopped_t (*)()) noexcept {
    kids[this->id_].kind = STOPPED;
    ex::set_stopped(static_cast<Rcvr&&>(rcvr_));
  }
};

template <int Id, class Sigs, bool NxConnect = true, class Attrs = ex::env<>>
struct child {
  using sender_concept = ex::sender_t;
  using completion_signatures = Sigs;
  ntok guard{77};

  template <class R>
  auto connect(R r) && noexcept(NxConnect) -> child_op<Id, R, Sigs> {
    guard.check();
    if constexpr (!NxConnect) maybe_throw("connect throws");
    ++kids[Id].connected;
    return child_op<Id, R, Sigs>{static_cast<R&&>(r)};
  }
  template <class R>
  auto connect(R r) const & noexcept(NxConnect) -> child_op<Id, R, Sigs> {
    guard.check();
    if constexpr (!NxConnect) maybe_throw("connect throws");
    ++kids[Id].connected;
    return child_op<Id, R, Sigs>{static_cast<R&&>(r)};
  }
  auto get_env() const noexcept -> Attrs {
    return {};
  }
};

// a child whose sender may throw when it is copied or moved
template <int Id, class Sigs, bool NxConnect = true, class Attrs = ex::env<>>
struct tchild {
  using sender_concept = ex::sender_t;
  using completion_signatures = Sigs;
  tok guard{78};
  template <class R>
  auto connect(R r) && noexcept(NxConnect) -> child_op<Id, R, Sigs> {
    guard.check();
    if constexpr (!NxConnect) maybe_throw("connect throws");
    ++kids[Id].connected;
    return child_op<Id, R, Sigs>{static_cast<R&&>(r)};
  }
  template <class R>
  auto connect(R r) const & noexcept(NxConnect) -> child_op<Id, R, Sigs> {
    guard.check();
    if constexpr (!NxConnect) maybe_throw("connect throws");
    ++kids[Id].connected;
    return child_op<Id, R, Sigs>{static_cast<R&&>(r)};
  }
  auto get_env() const noexcept -> Attrs { return {}; }
};
// copying may throw, moving does not
template <int Id, class Sigs>
struct cchild : tchild<Id, Sigs> {
  struct g {
    tok t{79};
    g() = default;
    g(g&& o) noexcept : t(o.t.get()) {}
    g(g const & o) : t(o.t) {}
  };
  g guard2;
  cchild() = default;
  cchild(cchild&& o) noexcept : tchild<Id, Sigs>{tok(o.guard.get())}, guard2(static_cast<g&&>(o.guard2)) {}
  cchild(cchild const & o) : tchild<Id, Sigs>{tok(o.guard.get())}, guard2(o.guard2) {}
};

// a child that completes with set_stopped as soon as a stop is requested, possibly from
// inside the stop callback; complete_kid(Id) makes it complete with a value first
inline std::atomic<int> claim[NKIDS]{};
template <int Id, class Rcvr, class Sigs>
struct lchild_op {
  using operation_state_concept = ex::operation_state_t;
  using token_t = ex::stop_token_of_t<ex::env_of_t<Rcvr>>;
  struct on_stop {
    lchild_op* self;
    void operator()() noexcept {
      if (claim[Id].fetch_or(2) != 1) return;  // not started, or the value was first
      self->stop();
    }
  };
  using cb_t = ex::stop_callback_for_t<token_t, on_stop>;
  Rcvr rcvr_;
  uint32_t magic = ALIVE;
  std::optional<cb_t> cb;
  explicit lchild_op(Rcvr r) noexcept : rcvr_(static_cast<Rcvr&&>(r)) { ++kids[Id].live_ops; claim[Id] = 0; }
  lchild_op(lchild_op&&) = delete;
  ~lchild_op() {
    vc_assert(magic == ALIVE, "a child operation is destroyed once");
    vc_assert(kids[Id].started == kids[Id].completed, "a running child operation is never destroyed");
    magic = DEAD;
    --kids[Id].live_ops;
  }
  void start() & noexcept {
    ++kids[Id].started;
    kids[Id].start_order = ++seq_no;
    if (kids[Id].on_start) kids[Id].on_start();
    stop_at_start();
    cb.emplace(ex::get_stop_token(ex::get_env(rcvr_)), on_stop{this});
    kids[Id].complete = [](void* p) {
      if (claim[Id].fetch_or(4) != 1) return;
      static_cast<lchild_op*>(p)->finish();
    };
    kids[Id].op = this;
    if (claim[Id].fetch_or(1) & 2) stop();
  }
  void stop() noexcept {
    vc_assert(magic == ALIVE, "a child operation stays alive until it completes");
    kids[Id].complete = nullptr;
    cb.reset();
    kids[Id].kind = STOPPED;
    kids[Id].stop_seen = true;
    ++kids[Id].completed;
    kids[Id].order = ++seq_no;
    if (kids[Id].on_finish) kids[Id].on_finish();
    ex::set_stopped(static_cast<Rcvr&&>(rcvr_));
  }
  void finish() noexcept {
    vc_assert(magic == ALIVE, "a child operation stays alive until it completes");
    cb.reset();
    kids[Id].kind = VALUE;
    ++kids[Id].completed;
    kids[Id].order = ++seq_no;
    if (kids[Id].on_finish) kids[Id].on_finish();
    kids[Id].v = vc_u32("value");
    ex::set_value(static_cast<Rcvr&&>(rcvr_), ntok(kids[Id].v));
  }
};
template <int Id, class Attrs = ex::env<>>
struct lchild {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(ntok), ex::set_stopped_t()>;
  template <class R>
  auto connect(R r) const noexcept -> lchild_op<Id, R, completion_signatures> {
    ++kids[Id].connected;
    return lchild_op<Id, R, completion_signatures>{static_cast<R&&>(r)};
  }
  auto get_env() const noexcept -> Attrs { return {}; }
};
// used from a thread: completes the child if it has not completed by itself
inline void try_complete_kid(int i) {
  auto f = kids[i].complete;
  auto* op = kids[i].op;
  kids[i].complete = nullptr;
  if (f) f(op);
}

// an environment with a stop token
struct stop_env {
  ex::inplace_stop_token t;
  auto query(ex::get_stop_token_t) const noexcept -> ex::inplace_stop_token { return t; }
};
inline ex::inplace_stop_source* src = nullptr;
inline bool stop_asked = false;
inline int stop_order = 0;
inline void ask_stop() {
  stop_asked = true;
  stop_order = ++seq_no;
  src->request_stop();
}
// a stop may be requested before the operation is connected, between connect and start, or by a child
// while it is being started
inline bool stop_late = false;
inline bool stop_before() {
  int c = vc_choice(4, "stop before connect, before start, or by a child's start");
  if (c == 1) ask_stop();
  stop_late = c == 2;
  stop_by_child = c == 3;
  return c == 1 || c == 2;
}
inline void stop_at_start() {
  if (!stop_by_child || !vc_choice(2, "this child's start requests a stop")) return;
  stop_by_child = false;
  ask_stop();
}
inline rcvr<stop_env> stop_rcvr() {
  src = new ex::inplace_stop_source;
  return rcvr<stop_env>{stop_env{src->get_token()}};
}

// a stop token of another type, which counts the callbacks that are registered with it
struct ctoken : ex::inplace_stop_token {
  int idx = 0;
  static inline std::atomic<int> cbs[4]{};
  template <class F> struct callback_type {
    int idx;
    ex::inplace_stop_callback<F> cb;
    template <class G> callback_type(ctoken t, G&& g) noexcept : idx(t.idx), cb((++cbs[t.idx], t), static_cast<G&&>(g)) {}
    ~callback_type() { --cbs[idx]; }
  };
};
struct cenv {
  ctoken t;
  auto query(ex::get_stop_token_t) const noexcept -> ctoken { return t; }
};
static_assert(ex::stoppable_token<ctoken>);
inline rcvr<cenv> counting_rcvr() {
  src = new ex::inplace_stop_source;
  return rcvr<cenv>{cenv{ctoken{src->get_token()}}};
}
inline void no_callbacks() {
  for (auto& c : ctoken::cbs) vc_assert(c.load() == 0, "no stop callback is left registered when the operation completes");
}
inline void stop_done() {
  delete src;
  src = nullptr;
}
// completes pending children in any order; a stop may be requested in between
inline void drain_with_stop(int maxrounds = 8);

template <class T> using V = ex::set_value_t(T);
using V0 = ex::set_value_t();
template <class T> using E = ex::set_error_t(T);
using S = ex::set_stopped_t();
template <class... Ss> using sigs = ex::completion_signatures<Ss...>;

// ------------------------------------------------------------------ running an operation
template <class Snd, class Rcvr>
struct opbox {
  ex::connect_result_t<Snd, Rcvr> op;
  static inline opbox* cur = nullptr;
  opbox(Snd&& s, Rcvr&& r)
    : op(ex::connect(static_cast<Snd&&>(s), static_cast<Rcvr&&>(r))) {}
};

// connects and starts on the heap; the operation is destroyed by the completion itself.
// returns false when connect threw.
template <class Snd, class Rcvr>
bool launch(Snd&& s, Rcvr r) {
  using box = opbox<Snd, Rcvr>;
  try {
    box::cur = new box(static_cast<Snd&&>(s), static_cast<Rcvr&&>(r));
  } catch (thrown const & t) {
    vc_assert(out.n == 0, "nothing completes when connect throws");
    return false;
  }
  vc_assert(out.n == 0, "nothing completes before start");
  for (int i = 0; i < NKIDS; ++i)
    vc_assert(kids[i].started == 0, "no child starts before the operation is started");
  destroy_op = [] {
    auto* p = box::cur;
    box::cur = nullptr;
    delete p;
  };
  if (stop_late) ask_stop();
  stop_late = false;
  ex::start(box::cur->op);
  return true;
}

// builds the sender and launches it.  The sender itself dies before anything completes later.
template <class F, class Rcvr = rcvr<>>
bool go(F make, Rcvr r = {}) {
  try {
    auto s = make();
    return launch(std::move(s), r);
  } catch (thrown const &) {
    vc_assert(out.n == 0, "nothing completes before start");
    return false;
  }
}

inline void drain();
inline void finished();
inline void aborted();
inline void all_destroyed();
// a result that is sent as an lvalue, and whose copy, but not its move, may throw: the exception
// is delivered as an error, or the result arrives as it was sent
using xsigs = ex::completion_signatures<ex::set_value_t(xtok const &), ex::set_error_t(xetok const &)>;
[[gnu::noinline]] inline void copied_or_threw(int kind, uint32_t v) {
  if (thrown_count) {
    vc_cover("the copy throws");
    vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from copying a result is delivered as set_error with that exception");
  } else {
    vc_assert(out.kind == kind && (kind == STOPPED || out.v[0] == v), "a result sent as an lvalue is delivered with the same value");
  }
}
template <class F, class Rcvr = rcvr<>>
void lvalue_result(F make, Rcvr r = {}) {
  throws_left = 1;
  if (!go(make, r)) return vc_fail("connect does not throw");
  drain();
  finished();
  copied_or_threw(kids[0].kind, kids[0].v);
  all_destroyed();
}

// connects a copy of the sender, which is connected again afterwards
template <class F, class Rcvr = rcvr<>>
bool go_copy(F make, Rcvr r = {}) {
  try {
    auto s = make();
    auto const & c = s;
    return launch(c, r);
  } catch (thrown const &) {
    vc_assert(out.n == 0, "nothing completes before start");
    return false;
  }
}

// completes pending children in an arbitrary order until none is left
inline void drain() {
  for (int round = 0; round < 8; ++round) {
    int pend[NKIDS], n = 0;
    for (int i = 0; i < NKIDS; ++i)
      if (kid_pending(i)) pend[n++] = i;
    if (n == 0) return;
    int k = n == 1 ? 0 : vc_choice(n, "next child to complete");
    complete_kid(pend[k]);
  }
}

inline void drain_with_stop(int maxrounds) {
  for (int round = 0; round < maxrounds; ++round) {
    int pend[NKIDS], n = 0;
    for (int i = 0; i < NKIDS; ++i)
      if (kid_pending(i)) pend[n++] = i;
    if (n == 0) return;
    int k = vc_choice(stop_asked ? n : n + 1, "next child to complete, or stop");
    if (k == n) ask_stop();
    else try_complete_kid(pend[k]);
  }
}

inline void finished() {
  vc_assert(out.n == 1, "the receiver is completed exactly once");
  for (int i = 0; i < NKIDS; ++i) {
    vc_assert(kids[i].live_ops == 0, "every child operation is destroyed");
  }
}
inline void all_destroyed();
// the sender could not be built or connected
inline void aborted() {
  vc_assert(out.n == 0, "nothing completes when the operation is not started");
  for (int i = 0; i < NKIDS; ++i)
    vc_assert(kids[i].started == 0 && kids[i].live_ops == 0, "nothing runs when the operation is not started");
  all_destroyed();
}
inline void all_destroyed() {
  vc_assert(live == 0, "every value is destroyed exactly once");
  vc_no_leaks("all memory is released");
}
}  // namespace vt
