// Asio operations as senders: whatever an asynchronous operation does with its completion handler, the
// receiver is completed once.  The operation is a stand-in that keeps every freedom an Asio operation has:
// it may invoke the handler, keep it, destroy it, post steps of its own through the handler's executor,
// and throw.
#include "lib.h"
#include <exec/asio/completion_token.hpp>
#include <exec/asio/use_sender.hpp>
//@replace ^boost::system::detail::snprintf => vt_snprintf
using namespace vt;
namespace asio = boost::asio;
namespace ea = exec::asio;

namespace {
// ------------------------------------------------------------------ what the operation did
bool called = false, dropped = false;
uint32_t sent = 0, first_exc = 0, nexc = 0;
int cancels = 0;          // how often the operation was told to cancel
bool has_slot = false;    // it listens
[[noreturn]] void raise() {
  uint32_t id = 0xE1 + nexc++;
  if (!first_exc) first_exc = id;
  throw thrown{id};
}
// owns a handler; destroying it without calling it abandons the operation
template <class H> struct holder {
  H h;
  bool own = true;
  explicit holder(H&& x) : h(std::move(x)) {}
  holder(holder&& o) noexcept : h(std::move(o.h)), own(std::exchange(o.own, false)) {}
  ~holder() { if (own) dropped = true; }
  template <class... As> void call(As&&... as) {
    own = false;
    called = true;
    h(static_cast<As&&>(as)...);
  }
};
struct pending {
  virtual void finish() = 0;   // completes, and destroys *this
  virtual ~pending() {}
};
pending* kept = nullptr;
std::atomic<pending*> kept_at{nullptr};
struct task {
  virtual void run() = 0;
  virtual ~task() {}
};
constexpr int MAXQ = 3;
task* queue[MAXQ];
int nq = 0;
std::atomic<task*> posted{nullptr};
std::atomic<int> runs{0}, steps{0};   // what executors ran, and what the steps saw of it
std::atomic<int> ready{0};
bool may_throw = true, posting_throws = false, inline_posts = true, publishing = false;

// the executor of the I/O object
struct plain_exec {
  int id = 7;
  template <class F> void execute(F f) const {
    vc_assert(id == 7, "the executor is the one of the operation");
    if (posting_throws && vc_bool("posting throws")) { vc_cover("posting throws"); raise(); }
    if (inline_posts && vc_bool("the executor runs it at once")) { ++runs; return f(); }
    struct impl final : task {
      F f;
      explicit impl(F&& x) : f(std::move(x)) {}
      void run() override { ++runs; f(); }
    };
    task* t = new impl(std::move(f));
    if (publishing) { posted.store(t); ready.store(1); return; }
    queue[nq++] = t;
  }
  bool operator==(plain_exec const &) const noexcept = default;
};
template <class H> auto exec_of(H const & h) {
  return asio::associated_executor<H, plain_exec>::get(h, plain_exec{});
}
template <class H> void listen(H const & h) {
  h.get_cancellation_slot().assign([](asio::cancellation_type t) {
    vc_assert(t == asio::cancellation_type::all, "every kind of cancellation is asked for");
    vc_assert(out.n == 0, "a completed operation is not told to cancel");
    ++cancels;
  });
  has_slot = true;
}
template <class H> void keep(holder<H>&& h, bool slot) {
  struct impl final : pending {
    holder<H> h;
    explicit impl(holder<H>&& x) : h(std::move(x)) {}
    void finish() override {
      holder<H> x(std::move(h));
      delete this;
      has_slot = false;
      sent = vc_u32("value");
      x.call(ntok(sent));
    }
  };
  if (slot) listen(h.h);
  pending* p = new impl(std::move(h));
  if (publishing) { kept_at.store(p); ready.store(1); }
  else kept = p;
}
enum { COMPLETE, KEEP, LISTEN, DROP, POST, THROW, KEEP_THROW, DROP_THROW, POST_THROW, NSTEPS };
int posts_left = 2;
// what the initiating function, or a step of the operation, does with the handler
template <class H> void step(holder<H> h) {
  unsigned c = vc_choice(may_throw ? NSTEPS : POST + 1, "step");
  if (c == THROW) raise();
  switch (c) {
  case COMPLETE: sent = vc_u32("value"); return h.call(ntok(sent));
  case KEEP: case KEEP_THROW: keep(std::move(h), false); break;
  case LISTEN: keep(std::move(h), true); break;
  case DROP: case DROP_THROW: { holder<H> x(std::move(h)); break; }
  case POST: case POST_THROW: {
    if (posts_left-- <= 0) { vc_assume(false); }
    auto ex = exec_of(h.h);
    if (may_throw && c == POST) {
      // the function that is posted may throw when it is moved
      ex.execute([h = std::move(h), g = tok(6)]() mutable { ++steps; vc_assert(g.get() == 6, "the function that is run is the one that was posted"); step(std::move(h)); });
    } else ex.execute([h = std::move(h)]() mutable { ++steps; step(std::move(h)); });
    break;
  }
  }
  if (c >= KEEP_THROW) {
    vc_assume(!called);   // nothing throws after the handler has been called
    raise();
  }
}
struct init_ {
  tok guard;
  explicit init_(uint32_t i) : guard(i) {}
  template <class H> void operator()(H h, tok arg) {
    vc_assert(guard.get() == 3 && arg.get() == 4, "the initiating function and its argument are those that were given");
    holder<H> x(std::move(h));
    step(std::move(x));
  }
};
template <class... Sigs, class Init, class Tok, class... As>
auto initiate(Init i, Tok const & t, As... as) {
  return asio::async_result<Tok, Sigs...>::initiate(std::move(i), t, std::move(as)...);
}
auto make() { return initiate<void(ntok)>(init_(3), ea::completion_token, tok(4)); }

// the rest of the operation's life: posted steps run or are thrown away, what was kept is completed or dropped
void rest(bool stops) {
  for (int round = 0; round < 6; ++round) {
    int n = nq + (kept ? 1 : 0);
    if (!n) return;
    if (stops && !stop_asked && vc_bool("stop")) {
      int c = cancels;
      bool told = has_slot && kept;
      ask_stop();
      if (told) { vc_assert(cancels == c + 1, "a stop request reaches the operation"); vc_cover("cancelled"); }
      continue;
    }
    if (nq) {
      task* t = queue[--nq];
      if (vc_bool("the step runs")) t->run();
      delete t;
    } else {
      pending* p = kept;
      kept = nullptr;
      if (vc_bool("the operation completes")) p->finish();
      else { has_slot = false; delete p; }
    }
  }
}
void outcome() {
  vc_assert(out.n == 1, "the receiver is completed exactly once");
  vc_assert(called || dropped, "the operation has ended");
  vc_assert(runs == steps, "what is posted through the handler's executor is run when the executor runs it");
  if (first_exc) vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == first_exc, "the first exception is delivered as an error");
  else if (called) vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == sent, "the handler's arguments are delivered");
  else vc_assert(out.kind == STOPPED, "an abandoned operation is stopped");
}
void ended() { vc_assert(called || dropped, "nothing completes while the operation is outstanding"); }
}  // namespace

//@proofopt completes max_paths=60000
PROOF(completes) {
  on_complete = ended;
  if (!go([] { return make(); })) return vc_fail("does not throw");
  rest(false);
  outcome();
  all_destroyed();
}
PROOF(posting_fails) {
  posting_throws = true;
  may_throw = false;
  on_complete = ended;
  if (!go([] { return make(); })) return vc_fail("does not throw");
  rest(false);
  outcome();
  all_destroyed();
}
// moves of the initiating function and its arguments may throw
PROOF(throws) {
  may_throw = false;
  inline_posts = false;
  throws_left = 1;
  if (!go_copy([] { return make(); })) return aborted();
  rest(false);
  if (thrown_count && !first_exc) {
    vc_assert(out.n == 1 && out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception is delivered as an error");
    return all_destroyed();
  }
  outcome();
  all_destroyed();
}
PROOF(stops) {
  inline_posts = false;
  posts_left = 1;
  auto r = stop_rcvr();
  on_complete = ended;
  bool before = stop_before();
  if (!go([] { return make(); }, r)) return vc_fail("does not throw");
  if (before && kept && has_slot) { vc_assert(cancels == 1, "an earlier stop request reaches the operation when it has started"); vc_cover("cancelled at once"); }
  rest(true);
  outcome();
  stop_done();
  all_destroyed();
}
PROOF(deregisters) {
  inline_posts = false;
  posts_left = 1;
  auto r = counting_rcvr();
  on_complete = [] { ended(); no_callbacks(); };
  stop_before();
  if (!go([] { return make(); }, r)) return vc_fail("does not throw");
  rest(true);
  outcome();
  stop_done();
  all_destroyed();
}

// ------------------------------------------------------------------ threads
namespace {
enum { R_KEEP, R_LISTEN, R_COMPLETE, R_DROP, R_THROW };
// the first step is taken by start(), the next one by the thread that runs what was posted
int first_step, second_step;
template <class H> void take(holder<H> h, int s) {
  switch (s) {
  case R_KEEP: keep(std::move(h), false); break;
  case R_LISTEN: keep(std::move(h), true); break;
  case R_COMPLETE: sent = 5; h.call(ntok(5)); break;
  case R_DROP: break;
  case R_THROW: raise();
  }
}
struct init_posts {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    if (first_step == R_LISTEN) listen(x.h);
    auto ex = exec_of(x.h);
    ex.execute([h = std::move(x)]() mutable { ++steps; take(std::move(h), second_step); });
  }
};
struct init_keeps {
  template <class H> void operator()(H h) { keep(holder<H>(std::move(h)), true); }
};
template <class Init> auto threaded() { return initiate<void(ntok)>(Init{}, ea::completion_token); }
void finish_kept() {
  vc_await((int const *) &ready);
  kept_at.exchange(nullptr)->finish();
}
void drop_kept() {
  vc_await((int const *) &ready);
  delete kept_at.exchange(nullptr);
}
void run_posted() {
  vc_await((int const *) &ready);
  task* t = posted.exchange(nullptr);
  t->run();
  delete t;
}
template <class Init, class Env> auto* connected(rcvr<Env> r) {
  publishing = true;
  inline_posts = false;
  using box = opbox<decltype(threaded<Init>()), rcvr<Env>>;
  box::cur = new box(threaded<Init>(), std::move(r));
  destroy_op = [] { auto* p = box::cur; box::cur = nullptr; delete p; };
  return &box::cur->op;
}
template <class Init, class Env> void started(rcvr<Env> r) { ex::start(*connected<Init>(std::move(r))); }
void joined() {
  vc_join_all();
  if (pending* p = kept_at.exchange(nullptr)) p->finish();
  outcome();
}
}  // namespace
//@opt preemptions=3
PROOF(completes_while_starting) {
  on_complete = ended;
  static auto* op = connected<init_keeps>(rcvr<>{});
  vc_spawn([](void*) { ex::start(*op); }, nullptr, "start");
  vc_spawn([](void*) { finish_kept(); }, nullptr, "operation");
  joined();
  all_destroyed();
}
PROOF(dropped_while_starting) {
  on_complete = ended;
  auto r = counting_rcvr();
  on_complete = [] { ended(); no_callbacks(); };
  static auto* op = connected<init_keeps>(r);
  vc_spawn([](void*) { ex::start(*op); }, nullptr, "start");
  vc_spawn([](void*) { drop_kept(); }, nullptr, "operation");
  joined();
  stop_done();
  all_destroyed();
}
PROOF(stop_meets_completion) {
  auto r = counting_rcvr();
  on_complete = [] { ended(); no_callbacks(); };
  started<init_keeps>(r);
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_spawn([](void*) { finish_kept(); }, nullptr, "operation");
  joined();
  if (cancels) vc_cover("cancelled");
  else vc_cover("not cancelled");
  stop_done();
  all_destroyed();
}
PROOF(stop_meets_drop) {
  auto r = counting_rcvr();
  on_complete = [] { ended(); no_callbacks(); };
  started<init_keeps>(r);
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_spawn([](void*) { drop_kept(); }, nullptr, "operation");
  joined();
  stop_done();
  all_destroyed();
}
// a step that runs on another thread and listens for cancellation, while a stop is requested: the request is
// never delivered while a step runs
PROOF(stop_meets_step) {
  auto r = counting_rcvr();
  on_complete = [] { ended(); no_callbacks(); };
  first_step = vc_bool("listens at first") ? R_LISTEN : R_KEEP;
  second_step = vc_choice(5, "second step");
  started<init_posts>(r);
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_spawn([](void*) { run_posted(); }, nullptr, "step");
  joined();
  if (first_step == R_LISTEN && cancels) vc_cover("cancelled");
  stop_done();
  all_destroyed();
}
// a step runs on another thread while the operation is being started
PROOF(step_while_starting) {
  on_complete = ended;
  first_step = R_KEEP;
  second_step = vc_choice(5, "second step");
  static auto* op = connected<init_posts>(rcvr<>{});
  vc_spawn([](void*) { ex::start(*op); }, nullptr, "start");
  vc_spawn([](void*) { run_posted(); }, nullptr, "step");
  joined();
  all_destroyed();
}
PROOF(stop_while_starting) {
  auto r = counting_rcvr();
  on_complete = [] { ended(); no_callbacks(); };
  static auto* op = connected<init_keeps>(r);
  vc_spawn([](void*) { ex::start(*op); }, nullptr, "start");
  vc_spawn([](void*) { src->request_stop(); }, nullptr, "stop");
  vc_join_all();
  vc_assert(cancels == 1, "a stop request reaches the operation");
  joined();
  stop_done();
  all_destroyed();
}

// ------------------------------------------------------------------ values
namespace {
enum { LVALUE, CLVALUE, RVALUE };
uint32_t arg_v;
template <class T> struct init_sends {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    T v(arg_v);
    throws_left = 1;
    switch (vc_choice(3, "value category")) {
    case LVALUE: x.call(v); break;
    case CLVALUE: x.call(static_cast<T const &>(v)); break;
    case RVALUE: x.call(static_cast<T&&>(v)); break;
    }
    throws_left = 0;
  }
};
template <class T, class Sig> void sends() {
  arg_v = vc_u32("value");
  vc_assume(arg_v != MOVED);
  if (!go([] { return initiate<Sig>(init_sends<T>{}, ea::completion_token); })) return vc_fail("does not throw");
  vc_assert(out.n == 1, "the receiver is completed exactly once");
  if (thrown_count) {
    vc_cover("converting throws");
    vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception from converting a value is delivered as an error");
  } else vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == arg_v, "the value is delivered");
  all_destroyed();
}
// two signatures that differ in the number of arguments, and in their types
struct init_two {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    if (vc_bool("one value")) { nsent = 1; x.call(ntok(11)); }
    else { nsent = 2; x.call(etok(12), ntok(13)); }
  }
  static inline int nsent;
};
}  // namespace
PROOF(sends_value) { sends<tok, void(tok)>(); }
PROOF(sends_const_reference) {
  arg_v = 5;
  if (!go([] { return initiate<void(xtok const &)>(init_sends<xtok>{}, ea::completion_token); })) return vc_fail("does not throw");
  vc_assert(out.n == 1 && out.kind == VALUE && out.v[0] == 5 && thrown_count == 0, "a reference is delivered without a copy");
  all_destroyed();
}
PROOF(sends_either) {
  if (!go([] { return initiate<void(ntok), void(etok, ntok)>(init_two{}, ea::completion_token); })) return vc_fail("does not throw");
  vc_assert(out.n == 1 && out.kind == VALUE && out.nv == init_two::nsent, "the values that are sent are delivered");
  if (out.nv == 1) vc_assert(out.v[0] == 11, "in order");
  else { vc_cover("two"); vc_assert(out.v[0] == 12 && out.v[1] == 13, "in order"); }
  all_destroyed();
}
// moving the function that is posted may throw
namespace {
struct init_fragile {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    auto ex = exec_of(x.h);
    throws_left = 1;
    ex.execute([h = std::move(x), g = tok(6)]() mutable {
      throws_left = 0;
      ++steps;
      vc_assert(g.get() == 6, "the function that is run is the one that was posted");
      take(std::move(h), second_step);
    });
    throws_left = 0;
  }
};
}  // namespace
PROOF(posted_function_throws) {
  second_step = vc_choice(4, "second step");
  on_complete = ended;
  if (!go([] { return initiate<void(ntok)>(init_fragile{}, ea::completion_token); })) return vc_fail("does not throw");
  rest(false);
  if (thrown_count) {
    vc_cover("moving the function throws");
    vc_assert(out.n == 1 && out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception is delivered as an error");
  } else outcome();
  all_destroyed();
}
// the same sender is connected and started twice
PROOF(multi_shot) {
  may_throw = false;
  inline_posts = false;
  {
    auto s = make();
    for (int i = 0; i < 2; ++i) {
      called = dropped = false;
      out = {};
      posts_left = 1;
      if (!go([&] { return static_cast<decltype(s) const &>(s); })) return vc_fail("does not throw");
      rest(false);
      outcome();
    }
  }
  all_destroyed();
}
// ------------------------------------------------------------------ environment
namespace {
template <class T> struct alloc_ {
  using value_type = T;
  ntok id;
  explicit alloc_(uint32_t i) noexcept : id(i) {}
  template <class U> alloc_(alloc_<U> const & o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) noexcept { ::operator delete(p); }
  template <class U> bool operator==(alloc_<U> const & o) const noexcept { return id == o.id; }
};
struct alloc_env {
  ntok self{9};
  auto query(ex::get_allocator_t) const noexcept -> alloc_<int> { self.check(); return alloc_<int>(42); }
};
struct init_asks {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    auto a = asio::get_associated_allocator(x.h);
    static_assert(std::is_same_v<decltype(a), alloc_<int>>);
    vc_assert(a.id == ntok(42), "the handler's allocator is the one of the receiver's environment");
    auto e = exec_of(x.h), f = exec_of(x.h);
    vc_assert(e == f && !(e != f), "executors of one handler are equal");
    sent = 1;
    x.call(ntok(1));
  }
};
}  // namespace
PROOF(allocator) {
  if (!go([] { return initiate<void(ntok)>(init_asks{}, ea::completion_token); }, rcvr<alloc_env>{})) return vc_fail("does not throw");
  outcome();
  all_destroyed();
}
// an executor of the Networking TS
namespace {
struct old_exec : plain_exec {
  static inline int work = 0;
  enum { DISPATCH, POST_, DEFER };
  static inline int how = -1;
  void on_work_started() const noexcept { ++work; }
  void on_work_finished() const noexcept { --work; }
  template <class F, class A> void dispatch(F f, A const &) const { how = DISPATCH; execute(std::move(f)); }
  template <class F, class A> void post(F f, A const &) const { how = POST_; execute(std::move(f)); }
  template <class F, class A> void defer(F f, A const &) const { how = DEFER; execute(std::move(f)); }
};
struct init_old {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    auto ex = asio::associated_executor<H, old_exec>::get(x.h, old_exec{});
    ex.on_work_started();
    vc_assert(old_exec::work == 1, "work is counted");
    int c = vc_choice(3, "dispatch, post or defer");
    auto f = [h = std::move(x)]() mutable { ++steps; take(std::move(h), second_step); };
    std::allocator<void> a;
    if (c == 0) ex.dispatch(std::move(f), a);
    if (c == 1) ex.post(std::move(f), a);
    if (c == 2) ex.defer(std::move(f), a);
    vc_assert(old_exec::how == c, "the executor is asked for the same");
    ex.on_work_finished();
    vc_assert(old_exec::work == 0, "work is counted");
  }
};
}  // namespace
PROOF(old_executors) {
  posting_throws = true;
  second_step = vc_choice(5, "second step");
  on_complete = ended;
  if (!go([] { return initiate<void(ntok)>(init_old{}, ea::completion_token); })) return vc_fail("does not throw");
  rest(false);
  outcome();
  all_destroyed();
}
// an executor with properties
namespace {
struct hue {
  template <class T> static constexpr bool is_applicable_property_v = true;
  static constexpr bool is_requirable = true, is_preferable = true;
  uint32_t v = 0;
};
struct hued_exec : plain_exec {
  uint32_t h = 1;
  static inline uint32_t used = 0;
  uint32_t query(hue) const noexcept { return h; }
  hued_exec require(hue x) const { hued_exec r(*this); r.h = x.v; return r; }
  template <class F> void execute(F f) const { used = h; plain_exec::execute(std::move(f)); }
  bool operator==(hued_exec const &) const noexcept = default;
};
struct init_hued {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    auto ex = asio::associated_executor<H, hued_exec>::get(x.h, hued_exec{});
    uint32_t v = vc_u32("property");
    auto e2 = vc_bool("require") ? asio::require(ex, hue{v}) : asio::prefer(ex, hue{v});
    vc_assert(asio::query(ex, hue{}) == 1 && asio::query(e2, hue{}) == v, "a property is the executor's");
    if (v != 1) vc_assert(ex != e2, "executors with different properties differ");
    e2.execute([h = std::move(x)]() mutable { ++steps; take(std::move(h), second_step); });
    vc_assert(hued_exec::used == v, "the executor with the property is used");
  }
};
}  // namespace
PROOF(properties) {
  posting_throws = true;
  second_step = vc_choice(5, "second step");
  on_complete = ended;
  if (!go([] { return initiate<void(ntok)>(init_hued{}, ea::completion_token); })) return vc_fail("does not throw");
  rest(false);
  outcome();
  all_destroyed();
}
// ------------------------------------------------------------------ use_sender
// the generic category of the standard library, and the text of an error
extern "C" char* strerror_r(int, char*, std::size_t) noexcept { return const_cast<char*>("error"); }
extern "C" void vt_snprintf(char* b, std::size_t n, char const *) noexcept { if (n) *b = 0; }
namespace {
struct generic_t : std::error_category {
  const char* name() const noexcept override { return "generic"; }
  std::string message(int) const override { return "error"; }
  std::error_condition default_error_condition(int v) const noexcept override { return {v, *this}; }
  bool equivalent(int v, std::error_condition const & c) const noexcept override { return &c.category() == this && c.value() == v; }
  bool equivalent(std::error_code const & c, int v) const noexcept override { return &c.category() == this && c.value() == v; }
};
generic_t* generic = nullptr;
}  // namespace
std::error_category const & std::_V2::generic_category() noexcept { return *generic; }
namespace {
using asio::error::operation_aborted;
// what the receiver of an operation with an error code got
template <class Env = ex::env<>> struct code_rcvr : rcvr<Env> {
  using receiver_concept = ex::receiver_t;
  static inline int code;
  static inline bool boosts;
  template <class E> void set_error(E&& e) noexcept {
    first_completion();
    out.kind = ERROR;
    try { std::rethrow_exception(e); }
    catch (boost::system::system_error const & x) { out.err = 5; code = x.code().value(); boosts = x.code().category() == boost::system::system_category(); }
    catch (std::system_error const & x) { out.err = 6; code = x.code().value(); boosts = false; }
    catch (thrown const & t) { out.err = 2; out.v[0] = t.id; }
    catch (...) { out.err = 4; }
    completed();
  }
};
int code;
bool lvalue_code, keep_first;
template <class EC> EC make_code() {
  if constexpr (std::is_same_v<EC, std::error_code>) return EC(code, std::generic_category());
  else return EC(code, boost::system::system_category());
}
template <class EC> struct init_code {
  template <class H> void operator()(H h) {
    holder<H> x(std::move(h));
    unsigned c = vc_choice(4, "call, drop or throw");
    if (c == 1) return;
    if (c == 2) raise();
    EC ec = make_code<EC>();
    if (c == 3) x.call(static_cast<EC const &>(ec), ntok(77));
    else x.call(static_cast<EC&&>(ec), ntok(77));
  }
};
template <class EC> void coded() {
  union never_destroyed { generic_t g; never_destroyed() : g() {} ~never_destroyed() {} } u;
  generic = &u.g;
  static int const codes[] = {0, ECANCELED, EIO};
  code = codes[vc_choice(3, "error code")];
  auto s = [] { return initiate<void(EC, ntok)>(init_code<EC>{}, ea::use_sender); };
  bool copy = vc_bool("copy");
  if (!(copy ? go_copy(s, code_rcvr<>{}) : go(s, code_rcvr<>{}))) return vc_fail("does not throw");
  vc_assert(out.n == 1, "the receiver is completed exactly once");
  if (first_exc) vc_assert(out.kind == ERROR && out.err == 2 && out.v[0] == first_exc, "an exception is delivered as an error");
  else if (!called) vc_assert(out.kind == STOPPED, "an abandoned operation is stopped");
  else if (code == 0) vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == 77, "success is delivered without the error code");
  else if (code == ECANCELED) { vc_cover("cancelled"); vc_assert(out.kind == STOPPED, "a cancelled operation is stopped"); }
  else {
    vc_cover("error");
    vc_assert(out.kind == ERROR && code_rcvr<>::code == code, "any other code is delivered as an error that carries it");
    vc_assert(out.err == (std::is_same_v<EC, std::error_code> ? 6 : 5), "as a system_error of its kind");
  }
  all_destroyed();
}
}  // namespace
PROOF(error_code) { coded<boost::system::error_code>(); }
PROOF(standard_error_code) { coded<std::error_code>(); }
PROOF(no_error_code) {
  on_complete = ended;
  if (!go([] { return initiate<void(ntok)>(init_(3), ea::use_sender, tok(4)); })) return vc_fail("does not throw");
  rest(false);
  outcome();
  all_destroyed();
}
PROOF(use_sender_throws) {
  may_throw = false;
  inline_posts = false;
  throws_left = 1;
  if (!go_copy([] { return initiate<void(ntok)>(init_(3), ea::use_sender, tok(4)); })) return aborted();
  rest(false);
  if (thrown_count && !first_exc) {
    vc_assert(out.n == 1 && out.kind == ERROR && out.err == 2 && out.v[0] == last_throw, "an exception is delivered as an error");
    return all_destroyed();
  }
  outcome();
  all_destroyed();
}
PROOF(use_sender_stops) {
  inline_posts = false;
  posts_left = 1;
  auto r = stop_rcvr();
  on_complete = ended;
  bool before = stop_before();
  if (!go([] { return initiate<void(ntok)>(init_(3), ea::use_sender, tok(4)); }, r)) return vc_fail("does not throw");
  if (before && kept && has_slot) vc_assert(cancels == 1, "an earlier stop request reaches the operation when it has started");
  rest(true);
  outcome();
  stop_done();
  all_destroyed();
}
