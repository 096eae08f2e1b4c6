// simple_counting_scope and counting_scope: association, close, join
#include "lib.h"
using namespace vt;
//@opt preemptions=3

namespace {
// the scheduler of the joining receiver: join completes there unless it completes inline
struct S_;
int sched_started = 0;
void (*sched_fn)(void*) = nullptr;
void* sched_op = nullptr;
bool sched_deferred = false;
struct sch {
  using scheduler_concept = ex::scheduler_t;
  template <class R>
  struct op {
    R r;
    void start() & noexcept {
      ++sched_started;
      if (sched_deferred) { sched_op = this; sched_fn = [](void* p) { ex::set_value(std::move(static_cast<op*>(p)->r)); }; }
      else ex::set_value(std::move(r));
    }
  };
  struct attrs {
    template <class T>
    auto query(ex::get_completion_scheduler_t<T>, auto const &...) const noexcept { return sch{}; }
  };
  struct sndr {
    using sender_concept = ex::sender_t;
    using completion_signatures = sigs<V0>;
    template <class R>
    auto connect(R r) const noexcept { return op<R>{std::move(r)}; }
    auto get_env() const noexcept { return attrs{}; }
  };
  auto schedule() const noexcept { return sndr{}; }
  bool operator==(sch const &) const noexcept { return true; }
};
struct jenv {
  auto query(ex::get_scheduler_t) const noexcept { return sch{}; }
  auto query(ex::get_start_scheduler_t) const noexcept { return sch{}; }
};
int joined[2];
void (*rm_join[2])() = {};
int live_assoc = 0;
bool join_allowed = true;  // no association is alive
struct jr {
  using receiver_concept = ex::receiver_t;
  int i;
  void set_value() noexcept {
    vc_assert(joined[i] == 0, "join() completes at most once");
    vc_assert(live_assoc == 0, "join() completes only when no association is alive");
    joined[i] = 1;
    if (rm_join[i]) rm_join[i]();
  }
  void set_error(std::exception_ptr) noexcept { vc_fail("join() cannot fail"); }
  void set_stopped() noexcept { vc_fail("join() is not stopped"); }
  auto get_env() const noexcept { return jenv{}; }
};
template <class Scope>
struct joinbox {
  ex::connect_result_t<decltype(std::declval<Scope&>().join()), jr> op;
  joinbox(Scope& s, int i) : op(ex::connect(s.join(), jr{i})) {}
};

#ifdef VC_THOROUGH
constexpr int DEPTH = 5;
#else
constexpr int DEPTH = 4;
#endif
template <class Scope>
void sequence() {
  using assoc = decltype(std::declval<Scope&>().get_token().try_associate());
  Scope* s = new Scope;
  auto tok_ = s->get_token();
  assoc a[3];
  // a join operation is destroyed by its own completion
  static joinbox<Scope>* j[2];
  rm_join[0] = [] { delete j[0]; j[0] = nullptr; };
  rm_join[1] = [] { delete j[1]; j[1] = nullptr; };
  bool closed = false, used = false;
  auto cnt = [&] { int n = 0; for (auto& x : a) n += (bool)x; return n; };
  int njoin = 0;
  for (int k = 0; k < DEPTH; ++k) {
    unsigned op = vc_choice(9, "operation");
    if (op == 8) break;
    if (op < 3) {
      if (a[op]) {
        --live_assoc;
        a[op] = assoc{};
        vc_assert(!a[op], "a default association is empty");
        if (njoin && live_assoc == 0) { closed = true; for (int i = 0; i < njoin; ++i) vc_assert(joined[i] == 1, "join() completes when the last association ends"); }
      } else {
        a[op] = tok_.try_associate();
        vc_assert((bool)a[op] == !closed, "association succeeds exactly while the scope is open");
        if (a[op]) { ++live_assoc; used = true; }
      }
    } else if (op == 3) {
      // associations are copied from associations
      int from = vc_choice(3, "from"), to = (from + 1) % 3;
      if (a[to]) continue;
      a[to] = a[from].try_associate();
      vc_assert((bool)a[to] == ((bool)a[from] && !closed), "an association makes another exactly while the scope is open");
      if (a[to]) ++live_assoc;
    } else if (op == 4) {
      s->close();
      closed = true;
    } else if (op == 5) {
      // moving an association
      int from = vc_choice(3, "from"), to = (from + 1) % 3;
      if (a[to]) continue;
      bool had = (bool)a[from];
      a[to] = std::move(a[from]);
      vc_assert(!a[from] && (bool)a[to] == had, "moving an association transfers it");
    } else if (njoin < 2) {
      int i = njoin++;
      j[i] = new joinbox<Scope>(*s, i);
      vc_assert(joined[i] == 0, "nothing completes before start");
      ex::start(j[i]->op);
      vc_assert(joined[i] == (live_assoc == 0), "join() completes when no association is alive");
      if (live_assoc == 0) closed = true;
    }
    vc_assert(cnt() == live_assoc, "harness: associations");
  }
  for (auto& x : a) { if (x) --live_assoc; x = assoc{}; }
  if (njoin) { vc_cover("joined"); for (int i = 0; i < njoin; ++i) vc_assert(joined[i] == 1, "join() completes once the last association ended"); }
  // a scope that was never used or was joined may be destroyed; otherwise the program terminates
  if (!njoin && used) { vc_cover("not joined"); vc_expect_terminate(true); delete s; vc_fail("destroying a scope that was used and not joined terminates the program"); }
  delete s;
  for (auto* x : j) delete x;
  all_destroyed();
}
}  // namespace

PROOF(simple_sequence) { sequence<ex::simple_counting_scope>(); }
//@proofopt simple_sequence bounded="at most 4 (thorough: 5) operations on 3 associations and 2 joins"
PROOF(counting_sequence) { sequence<ex::counting_scope>(); }
//@proofopt counting_sequence bounded="at most 4 (thorough: 5) operations on 3 associations and 2 joins"

namespace {
using SC = ex::counting_scope;
using AS = decltype(std::declval<SC&>().get_token().try_associate());
SC* sc;
joinbox<SC>* jb;
AS* as[3];
}  // namespace

// the last disassociation races with the join; the scope is destroyed as soon as join completed
PROOF(disassociate_vs_join) {
  sc = new SC;
  for (int i = 0; i < 2; ++i) { as[i] = new AS(sc->get_token().try_associate()); }
  auto f = [](void* p) { delete as[(int)(size_t)p]; };
  static joinbox<SC>* b;
  live_assoc = 0;  // not tracked across threads
  b = new joinbox<SC>(*sc, 0);
  vc_spawn(f, (void*)0, "end 0");
  vc_spawn(f, (void*)1, "end 1");
  vc_spawn([](void*) {
    ex::start(b->op);
    vc_await(&joined[0]);
  }, nullptr, "join");
  vc_join_all();
  vc_assert(joined[0] == 1, "join() completes exactly once");
  vc_assert(!sc->get_token().try_associate(), "a joined scope is closed");
  delete sc;
  delete b;
  all_destroyed();
}

// joining a scope that was destroyed right in the completion of join
namespace {
struct dr {
  using receiver_concept = ex::receiver_t;
  void set_value() noexcept {
    joined[0] = 1;
    delete sc;
    sc = nullptr;
  }
  void set_error(std::exception_ptr) noexcept { vc_fail("join() cannot fail"); }
  void set_stopped() noexcept { vc_fail("join() is not stopped"); }
  auto get_env() const noexcept { return jenv{}; }
};
struct dbox {
  ex::connect_result_t<decltype(sc->join()), dr> op;
  dbox() : op(ex::connect(sc->join(), dr{})) {}
};
dbox* db;
}  // namespace
PROOF(destroy_in_join) {
  sc = new SC;
  as[0] = new AS(sc->get_token().try_associate());
  db = new dbox;
  vc_spawn([](void*) { delete as[0]; }, nullptr, "end 0");
  vc_spawn([](void*) { ex::start(db->op); }, nullptr, "join");
  vc_join_all();
  vc_assert(joined[0] == 1, "join() completes exactly once");
  delete db;
  all_destroyed();
}
//@proofopt destroy_in_join preemptions=4

PROOF(associate_vs_close) {
  sc = new SC;
  static bool ok1, ok2;
  vc_spawn([](void*) { as[0] = new AS(sc->get_token().try_associate()); ok1 = (bool)*as[0]; as[1] = new AS(sc->get_token().try_associate()); ok2 = (bool)*as[1]; }, nullptr, "associate");
  vc_spawn([](void*) { sc->close(); AS a = sc->get_token().try_associate(); vc_assert(!a, "no association succeeds after close()"); }, nullptr, "close");
  vc_join_all();
  if (!ok1) { vc_cover("closed first"); vc_assert(!ok2, "no association succeeds after close()"); }
  delete as[0];
  delete as[1];
  static joinbox<SC>* b;
  b = new joinbox<SC>(*sc, 0);
  ex::start(b->op);
  vc_assert(joined[0] == 1, "join() completes");
  delete sc;
  delete b;
  all_destroyed();
}

// association from an association while the other thread ends its association and a join runs
PROOF(reassociate_vs_join) {
  sc = new SC;
  as[0] = new AS(sc->get_token().try_associate());
  static joinbox<SC>* b;
  b = new joinbox<SC>(*sc, 0);
  static int in = 0;
  struct g { static void v() {} };
  vc_spawn([](void*) {
    AS c = as[0]->try_associate();
    delete as[0];
    vc_assert(!c || joined[0] == 0, "join() completes only when no association is alive");
    vc_sched();
    vc_assert(!c || joined[0] == 0, "join() completes only when no association is alive");
  }, nullptr, "work");
  vc_spawn([](void*) { ex::start(b->op); vc_await(&joined[0]); }, nullptr, "join");
  vc_join_all();
  vc_assert(joined[0] == 1, "join() completes exactly once");
  delete sc;
  delete b;
  all_destroyed();
}

PROOF(two_joins) {
  sc = new SC;
  as[0] = new AS(sc->get_token().try_associate());
  static joinbox<SC>* b[2];
  for (int i = 0; i < 2; ++i) b[i] = new joinbox<SC>(*sc, i);
  vc_spawn([](void*) { delete as[0]; }, nullptr, "end");
  vc_spawn([](void*) { ex::start(b[0]->op); }, nullptr, "join 0");
  vc_spawn([](void*) { ex::start(b[1]->op); }, nullptr, "join 1");
  vc_join_all();
  vc_assert(joined[0] == 1 && joined[1] == 1, "every join() completes exactly once");
  delete sc;
  delete b[0];
  delete b[1];
  all_destroyed();
}
//@proofopt two_joins preemptions=2

// what happened before an association ended is visible when join completes
PROOF(visibility) {
  static int* d;
  d = new int(0);
  sc = new SC;
  as[0] = new AS(sc->get_token().try_associate());
  as[1] = new AS(sc->get_token().try_associate());
  struct vr {
    using receiver_concept = ex::receiver_t;
    void set_value() noexcept { vc_assert(*d == 1, "everything that was done inside the scope is visible after join()"); joined[0] = 1; }
    void set_error(std::exception_ptr) noexcept {}
    void set_stopped() noexcept {}
    auto get_env() const noexcept { return jenv{}; }
  };
  struct vbox { ex::connect_result_t<decltype(sc->join()), vr> op; vbox() : op(ex::connect(sc->join(), vr{})) {} };
  static vbox* b;
  b = new vbox;
  vc_spawn([](void*) { *d = 1; delete as[0]; }, nullptr, "work");
  vc_spawn([](void*) { delete as[1]; }, nullptr, "other work");
  vc_spawn([](void*) { ex::start(b->op); vc_await(&joined[0]); }, nullptr, "join");
  vc_join_all();
  delete sc;
  delete b;
  delete d;
  all_destroyed();
}
//@proofopt visibility preemptions=2

// join completes on the scheduler of the joining receiver when it did not complete inline
PROOF(join_scheduler) {
  sched_deferred = true;
  sc = new SC;
  as[0] = new AS(sc->get_token().try_associate());
  auto* b = new joinbox<SC>(*sc, 0);
  ex::start(b->op);
  vc_assert(joined[0] == 0 && sched_started == 0, "join() waits for the associations");
  delete as[0];
  vc_assert(joined[0] == 0 && sched_started == 1, "join() is resumed on the receiver's scheduler");
  sched_fn(sched_op);
  vc_assert(joined[0] == 1, "join() completes once the scheduler ran it");
  delete b;
  delete sc;
  all_destroyed();
}
