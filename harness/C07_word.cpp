// counting scopes: contracts of the single operations over every state of the state word, with
// any number of other threads changing it in between (rely/guarantee)
//@optional  looks at the representation
#include "lib.h"
using namespace vt;

namespace {
using base = ex::__counting_scopes::__base_scope;
constexpr std::size_t CLOSED = 1, NEEDED = 2, RUNNING = 4;
using W = std::size_t;
base* sc;
W mine;          // associations this thread holds
W cur;           // ghost copy of the word
int writes;      // by the operation under proof
W w_old, w_new;
bool racing = true;

W count(W b) { return b >> 3; }
// (written without branches: one condition, not one path per clause)
W imp(bool a, bool b) { return (W)(!a | b); }
bool inv(W b) {
  return (imp(b & RUNNING, ((b & NEEDED) != 0) & (count(b) > 0)) & imp(count(b) > 0, b & NEEDED)) != 0;
}
// what other threads may do to the word in any number of steps
bool may_become(W a, W b) {
  W r = imp(true, inv(b)) & (W)(count(b) >= mine);
  r &= imp(a & CLOSED, b & CLOSED);                                // closed for good
  r &= imp(a & CLOSED, count(b) <= count(a));                      // nothing is admitted any more
  r &= imp(((a & NEEDED) != 0) & ((b & NEEDED) == 0), b == CLOSED);   // only joining ends the obligation
  r &= imp(((a & RUNNING) != 0) & ((b & RUNNING) == 0), b == CLOSED);
  r &= imp(a == CLOSED, b == CLOSED);                              // joined (or closed and never used)
  return r != 0;
}
void rely(void*, int, int) {
  if (!racing) return;
  W b = (W)vc_u64("other threads' change");
  vc_assume(may_become(cur, b));
  sc->__bits_.store(b, std::memory_order_relaxed);
  cur = b;
}
void guarantee(void*, int kind, uint64_t o, uint64_t n, int order) {
  if (kind == VC_STORE || kind == VC_RMW || kind == VC_CMPXCHG) {
    ++writes;
    w_old = o;
    w_new = n;
    cur = n;
    vc_assert(inv(n), "the state of the scope stays consistent");
    W keep = mine;
    mine = 0;
    vc_assert(may_become(o, n), "an operation only changes the state as the others expect");
    mine = keep;
    if ((n & NEEDED) == 0 && (o & NEEDED)) vc_assert(n == CLOSED && vc_acquires(order), "the thread that ends the scope sees what the associations did");
    if (count(n) < count(o)) vc_assert(vc_releases(order), "ending an association publishes what was done under it");
  }
}
void setup(W held) {
  sc = new base;
  W b = (W)vc_u64("state");
  mine = held;
  vc_assume(inv(b) && count(b) >= held);
  sc->__bits_.store(b, std::memory_order_relaxed);
  cur = b;
  vc_shared(&sc->__bits_, sizeof sc->__bits_, rely, guarantee);
}
void done() {
  vc_unshare(&sc->__bits_);
  sc->__bits_.store(0, std::memory_order_relaxed);
  delete sc;
  all_destroyed();
}
int completed_joins;
struct jop : ex::__counting_scopes::__join_state_base {
  int n = 0;
  jop(base* s) : __join_state_base(s, [](__join_state_base* p) noexcept { ++static_cast<jop*>(p)->n; ++completed_joins; delete static_cast<jop*>(p); }) {}
};
}  // namespace

PROOF(try_associate) {
  setup(0);
  bool ok = sc->__try_associate();
  if (ok) {
    vc_cover("associated");
    vc_assert(writes == 1 && !(w_old & CLOSED) && count(w_new) == count(w_old) + 1 && (w_new & NEEDED) && ((w_new ^ w_old) & (CLOSED | RUNNING)) == 0,
              "an association succeeds exactly when the scope is open, and is counted once");
  } else {
    vc_cover("refused");
    vc_assert(writes == 0 && ((cur & CLOSED) || count(cur) == base::max_associations), "an association is refused only by a closed or full scope");
  }
  done();
}
//@proofopt try_associate loops="subsume"

PROOF(close) {
  setup(0);
  sc->close();
  vc_assert(writes == 1 && (w_new & CLOSED) && (w_new | CLOSED) == w_new && (w_new & ~CLOSED) == (w_old & ~CLOSED), "close() closes and changes nothing else");
  done();
}

namespace {
jop* reg[3];
int nreg;
void registered() {
  // any number (here up to 3) of joins wait
  nreg = vc_choice(4, "waiting joins");
  jop* prev = nullptr;
  for (int i = 0; i < nreg; ++i) {
    reg[i] = new jop(sc);
    reg[i]->__next_ = prev;
    prev = reg[i];
  }
  sc->__registered_join_ops_.store(prev);
}
}  // namespace
PROOF(disassociate) {
  setup(1);
  registered();
  mine = 1;
  sc->__disassociate();
  vc_assert(writes == 1 && count(w_new) == count(w_old) - 1, "ending an association is counted once");
  if (w_new == CLOSED && (w_old & RUNNING)) {
    vc_cover("last one");
    vc_assert(completed_joins == nreg, "the end of the last association completes every waiting join once");
    vc_assert(sc->__registered_join_ops_.load() == sc, "later joins complete at once");
  } else {
    vc_cover("not the last one");
    vc_assert(completed_joins == 0, "no join completes while an association is alive");
    vc_assert((w_new & 7) == (w_old & 7), "ending an association changes nothing else");
    for (int i = 0; i < nreg; ++i) delete reg[i];
  }
  done();
}
//@proofopt disassociate loops="subsume"

namespace {
int pushes;
void* before;
}
PROOF(start_join) {
  setup(0);
  auto* j = new jop(sc);
  static jop* other;
  other = new jop(sc);
  other->__next_ = nullptr;
  // other joins register themselves, and the last association may end at any time
  vc_shared(&sc->__registered_join_ops_, sizeof(void*), [](void*, int, int) {
    unsigned c = vc_choice(3, "other threads register a join or end the last association");
    auto* p = sc->__registered_join_ops_.load(std::memory_order_relaxed);
    if (p == sc) return;
    if (c == 1) sc->__registered_join_ops_.store(p == other ? nullptr : other, std::memory_order_relaxed);
    if (c == 2) {
      vc_assume((cur & RUNNING) != 0);
      cur = CLOSED;
      sc->__bits_.store(CLOSED, std::memory_order_relaxed);
      sc->__registered_join_ops_.store(sc, std::memory_order_relaxed);
    }
  }, [](void*, int kind, uint64_t o, uint64_t n, int) {
    if (kind == VC_CMPXCHG) { ++pushes; before = (void*)o; }
  });
  bool at_once = sc->__start_join_sender(*j);
  vc_assert(writes == 1, "starting a join changes the state once");
  if (count(w_old) == 0) {
    vc_cover("nothing to wait for");
    vc_assert(at_once && w_new == CLOSED && completed_joins == 0, "join completes at once, and closes the scope, when nothing is associated");
    delete j;
  } else if (at_once) {
    vc_cover("overtaken");
    vc_assert(cur == CLOSED && pushes == 0 && completed_joins == 0, "join completes at once when the last association ended meanwhile");
    delete j;
  } else {
    vc_cover("waits");
    vc_assert((w_new & RUNNING) && count(w_new) == count(w_old) && pushes == 1 && j->__next_ == before && completed_joins == 0, "join is registered until the last association ends");
    delete j;
  }
  delete other;
  vc_unshare(&sc->__registered_join_ops_);
  done();
}
//@proofopt start_join loops="subsume"

PROOF(destroy) {
  sc = new base;
  W b = (W)vc_u64("state");
  vc_assume(inv(b));
  sc->__bits_.store(b, std::memory_order_relaxed);
  if ((b & NEEDED) || count(b)) {
    vc_cover("not joined");
    vc_expect_terminate(true);
    delete sc;
    vc_fail("destroying a scope that was used and not joined terminates the program");
  }
  vc_cover("joined or unused");
  delete sc;
  all_destroyed();
}
