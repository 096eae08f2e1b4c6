// __intrusive_mpsc_queue: contracts of push_back() and pop_front() for every state of the queue that
// satisfies the invariant, and whatever producers do meanwhile (rely/guarantee)
//@optional  looks at the representation
//@flags -fno-access-control
#include "vc.h"
#include <atomic>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>

namespace {
struct node {
  std::atomic<node*> next{nullptr};
};
using Q = STDEXEC::__intrusive_mpsc_queue<&node::next>;
Q* q;
// The elements from the consumer's end to the producers' end.  linked[i]: the producer of chain[i + 1]
// has hung it behind chain[i].  pop_front() can tell the elements from the third on apart only from the
// last one, so that these lengths stand for all.
constexpr int MAX = 8;
node* chain[MAX];
bool linked[MAX];
int len;
bool active, meanwhile, own_link;
int budget;
node* stub() { return &q->__stub_; }
node* fresh() {
  node* n = new node;
  return n;
}
void watch(node* n);
void append(node* n) {
  chain[len] = n;
  linked[len] = false;
  n->next.store(nullptr, std::memory_order_relaxed);
  ++len;
  q->__head_.store(n, std::memory_order_relaxed);
}
void link(int i) {
  linked[i] = true;
  chain[i]->next.store(chain[i + 1], std::memory_order_relaxed);
}
// what producers may do at any time: finish a push that has begun, begin a push
void producers() {
  if (!active) return;
  for (int i = 0; i + 1 < len; ++i)
    if (!linked[i] && !(own_link && chain[i + 1] == stub()) && vc_bool("a push finishes")) { link(i); meanwhile = true; }
  if (budget > 0 && vc_bool("a push begins")) {
    --budget;
    node* n = fresh();
    append(n);
    watch(n);
    meanwhile = true;
  }
}
int index_of(node* n) {
  for (int i = 0; i < len; ++i)
    if (chain[i] == n) return i;
  return -1;
}
void drop_front() {
  for (int i = 0; i + 1 < len; ++i) { chain[i] = chain[i + 1]; linked[i] = linked[i + 1]; }
  --len;
}
// the consumer has moved past the stub
void passed_stub() {
  if (len > 1 && chain[0] == stub() && q->__tail_ == chain[1]) {
    vc_assert(linked[0], "the consumer moves on only along a link that has been made");
    drop_front();
  }
}
void watch(node* n) {
  vc_shared(&n->next, sizeof n->next, [](void*, int, int) { producers(); }, [](void* p, int kind, uint64_t, uint64_t v, int order) {
    if (!active) return;
    node* me = reinterpret_cast<node*>(p);
    if (kind == VC_LOAD) {
      if (v != 0) vc_assert(vc_acquires(order), "the consumer sees what the producer did to the element");
      return;
    }
    passed_stub();
    int i = index_of(me);
    if (v == 0) {
      vc_assert(me == stub() && i < 0, "only the stub is prepared for being pushed again, when it is not in the queue");
      return;
    }
    vc_assert(own_link && i >= 0 && i + 1 < len && chain[i + 1] == reinterpret_cast<node*>(v), "an element is hung behind the one that was the last when it was pushed");
    vc_assert(vc_releases(order), "the link publishes the element");
    linked[i] = true;
    own_link = false;
  });
}
void make(bool with_stub_in_front, int elements, int stub_at) {
  q = new Q;
  len = 0;
  if (with_stub_in_front) chain[len++] = stub();
  for (int i = 0; i < elements; ++i) {
    if (!with_stub_in_front && stub_at == i && i > 0) chain[len++] = stub();
    chain[len++] = fresh();
  }
  if (!with_stub_in_front && stub_at == elements) chain[len++] = stub();
  for (int i = 0; i < len; ++i) {
    linked[i] = i + 1 < len && (chain[i + 1] == stub() || vc_bool("linked"));
    chain[i]->next.store(linked[i] ? chain[i + 1] : nullptr);
  }
  // a stub that is not in the queue has whatever link it had before
  if (index_of(stub()) < 0) stub()->next.store(vc_bool("stale link") ? chain[len - 1] : nullptr);
  q->__tail_ = chain[0];
  q->__head_.store(chain[len - 1]);
  for (int i = 0; i < len; ++i) watch(chain[i]);
  if (index_of(stub()) < 0) watch(stub());
  vc_shared(&q->__head_, sizeof q->__head_, [](void*, int, int) { producers(); }, [](void*, int kind, uint64_t old, uint64_t v, int order) {
    if (!active || kind == VC_LOAD) return;
    passed_stub();
    vc_assert(kind == VC_RMW && reinterpret_cast<node*>(v) == stub(), "the consumer pushes nothing but the stub, at one blow");
    vc_assert(index_of(stub()) < 0, "the stub is in the queue at most once");
    vc_assert(stub()->next.load(std::memory_order_relaxed) == nullptr, "nothing is behind the last element");
    vc_assert(vc_releases(order) && vc_acquires(order), "pushes are ordered");
    vc_assert(reinterpret_cast<node*>(old) == chain[len - 1], "the stub goes behind the last element");
    chain[len] = stub();
    linked[len] = false;
    ++len;
    own_link = true;
  });
}
void judge(node* r) {
  active = false;
  if (r == nullptr) passed_stub();
  if (r != nullptr) {
    passed_stub();
    if (len > 1 && chain[0] == stub()) drop_front();  // it went past it and past the element
    vc_assert(chain[0] == r && r != stub(), "pop_front() returns the oldest element");
    vc_assert(len > 1 && linked[0], "an element is popped only when no producer has to touch it any more");
    drop_front();
  }
  vc_assert(!own_link, "the stub is hung behind the others");
  vc_assert(q->__tail_ == chain[0], "the consumer goes on with the next element");
  vc_assert(q->__head_.load() == chain[len - 1], "the last element is the last");
  int stubs = 0;
  for (int i = 0; i < len; ++i) {
    stubs += chain[i] == stub();
    vc_assert(chain[i]->next.load() == (linked[i] ? chain[i + 1] : nullptr), "the elements that are left are linked in order");
  }
  vc_assert(stubs <= 1, "the stub is in the queue at most once");
  if (r == nullptr) {
    bool empty = len == 1 && chain[0] == stub();
    if (empty) vc_cover("empty");
    vc_assert(empty || meanwhile || !linked[0] || (chain[0] == stub() && !linked[1]), "pop_front() returns null only when the queue is empty or a push is going on");
  } else {
    vc_cover("popped");
  }
}
}  // namespace

PROOF(pop_front) {
  bool s = vc_bool("the stub is in front");
  int n = s ? (int)vc_choice(4, "elements") : 1 + (int)vc_choice(3, "elements");
  make(s, n, s ? 0 : (int)vc_choice(n + 1, "place of the stub"));
  budget = 2;
  active = true;
  judge(q->pop_front());
}
//@proofopt pop_front time=300
//@proofopt pop_front max_paths=200000

PROOF(push_back) {
  q = new Q;
  static node *a, *prev;
  a = new node;
  prev = vc_bool("the stub is the last") ? stub() : new node;
  prev->next.store(nullptr);
  q->__head_.store(prev);
  static node* const tail = q->__tail_;
  // the element has been in a queue before
  a->next.store(vc_bool("stale link") ? prev : vc_bool("itself") ? a : nullptr);
  static bool in, done;
  vc_shared(&q->__head_, sizeof q->__head_, [](void*, int, int) {
    // another push is first
    if (!in && vc_bool("another push")) { prev = new node; q->__head_.store(prev, std::memory_order_relaxed); }
  }, [](void*, int kind, uint64_t old, uint64_t v, int order) {
    if (kind == VC_LOAD || kind == VC_CMPXCHG_FAIL) return;
    vc_assert((kind == VC_RMW || kind == VC_CMPXCHG) && !in && reinterpret_cast<node*>(v) == a && reinterpret_cast<node*>(old) == prev, "the element becomes the last one at one blow");
    vc_assert(vc_releases(order) && vc_acquires(order), "pushes are ordered");
    vc_assert(a->next.load(std::memory_order_relaxed) == nullptr, "nothing is behind the last element");
    in = true;
    // another push goes behind it
    static node* later;
    if (vc_bool("a push behind")) {
      later = new node;
      q->__head_.store(later, std::memory_order_relaxed);
      a->next.store(later, std::memory_order_relaxed);
    }
    vc_shared(&a->next, sizeof a->next, nullptr, [](void*, int k, uint64_t, uint64_t, int) { if (k != VC_LOAD) vc_fail("the element belongs to the queue"); });
    vc_shared(&prev->next, sizeof prev->next, nullptr, [](void*, int k, uint64_t, uint64_t v2, int o) {
      if (k == VC_LOAD) return;
      vc_assert(!done && reinterpret_cast<node*>(v2) == a && vc_releases(o), "the link publishes the element, once");
      done = true;
      // the consumer may now pop everything up to the element
      if (prev != stub()) vc_kill(prev, "popped");
    });
  });
  q->push_back(a);
  vc_assert(in && done, "the element is in the queue and can be reached");
  vc_assert(q->__tail_ == tail, "a producer leaves the consumer's end alone");
}
