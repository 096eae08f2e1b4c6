// intrusive queues, lists and the lock-free queues built on them
#include "lib.h"
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <stdexec/__detail/__intrusive_mpsc_queue.hpp>
#include <stdexec/__detail/__intrusive_slist.hpp>
#include <stdexec/__detail/__atomic_intrusive_queue.hpp>
using namespace vt;
//@opt preemptions=3

namespace {
struct node {
  node* next = nullptr;
  int id = 0;
  int popped = 0;
};
using Q = STDEXEC::__intrusive_queue<&node::next>;
using L = STDEXEC::__intrusive_slist<&node::next>;

// A queue of any length: up to two nodes at either end are visible, everything between them
// must not be touched (an access is a violation).
struct any_queue {
  node *h = nullptr, *h2 = nullptr, *t = nullptr;  // first, second, last
  bool longer = false;
  Q q;
  any_queue(char const * what) {
    unsigned c = vc_choice(4, what);
    if (c == 0) return;
    h = new node;
    h->id = 1;
    if (c == 1) {
      t = h;
    } else {
      t = new node;
      t->id = 99;
      if (c == 2) {
        h2 = h->next = t;
      } else {
        longer = true;
        h2 = h->next = new node;
        vc_kill(h2, "nodes in the middle of a queue are not touched");
      }
    }
    q = Q(h, t);
  }
  bool empty() const { return !h; }
  void unchanged_inside() {
    if (longer) vc_assert(h->next == h2, "the rest of the queue is unchanged");
    else if (h != t) vc_assert(h->next == t, "the rest of the queue is unchanged");
  }
  void free(Q& x) {
    x.clear();
    if (longer) { vc_revive(h2); delete h2; }
    if (h != t) delete t;
    delete h;
  }
};
}  // namespace

PROOF(queue_push_back) {
  any_queue a("queue");
  node* n = new node;
  n->next = n;  // garbage
  a.q.push_back(n);
  vc_assert(!a.q.empty() && a.q.back() == n && n->next == nullptr, "push_back() appends the element");
  if (a.empty()) vc_assert(a.q.front() == n, "push_back() appends the element");
  else { vc_cover("non-empty"); vc_assert(a.q.front() == a.h && a.t->next == n, "push_back() keeps the other elements in order"); if (a.h != a.t) a.unchanged_inside(); }
  a.q.clear();
  delete n;
  a.free(a.q);
  all_destroyed();
}

PROOF(queue_push_front) {
  any_queue a("queue");
  node* n = new node;
  n->next = n;
  a.q.push_front(n);
  vc_assert(a.q.front() == n && n->next == a.h, "push_front() prepends the element");
  vc_assert(a.q.back() == (a.empty() ? n : a.t), "push_front() keeps the last element");
  if (!a.empty()) { a.unchanged_inside(); vc_assert(a.t->next == nullptr, "the last element stays the last"); }
  a.q.clear();
  delete n;
  a.free(a.q);
  all_destroyed();
}

PROOF(queue_pop_front) {
  any_queue a("queue");
  vc_assert(a.q.empty() == a.empty(), "empty() tells whether the queue has elements");
  if (a.empty()) return;
  node* x = a.q.pop_front();
  vc_assert(x == a.h, "pop_front() removes the first element");
  if (a.h == a.t) vc_assert(a.q.empty() && a.q.front() == nullptr && a.q.back() == nullptr, "popping the only element empties the queue");
  else { vc_cover("more"); vc_assert(a.q.front() == a.h2 && a.q.back() == a.t && !a.q.empty(), "pop_front() keeps the other elements in order"); vc_assert(a.t->next == nullptr, "the last element stays the last"); }
  a.free(a.q);
  all_destroyed();
}

PROOF(queue_append_prepend) {
  any_queue a("queue"), b("other queue");
  bool front = vc_bool("prepend");
  if (front) a.q.prepend(std::move(b.q)); else a.q.append(std::move(b.q));
  any_queue &f = front ? b : a, &s = front ? a : b;
  vc_assert(b.q.empty(), "the other queue is emptied");
  if (f.empty() || s.empty()) {
    any_queue& k = f.empty() ? s : f;
    vc_assert(a.q.front() == k.h && a.q.back() == k.t, "concatenation with an empty queue");
  } else {
    vc_cover("both non-empty");
    vc_assert(a.q.front() == f.h && a.q.back() == s.t && f.t->next == s.h, "concatenation keeps all elements in order");
    vc_assert(s.t->next == nullptr, "the last element stays the last");
    if (f.h != f.t) f.unchanged_inside();
    if (s.h != s.t) s.unchanged_inside();
  }
  a.q.clear();
  a.free(a.q);
  b.free(b.q);
  all_destroyed();
}

PROOF(queue_move) {
  any_queue a("queue");
  Q b(std::move(a.q));
  vc_assert(a.q.empty() && b.front() == a.h && b.back() == a.t, "moving transfers all elements");
  any_queue c("assigned");
  if (c.empty()) {
    c.q = std::move(b);
    vc_assert(b.empty() && c.q.front() == a.h && c.q.back() == a.t, "move assignment transfers all elements");
    c.q.clear();
  } else { c.free(c.q); b.clear(); }
  a.free(a.q);
  all_destroyed();
}

namespace {
constexpr int M = 5;
node* N[M];
int build(char const * what) {
  int n = vc_choice(M, what);
  for (int i = 0; i < n; ++i) { N[i] = new node; N[i]->id = i; }
  for (int i = 0; i + 1 < n; ++i) N[i]->next = N[i + 1];
  return n;
}
void drop(int n) { for (int i = 0; i < n; ++i) delete N[i]; }
}  // namespace

PROOF(queue_make) {
  int n = build("length");
  bool rev = vc_bool("reversed");
  Q q = rev ? Q::make_reversed(n ? N[0] : nullptr) : Q::make(n ? N[0] : nullptr);
  int k = 0;
  for (auto it = q.begin(); it != q.end(); ++it) { vc_assert(k < n && *it == N[rev ? n - 1 - k : k], "iteration visits all elements in order"); ++k; }
  vc_assert(k == n, "iteration visits all elements");
  for (int i = 0; i < n; ++i) vc_assert(q.pop_front() == N[rev ? n - 1 - i : i], "make() and make_reversed() keep all elements");
  vc_assert(q.empty() && q.back() == nullptr, "the queue is empty at the end");
  drop(n);
  all_destroyed();
}
//@proofopt queue_make bounded="queues of at most 4 elements"

PROOF(queue_splice) {
  // moves a prefix of a queue to an empty queue
  int n = build("length");
  Q q = Q::make(n ? N[0] : nullptr);
  int c = vc_choice(n + 1, "elements to move");
  auto last = q.begin();
  for (int i = 0; i < c; ++i) ++last;
  Q r;
  r.splice(r.begin(), q, q.begin(), last);
  if (c) vc_assert(r.front() == N[0] && r.back() == N[c - 1], "the prefix is moved"); else vc_assert(r.empty(), "nothing is moved");
  for (int i = 0; i + 1 < c; ++i) vc_assert(N[i]->next == N[i + 1], "the prefix keeps its order");
  for (int i = c; i < n; ++i) { vc_cover("rest"); vc_assert(q.pop_front() == N[i], "the rest stays in order"); }
  vc_assert(q.empty(), "only the rest stays");
  r.clear();
  drop(n);
  all_destroyed();
}
//@proofopt queue_splice bounded="queues of at most 4 elements"

PROOF(slist) {
  int n = build("length");
  L l;
  for (int i = n; i-- > 0;) l.push_front(N[i]);
  vc_assert(l.empty() == (n == 0), "empty()");
  int k = 0;
  for (node* x : l) { vc_assert(k < n && x == N[k], "iteration visits all elements in order"); ++k; }
  vc_assert(k == n, "iteration visits all elements");
  node other;
  int r = vc_choice(n + 1, "element to remove");
  node* res = l.remove(r < n ? N[r] : &other);
  vc_assert(res == (r < n ? N[r] : nullptr), "remove() returns the element if it was in the list");
  for (int i = 0; i < n; ++i)
    if (i != r) { vc_assert(!l.empty() && l.front() == N[i], "remove() keeps the other elements in order"); vc_assert(l.pop_front() == N[i], "pop_front() removes the first element"); }
  vc_assert(l.empty(), "remove() removes the element");
  drop(n);
  all_destroyed();
}
//@proofopt slist bounded="lists of at most 4 elements"

// splicing at the end of a queue that has elements, and the other iterator operations
PROOF(queue_splice_end) {
  int n = build("length");
  Q q = Q::make(n ? N[0] : nullptr);
  node x{}, y{};
  x.next = &y;
  Q r(&x, &y);
  r.splice(r.end(), q, q.begin(), q.end());
  vc_assert(q.empty() && q.back() == nullptr, "everything is moved");
  vc_assert(r.pop_front() == &x && r.pop_front() == &y, "splice() keeps the elements before the position");
  for (int i = 0; i < n; ++i) { vc_cover("spliced"); vc_assert(r.pop_front() == N[i], "splice() keeps the order of the elements"); }
  vc_assert(r.empty(), "nothing else is there");
  drop(n);
  all_destroyed();
}
//@proofopt queue_splice_end bounded="queues of at most 4 elements"
PROOF(queue_iterators) {
  int n = build("length");
  Q q = Q::make(n ? N[0] : nullptr);
  L l;
  int k = 0;
  for (auto it = q.begin(); it != q.end();) {
    auto was = it++;
    vc_assert(*was == N[k], "post-increment returns the old position");
    ++k;
    vc_assert((it == q.end()) == (k == n), "post-increment moves on by one");
  }
  vc_assert(k == n, "iteration visits all elements");
  q.clear();
  for (int i = n; i-- > 0;) l.push_front(N[i]);
  k = 0;
  for (auto it = l.begin(); it != l.end();) {
    auto was = it++;
    vc_assert(*was == N[k], "post-increment returns the old position");
    ++k;
    vc_assert((it == l.end()) == (k == n), "post-increment moves on by one");
  }
  vc_assert(k == n, "iteration visits all elements");
  vc_cover("done");
  L m(std::move(l));
  vc_assert(l.empty() && m.empty() == (n == 0), "moving a list leaves it empty");
  m.swap(l);
  vc_assert(m.empty() && l.empty() == (n == 0), "swap() exchanges the elements");
  l.clear();
  vc_assert(l.empty(), "clear() empties the list");
  drop(n);
  all_destroyed();
}
//@proofopt queue_iterators bounded="queues of at most 4 elements"

// ---------------------------------------------------------------- lock-free queues
namespace {
node* T[6];
using AQ = exec::__atomic_intrusive_queue<&node::next>;
using SQ = STDEXEC::__atomic_intrusive_queue<&node::next>;
AQ* aq;
SQ* sq;
int empties = 0;    // pushes that saw an empty queue
int got = 0;
int last_of[2];     // last popped element of every producer
// elements 0,1,2 belong to producer 0, elements 3,4,5 to producer 1
void take(node* x) {
  vc_assert(x != nullptr, "popped elements are not null");
  vc_assert(x->popped == 0, "an element is popped at most once");
  x->popped = 1;
  ++got;
}
void mkt() { for (int i = 0; i < 6; ++i) { T[i] = new node; T[i]->id = i; } last_of[0] = last_of[1] = -1; }
void fifo(node* x) {
  take(x);
  int p = x->id / 3;
  vc_assert(x->id > last_of[p], "elements of one producer are popped in the order in which they were pushed");
  last_of[p] = x->id;
}
void rmt() { for (int i = 0; i < 6; ++i) delete T[i]; }
}  // namespace

PROOF(atomic_queue_sequential) {
  aq = new AQ;
  int n = build("length");
  unsigned w = vc_choice(3, "how to push");
  if (w == 2 && n) {
    Q q = Q::make(N[0]);
    vc_assert(aq->empty(), "empty()");
    aq->prepend(std::move(q));
  } else {
    for (int i = n; i-- > 0;) {
      if (w == 0) vc_assert(aq->push_front(N[i]) == (i == n - 1), "push_front() tells whether the queue was empty");
      else { auto r = aq->try_push_front(N[i]); vc_assert(r.__success && r.__was_empty == (i == n - 1), "try_push_front() succeeds without contention"); }
    }
  }
  vc_assert(aq->empty() == (n == 0), "empty()");
  bool rev = vc_bool("reversed");
  Q q = rev ? aq->pop_all_reversed() : aq->pop_all();
  for (int i = 0; i < n; ++i) vc_assert(q.pop_front() == N[rev ? n - 1 - i : i], "pop_all() returns all elements in order");
  vc_assert(q.empty() && aq->empty(), "pop_all() empties the queue");
  delete aq;
  drop(n);
  all_destroyed();
}
//@proofopt atomic_queue_sequential bounded="queues of at most 4 elements"

PROOF(atomic_queue_threads) {
  aq = new AQ;
  mkt();
  vc_spawn([](void*) { if (aq->push_front(T[0])) ++empties; if (aq->push_front(T[1])) ++empties; }, nullptr, "producer 0");
  vc_spawn([](void*) {
    T[4]->next = T[3];  // a batch, oldest last
    Q b = Q::make(T[4]);
    aq->prepend(std::move(b));
  }, nullptr, "producer 1");
  vc_spawn([](void*) { Q q = aq->pop_all_reversed(); while (!q.empty()) fifo(q.pop_front()); }, nullptr, "consumer");
  vc_join_all();
  Q q = aq->pop_all_reversed();
  while (!q.empty()) fifo(q.pop_front());
  vc_assert(got == 4, "no element is lost");
  delete aq;
  rmt();
  all_destroyed();
}

PROOF(atomic_queue_try_push) {
  aq = new AQ;
  mkt();
  auto f = [](void* p) {
    int i = (int)(size_t)p;
    auto r = aq->try_push_front(T[i]);
    if (!r.__success) { vc_cover("contention"); T[i]->popped = 2; ++got; }
  };
  vc_spawn(f, (void*)0, "producer 0");
  vc_spawn(f, (void*)3, "producer 1");
  vc_spawn([](void*) { Q q = aq->pop_all(); while (!q.empty()) take(q.pop_front()); }, nullptr, "consumer");
  vc_join_all();
  Q q = aq->pop_all();
  while (!q.empty()) take(q.pop_front());
  vc_assert(got == 2, "an element is queued exactly when try_push_front() succeeds");
  delete aq;
  rmt();
  all_destroyed();
}

// push() tells the producer whether the consumer has to be woken
PROOF(waiting_queue_push) {
  sq = new SQ;
  int n = build("length");
  for (int i = 0; i < n; ++i) vc_assert(sq->push(N[i]) == (i == 0), "push() tells whether the queue was empty");
  auto q = sq->pop_all();
  for (int i = 0; i < n; ++i) vc_assert(q.pop_front() == N[i], "pop_all() returns the elements in the order they were pushed");
  vc_assert(q.empty(), "pop_all() returns each element once");
  if (n) vc_assert(sq->push(N[0]), "an emptied queue is empty again");
  sq->pop_all().clear();
  delete sq;
  drop(n);
  all_destroyed();
}
//@proofopt waiting_queue_push bounded="queues of at most 4 elements"

// run_loop's queue: a consumer that waits is woken by a push
PROOF(waiting_queue) {
  sq = new SQ;
  mkt();
  vc_spawn([](void*) { sq->push(T[0]); sq->push(T[1]); }, nullptr, "producer 0");
  vc_spawn([](void*) { sq->push(T[3]); }, nullptr, "producer 1");
  vc_spawn([](void*) {
    while (got < 3) {
      sq->wait_for_item();
      Q q = sq->pop_all();
      vc_assert(!q.empty(), "wait_for_item() returns only when there is an element");
      while (!q.empty()) fifo(q.pop_front());
    }
  }, nullptr, "consumer");
  vc_join_all();
  vc_assert(got == 3, "no element is lost");
  delete sq;
  rmt();
  all_destroyed();
}

// ---------------------------------------------------------------- multi producer, single consumer
namespace {
struct mnode {
  std::atomic<mnode*> next{nullptr};
  int id = 0;
  int popped = 0;
};
using MQ = STDEXEC::__intrusive_mpsc_queue<&mnode::next>;
MQ* mq;
mnode* m[6];
int pushed = 0, wake = 0;
void mmk() { mq = new MQ; for (int i = 0; i < 6; ++i) { m[i] = new mnode; m[i]->id = i; } last_of[0] = last_of[1] = -1; }
void mrm() { delete mq; for (int i = 0; i < 6; ++i) delete m[i]; }
void mtake(mnode* x) {
  vc_assert(x->id >= 0 && x->popped == 0, "an element is popped at most once");
  x->popped = 1;
  int p = x->id / 3;
  vc_assert(x->id > last_of[p], "elements of one producer are popped in the order in which they were pushed");
  last_of[p] = x->id;
  ++got;
}
}  // namespace

PROOF(mpsc_sequential) {
  mmk();
  int in = 0, outc = 0;
  for (int k = 0; k < 7; ++k) {
    if (in < 3 && vc_bool("push")) { mq->push_back(m[in++]); }
    else {
      mnode* x = mq->pop_front();
      if (in > outc) { vc_cover("popped"); vc_assert(x == m[outc], "pop_front() returns the oldest element"); ++outc; }
      else vc_assert(x == nullptr, "pop_front() returns null when the queue is empty");
    }
  }
  while (outc < in) vc_assert(mq->pop_front() == m[outc++], "no element is lost");
  vc_assert(mq->pop_front() == nullptr, "pop_front() returns null when the queue is empty");
  mrm();
  all_destroyed();
}
//@proofopt mpsc_sequential bounded="at most 7 operations on at most 3 elements"

PROOF(mpsc_reuse) {
  // an element that was popped may be pushed again, whatever its link was left as
  mmk();
  mnode* fifo[8];
  bool in[3] = {};
  int n = 0;
  for (int k = 0; k < 6; ++k) {
    unsigned what = vc_choice(4, "operation");
    if (what < 3) {
      if (in[what]) vc_end();
      in[what] = true;
      mq->push_back(m[what]);
      fifo[n++] = m[what];
    } else {
      mnode* x = mq->pop_front();
      if (n == 0) { vc_assert(x == nullptr, "pop_front() returns null when the queue is empty"); continue; }
      vc_cover("popped");
      vc_assert(x == fifo[0], "pop_front() returns the oldest element");
      in[x->id] = false;
      for (int i = 0; i + 1 < n; ++i) fifo[i] = fifo[i + 1];
      --n;
    }
  }
  for (int i = 0; i < n; ++i) vc_assert(mq->pop_front() == fifo[i], "no element is lost");
  vc_assert(mq->pop_front() == nullptr, "pop_front() returns null when the queue is empty");
  mrm();
  all_destroyed();
}
//@proofopt mpsc_reuse bounded="at most 6 operations on at most 3 elements"

// the wake-up protocol of the queue: a push that returns true is the one that has to wake the
// consumer; an element pushed while the consumer found the queue empty is announced
PROOF(mpsc_threads) {
  mmk();
  vc_spawn([](void*) { mq->push_back(m[0]); mq->push_back(m[1]); }, nullptr, "producer 0");
  vc_spawn([](void*) { mq->push_back(m[3]); }, nullptr, "producer 1");
  vc_spawn([](void*) {
    for (int i = 0; i < 3; ++i)
      if (mnode* x = mq->pop_front()) mtake(x);
  }, nullptr, "consumer");
  vc_join_all();
  while (mnode* x = mq->pop_front()) mtake(x);
  vc_assert(got == 3, "no element is lost");
  mrm();
  all_destroyed();
}

PROOF(mpsc_memory) {
  // the consumer may destroy an element as soon as it was popped
  mmk();
  vc_spawn([](void*) { mq->push_back(m[0]); }, nullptr, "producer 0");
  vc_spawn([](void*) { mq->push_back(m[3]); }, nullptr, "producer 1");
  vc_spawn([](void*) {
    for (int i = 0; i < 2; ++i)
      if (mnode* x = mq->pop_front()) { int k = x->id; mtake(x); delete x; m[k] = nullptr; }
  }, nullptr, "consumer");
  vc_join_all();
  while (mnode* x = mq->pop_front()) { int k = x->id; mtake(x); delete x; m[k] = nullptr; }
  vc_assert(got == 2, "no element is lost");
  delete mq;
  for (auto* x : m) delete x;
  all_destroyed();
}
