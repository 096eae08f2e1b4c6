// bwos::lifo_queue: every element is taken exactly once, by the owner (newest first) or by a thief
#include "vc.h"
#include <exec/detail/bwos_lifo_queue.hpp>
#include <atomic>
#include <memory>

namespace {
constexpr int N = 24;
struct item { int taken = 0; };
item items[N];
int pushed = 0;
using Q = exec::bwos::lifo_queue<item*>;
Q* q;
int index(item* p) {
  long i = p - items;
  vc_assert(i >= 0 && i < pushed, "only an element that was pushed is handed over");
  return (int)i;
}
void take(item* p) {
  index(p);
  vc_assert(p->taken == 0, "an element is handed over once");
  p->taken = 1;
}
int newest() { for (int i = pushed - 1; i >= 0; --i) if (!items[i].taken) return i; return -1; }
int oldest() { for (int i = 0; i < pushed; ++i) if (!items[i].taken) return i; return -1; }
int count() { int c = 0; for (int i = 0; i < pushed; ++i) c += !items[i].taken; return c; }
bool pushes() { bool ok = q->push_back(&items[pushed]); if (ok) ++pushed; return ok; }
void pops() {
  int n = newest();
  item* p = q->pop_back();
  vc_assert(p || n == -1, "the owner gets an element when there is one");
  if (p) { take(p); vc_assert(index(p) == n, "the owner gets the newest element"); }
}
bool steals() {
  int o = oldest();
  item* p = q->steal_front();
  if (p) { take(p); vc_assert(index(p) == o, "a thief gets the oldest element"); vc_cover("stolen"); }
  return p;
}
void drain() {
  while (int c = count()) { pops(); vc_assert(count() == c - 1, "every element is still there"); }
  vc_assert(q->pop_back() == nullptr && q->steal_front() == nullptr, "nothing is left");
}
}  // namespace

//@proofopt sequential bounded="sequences of 7 operations, 2 or 4 blocks of 1 or 2 elements"
PROOF(sequential) {
  unsigned nb = vc_choice(2, "blocks") ? 4 : 2, bs = vc_choice(2, "block size") ? 2 : 1;
  q = new Q(nb, bs);
  vc_assert(q->num_blocks() == nb && q->block_size() == bs, "the queue has the size asked for");
  for (int i = 0; i < 7; ++i) {
    unsigned c = vc_choice(3, "operation");
    if (c == 0) {
      int n = count();
      if (!pushes()) { vc_cover("full"); vc_assert(n > 0, "an empty queue takes an element"); }
    } else if (c == 1) pops();
    else steals();
  }
  drain();
  delete q;
  vc_no_leaks("all memory is released");
}
//@proofopt bulk bounded="up to 5 elements at once, 2 or 4 blocks of 2"
PROOF(bulk) {
  unsigned nb = vc_choice(2, "blocks") ? 4 : 2;
  q = new Q(nb, 2);
  item* ptrs[5];
  for (int r = 0; r < 3; ++r) {
    unsigned k = vc_choice(6, "elements");
    for (unsigned i = 0; i < k; ++i) ptrs[i] = &items[pushed + i];
    item** e = q->push_back(ptrs, ptrs + k);
    vc_assert(e >= ptrs && e <= ptrs + k, "the first element that did not fit is returned");
    pushed += int(e - ptrs);
    if (e != ptrs + k) vc_cover("did not fit");
    unsigned t = vc_choice(3, "take");
    for (unsigned i = 0; i < 2; ++i) { if (t == 1) pops(); if (t == 2) steals(); }
  }
  drain();
  delete q;
  vc_no_leaks("all memory is released");
}

// ------------------------------------------------------------------ owner against thieves
namespace {
std::atomic<int> claimed[N];
void take_mt(item* p) {
  if (!p) return;
  long i = p - items;
  vc_assert(i >= 0 && i < N, "only an element that was pushed is handed over");
  vc_assert(claimed[i].fetch_add(1) == 0, "an element is handed over once");
  vc_assert(p->taken == 7, "what was written before the push is seen by the taker");
  p->taken = 1;
}
unsigned nops;
unsigned script[8];
int npushed_mt;
void push_mt() {
  item* p = &items[npushed_mt];
  p->taken = 7;
  if (q->push_back(p)) ++npushed_mt;
  else p->taken = 0;
}
void owner(void*) {
  for (unsigned i = 0; i < nops; ++i) {
    if (script[i] == 0) push_mt();
    else take_mt(q->pop_back());
  }
}
void thief(void*) { take_mt(q->steal_front()); }
void thief2(void*) { take_mt(q->steal_front()); take_mt(q->steal_front()); }
void finish() {
  int n = 0;
  for (int i = 0; i < npushed_mt; ++i) n += claimed[i] == 0;
  for (int i = 0; i < n; ++i) {
    item* p = q->pop_back();
    vc_assert(p != nullptr, "no element is lost");
    take_mt(p);
  }
  vc_assert(q->pop_back() == nullptr && q->steal_front() == nullptr, "nothing is left");
  for (int i = 0; i < npushed_mt; ++i) vc_assert(claimed[i] == 1, "every element is handed over exactly once");
  delete q;
  vc_no_leaks("all memory is released");
}
void setup(unsigned nb, unsigned bs, unsigned before, unsigned ops) {
  q = new Q(nb, bs);
  for (unsigned i = 0; i < before; ++i) push_mt();
  nops = ops;
  for (unsigned i = 0; i < nops; ++i) script[i] = vc_choice(2, "owner's operation");
}
}  // namespace
//@proofopt thief_single preemptions=2
PROOF(thief_single) {
  setup(2, 1, vc_choice(3, "elements before"), 3);
  vc_spawn(owner, nullptr, "owner");
  vc_spawn(thief2, nullptr, "thief");
  vc_join_all();
  finish();
}
//@proofopt thief_blocks preemptions=2
PROOF(thief_blocks) {
  setup(2, 2, 2 + vc_choice(2, "elements before"), 3);
  vc_spawn(owner, nullptr, "owner");
  vc_spawn(thief, nullptr, "thief");
  vc_join_all();
  finish();
}
//@proofopt two_thieves preemptions=2
PROOF(two_thieves) {
  setup(2, 1, 2, 2);
  vc_spawn(owner, nullptr, "owner");
  vc_spawn(thief, nullptr, "thief 1");
  vc_spawn(thief, nullptr, "thief 2");
  vc_join_all();
  finish();
}
//@proofopt reused_block preemptions=1
// the block a thief looks at is taken back, refilled and granted again meanwhile
PROOF(reused_block) {
  setup(2, 1, 2, 4);
  vc_spawn(owner, nullptr, "owner");
  vc_spawn(thief, nullptr, "thief");
  vc_join_all();
  finish();
}
