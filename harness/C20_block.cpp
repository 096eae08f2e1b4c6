// bwos::lifo_queue: contracts of the functions of one block, for every state of the block that
// satisfies the invariant and any change other threads may make meanwhile (rely/guarantee)
//@optional  looks at the representation
//@flags -fno-access-control
#include "vc.h"
#include <exec/detail/bwos_lifo_queue.hpp>

namespace {
using V = uint64_t;
using Q = exec::bwos::lifo_queue<V>;
using block = Q::block_type;
using ec = exec::bwos::lifo_queue_error_code;
using W = uint64_t;
constexpr W LOW = 0xFFFFFFFFu;
block* b;
W size;
V slot[4];
W pack(uint32_t r, W i) { return ((W)r << 32) | i; }
void make() {
  size = vc_choice(4, "block size") + 1;
  b = new block((std::size_t)size);
  vc_assert(b->block_size() == size, "a block has the size asked for");
  for (W i = 0; i < size; ++i) b->ring_buffer_[i] = slot[i] = vc_u64("element");
}
void set(W head, W tail, W steal, W count) {
  b->head_.store(head);
  b->tail_.store(tail);
  b->steal_tail_.store(steal);
  b->steal_count_.store(count);
}
W head() { return b->head_.load(); }
W tail() { return b->tail_.load(); }
W steal_tail() { return b->steal_tail_.load(); }
W steal_count() { return b->steal_count_.load(); }
void elements_same(W except) {
  for (W i = 0; i < size; ++i) vc_assert((i == except) | (b->ring_buffer_[i] == slot[i]), "the other elements are unchanged");
}
// the owner works on the block: elements [front, back) are its own, thieves are kept away
W front, back, cnt;
uint32_t rnd;
void owned() {
  make();
  rnd = vc_u32("round");
  front = vc_u64("front");
  back = vc_u64("back");
  cnt = vc_u64("taken");
  vc_assume(cnt <= front && front <= back && back <= size);
  set(pack(rnd, front), back, pack(rnd, size), cnt);
}
// thieves that had claimed an element before finish taking it
int tail_orders, released;
void still_owned() {
  vc_assert(head() == pack(rnd, front), "the front only moves by thieves");
  vc_assert(steal_tail() == pack(rnd, size), "thieves are kept away while the owner works on the block");
  vc_assert(steal_count() == cnt, "only thieves count what they took");
}
void fin() {
  delete b;
  vc_no_leaks("all memory is released");
}
void watch_tail() {
  vc_shared(&b->tail_, sizeof b->tail_, nullptr, [](void*, int kind, uint64_t, uint64_t, int order) {
    if (kind == VC_STORE || kind == VC_RMW || kind == VC_CMPXCHG) vc_assert(vc_releases(order), "the owner publishes an element when it moves the back");
  });
}
}  // namespace

PROOF(put) {
  owned();
  watch_tail();
  V x = vc_u64("value");
  ec r = b->put(x);
  vc_unshare(&b->tail_);
  if (r == ec::success) {
    vc_cover("put");
    vc_assert(back < size, "only a block with room takes an element");
    vc_assert(b->ring_buffer_[back] == x, "the element goes behind the others");
    vc_assert(tail() == back + 1, "one element more");
    elements_same(back);
  } else {
    vc_cover("full");
    vc_assert(r == ec::full && back == size && tail() == back, "a block refuses an element only when it is full");
    elements_same(size);
  }
  still_owned();
  fin();
}
PROOF(bulk_put) {
  owned();
  watch_tail();
  V in[5];
  for (V& x : in) x = vc_u64("value");
  unsigned n = vc_choice(6, "elements");
  V* e = b->bulk_put(in, in + n);
  vc_unshare(&b->tail_);
  W k = (W)(e - in);
  vc_assert(k == (n < size - back ? n : size - back), "as many elements are put as there is room for");
  vc_assert(tail() == back + k, "the elements put are counted");
  for (W i = 0; i < size; ++i) {
    V want = slot[i];
    for (W j = 0; j < k; ++j) if (i == back + j) want = in[j];
    vc_assert(b->ring_buffer_[i] == want, "the elements go in order behind the others, which are unchanged");
  }
  still_owned();
  fin();
}
PROOF(get) {
  owned();
  auto [r, v] = b->get();
  if (r == ec::success) {
    vc_cover("got");
    vc_assert(front < back, "an element that thieves have taken is not taken again");
    vc_assert(v == slot[back - 1] && tail() == back - 1, "the owner takes the newest element");
  } else {
    vc_assert(r == ec::empty || r == ec::done, "the owner never conflicts");
    vc_assert(front == back, "the block is empty only when nothing is left in it");
    if (r == ec::done) vc_assert(front == size, "a block is done when all of it was taken");
    vc_assert(tail() == back, "nothing is removed");
    if (back == 0) vc_cover("never used");
  }
  elements_same(size);
  still_owned();
  fin();
}
PROOF(reclaim) {
  make();
  // thieves are still finishing with the elements they claimed
  uint32_t old = vc_u32("old round");
  rnd = vc_u32("round");
  static W expect;
  expect = vc_u64("front");
  vc_assume(expect <= size);
  cnt = vc_u64("taken");
  vc_assume(cnt <= expect);
  set(pack(old, expect), vc_u64("back"), pack(rnd - 1, size), cnt);
  static bool may_reuse;
  vc_shared(&b->steal_count_, sizeof b->steal_count_, [](void*, int, int) {
    if (may_reuse) return;
    W c = vc_u64("taken meanwhile");
    vc_assume(c >= cnt && c <= expect);
    b->steal_count_.store(c, std::memory_order_relaxed);
    cnt = c;
  }, [](void*, int kind, uint64_t, uint64_t n, int order) {
    if ((kind == VC_LOAD || kind == VC_RMW || kind == VC_CMPXCHG) && n == expect && vc_acquires(order)) may_reuse = true;
    if (kind == VC_STORE) vc_assert(may_reuse, "a block is reused only after the thieves are done with it");
  });
  auto nowrite = [](void*, int kind, uint64_t, uint64_t, int) { if (kind != VC_LOAD) vc_assert(may_reuse, "a block is reused only after the thieves are done with it"); };
  vc_shared(&b->tail_, sizeof b->tail_, nullptr, nowrite);
  b->reclaim(rnd);
  vc_unshare(&b->tail_);
  vc_unshare(&b->steal_count_);
  vc_assert(may_reuse, "reclaim waits for the thieves and sees what they did");
  vc_assert(head() == pack(rnd, 0) && tail() == 0 && steal_tail() == pack(rnd, size) && steal_count() == 0, "a reclaimed block is empty and owned");
  fin();
}
//@proofopt reclaim loops="subsume"
PROOF(grant) {
  owned();
  vc_assume(back == size);
  vc_shared(&b->steal_tail_, sizeof b->steal_tail_, nullptr, [](void*, int kind, uint64_t, uint64_t n, int order) {
    if (kind == VC_LOAD) return;
    vc_assert(vc_releases(order), "granting a block publishes its elements");
    vc_assert(n == pack(rnd, front), "the elements that are left are granted to the thieves");
  });
  b->grant();
  vc_unshare(&b->steal_tail_);
  vc_assert(steal_tail() == pack(rnd, front), "the elements that are left are granted to the thieves");
  vc_assert(head() == pack(rnd, size) && tail() == size && steal_count() == cnt, "granting changes nothing else");
  elements_same(size);
  fin();
}
PROOF(takeover) {
  make();
  // the block is granted; thieves claim elements until the owner takes it back
  rnd = vc_u32("round");
  front = vc_u64("front");
  cnt = vc_u64("taken");
  vc_assume(cnt <= front && front <= size);
  set(pack(rnd, size), size, pack(rnd, front), cnt);
  static bool taken;
  vc_shared(&b->steal_tail_, sizeof b->steal_tail_, [](void*, int, int) {
    if (taken) return;
    W f = vc_u64("claimed meanwhile");
    vc_assume(f >= front && f <= size);
    front = f;
    b->steal_tail_.store(pack(rnd, f), std::memory_order_relaxed);
  }, [](void*, int kind, uint64_t, uint64_t n, int) {
    if (kind != VC_LOAD && kind != VC_CMPXCHG_FAIL) {
      vc_assert(n == pack(rnd, size), "thieves are kept away from a block taken back");
      taken = true;
    }
  });
  b->takeover();
  vc_unshare(&b->steal_tail_);
  vc_assert(taken, "the block is taken back");
  vc_assert(head() == pack(rnd, front) && tail() == size, "the owner gets exactly the elements no thief claimed");
  vc_assert(steal_count() == cnt, "only thieves count what they took");
  elements_same(size);
  fin();
}
PROOF(retreat) {
  owned();
  vc_assume(front == back);
  b->reduce_round();
  vc_assert(steal_tail() == pack(rnd - 1, size), "the block can be used again in the same round");
  vc_assert(head() == pack(rnd, front) && tail() == back && steal_count() == cnt, "nothing else changes");
  vc_assert(b->is_writable(rnd), "the block can be used again in the same round");
  fin();
}
PROOF(writable) {
  make();
  W st = vc_u64("steal tail");
  uint32_t r = vc_u32("round");
  set(vc_u64("head"), vc_u64("tail"), st, vc_u64("taken"));
  bool w = b->is_writable(r);
  vc_assert(w == (st == pack(r - 1, size)), "a block is writable when all of its elements of the round before are claimed");
  vc_assert(steal_tail() == st, "looking changes nothing");
  fin();
}
namespace {
W cur;            // ghost: the steal tail
uint64_t claims, claimed_at, counted;
bool sees_grant;
}
PROOF(steal) {
  make();
  // anything may happen to the block between the steps of the thief
  uint32_t mine = vc_u32("round the thief looks for");
  cur = vc_u64("steal tail");
  vc_assume((cur & LOW) <= size);
  set(vc_u64("head"), vc_u64("tail"), cur, vc_u64("taken"));
  static W back_seen, spos_seen;
  back_seen = ~(W)0;
  static bool acquired_back;
  vc_shared(&b->tail_, sizeof b->tail_, [](void*, int, int) {
    W t = vc_u64("back");
    vc_assume(t <= size);
    b->tail_.store(t, std::memory_order_relaxed);
  }, [](void*, int kind, uint64_t, uint64_t n, int order) {
    vc_assert(kind == VC_LOAD, "a thief does not move the back");
    back_seen = n;
    acquired_back = vc_acquires(order);
  });
  vc_shared(&b->steal_tail_, sizeof b->steal_tail_, [](void*, int, int) {
    if (claims) return;
    cur = vc_u64("steal tail");
    vc_assume((cur & LOW) <= size);
    b->steal_tail_.store(cur, std::memory_order_relaxed);
    // (between two steps the owner may have taken the block back, refilled it and granted it)
    W i = cur & LOW;
    if (i < size) for (W k = 0; k < size; ++k) b->ring_buffer_[k] = slot[k] = vc_u64("element");
  }, [](void*, int kind, uint64_t o, uint64_t n, int order) {
    if (kind == VC_LOAD || kind == VC_CMPXCHG_FAIL) { spos_seen = n; return; }
    ++claims;
    claimed_at = o;
    vc_assert(claims == 1 && (o & LOW) < size && n == o + 1, "a thief claims exactly the front element, once");
    vc_assert(back_seen != ~(W)0 && acquired_back && back_seen != (o & LOW), "an element is claimed only when it was written");
    sees_grant = vc_acquires(order);
    vc_assert(sees_grant, "the thief sees the element as it was when the block was granted last");
  });
  vc_shared(&b->steal_count_, sizeof b->steal_count_, nullptr, [](void*, int kind, uint64_t o, uint64_t n, int order) {
    if (kind == VC_LOAD || kind == VC_CMPXCHG_FAIL) return;
    ++counted;
    vc_assert(claims == 1 && n == o + 1 && vc_releases(order) && kind != VC_STORE, "taking an element is counted once, after it was taken");
    // from now on the owner may reuse the block
    for (W k = 0; k < size; ++k) b->ring_buffer_[k] = ~(V)0;
  });
  auto [r, v] = b->steal(mine);
  vc_unshare(&b->steal_count_);
  vc_unshare(&b->steal_tail_);
  vc_unshare(&b->tail_);
  if (r == ec::success) {
    vc_cover("stolen");
    vc_assert(claims == 1 && counted == 1 && v == slot[claimed_at & LOW], "the thief gets the element it claimed");
  } else {
    vc_assert(claims == 0 && counted == 0, "without an element nothing is claimed");
    if (r == ec::done) { vc_cover("done"); vc_assert(spos_seen == pack(mine, size), "the block is done when all its elements of this round are claimed"); }
    else if (r == ec::empty) { vc_cover("empty"); vc_assert((spos_seen & LOW) == size ? (spos_seen >> 32) != mine : back_seen == (spos_seen & LOW), "the block is empty when no element is left"); }
    else { vc_cover("conflict"); vc_assert(r == ec::conflict, "another thief was faster"); }
  }
  fin();
}
PROOF(counters) {
  unsigned n = 1u << vc_choice(5, "blocks");
  Q q(n, 1);
  vc_assert(q.num_blocks() == n, "a power of two is kept");
  uint32_t r = vc_u32("round"), i = vc_u32("index");
  vc_assume(i < n);
  W c = pack(r, i), up = q.increase_block_counter(c), down = q.decrease_block_counter(c);
  vc_assert(q.decrease_block_counter(up) == c && q.increase_block_counter(down) == c, "the previous of the next block is the block itself");
  vc_assert((up & LOW) == (i + 1 == n ? 0 : i + 1), "the next block follows in the ring");
  vc_assert((uint32_t)(up >> 32) == (i + 1 == n ? r + 1 : r), "a new round starts at the first block");
}
