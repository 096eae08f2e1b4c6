// exec::intrusive_heap: one operation on any heap of up to N elements with any keys
//@optional
#include "lib.h"
#include <exec/detail/intrusive_heap.hpp>
using namespace vt;
#ifdef VC_THOROUGH
constexpr int N = 16;
#else
constexpr int N = 11;
#endif
namespace {
struct key {
  uint32_t k;
  friend bool operator<(key const & a, key const & b) noexcept { return a.k < b.k; }
};
struct node {
  key k;
  node* prev = nullptr;
  node* left = nullptr;
  node* right = nullptr;
  int idx = 0;
};
using heap = exec::intrusive_heap<node, key, &node::k, &node::prev, &node::left, &node::right>;
heap* h;
node* n[N + 1];
bool in[N + 1];
int cnt;
// every heap with c elements: a complete tree with any keys in heap order
void build(int c) {
  h = new heap;
  for (int i = 0; i <= N; ++i) { n[i] = new node; n[i]->idx = i; n[i]->k.k = vc_u32("key"); }
  auto link = [](int i) -> node* { return i < cnt ? n[i] : nullptr; };
  cnt = c;
  for (int i = 0; i < c; ++i) {
    in[i] = true;
    n[i]->left = link(2 * i + 1);
    n[i]->right = link(2 * i + 2);
    n[i]->prev = i == 0 ? nullptr : n[(i - 1) / 2];
    if (i) vc_assume(n[(i - 1) / 2]->k.k <= n[i]->k.k);
  }
  h->root_ = link(0);
  h->size_ = c;
}
// the representation invariant, and the set of elements
void check() {
  node* t[N + 2] = {};
  bool seen[N + 1] = {};
  t[0] = h->root_;
  vc_assert(h->size_ == (size_t)cnt, "the number of elements is right");
  vc_assert((t[0] != nullptr) == (cnt > 0), "the heap is empty exactly when it has no elements");
  vc_assert(h->front() == t[0], "front() is the root");
  for (int i = 0; i < cnt; ++i) {
    node* x = t[i];
    vc_assert(x != nullptr, "the tree is complete");
    if (!x) return;
    vc_assert(in[x->idx] && !seen[x->idx], "the heap has exactly the inserted and not yet removed elements");
    seen[x->idx] = true;
    vc_assert(x->prev == (i ? t[(i - 1) / 2] : nullptr), "every element knows its parent");
    if (i) vc_assert(!(x->k < t[(i - 1) / 2]->k), "an element is never before its parent");
    if (2 * i + 1 < cnt) t[2 * i + 1] = x->left; else vc_assert(x->left == nullptr, "the tree has no other elements");
    if (2 * i + 2 < cnt) t[2 * i + 2] = x->right; else vc_assert(x->right == nullptr, "the tree has no other elements");
  }
}
void done() {
  delete h;
  for (auto* x : n) delete x;
  all_destroyed();
}
}  // namespace

PROOF(insert) {
  build(vc_choice(N + 1, "size"));
  int i = cnt;
  in[i] = true;
  ++cnt;
  h->insert(n[i]);
  check();
  done();
}
//@proofopt insert bounded="heaps of at most 11 (thorough: 16) elements, any keys"
PROOF(pop_front) {
  build(1 + vc_choice(N, "size"));
  in[0] = false;
  --cnt;
  h->pop_front();
  check();
  vc_assert(!h->erase(n[0]), "a popped element can not be erased");
  check();
  done();
}
//@proofopt pop_front bounded="heaps of at most 11 (thorough: 16) elements, any keys"
PROOF(erase) {
  build(1 + vc_choice(N, "size"));
  int i = vc_choice(cnt, "element");
  in[i] = false;
  --cnt;
  vc_assert(h->erase(n[i]), "an element of the heap is erased");
  check();
  vc_assert(!h->erase(n[i]), "an erased element can not be erased again");
  check();
  in[i] = true;
  ++cnt;
  h->insert(n[i]);
  check();
  done();
}
//@proofopt erase bounded="heaps of at most 11 (thorough: 16) elements, any keys"
PROOF(erase_absent) {
  build(vc_choice(4, "size"));
  vc_assert(!h->erase(n[N]), "an element that was never inserted is not erased");
  check();
  done();
}
//@proofopt erase_absent bounded="heaps of at most 3 elements"
// the path to the last leaf, for every size
PROOF(path_mask) {
  uint64_t s = vc_u64("size");
  vc_assume(s >= 1 && s < (1ull << 62));
  uint64_t m = exec::detail::path_bit_mask(s);
  // m is the second highest bit of s
  if (s == 1) { vc_cover("one"); vc_assert(m == 0, "the first element is the root"); }
  else {
    vc_cover("more");
    vc_assert((m & (m - 1)) == 0 && m != 0 && (s >> 1) >= m && (s >> 2) < m, "the path to the last element starts below the highest bit");
  }
}
