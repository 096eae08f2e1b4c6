// owning and referring type-erased wrappers
#include "lib.h"
#include <stdexec/__detail/__any.hpp>
namespace any = STDEXEC::__any;
using namespace vt;
namespace {
template <class B>
struct ival : any::__interface_base<ival, B, any::__extends<any::__icopyable>> {
  using ival::__interface_base::__interface_base;
  constexpr virtual uint32_t get() const { return any::__value(*this).get(); }
  constexpr virtual void put(uint32_t v) { any::__value(*this).put(v); }
};
// a richer interface with a larger buffer
template <class B>
struct iwide : any::__interface_base<iwide, B, any::__extends<ival>, 6 * sizeof(void*)> {
  using iwide::__interface_base::__interface_base;
  constexpr virtual uint32_t wide() const { return any::__value(*this).wide(); }
};
template <class T, int Pad>
struct held {
  T t;
  char pad[Pad] = {};
  explicit held(uint32_t v) : t(v) {}
  uint32_t get() const { return t.get(); }
  uint32_t wide() const { return t.get() + 1; }
  void put(uint32_t v) { t.check(); t.id = v; }
};
template <class T>
struct held<T, 0> {
  T t;
  explicit held(uint32_t v) : t(v) {}
  uint32_t get() const { return t.get(); }
  uint32_t wide() const { return t.get() + 1; }
  void put(uint32_t v) { t.check(); t.id = v; }
};
using small = held<xtok, 0>;     // fits into every buffer
using mid = held<xtok, 24>;      // fits into the larger buffer only
using big = held<xtok, 64>;      // fits into no buffer
using bad = held<tok, 0>;        // its move may throw: never in a buffer
enum { NIL, SMALL, MID, BIG, BAD, NTYPES };
struct m { unsigned type; uint32_t v; };

using val = any::__any<ival>;
using wide = any::__any<iwide>;

template <class A>
[[gnu::noinline]] void is(A const & a, m e) {
  vc_assert(any::__empty(a) == (e.type == NIL), "empty exactly when nothing is held");
  auto* s = any::__any_cast<small>(&a);
  auto* i = any::__any_cast<mid>(&a);
  auto* b = any::__any_cast<big>(&a);
  auto* x = any::__any_cast<bad>(&a);
  vc_assert((s != nullptr) == (e.type == SMALL) && (i != nullptr) == (e.type == MID) && (b != nullptr) == (e.type == BIG)
              && (x != nullptr) == (e.type == BAD), "a cast succeeds for the type that is held and no other");
  if (e.type == NIL) { vc_assert(any::__type(a) == STDEXEC::__mtypeid<void>, "an empty wrapper has no type"); return; }
  vc_assert(a.get() == e.v, "the object that is held is the one that was put there");
  uint32_t g = s ? s->get() : i ? i->get() : b ? b->get() : x->get();
  vc_assert(g == e.v, "a cast gives the object that is held");
}
template <class A>
void fill(A& a, m e) {
  if (e.type == SMALL) a = small(e.v);
  if (e.type == MID) a = mid(e.v);
  if (e.type == BIG) a = big(e.v);
  if (e.type == BAD) a = bad(e.v);
}
template <class A>
m make(A& a, uint32_t v) {
  m e{(unsigned) vc_choice(NTYPES, "type"), v};
  fill(a, e);
  is(a, e);
  return e;
}
template <class F>
bool tried(F f) {
  int t = thrown_count;
  bool thrown_here = false;
  try { f(); }
  catch (thrown const &) { thrown_here = true; }
  catch (std::bad_alloc const &) { thrown_here = true; }
  vc_assert(thrown_here || (int) thrown_count == t, "an exception is never lost");
  return !thrown_here;
}
// what is left after a throw is something valid
template <class A>
void valid(A& a, m& e) {
  if (any::__empty(a)) e = m{NIL, 0};
  is(a, e);
}
enum { COPY_CTOR, MOVE_CTOR, COPY, MOVE, SELF_COPY, SELF_MOVE, SWAP, SWAP_SELF, RESET, ASSIGN, PUT, NOPS };
// one operation; e and f say what a and b hold
template <class A>
void step(A& a, A& b, m& e, m& f, unsigned op, uint32_t nv) {
  using std::swap;
  switch (op) {
  case COPY_CTOR:
    tried([&] { A c(static_cast<A const &>(b)); is(c, f); });
    break;
  case MOVE_CTOR:
    if (tried([&] { A c(std::move(b)); is(c, f); })) { valid(b, f); vc_assert(f.type == NIL, "what was moved from is empty"); }
    else valid(b, f);
    break;
  case COPY:
    if (tried([&] { a = static_cast<A const &>(b); })) e = f;
    else vc_cover("a failed copy");   // and nothing has changed
    break;
  case MOVE: {
    m o = f;
    if (tried([&] { a = std::move(b); })) { e = o; valid(b, f); vc_assert(f.type == NIL, "what was moved from is empty"); }
    else { valid(a, e); valid(b, f); }
    break;
  }
  case SELF_COPY:
    if (!tried([&] { a = static_cast<A const &>(a); })) valid(a, e);
    break;
  case SELF_MOVE: {
    auto& r = a;
    if (tried([&] { a = std::move(r); })) valid(a, e);
    else valid(a, e);
    break;
  }
  case SWAP: {
    if (tried([&] { swap(a, b); })) { m o = e; e = f; f = o; }
    else { valid(a, e); valid(b, f); }
    break;
  }
  case SWAP_SELF: swap(a, a); break;
  case RESET: any::__reset(a); e = m{NIL, 0}; break;
  case ASSIGN: {
    m n{1 + (unsigned) vc_choice(NTYPES - 1, "new type"), nv};
    if (tried([&] { fill(a, n); })) e = n;
    else valid(a, e);
    break;
  }
  case PUT:
    if (e.type != NIL) { a.put(nv); e.v = nv; }
    break;
  }
  is(a, e);
  is(b, f);
}
template <class A>
void run(int nops, bool throws, unsigned op0 = NOPS) {
  {
    A a, b;
    uint32_t v[4] = {vc_u32("a"), vc_u32("b"), vc_u32("new"), vc_u32("newer")};
    vc_assume(v[0] != MOVED && v[1] != MOVED && v[2] != MOVED && v[3] != MOVED);
    m e = make(a, v[0]), f = make(b, v[1]);
    if (throws) throws_left = 1;
    step(a, b, e, f, op0 == NOPS ? vc_choice(NOPS, "operation") : op0, v[2]);
    if (nops > 1) step(a, b, e, f, vc_choice(NOPS, "operation"), v[3]);
    throws_left = 0;
  }
  if (thrown_count) vc_cover("throws");
  all_destroyed();
}
}  // namespace
PROOF(value_one) { run<val>(1, true); }
PROOF(wide_one) { run<wide>(1, true); }
PROOF(value_two) { run<val>(2, false); }
PROOF(wide_two) { run<wide>(2, false); }
// memory may run out
// an object is aligned as its type asks, in the buffer, in memory of its own, and after being moved between them
namespace {
template <class B>
struct iaddr : any::__interface_base<iaddr, B, any::__extends<any::__icopyable>, 22 * sizeof(void*)> {
  using iaddr::__interface_base::__interface_base;
  constexpr virtual void const * address() const { return any::__value(*this).address(); }
};
template <unsigned Al> struct alignas(Al) aligned_tok { xtok t; explicit aligned_tok(uint32_t v) : t(v) {} void const * address() const { return this; } };
template <unsigned Al, class A> void aligned(A const & a, uint32_t v) {
  vc_assert(reinterpret_cast<std::uintptr_t>(a.address()) % Al == 0, "the object is aligned");
  vc_assert(any::__any_cast<aligned_tok<Al>>(&a) == a.address(), "a cast gives the object");
  vc_assert(any::__any_cast<aligned_tok<Al>>(&a)->t.get() == v, "the object is the one that was put there");
}
template <unsigned Al> void aligns() {
  {
    uint32_t v = vc_u32("value");
    vc_assume(v != MOVED);
    any::__any<iaddr> a, b;
    a = aligned_tok<Al>(v);
    aligned<Al>(a, v);
    b = a;
    aligned<Al>(b, v);
    any::__any<iaddr> c(std::move(a));
    aligned<Al>(c, v);
    swap(b, c);
    aligned<Al>(b, v);
    aligned<Al>(c, v);
  }
  all_destroyed();
}
}  // namespace
PROOF(aligned_8) { aligns<8>(); }
PROOF(aligned_16) { aligns<16>(); }
PROOF(aligned_64) { aligns<64>(); }

PROOF(no_memory) {
  {
    val a, b;
    m e{NIL, 0}, f = make(b, 5);
    vc_oom(true);
    bool ok = tried([&] { m n{1 + (unsigned) vc_choice(NTYPES - 1, "new type"), 7}; fill(a, n); e = n; });
    vc_oom(false);
    if (!ok) vc_cover("no memory");
    is(a, ok ? e : m{NIL, 0});
    if (!ok) e = m{NIL, 0};
    vc_oom(true);
    step(a, b, e, f, vc_choice(2, "copy") ? (unsigned) COPY : (unsigned) COPY_CTOR, 9);
    vc_oom(false);
  }
  all_destroyed();
}
// a richer wrapper becomes a poorer one, with a smaller buffer
PROOF(converts) {
  {
    wide w;
    val a;
    m f = make(w, 5), e = make(a, 6);
    throws_left = 1;
    unsigned how = vc_choice(4, "how");
    bool ok = true;
    m o = f;
    if (how == 0) ok = tried([&] { val c(static_cast<wide const &>(w)); is(c, f); });
    if (how == 1) { ok = tried([&] { val c(std::move(w)); is(c, o); }); valid(w, f); if (ok) vc_assert(f.type == NIL, "what was moved from is empty"); }
    if (how == 2) { ok = tried([&] { a = static_cast<wide const &>(w); }); if (ok) e = f; else valid(a, e); }
    if (how == 3) { ok = tried([&] { a = std::move(w); }); if (ok) e = o; else valid(a, e); valid(w, f); if (ok) vc_assert(f.type == NIL, "what was moved from is empty"); }
    is(w, f);
    is(a, e);
    throws_left = 0;
  }
  all_destroyed();
}
PROOF(converts_no_memory) {
  {
    wide w;
    val a;
    m f = make(w, 5), e = make(a, 6);
    vc_oom(true);
    bool ok = tried([&] { a = std::move(w); });
    vc_oom(false);
    if (!ok) vc_cover("no memory");
    m o = f;
    if (ok) e = o; else valid(a, e);
    valid(w, f);
    is(a, e);
  }
  all_destroyed();
}
// the other ways to fill a wrapper
PROOF(emplaces) {
  {
    throws_left = 1;
    unsigned how = vc_choice(3, "how");
    if (how == 0) { if (tried([&] { val a(std::in_place_type<big>, 4u); is(a, m{BIG, 4}); })) vc_cover("done"); }
    if (how == 1) { if (tried([&] { val a(STDEXEC::__in_place_from, [] { maybe_throw("function throws"); return small(4u); }); is(a, m{SMALL, 4}); })) vc_cover("done"); }
    if (how == 2) { if (tried([&] { val a(bad(4u)); is(a, m{BAD, 4}); })) vc_cover("done"); }
    throws_left = 0;
  }
  all_destroyed();
}
// memory comes from, and goes back to, the allocator that is given
namespace {
int blocks = 0;
template <class T>
struct alloc {
  using value_type = T;
  int tag = 3;
  alloc() = default;
  template <class U> alloc(alloc<U> const & o) noexcept : tag(o.tag) {}
  T* allocate(size_t n) { vc_assert(tag == 3 && n == 1, "one object"); ++blocks; return static_cast<T*>(::operator new(sizeof(T))); }
  void deallocate(T* p, size_t n) noexcept { vc_assert(tag == 3 && n == 1, "one object"); --blocks; ::operator delete(p); }
  template <class U> bool operator==(alloc<U> const &) const noexcept { return true; }
};
template <class T> void with_alloc(unsigned type) {
  throws_left = 1;
  int t = thrown_count;
  {
    T x(8u);
    tried([&] {
      val a(std::move(x), alloc<T>{});
      is(a, m{type, 8});
      vc_assert(blocks == (type == SMALL ? 0 : 1), "one block for what does not fit into the buffer");
      val b(std::move(a));
      is(b, m{type, 8});
      vc_assert(any::__empty(a), "what was moved from is empty");
      val c(b);
      is(c, m{type, 8});
      is(b, m{type, 8});
    });
    throws_left = 0;
  }
  vc_assert(blocks == 0, "all memory is given back to the allocator");
  all_destroyed();
}
}
PROOF(allocates_small) { with_alloc<small>(SMALL); }
PROOF(allocates_big) { with_alloc<big>(BIG); }
PROOF(allocates_bad) { with_alloc<bad>(BAD); }

// ------------------------------------------------------------------ references
namespace {
template <class P> void points(P const & p, void const * at, uint32_t v) {
  vc_assert(p->get() == v, "a pointer refers to the object");
  auto* s = any::__any_cast<small>(p);
  auto* b = any::__any_cast<big>(p);
  vc_assert(((void const *) s == at) + ((void const *) b == at) == 1 && (!s || !b), "a pointer refers to the object itself, under its type");
}
}
PROOF(pointers) {
  {
    wide w;
    small s(6u);
    m f{vc_choice(2, "type") ? (unsigned) BIG : (unsigned) SMALL, 5};
    fill(w, f);
    void const * at = f.type == BIG ? (void const *) any::__any_cast<big>(&w) : (void const *) any::__any_cast<small>(&w);
    any::__any_ptr<iwide> p = any::__addressof(w);
    points(p, at, 5);
    vc_assert(p->wide() == 6, "the whole interface");
    any::__any_ptr<ival> q = p;              // to a poorer interface
    points(q, at, 5);
    any::__any_ptr<ival> q2 = &*q;           // from a reference
    points(q2, at, 5);
    vc_assert(q == q2, "pointers to one object are equal");
    any::__any_ptr<ival> r = &s;             // to an object
    points(r, &s, 6);
    vc_assert(!(r == q), "pointers to different objects are not equal");
    any::__any_cptr<ival> c;
    c = r;
    points(c, &s, 6);
    unsigned op = vc_choice(8, "operation");
    using std::swap;
    if (op == 0) { swap(q, r); points(q, &s, 6); points(r, at, 5); }
    if (op == 1) { q = r; points(q, &s, 6); points(r, &s, 6); }
    if (op == 2) { r = p; points(r, at, 5); points(p, at, 5); }
    if (op == 3) { auto& z = q; q = z; points(q, at, 5); vc_cover("self"); }
    if (op == 4) { q = &*q; points(q, at, 5); }
    if (op == 5) {
      auto& z = c;
      c = z;
      points(c, &s, 6);
      c = &*c;
      points(c, &s, 6);
    }
    if (op == 6) { swap(q, q); points(q, at, 5); }
    if (op == 7) { q = nullptr; vc_assert(any::__empty(*q), "a null pointer refers to nothing"); q = &s; points(q, &s, 6); }
    q = r;
    q->put(9);
    vc_assert(r->get() == 9, "all pointers refer to one object");
    is(w, m{f.type, op == 0 || op == 2 ? 9u : 5u});
  }
  all_destroyed();
}
// pointers that come to refer to nothing
PROOF(null_pointers) {
  {
    small s(6u);
    val none;
    wide w;
    any::__any_ptr<ival> q = &s;
    any::__any_cptr<ival> c;
    c = q;
    any::__any_ptr<iwide> nowhere;
    any::__any_ptr<iwide> vacant = any::__addressof(w);
    switch (vc_choice(9, "how")) {
    case 0: q = static_cast<small*>(nullptr); break;
    case 1: q = nowhere; break;
    case 2: q = any::__addressof(none); break;
    case 3: q = any::__any_ptr<ival>(); break;
    case 4: q = vacant; break;
    case 5: q = any::__any_ptr<ival>(nowhere); break;
    case 6: q = any::__any_ptr<ival>(static_cast<small*>(nullptr)); break;
    case 7: q = &*nowhere; break;
    case 8: q = any::__any_ptr<ival>(nullptr); break;
    }
    vc_assert(any::__empty(*q), "a pointer to nothing refers to nothing");
    vc_assert(any::__any_cast<small>(q) == nullptr, "a cast finds nothing");
    vc_assert(q == any::__any_ptr<ival>(), "pointers to nothing are equal");
    switch (1 + vc_choice(3, "how")) {
    case 1: c = any::__caddressof(none); break;
    case 2: c = any::__any_cptr<ival>(); break;
    case 3: c = q; break;
    }
    vc_assert(any::__empty(*c), "a pointer to nothing refers to nothing");
    vc_assert(any::__any_cast<small>(c) == nullptr, "a cast finds nothing");
  }
  all_destroyed();
}
// casts of references
namespace {
template <class T, class F> void cast_to(F f, bool holds, void const * at) {
  bool bad_cast = false;
  void const * found = nullptr;
  try { found = f(); }
  catch (any::__bad_any_cast const &) { bad_cast = true; vc_cover("bad cast"); }
  vc_assert(bad_cast == !holds, "a cast of a reference throws exactly when another type is held");
  if (holds) vc_assert(found == at, "a cast of a reference gives the object");
}
template <class T, class A> void all_casts(A& a, bool holds, void const * at) {
  switch (vc_choice(4, "cast")) {
  case 0: cast_to<T>([&]() -> void const * { T& r = any::__any_cast<T>(a); return &r; }, holds, at); break;
  case 1: cast_to<T>([&]() -> void const * { T const & r = any::__any_cast<T>(static_cast<A const &>(a)); return &r; }, holds, at); break;
  case 2: cast_to<T>([&]() -> void const * { T&& r = any::__any_cast<T>(static_cast<A&&>(a)); return &r; }, holds, at); break;
  case 3:
    if (!holds) break;
    vc_assert(any::__any_static_cast<T>(&a) == at, "an unchecked cast gives the object");
    vc_assert(&any::__any_static_cast<T>(a) == at, "an unchecked cast gives the object");
    break;
  }
}
}  // namespace
PROOF(casts) {
  {
    wide w;
    m f = make(w, 5);
    val a = static_cast<wide const &>(w);
    bool narrow = vc_bool("converted");
    void const * at = narrow ? any::__data(a) : any::__data(w);
    vc_assert((at == nullptr) == (f.type == NIL), "an empty wrapper has no object");
    if (vc_bool("to small")) {
      if (narrow) all_casts<small>(a, f.type == SMALL, at); else all_casts<small>(w, f.type == SMALL, at);
    } else {
      if (narrow) all_casts<big>(a, f.type == BIG, at); else all_casts<big>(w, f.type == BIG, at);
    }
    is(w, f);
    is(a, f);
  }
  all_destroyed();
}
// a wrapper takes a copy of what a reference refers to
PROOF(from_reference) {
  {
    val a;
    m e{(unsigned) 1 + (unsigned) vc_choice(NTYPES - 1, "type"), 5};
    fill(a, e);
    val b;
    m f = make(b, 6);
    any::__any_ptr<ival> p = any::__addressof(a);
    any::__any_cptr<ival> c = any::__caddressof(a);
    throws_left = 1;
    unsigned how = vc_choice(4, "how");
    if (how == 0) { if (tried([&] { b = *p; })) f = e; else valid(b, f); }
    if (how == 1) { if (tried([&] { b = *c; })) f = e; else valid(b, f); }
    if (how == 2) { if (!tried([&] { a = *p; })) valid(a, e); }
    if (how == 3) tried([&] { val d(*c); is(d, e); });
    is(a, e);
    is(b, f);
    throws_left = 0;
  }
  all_destroyed();
}
// comparison
PROOF(compares) {
  {
    using eq = any::__any<any::__isemiregular>;
    uint32_t x = vc_u32("x"), y = vc_u32("y");
    unsigned t = vc_choice(3, "type"), u = vc_choice(3, "type");
    eq a, b;
    if (t == 1) a = ntok(x);
    if (t == 2) a = x;
    if (u == 1) b = ntok(y);
    if (u == 2) b = y;
    vc_assume(x != MOVED && y != MOVED);
    vc_assert((a == b) == (t == u && (t == 0 || x == y)), "equal exactly when type and value are equal");
    vc_assert((a != b) == !(a == b) && (a == b) == (b == a) && a == a, "comparison is an equivalence");
    eq c = a;
    vc_assert(c == a, "a copy is equal");
  }
  all_destroyed();
}
