// exec::function: the wrapped factory is called once per connect, with the stored arguments, and
// the sender that it makes is run with the receiver, its stop token, its queries and its allocator
#include "lib.h"
#include <exec/function.hpp>
using namespace vt;

namespace {
int calls = 0;
uint32_t got1 = 0, got2 = 0;
template <class Sigs> using fn = exec::function<ex::sender_tag(tok, ntok, uint32_t &), Sigs>;
uint32_t target = 17;
using Sg = sigs<V<ntok>, E<etok>, S>;
struct factory {
  void* who;
  auto operator()(tok a, ntok&& b, uint32_t& c) const {
    vc_assert(who == (void*)&calls, "the factory's state is intact");
    vc_assert(&c == &target, "references are passed as references");
    ++calls;
    got1 = a.get();
    got2 = b.get();
    maybe_throw("factory throws");
    return tchild<0, Sg, false>{};
  }
};
void result() {
  vc_assert(out.kind == kids[0].kind, "the made sender's completion is delivered");
  if (out.kind != STOPPED) vc_assert(out.nv == 1 && out.v[0] == kids[0].v, "what it sent is delivered");
  if (out.kind == VALUE) vc_cover("value");
  if (out.kind == ERROR) vc_cover("error");
  if (out.kind == STOPPED) vc_cover("stopped");
}
void called() { vc_assert(calls == 1 && got1 == 5 && got2 == 6, "the factory is called once with the stored arguments"); }
}  // namespace

PROOF(moved) {
  throws_left = 1;
  bool ok = go([] { return fn<Sg>(tok(5), ntok(6), target, factory{&calls}); });
  if (!ok) {
    vc_cover("throws");
    vc_assert(calls <= 1, "the factory is called at most once");
    return aborted();
  }
  called();
  drain();
  finished();
  result();
  all_destroyed();
}

// no reference arguments: copyable
namespace {
using fn2 = exec::function<ex::sender_tag(tok), Sg>;
struct factory2 {
  auto operator()(tok&& a) const { ++calls; got1 = a.get(); return child<0, Sg>{}; }
};
}  // namespace
PROOF(copied) {
  throws_left = 1;
  {
    bool ok = go_copy([] { return fn2(tok(5), factory2{}); });
    if (!ok) { vc_cover("throws"); return aborted(); }
  }
  vc_assert(calls == 1 && got1 == 5, "the factory is called once with a copy of the stored argument");
  drain();
  finished();
  result();
  all_destroyed();
}
PROOF(copied_twice) {
  auto* f = new fn2(tok(5), factory2{});
  defer_mode = 0;
  {
    auto g = *f;
    auto op = ex::connect(g, rcvr<>{});
    vc_assert(calls == 1 && got1 == 5, "the factory is called with a copy of the argument");
    delete f;
    f = new fn2(std::move(g));
  }
  bool ok = launch(std::move(*f), rcvr<>{});
  vc_assert(ok && calls == 2 && got1 == 5, "copies are independent");
  delete f;
  finished();
  result();
  all_destroyed();
}

// a plain signature: values, and errors as exception_ptr
PROOF(plain) {
  using F = exec::function<ntok(tok)>;
  throws_left = 1;
  bool ok = go([] { return F(tok(5), [](tok&& a) { ++calls; got1 = a.get(); return child<0, sigs<V<ntok>, S>>{}; }); });
  if (!ok) { vc_cover("throws"); return aborted(); }
  vc_assert(calls == 1 && got1 == 5, "the factory is called once with the stored argument");
  drain();
  finished();
  vc_assert(out.kind == kids[0].kind, "the made sender's completion is delivered");
  all_destroyed();
}

// ------------------------------------------------------------------ allocators
namespace {
int alloc_live = 0, allocs = 0;
template <class T>
struct alloc_ {
  using value_type = T;
  ntok id;
  explicit alloc_(uint32_t i) noexcept : id(i) {}
  template <class U> alloc_(alloc_<U> const & o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) {
    vc_assert(id.get() == 42, "the environment's allocator is used");
    maybe_throw("allocation fails");
    ++alloc_live;
    ++allocs;
    return static_cast<T*>(::operator new(n * sizeof(T)));
  }
  void deallocate(T* p, std::size_t n) noexcept {
    vc_assert(id.get() == 42, "memory is released through the allocator that it came from");
    --alloc_live;
    (void) n; ::operator delete(p);
  }
  template <class U> bool operator==(alloc_<U> const & o) const noexcept { return id == o.id; }
};
template <class Q, class T>
struct aenv {
  ntok self{3};
  auto query(Q) const noexcept { self.check(); return alloc_<T>(42); }
};
// a sender that allocates through its receiver's frame allocator
template <class R> struct fa_op {
  using operation_state_concept = ex::operation_state_t;
  child_op<0, R, sigs<V<ntok>, S>> op;
  using A = std::remove_cvref_t<decltype(exec::get_frame_allocator(ex::get_env(std::declval<R const &>())))>;
  using A8 = std::allocator_traits<A>::template rebind_alloc<uint64_t>;
  A8 a;
  uint64_t* mem;
  char pad[200];
  explicit fa_op(R r) : op(static_cast<R&&>(r)), a(exec::get_frame_allocator(ex::get_env(op.rcvr_))),
    mem(std::allocator_traits<A8>::allocate(a, 3)) { mem[0] = mem[2] = 1; }
  ~fa_op() { std::allocator_traits<A8>::deallocate(a, mem, 3); }
  void start() & noexcept { mem[1] = 4; op.start(); }
};
struct fa_snd {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V<ntok>, S>;
  tok guard{5};
  template <class R> auto connect(R r) && -> fa_op<R> {
    guard.check();
    maybe_throw("connect throws");
    ++kids[0].connected;
    return fa_op<R>{static_cast<R&&>(r)};
  }
};
template <class Env>
void allocating(int expected) {
  throws_left = 1;
  using F = exec::function<ntok()>;
  bool ok;
  ok = go([] { return F([] { return fa_snd{}; }); }, rcvr<Env>{});
  if (!ok) { vc_cover("throws"); vc_assert(alloc_live == 0, "memory is released"); return aborted(); }
  drain();
  finished();
  vc_assert(alloc_live == 0 && allocs == expected, "memory comes from the given allocator");
  result();
  all_destroyed();
}
}  // namespace
PROOF(frame_allocator) { allocating<aenv<exec::get_frame_allocator_t, std::byte>>(2); }
PROOF(plain_allocator) { allocating<aenv<ex::get_allocator_t, uint64_t>>(2); }
PROOF(no_allocator) { allocating<ex::env<>>(0); }
PROOF(no_memory) {
  vc_oom(true);
  using F = exec::function<ntok()>;
  bool failed = false;
  try {
    auto op = ex::connect(F([] { return fa_snd{}; }), rcvr<>{});
    vc_oom(false);
  } catch (std::bad_alloc const &) { failed = true; vc_cover("no memory"); }
  vc_oom(false);
  vc_assert(kids[0].live_ops == 0, "nothing is left");
  all_destroyed();
}

// ------------------------------------------------------------------ memory resources
// an allocator of bytes with no alignment guarantee
namespace {
unsigned char* given = nullptr;
std::size_t given_n = 0;
int given_live = 0;
template <class T>
struct byte_alloc {
  using value_type = T;
  uint32_t id;
  explicit byte_alloc(uint32_t i) noexcept : id(i) {}
  template <class U> byte_alloc(byte_alloc<U> const & o) noexcept : id(o.id) {}
  T* allocate(std::size_t n) {
    static_assert(sizeof(T) == 1);
    vc_assert(id == 3, "the adapted allocator is used");
    maybe_throw("allocation fails");
    unsigned skew = vc_choice(16, "address modulo 16");
    given = static_cast<unsigned char*>(::operator new(n + 16, std::align_val_t(64)));
    given_n = n;
    ++given_live;
    return reinterpret_cast<T*>(given + skew);
  }
  void deallocate(T* p, std::size_t n) noexcept {
    vc_assert(id == 3 && n == given_n, "what is released has the size that was allocated");
    auto* q = reinterpret_cast<unsigned char*>(p);
    vc_assert(given <= q && q < given + 16, "what is released is what was allocated");
    --given_live;
    ::operator delete(given, std::align_val_t(64));
  }
  template <class U> bool operator==(byte_alloc<U> const & o) const noexcept { return id == o.id; }
};
template <class A> void adapted(unsigned align) {
  throws_left = 1;
  exec::__memory_resource_adaptor_t<A> res(A(3));
  std::pmr::memory_resource& mr = res;
  std::size_t n = 1 + vc_choice(24, "size");
  void* p;
  try {
    p = mr.allocate(n, align);
  } catch (thrown const &) {
    vc_cover("throws");
    vc_assert(given_live == 0, "a failed allocation leaves nothing");
    return;
  }
  vc_assert(given_live == 1, "one allocation");
  vc_assert(reinterpret_cast<std::uintptr_t>(p) % align == 0, "memory is aligned as requested");
  for (std::size_t i = 0; i < n; ++i) static_cast<unsigned char*>(p)[i] = 0xa5;  // all of it may be written
  mr.deallocate(p, n, align);
  vc_assert(given_live == 0, "memory is released");
  vc_no_leaks("memory is released");
}
}  // namespace
//@proofopt adapted_1 bounded="sizes 1 to 24, every address modulo 16"
PROOF(adapted_1) { adapted<byte_alloc<std::byte>>(1); }
//@proofopt adapted_4 bounded="sizes 1 to 24, every address modulo 16"
PROOF(adapted_4) { adapted<byte_alloc<std::byte>>(4); }
//@proofopt adapted_8 bounded="sizes 1 to 24, every address modulo 16"
PROOF(adapted_8) { adapted<byte_alloc<char>>(8); }
//@proofopt adapted_16 bounded="sizes 1 to 24, every address modulo 16"
PROOF(adapted_16) { adapted<byte_alloc<std::byte>>(16); }
//@proofopt adapted_32 bounded="sizes 1 to 24, every address modulo 16"
PROOF(adapted_32) { adapted<byte_alloc<std::byte>>(32); }
PROOF(adapted_equal) {
  using A = byte_alloc<std::byte>;
  uint32_t x = vc_u32("first allocator"), y = vc_u32("second allocator");
  exec::__memory_resource_adaptor_t<A> a{A(x)}, b{byte_alloc<int>(y)};
  exec::__memory_resource_adaptor_t<std::allocator<int>> c{std::allocator<int>{}};
  std::pmr::memory_resource &ma = a, &mb = b, &mc = c;
  vc_assert((ma == mb) == (x == y), "resources are equal when their allocators are");
  vc_assert(!(ma == mc) && !(mc == ma), "resources of different kinds differ");
}

// the frame allocator may be a memory resource; a typed pointer to one; or required as a query
namespace {
struct my_resource : std::pmr::memory_resource {
  int live = 0, total = 0;
  std::size_t last_n = 0;
  void* do_allocate(std::size_t n, std::size_t a) override {
    maybe_throw("allocation fails");
    ++live;
    ++total;
    return ::operator new(n, std::align_val_t(a));
  }
  void do_deallocate(void* p, std::size_t, std::size_t a) override {
    --live;
    ::operator delete(p, std::align_val_t(a));
  }
  bool do_is_equal(std::pmr::memory_resource const & o) const noexcept override { return this == &o; }
};
my_resource* res = nullptr;
struct renv {
  auto query(exec::get_frame_allocator_t) const noexcept { return std::pmr::polymorphic_allocator<std::byte>(res); }
};
template <class F> void from_resource() {
  res = new my_resource;
  throws_left = 1;
  bool ok = go([] { return F([] { return fa_snd{}; }); }, rcvr<renv>{});
  if (ok) drain();
  vc_assert(res->live == 0, "memory is released");
  if (ok) vc_assert(res->total == 2, "memory comes from the given resource");
  delete res;
  if (!ok) { vc_cover("throws"); return aborted(); }
  finished();
  result();
  all_destroyed();
}
}  // namespace
PROOF(resource) { from_resource<exec::function<ntok()>>(); }
PROOF(resource_required) {
  from_resource<exec::function<ntok(), exec::queries<std::pmr::polymorphic_allocator<std::byte>(exec::get_frame_allocator_t) noexcept>>>();
}
PROOF(frame_allocators) {
  res = new my_resource;
  throws_left = 1;
  exec::__frame_allocator_t<my_resource*> a(res);
  std::allocator_traits<decltype(a)>::rebind_alloc<uint64_t> b(a);
  std::byte* p = nullptr;
  uint64_t* q = nullptr;
  try {
    p = a.allocate(5);
    q = b.allocate(2);
    vc_assert(reinterpret_cast<std::uintptr_t>(q) % alignof(uint64_t) == 0, "aligned for the type");
    p[4] = std::byte(1);
    q[1] = 7;
    vc_assert(res->live == 2, "two allocations");
  } catch (thrown const &) { vc_cover("throws"); }
  if (p) a.deallocate(p, 5);
  if (q) b.deallocate(q, 2);
  vc_assert(a.resource() == res && b.resource() == res, "copies share the resource");
  vc_assert(res->live == 0, "memory is released");
  delete res;
  vc_no_leaks("memory is released");
}
