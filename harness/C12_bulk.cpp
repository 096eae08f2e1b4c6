// bulk / bulk_chunked / bulk_unchunked: every index once, values stay, exceptions
#include "lib.h"
using namespace vt;

namespace {
kid_t& k = kids[0];
uint64_t next_i;       // indices done so far
int calls;
void threw() {
  vc_assert(out.kind == ERROR && out.err == 2 && thrown_count == 1 && out.v[0] == last_throw, "an exception is delivered as set_error with that exception");
}
void passthrough() {
  vc_assert(calls == 0 && next_i == 0, "the function is not called for another channel");
  if (k.kind == ERROR) vc_assert(out.kind == ERROR && out.v[0] == k.v && out.err <= 2, "errors pass through unchanged");
  else vc_assert(out.kind == STOPPED, "stopped passes through unchanged");
}
void values(uint64_t n) {
  vc_assert(next_i == n, "every index below the shape is visited exactly once");
  vc_assert(out.kind == VALUE && out.nv == 1 && out.v[0] == k.v, "the child's values are delivered unchanged");
}
}  // namespace

// any shape (loop invariant inferred and proved)
PROOF(unchunked_any_shape) {
  uint64_t n = vc_u64("shape");
  defer_mode = 0;
  if (!go([n] {
        return child<0, sigs<V<ntok>>>{} | ex::bulk_unchunked(ex::par, n, [](uint64_t i, ntok& t) noexcept {
                 vc_assert(i == next_i, "indices are visited once, in order");
                 t.check();
                 ++next_i;
               });
      })) return aborted();
  finished();
  values(n);
  all_destroyed();
}
//@proofopt unchunked_any_shape loops="cut"
//@proofopt unchunked_any_shape backed=true
PROOF(bulk_any_shape) {
  uint64_t n = vc_u64("shape");
  defer_mode = 0;
  if (!go([n] {
        return child<0, sigs<V<ntok>>>{} | ex::bulk(ex::par, n, [](uint64_t i, ntok& t) noexcept {
                 vc_assert(i == next_i, "indices are visited once, in order");
                 t.check();
                 ++next_i;
               });
      })) return aborted();
  finished();
  values(n);
  all_destroyed();
}
//@proofopt bulk_any_shape loops="cut"
//@proofopt bulk_any_shape backed=true
PROOF(chunked_any_shape) {
  uint64_t n = vc_u64("shape");
  if (!go([n] {
        return child<0, sigs<V<ntok>, E<etok>, S>>{} | ex::bulk_chunked(ex::par_unseq, n, [](uint64_t b, uint64_t e, ntok& t) noexcept {
                 vc_assert(b == next_i && b < e, "chunks are disjoint, ascending and not empty");
                 t.check();
                 ++calls;
                 next_i = e;
               });
      })) return aborted();
  drain();
  finished();
  if (k.kind == VALUE) values(n);
  else passthrough();
  all_destroyed();
}
// every channel, exceptions, throwing values; small shapes of other types
namespace {
struct each {
  tok guard{4};
  template <class I, class T>
  void operator()(I i, T& t) {
    guard.check();
    vc_assert((uint64_t)i == next_i, "indices are visited once, in order");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    maybe_throw("f throws");
    ++next_i;
    ++calls;
  }
};
struct chunk {
  tok guard{4};
  template <class I, class T>
  void operator()(I b, I e, T& t) {
    guard.check();
    vc_assert((uint64_t)b == next_i && b < e, "chunks are disjoint, ascending and not empty");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    ++calls;
    maybe_throw("f throws");
    next_i = (uint64_t)e;
  }
};
}  // namespace
namespace {
template <class Mk>
void small(Mk mk) {
  int n = vc_choice(4, "shape");
  throws_left = 1;
  if (!go([&] { return child<0, sigs<V<tok>, E<tetok>, S>, false>{} | mk(n); })) return aborted();
  drain();
  finished();
  if (thrown_count) {
    vc_cover("threw");
    threw();
    vc_assert(next_i <= (uint64_t)n, "nothing is visited after the exception");
  } else if (k.kind == VALUE) {
    vc_cover("value");
    values(n);
  } else passthrough();
  all_destroyed();
}
}  // namespace
PROOF(bulk_small) { small([](int n) { return ex::bulk(ex::seq, n, each{}); }); }
PROOF(unchunked_small) { small([](int n) { return ex::bulk_unchunked(ex::seq, n, each{}); }); }
PROOF(chunked_small) { small([](int n) { return ex::bulk_chunked(ex::seq, n, chunk{}); }); }
//@proofopt bulk_small bounded="shapes up to 3"
//@proofopt unchunked_small bounded="shapes up to 3"
//@proofopt chunked_small bounded="shapes up to 3"
// the function may change the values: the receiver gets the changed ones
PROOF(bulk_by_reference) {
  unsigned char n = vc_choice(4, "shape");
  if (!go_copy([n] { return child<0, sigs<ex::set_value_t(ntok, ntok const &), S>>{} | ex::bulk(ex::par, n, [](unsigned char i, ntok& a, ntok const & b) noexcept {
        vc_assert(i == next_i && b.get() == k.v + 1, "indices are visited once, in order");
        a.id += 5;
        ++next_i;
      }); })) return aborted();
  drain();
  finished();
  if (k.kind == VALUE) vc_assert(next_i == n && out.kind == VALUE && out.nv == 2 && out.v[0] == k.v + 5 * n && out.v[1] == k.v + 1, "the receiver gets the values as the function left them");
  else passthrough();
  all_destroyed();
}
//@proofopt bulk_by_reference bounded="shapes up to 3"
PROOF(bulk_copies_throw) {
  throws_left = 1;
  if (!go_copy([] { return cchild<0, sigs<V<ntok>, S>>{} | ex::bulk(ex::par, 2, each{}); })) { vc_cover("copy throws"); return aborted(); }
  drain();
  finished();
  if (thrown_count) threw();
  else if (k.kind == VALUE) values(2);
  else passthrough();
  all_destroyed();
}
//@proofopt bulk_copies_throw bounded="shape 2"

// the function is called as an lvalue, with lvalues: what it could do otherwise does not matter
namespace {
struct each_l {
  tok guard{4};
  template <class T>
  void visit(uint64_t b, uint64_t e, T& t) {
    guard.check();
    vc_assert(b == next_i && b < e, "chunks are disjoint, ascending and not empty");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    maybe_throw("f throws");
    next_i = e;
    ++calls;
  }
  template <class I, class T> void operator()(I i, T& t) & { visit(i, i + 1, t); }
  template <class I, class T> void operator()(I i, T&) && noexcept { (void)i; vc_fail("the function is called as an lvalue"); }
  template <class I, class T> void operator()(I i, T&) const & noexcept { (void)i; vc_fail("the function is called as it was given"); }
};
struct chunk_l : each_l {
  template <class I, class T> void operator()(I b, I e, T& t) & { this->visit(b, e, t); }
  template <class I, class T> void operator()(I, I, T&) && noexcept { vc_fail("the function is called as an lvalue"); }
  template <class I, class T> void operator()(I, I, T&) const & noexcept { vc_fail("the function is called as it was given"); }
};
// throws when it is given the values as lvalues
struct each_v {
  template <class T> void operator()(auto i, T& t) { impl{}.visit(i, i + 1, t); }
  template <class T> void operator()(auto, T&&) noexcept requires(!std::is_lvalue_reference_v<T>) { vc_fail("the values are given as lvalues"); }
  using impl = each_l;
};
struct chunk_v {
  template <class T> void operator()(auto b, auto e, T& t) { each_l{}.visit(b, e, t); }
  template <class T> void operator()(auto, auto, T&&) noexcept requires(!std::is_lvalue_reference_v<T>) { vc_fail("the values are given as lvalues"); }
};
}  // namespace
PROOF(bulk_lvalue_call) { small([](int n) { return ex::bulk(ex::seq, n, each_l{}); }); }
PROOF(unchunked_lvalue_call) { small([](int n) { return ex::bulk_unchunked(ex::seq, n, each_l{}); }); }
PROOF(chunked_lvalue_call) { small([](int n) { return ex::bulk_chunked(ex::seq, n, chunk_l{}); }); }
PROOF(bulk_lvalue_args) { small([](int n) { return ex::bulk(ex::seq, n, each_v{}); }); }
PROOF(unchunked_lvalue_args) { small([](int n) { return ex::bulk_unchunked(ex::seq, n, each_v{}); }); }
PROOF(chunked_lvalue_args) { small([](int n) { return ex::bulk_chunked(ex::seq, n, chunk_v{}); }); }

// a shape may be negative: there is nothing to visit
namespace {
template <class Mk>
void negative(Mk mk) {
  int n = -1 - (int)vc_choice(2, "shape");
  if (!go([&] { return child<0, sigs<V<ntok>, E<etok>, S>>{} | mk(n); })) return aborted();
  drain();
  finished();
  vc_assert(calls == 0, "nothing is visited for a negative shape");
  if (k.kind == VALUE) values(0);
  else passthrough();
  all_destroyed();
}
auto never = [](auto&&...) noexcept { ++calls; vc_fail("nothing is visited for a negative shape"); };
}  // namespace
PROOF(bulk_negative) { negative([](int n) { return ex::bulk(ex::par, n, never); }); }
PROOF(unchunked_negative) { negative([](int n) { return ex::bulk_unchunked(ex::par, n, never); }); }
PROOF(chunked_negative) { negative([](int n) { return ex::bulk_chunked(ex::par, n, never); }); }

// the function gets a copy of the index
namespace {
struct each_i {
  template <class I, class T>
  void operator()(I&& i, T& t) noexcept {
    vc_assert((uint64_t)i == next_i, "indices are visited once, in order");
    vc_assert(t.get() == k.v, "the function sees the child's values");
    ++next_i;
    ++calls;
    vc_assert(calls <= 4, "every index below the shape is visited exactly once");
    if constexpr (!std::is_const_v<std::remove_reference_t<I>>) i = vc_bool("changes its index") ? 0 : 7;
  }
};
template <class Mk>
void own_index(Mk mk) {
  int n = vc_choice(4, "shape");
  defer_mode = 0;
  if (!go([&] { return child<0, sigs<V<ntok>>>{} | mk(n); })) return aborted();
  finished();
  values(n);
  all_destroyed();
}
}  // namespace
PROOF(bulk_own_index) { own_index([](int n) { return ex::bulk(ex::seq, n, each_i{}); }); }
PROOF(unchunked_own_index) { own_index([](int n) { return ex::bulk_unchunked(ex::seq, n, each_i{}); }); }
