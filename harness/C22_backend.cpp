// the default backend of parallel_scheduler (__generic_impl) on an arbitrary execution context
#include "lib.h"
#include <stdexec/__detail/__parallel_scheduler_default_impl.hpp>
using namespace vt;
namespace repl = ex::parallel_scheduler_replacement;

namespace {
kid_t& k = kids[1];
std::size_t parallelism, items, calls;
std::size_t which[2];   // the items the context runs, when it only runs some
bool only_some;
int pools;

// the context: its bulk runs the items in ascending or descending order, or only some of them
template <class F, class R>
struct bulk_op {
  using operation_state_concept = ex::operation_state_t;
  F f;
  child_op<1, R, sigs<V0, S>> op;
  struct rcv;
  std::size_t n;
  bulk_op(F f_, R r_, std::size_t n_) : f(static_cast<F&&>(f_)), op(static_cast<R&&>(r_)), n(n_) { ++k.connected; }
  bulk_op(bulk_op&&) = delete;
  void start() & noexcept {
    items = n;
    bulk_op* self = this;
    vc_assert(current == nullptr, "harness: one bulk at a time");
    current = self;
    k.on_finish = [] {
      bulk_op* p = static_cast<bulk_op*>(current);
      current = nullptr;
      if (only_some) {
        p->f(which[0]);
        if (which[1] < items) p->f(which[1]);
      } else {
        bool up = vc_bool("ascending");
        for (std::size_t i = 0; i < p->n; ++i) p->f(up ? i : p->n - 1 - i);
      }
    };
    op.start();
  }
  static inline void* current = nullptr;
};
template <class F>
struct bulk_snd {
  using sender_concept = ex::sender_t;
  using completion_signatures = ex::completion_signatures<ex::set_value_t(), ex::set_stopped_t()>;
  F f;
  std::size_t n;
  template <class R>
  auto connect(R r) && -> bulk_op<F, R> { maybe_throw("connect throws"); return {static_cast<F&&>(f), static_cast<R&&>(r), n}; }
  auto get_env() const noexcept -> ex::env<> { return {}; }
};
struct dom : ex::default_domain {
  template <class Sndr, class Env>
    requires(std::is_same_v<ex::tag_of_t<Sndr>, ex::bulk_t> || std::is_same_v<ex::tag_of_t<Sndr>, ex::bulk_unchunked_t>)
  auto transform_sender(ex::set_value_t, Sndr sndr, Env const &) const {
    auto& [tag, data, child] = sndr;
    auto& [pol, shape, fn] = data;
    return bulk_snd<std::decay_t<decltype(fn)>>{static_cast<decltype(fn)&&>(fn), static_cast<std::size_t>(shape)};
  }
};
template <class D>
struct sch {
  using scheduler_concept = ex::scheduler_tag;
  ntok guard{30};
  struct attrs {
    auto query(ex::get_completion_scheduler_t<ex::set_value_t>, auto&&...) const noexcept { return sch{}; }
    auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept { return D{}; }
  };
  auto schedule() const noexcept -> child<1, sigs<V0, S>, false, attrs> { guard.check(); return {}; }
  auto query(ex::get_completion_domain_t<ex::set_value_t>, auto&&...) const noexcept { return D{}; }
  bool operator==(sch const &) const noexcept = default;
};
template <class D>
struct pool {
  pool() { ++pools; }
  ~pool() { --pools; vc_assert(k.live_ops == 0, "the context outlives its operations"); }
  auto get_scheduler() noexcept -> sch<D> { return {}; }
  auto available_parallelism() const noexcept -> std::size_t { return parallelism; }
};
template <class D>
using impl = ex::__parallel_scheduler_default_impl::__generic_impl<pool<D>>;

constexpr std::size_t MAXN = 5;
int visited[MAXN + 1];
std::size_t ranges[4][2], nranges, size_;
// The receiver.  As soon as it is completed, the scratch space is gone.
unsigned char* scratch;
struct proxy : repl::bulk_item_receiver_proxy {
  void done(int kind) noexcept {
    first_completion();
    out.kind = kind;
    vc_assert(k.live_ops == 0, "the backend has destroyed its operation when it completes");
    delete[] scratch;
    scratch = nullptr;
  }
  void set_value() noexcept override { done(VALUE); }
  void set_error(std::exception_ptr) noexcept override { done(ERROR); }
  void set_stopped() noexcept override { done(STOPPED); }
  void execute(std::size_t b, std::size_t e) noexcept override {
    vc_assert(out.n == 0, "no item is executed after the completion");
    ++calls;
    if (only_some) {
      vc_assert(nranges < 4, "harness: few ranges");
      ranges[nranges][0] = b;
      ranges[nranges++][1] = e;
    } else {
      vc_assert(b <= e && e <= MAXN, "only items below the size are executed");
      for (; b < e; ++b) ++visited[b];
    }
  }
  void __query_env(ex::__type_index, ex::__type_index, void*) const noexcept override {}
};
proxy* px;
repl::parallel_scheduler_backend* be;
std::span<std::byte> space() {
  static constexpr unsigned sizes[] = {0, 7, 64, 400, 403};
  unsigned c = vc_choice(5, "scratch size");
  unsigned n = sizes[c];
  scratch = new unsigned char[n + 8];
  unsigned shift = c == 4 ? 3 : 0;
  return {reinterpret_cast<std::byte*>(scratch) + shift, n};
}
enum { SCHEDULE, CHUNKED, UNCHUNKED };
template <class D>
void run(int what, int throws, bool oom) {
  auto* b = new impl<D>;
  be = b;
  px = new proxy;
  auto sp = space();
  throws_left = throws;
  if (oom) vc_oom(true);
  if (what == SCHEDULE) be->schedule(*px, sp);
  else if (what == CHUNKED) be->schedule_bulk_chunked(size_, *px, sp);
  else be->schedule_bulk_unchunked(size_, *px, sp);
  vc_oom(false);
  throws_left = 0;
  drain();
  finished();
  if (k.started == 0) {
    vc_assert(out.kind == ERROR, "a schedule that fails is reported as an error");
    vc_assert(throws || oom, "scheduling does not fail");
    vc_assert(calls == 0, "nothing is executed when the operation cannot be started");
  } else {
    vc_assert(k.started == 1 && out.kind == k.kind, "the completion of the context is reported");
  }
  delete px;
  delete b;
  vc_assert(pools == 0, "the context is destroyed with the backend");
}
void counts() {
  for (std::size_t i = 0; i <= MAXN; ++i) {
    vc_assert(visited[i] <= (i < size_), "every item is executed at most once");
    if (out.kind == VALUE) vc_assert(visited[i] == (i < size_), "every item is executed");
  }
  all_destroyed();
}
std::size_t some() {
  parallelism = vc_choice(3, "parallelism");
  return vc_choice(MAXN + 1, "size");
}
}  // namespace
PROOF(schedule) { run<dom>(SCHEDULE, 0, false); all_destroyed(); }
PROOF(schedule_throws) { run<dom>(SCHEDULE, 1, false); if (out.kind == ERROR) vc_cover("threw"); all_destroyed(); }
PROOF(schedule_no_memory) { run<dom>(SCHEDULE, 0, true); if (out.kind == ERROR) vc_cover("no memory"); all_destroyed(); }
//@proofopt chunked bounded="sizes up to 5"
PROOF(chunked) { size_ = some(); run<dom>(CHUNKED, 0, false); counts(); }
//@proofopt unchunked bounded="sizes up to 5"
PROOF(unchunked) { size_ = some(); run<dom>(UNCHUNKED, 0, false); counts(); }
//@proofopt chunked_serial bounded="sizes up to 5"
PROOF(chunked_serial) { size_ = some(); run<ex::default_domain>(CHUNKED, 0, false); counts(); }
//@proofopt unchunked_serial bounded="sizes up to 5"
PROOF(unchunked_serial) { size_ = some(); run<ex::default_domain>(UNCHUNKED, 0, false); counts(); }
//@proofopt bulk_throws bounded="size 2"
PROOF(bulk_throws) { size_ = 2; run<dom>(vc_bool("chunked") ? CHUNKED : UNCHUNKED, 1, false); if (out.kind == ERROR) vc_cover("threw"); counts(); }
//@proofopt bulk_no_memory bounded="size 2"
PROOF(bulk_no_memory) { size_ = 2; run<dom>(vc_bool("chunked") ? CHUNKED : UNCHUNKED, 0, true); if (out.kind == ERROR) vc_cover("no memory"); counts(); }
// any number of items and any parallelism: any two neighbouring chunks
namespace {
void chunks(unsigned sbits, unsigned pbits) {
  size_ = vc_u64("size");
  vc_assume(size_ > 0 && size_ < (1ull << sbits));
  parallelism = vc_u64("parallelism");
  vc_assume(parallelism < (1ull << pbits));
  only_some = true;
  defer_mode = 0;
  which[0] = vc_u64("chunk");
  which[1] = which[0] + 1;
  // which[0] is one of the chunks
  auto* b = new impl<dom>;
  px = new proxy;
  scratch = new unsigned char[8];
  k.on_start = [] { vc_assume(which[0] < items); };
  b->schedule_bulk_chunked(size_, *px, {reinterpret_cast<std::byte*>(scratch), 8});
  finished();
  vc_assert(items > 0, "there is a chunk");
  vc_assert(ranges[0][0] < ranges[0][1] && ranges[0][1] <= size_, "every chunk is a range of items");
  if (which[0] == 0) vc_assert(ranges[0][0] == 0, "the first chunk starts with the first item");
  if (which[1] < items) vc_assert(ranges[1][0] == ranges[0][1], "the next chunk starts where the last one ended");
  else vc_assert(ranges[0][1] == size_, "the last chunk ends with the last item");
  delete px;
  delete b;
  all_destroyed();
}
}
//@proofopt any_chunks bounded="sizes below 2^7, parallelism below 2^3"
//@proofopt any_chunks time=200
PROOF(any_chunks) { chunks(7, 3); }
//@proofopt more_chunks bounded="sizes below 2^10, parallelism below 2^5"
//@proofopt more_chunks time=800
//@proofopt more_chunks tier="thorough"
PROOF(more_chunks) { chunks(10, 5); }
