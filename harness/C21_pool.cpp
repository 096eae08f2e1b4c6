// iterate on a static_thread_pool (schedule_all): every element once, then one completion
#include "lib.h"
#include <exec/static_thread_pool.hpp>
#include <exec/sequence/iterate.hpp>
#include <span>
using namespace vt;
using pool_t = exec::static_thread_pool;
namespace {
constexpr int N = 3;
int data[N] = {10, 20, 30};
int calls[N];
std::atomic<int> done{0};
unsigned main_tid;
void (*destroy)() = nullptr;
int throw_next = -1, nexts = 0;
bool inline_items = false;   // the consumer completes the items without running them
template <class R>
struct skip_op {
  using operation_state_concept = ex::operation_state_t;
  R r;
  void start() & noexcept { ex::set_value(static_cast<R&&>(r)); }
};
struct skip {
  using sender_concept = ex::sender_t;
  using completion_signatures = sigs<V0, S>;
  template <class R> auto connect(R r) && noexcept -> skip_op<R> { return {static_cast<R&&>(r)}; }
};
template <bool Skip>
struct wrcvr {
  using receiver_concept = ex::receiver_t;
  template <class Item>
  auto set_next(Item&& it) {
    if (nexts++ == throw_next) throw thrown{7};
    if constexpr (Skip) return skip{};
    else return ex::then(static_cast<Item&&>(it), [](int& x) noexcept {
      vc_assert(vc_thread_id() != main_tid, "an item runs on a thread of the pool");
      ++calls[&x - data];
    });
  }
  void fin(int kind) noexcept {
    vc_assert(out.n == 0, "the sequence completes once");
    out.n = 1;
    out.kind = kind;
    destroy();
    done.store(1, std::memory_order_release);
  }
  void set_value() noexcept { fin(VALUE); }
  void set_stopped() noexcept { fin(STOPPED); }
  void set_error(std::exception_ptr) noexcept { fin(ERROR); }
};
template <bool Skip>
struct box {
  exec::subscribe_result_t<decltype(exec::schedule_all(std::declval<pool_t&>(), std::span<int>())), wrcvr<Skip>> op;
  static inline box* cur;
  box(pool_t& p, std::span<int> s) : op(exec::subscribe(exec::schedule_all(p, s), wrcvr<Skip>{})) {}
};
template <bool Skip>
void run(int threads, int n) {
  vc_threads();
  main_tid = vc_thread_id();
  {
    pool_t pool(threads, exec::bwos_params{2, 1});
    box<Skip>::cur = new box<Skip>(pool, std::span<int>(data, n));
    destroy = [] { delete box<Skip>::cur; };
    ex::start(box<Skip>::cur->op);
    vc_await((int const*)&done);
    (void)done.load(std::memory_order_acquire);
    bool threw = throw_next >= 0 && throw_next < n;
    vc_assert(out.n == 1 && out.kind == (threw ? ERROR : VALUE), "the sequence completes once, after its items");
    for (int i = 0; i < N; ++i) vc_assert(calls[i] == (!Skip && !threw && i < n), "every element is delivered exactly once, and before the sequence completes");
  }
  vc_no_leaks("all memory is released");
}
}  // namespace
//@proofopt pool_one preemptions=2
PROOF(pool_one) { run<false>(1, (int)vc_choice(3, "elements")); }
//@proofopt pool_two preemptions=1
PROOF(pool_two) { run<false>(2, 2); }
//@proofopt pool_skip preemptions=0
PROOF(pool_skip) { run<true>(1, (int)vc_choice(3, "elements")); }
//@proofopt pool_throws preemptions=0
PROOF(pool_throws) { throw_next = (int)vc_choice(2, "set_next throws at"); run<false>(1, 2); }
namespace {
// a range that may throw when it is copied or moved
struct trange {
  tok t{3};
  int* begin() const noexcept { return data; }
  int* end() const noexcept { return data + 1; }
  std::size_t size() const noexcept { return 1; }
};
}  // namespace
//@proofopt pool_subscribe_throws preemptions=0
PROOF(pool_subscribe_throws) {
  vc_threads();
  main_tid = vc_thread_id();
  {
    pool_t pool(1, exec::bwos_params{2, 1});
    throws_left = 1;
    bool lvalue = vc_choice(2, "subscribe to an lvalue");
    destroy = [] {};
    try {
      auto seq = exec::schedule_all(pool, trange{});
      if (lvalue) {
        auto op = exec::subscribe(seq, wrcvr<true>{});
        ex::start(op);
      } else {
        auto op = exec::subscribe(std::move(seq), wrcvr<true>{});
        ex::start(op);
      }
    } catch (thrown const&) {}
    vc_assert(out.n == (thrown_count ? 0 : 1), "subscribe throws, or the sequence completes");
  }
  vc_assert(live == 0, "every value is destroyed exactly once");
}
