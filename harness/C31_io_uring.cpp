// io_uring_context against every behaviour of a kernel that keeps io_uring's contract
#include "lib.h"
#include <exec/timed_scheduler.hpp>
#include <exec/detail/atomic_intrusive_queue.hpp>
#include <exec/detail/bit_cast.hpp>
#include <exec/scope.hpp>
#include <chrono>
#include <cstring>
#include <system_error>
#include <linux/io_uring.h>
#include <linux/version.h>
#include <sys/eventfd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
using namespace vt;

// ---- the kernel: the only part that is not the code under verification
namespace kern {
constexpr int RING = 7, EVENT = 9;
constexpr unsigned MAXSQ = 4, MAXCQ = 8;
unsigned SQ = 2, CQ = 4;           // both powers of two
struct {
  unsigned head, tail, mask, array[MAXSQ];
} sq;
struct {
  unsigned head, tail, mask, pad;
  ::io_uring_cqe cqes[MAXCQ];
} cq;
struct {
  unsigned sq_head, sq_tail, sq_mask, sq_array[MAXSQ];
  unsigned cq_head, cq_tail, cq_mask, pad;
  ::io_uring_cqe cqes[MAXCQ];
} both;
::io_uring_sqe sqes[MAXSQ];
bool single;                       // IORING_FEAT_SINGLE_MMAP
unsigned *sqh, *sqt, *sqa, *cqh, *cqt;
::io_uring_cqe* cqes;
bool ring_open, event_open;
int maps;                          // live mappings
unsigned long count;               // the event counter
int readable;                      // count != 0
bool fork_events = true;
int fail_at, fail_code;            // which call fails, with which errno
int calls;
int interrupts, partials, enter_errors, timer_errors;
void (*idle)();                    // what the other threads do while the loop is blocked
bool threaded;
bool never;                        // no timer expires by itself
bool burst;                        // several timers may expire at once
int err;
struct fl_t { bool used; unsigned char op; unsigned long ud; unsigned long addr; };
constexpr int NF = 12;
fl_t fl[NF];
long last_sec, last_nsec;
int timers_seen, cancels_seen;

bool fails() {
  ++calls;
  if (fail_at == calls) { err = fail_code; return true; }
  return false;
}
void post(unsigned long ud, int res) {
  unsigned t = *cqt;
  vc_assert(t - *cqh < CQ, "the completion ring never overflows");
  cqes[t & (CQ - 1)].user_data = ud;
  cqes[t & (CQ - 1)].res = res;
  cqes[t & (CQ - 1)].flags = 0;
  std::atomic_ref<unsigned>(*cqt).store(t + 1, std::memory_order_release);
}
void consume(::io_uring_sqe const & e) {
  if (e.opcode == IORING_OP_ASYNC_CANCEL) {
    ++cancels_seen;
    for (auto& f : fl)
      if (f.used && f.ud == e.addr) {
        unsigned char how = vc_choice(3, "cancelling: target first, request first, or already running");
        if (how == 2) {
          f.used = false;
          post(e.user_data, -EALREADY);
          post(f.ud, -ETIME);
          return;
        }
        f.used = false;
        if (how == 0) post(f.ud, -ECANCELED);
        post(e.user_data, 0);
        if (how == 1) post(f.ud, -ECANCELED);
        return;
      }
    post(e.user_data, -ENOENT);
    return;
  }
  vc_assert(e.opcode == IORING_OP_READ || e.opcode == IORING_OP_TIMEOUT, "only requests that the contract knows are submitted");
  for (auto& f : fl)
    if (!f.used) {
      f = {true, e.opcode, e.user_data, e.addr};
      if (e.opcode == IORING_OP_READ) {
        vc_assert(e.fd == EVENT && e.len == 8, "the event counter is read");
      } else {
        ++timers_seen;
        vc_assert(e.len == 1, "one timespec");
        long const * ts = reinterpret_cast<long const *>(e.addr);
        last_sec = ts[0];
        last_nsec = ts[1];
        vc_assert(last_sec >= 0 && last_nsec >= 0 && last_nsec < 1000000000, "a valid timespec is submitted");
      }
      return;
    }
  vc_fail("requests are in flight beyond the bound of the harness");
}
// everything that can complete without waiting
void progress() {
  for (auto& f : fl)
    if (f.used && f.op == IORING_OP_READ && count) {
      *reinterpret_cast<unsigned long*>(f.addr) = count;
      count = 0;
      readable = 0;
      f.used = false;
      post(f.ud, 8);
    }
}
bool fire_one(bool must) {
  if (never) return false;
  int n = 0;
  for (auto& f : fl) n += f.used && f.op == IORING_OP_TIMEOUT;
  if (n == 0) return false;
  int k = vc_choice(must ? n : n + 1, "a timer expires");
  for (auto& f : fl)
    if (f.used && f.op == IORING_OP_TIMEOUT && k-- == 0) {
      f.used = false;
      int res = -ETIME;
      if (timer_errors && vc_bool("the timer fails")) { --timer_errors; res = -EFAULT; }
      post(f.ud, res);
      return true;
    }
  return false;
}
int enter(int fd, unsigned n, unsigned min, unsigned flags) {
  vc_assert(fd == RING && ring_open, "the ring is entered while it is open");
  if (interrupts && vc_bool("interrupted")) { --interrupts; err = EINTR; return -1; }
  if (enter_errors) { err = enter_errors; enter_errors = 0; return -1; }
  unsigned avail = std::atomic_ref<unsigned>(*sqt).load(std::memory_order_acquire) - *sqh;
  if (n > avail) n = avail;
  bool wait = min > 0 && (flags & IORING_ENTER_GETEVENTS);
  int done = 0;
  while (n) {
    unsigned i = sqa[*sqh & (SQ - 1)];
    vc_assert(i < SQ, "an entry of the ring is submitted");
    ::io_uring_sqe e = sqes[i];
    std::atomic_ref<unsigned>(*sqh).store(*sqh + 1, std::memory_order_release);
    consume(e);
    ++done;
    --n;
    if (n && partials && vc_bool("not all entries are consumed")) { --partials; break; }
  }
  if (n || !wait) { progress(); return done; }  // the kernel does not wait if it could not take everything
  progress();
  while (fire_one(false) && burst) {}
  while (*cqt == *cqh) {
    if (fire_one(threaded ? false : idle == nullptr)) break;
    if (threaded) {
      bool timer = false, wakeable = false;
      for (auto& f : fl) wakeable = wakeable || (f.used && f.op == IORING_OP_READ);
      vc_assert(wakeable, "a loop that waits can be woken up");
      for (auto& f : fl) timer = timer || (f.used && f.op == IORING_OP_TIMEOUT && !never);
      vc_ghost(false);
      if (timer) vc_sched(); else vc_await(&readable);
      vc_ghost(true);
      progress();
      if (*cqt == *cqh && timer) fire_one(true);
      continue;
    }
    vc_assert(idle != nullptr, "the loop does not wait for something that never happens");
    bool wakeable = false;
    for (auto& f : fl) wakeable = wakeable || (f.used && f.op == IORING_OP_READ);
    vc_assert(wakeable, "a loop that waits can be woken up");
    auto f = idle;
    idle = nullptr;
    vc_ghost(false);
    f();
    vc_ghost(true);
    progress();
  }
  return done;
}
int setup(unsigned entries, ::io_uring_params* p) {
  if (fails()) return -1;
  vc_assert(entries >= 2, "at least two entries");
  p->sq_entries = SQ;
  p->cq_entries = CQ;
  p->features = single ? IORING_FEAT_SINGLE_MMAP : 0;
  if (single) {
    char* b = reinterpret_cast<char*>(&both);
    p->sq_off.head = reinterpret_cast<char*>(&both.sq_head) - b;
    p->sq_off.tail = reinterpret_cast<char*>(&both.sq_tail) - b;
    p->sq_off.ring_mask = reinterpret_cast<char*>(&both.sq_mask) - b;
    p->sq_off.array = reinterpret_cast<char*>(&both.sq_array) - b;
    p->cq_off.head = reinterpret_cast<char*>(&both.cq_head) - b;
    p->cq_off.tail = reinterpret_cast<char*>(&both.cq_tail) - b;
    p->cq_off.ring_mask = reinterpret_cast<char*>(&both.cq_mask) - b;
    p->cq_off.cqes = reinterpret_cast<char*>(&both.cqes) - b;
    both.sq_mask = SQ - 1;
    both.cq_mask = CQ - 1;
    sqh = &both.sq_head; sqt = &both.sq_tail; sqa = both.sq_array;
    cqh = &both.cq_head; cqt = &both.cq_tail; cqes = both.cqes;
  } else {
    char* b = reinterpret_cast<char*>(&sq);
    p->sq_off.head = reinterpret_cast<char*>(&sq.head) - b;
    p->sq_off.tail = reinterpret_cast<char*>(&sq.tail) - b;
    p->sq_off.ring_mask = reinterpret_cast<char*>(&sq.mask) - b;
    p->sq_off.array = reinterpret_cast<char*>(&sq.array) - b;
    b = reinterpret_cast<char*>(&cq);
    p->cq_off.head = reinterpret_cast<char*>(&cq.head) - b;
    p->cq_off.tail = reinterpret_cast<char*>(&cq.tail) - b;
    p->cq_off.ring_mask = reinterpret_cast<char*>(&cq.mask) - b;
    p->cq_off.cqes = reinterpret_cast<char*>(&cq.cqes) - b;
    sq.mask = SQ - 1;
    cq.mask = CQ - 1;
    sqh = &sq.head; sqt = &sq.tail; sqa = sq.array;
    cqh = &cq.head; cqt = &cq.tail; cqes = cq.cqes;
  }
  ring_open = true;
  return RING;
}
struct cat_t : std::error_category {
  char const * name() const noexcept override { return "system"; }
  std::string message(int) const override { return {}; }
};
cat_t cat;
}  // namespace kern
namespace std { inline const error_category& vt_category() noexcept { return kern::cat; } }

inline long vt_syscall(long nr, unsigned entries, ::io_uring_params* p) noexcept {
  vc_assert(nr == __NR_io_uring_setup, "a ring is set up");
  vc_ghost(true);
  long r = kern::setup(entries, p);
  vc_ghost(false);
  return r;
}
inline long vt_syscall(long nr, int fd, unsigned n, unsigned min, unsigned flags, std::nullptr_t, int) noexcept {
  vc_assert(nr == __NR_io_uring_enter, "a ring is entered");
  vc_ghost(true);
  long r = kern::enter(fd, n, min, flags);
  vc_ghost(false);
  return r;
}
inline int vt_eventfd(int n, int) noexcept {
  if (kern::fails()) return -1;
  kern::count = n;
  kern::event_open = true;
  return kern::EVENT;
}
inline void* vt_mmap(void*, size_t n, int, int, int fd, long off) noexcept {
  if (kern::fails()) return MAP_FAILED;
  vc_assert(fd == kern::RING && kern::ring_open, "the ring is mapped");
  ++kern::maps;
  if (off == (long)IORING_OFF_SQES) { vc_assert(n == kern::SQ * sizeof(::io_uring_sqe), "all entries are mapped"); return kern::sqes; }
  if (kern::single) {
    vc_assert(off == (long)IORING_OFF_SQ_RING && n == offsetof(decltype(kern::both), cqes) + kern::CQ * sizeof(::io_uring_cqe), "both rings are mapped");
    return &kern::both;
  }
  if (off == (long)IORING_OFF_SQ_RING) { vc_assert(n == offsetof(decltype(kern::sq), array) + kern::SQ * sizeof(unsigned), "the whole ring is mapped"); return &kern::sq; }
  vc_assert(off == (long)IORING_OFF_CQ_RING && n == offsetof(decltype(kern::cq), cqes) + kern::CQ * sizeof(::io_uring_cqe), "the whole ring is mapped");
  return &kern::cq;
}
inline int vt_munmap(void*, size_t) noexcept { vc_assert(kern::maps > 0, "a mapping is unmapped once"); --kern::maps; return 0; }
inline int vt_close(int fd) noexcept {
  if (fd == kern::RING) { vc_assert(kern::ring_open, "the ring is closed once"); kern::ring_open = false; }
  else { vc_assert(fd == kern::EVENT && kern::event_open, "the event counter is closed once"); kern::event_open = false; }
  return 0;
}
inline long vt_write(int fd, void const * p, size_t n) noexcept {
  vc_assert(fd == kern::EVENT && n == 8 && kern::event_open, "the event counter is written while it is open");
  vc_ghost(true);
  unsigned long v;
  __builtin_memcpy(&v, p, 8);
  kern::count += v;
  kern::readable = 1;
  vc_ghost(false);
  return 8;
}
#define syscall vt_syscall
#define eventfd vt_eventfd
#define mmap vt_mmap
#define munmap vt_munmap
#define close vt_close
#define write vt_write
#define system_category vt_category
#undef errno
#define errno kern::err
#include <exec/linux/io_uring_context.hpp>
#undef syscall
#undef eventfd
#undef mmap
#undef munmap
#undef close
#undef write
#undef system_category

namespace {
using ctx_t = exec::io_uring_context;
ctx_t* C;
constexpr int N = 6;
struct rec_t { int n = 0, kind = 0, by = -1, code = 0; bool in_run = false; bool stop_before = false; };
rec_t rec[N];
void (*then_[N])();
std::atomic<int> fin_[N]{};
ex::inplace_stop_source* ss[N];
int total;
struct base_box { virtual ~base_box() = default; virtual void go() = 0; };
base_box* box[N];
struct rcv {
  using receiver_concept = ex::receiver_t;
  int i;
  ex::inplace_stop_token t{};
  ntok g{9};
  void fin(int k, int code = 0) noexcept {
    g.check();
    int const i = this->i;
    vc_assert(rec[i].n == 0, "a started operation completes once");
    rec[i].n = 1;
    rec[i].kind = k;
    rec[i].code = code;
    rec[i].by = vc_thread_id();
    rec[i].in_run = C->is_running();
    ++total;
    if (k == VALUE) vc_assert(rec[i].in_run, "a value is delivered by the thread that drives the context");
    delete box[i];  // the operation may be destroyed by its completion
    box[i] = nullptr;
    if (then_[i]) then_[i]();
    fin_[i].store(1, std::memory_order_release);
  }
  void set_value() noexcept { fin(VALUE); }
  void set_stopped() noexcept { fin(STOPPED); }
  void set_error(std::exception_ptr e) noexcept {
    int code = -1;
    try { std::rethrow_exception(static_cast<std::exception_ptr&&>(e)); }
    catch (std::system_error const & x) { code = x.code().value(); }
    catch (...) {}
    fin(ERROR, code);
  }
  auto get_env() const noexcept { return stop_env{t}; }
};
template <class S>
struct box_t : base_box {
  ex::connect_result_t<S, rcv> op;
  box_t(S s, int i) : op(ex::connect(static_cast<S&&>(s), rcv{i, ss[i] ? ss[i]->get_token() : ex::inplace_stop_token{}})) {}
  void go() override { ex::start(op); }
};
template <class S>
void mk_(S s, int i) { box[i] = new box_t<S>(static_cast<S&&>(s), i); }
void now(int i) { mk_(ex::schedule(C->get_scheduler()), i); }
void after(int i, std::chrono::nanoseconds d = std::chrono::nanoseconds{1500000001}) { mk_(exec::schedule_after(C->get_scheduler(), d), i); }
void any(int i) { if (vc_bool("timer")) after(i); else now(i); }
void go(int i) { box[i]->go(); }
void source(int i) { ss[i] = new ex::inplace_stop_source; }
void begin() { kern::single = vc_bool("one mapping for both rings"); C = new ctx_t(2); }
void begin_threads() { vc_threads(); kern::threaded = true; C = new ctx_t(2); }
void over() {
  delete C;
  C = nullptr;
  for (auto& s : ss) { delete s; s = nullptr; }
  vc_assert(!kern::ring_open && !kern::event_open && kern::maps == 0, "the context gives back what it took from the kernel");
  vc_no_leaks("all memory is released");
}
void empty() { C->run_until_empty(); vc_assert(!C->is_running(), "the context is not running afterwards"); }
}  // namespace

// everything that was started completes once; values unless a stop was requested
PROOF(until_empty) {
  begin();
  int n = 1 + vc_choice(3, "operations");
  for (int i = 0; i < n; ++i) any(i);
  for (int i = 0; i < n; ++i) go(i);
  vc_assert(total == 0, "nothing completes outside of the run loop");
  empty();
  vc_assert(total == n, "every started operation has completed");
  for (int i = 0; i < n; ++i) vc_assert(rec[i].kind == VALUE, "nothing is stopped without a request");
  vc_assert(!C->stop_requested(), "the context is not stopped");
  over();
}

// more operations than the rings can hold
PROOF(full_rings) {
  begin();
  for (int i = 0; i < 5; ++i) i == 2 ? now(i) : after(i);
  for (int i = 0; i < 5; ++i) go(i);
  if (vc_bool("interrupts")) kern::interrupts = 1; else kern::partials = 1;
  empty();
  vc_assert(total == 5, "every started operation has completed");
  for (int i = 0; i < 5; ++i) vc_assert(rec[i].kind == VALUE, "nothing is stopped without a request");
  over();
}
// the duration that was asked for is the one the kernel is given
PROOF(durations) {
  begin();
  long const ns[] = {0, 1, 999999999, 1000000000, 1000000001, 3600000000000, 86400000000000001, -1, -1000000000, -5500000000};
  long d = ns[vc_choice(10, "nanoseconds")];
  after(0, std::chrono::nanoseconds{d});
  go(0);
  empty();
  long want = d < 0 ? 0 : d;
  vc_assert(kern::timers_seen == 1 && kern::last_sec == want / 1000000000 && kern::last_nsec == want % 1000000000, "the timer waits for the duration that was given");
  vc_assert(rec[0].kind == VALUE, "a timer completes with a value");
  over();
}
namespace {
struct clk {
  using rep = long;
  using period = std::nano;
  using duration = std::chrono::nanoseconds;
  using time_point = std::chrono::time_point<clk>;
  static constexpr bool is_steady = true;
  static time_point now() noexcept { return time_point{duration{5000000007}}; }
};
}
PROOF(time_points) {
  begin();
  long const ns[] = {0, 5000000007, 5000000008, 6000000007, 7000000000};
  long d = ns[vc_choice(5, "nanoseconds")];
  mk_(C->get_scheduler().schedule_at(clk::time_point{clk::duration{d}}), 0);
  go(0);
  empty();
  long want = d < 5000000007 ? 0 : d - 5000000007;
  vc_assert(kern::timers_seen == 1 && kern::last_sec == want / 1000000000 && kern::last_nsec == want % 1000000000, "the timer expires at the given time");
  vc_assert(rec[0].kind == VALUE, "a timer completes with a value");
  over();
}
// an error of the kernel is delivered as the error it is
PROOF(timer_error) {
  begin();
  after(0);
  after(1);
  go(0);
  go(1);
  kern::timer_errors = 1;
  empty();
  vc_assert(total == 2, "every started operation has completed");
  for (int i = 0; i < 2; ++i) {
    if (rec[i].kind == ERROR) { vc_cover("error"); vc_assert(rec[i].code == EFAULT && kern::timer_errors == 0, "the error of the kernel is delivered"); }
    else vc_assert(rec[i].kind == VALUE, "nothing is stopped without a request");
  }
  over();
}
// completions start further operations
PROOF(started_by_completions) {
  begin();
  any(0);
  any(1);
  any(2);
  any(3);
  then_[0] = [] { go(2); };
  then_[1] = [] { go(3); };
  go(0);
  go(1);
  empty();
  vc_assert(total == 4, "every started operation has completed");
  for (int i = 0; i < 4; ++i) vc_assert(rec[i].kind == VALUE, "nothing is stopped without a request");
  over();
}
// a stop request of one operation: that operation and no other
namespace { void stop0() { ss[0]->request_stop(); } }
PROOF(receiver_stop) {
  begin();
  source(0);
  any(0);
  any(1);
  int when = vc_choice(5, "stop before the start, before the run, by a completion, while the loop is blocked, in the other order");
  if (when == 0) stop0();
  if (when == 2) then_[1] = stop0;
  if (when == 3) kern::idle = stop0;
  if (when == 4) { go(1); go(0); } else { go(0); go(1); }
  if (when == 1 || when == 4) stop0();
  empty();
  vc_assert(total == 2, "every started operation has completed");
  vc_assert(rec[1].kind == VALUE, "the other operation is not stopped");
  if (when == 0 || when == 1 || when == 4) vc_assert(rec[0].kind == STOPPED, "an operation whose stop was requested in time is stopped");
  if (rec[0].kind == STOPPED) { vc_cover("stopped"); vc_assert(ss[0]->stop_requested(), "stopped only on request"); }
  over();
}
// both stops of one operation
PROOF(both_stops) {
  begin();
  source(0);
  after(0);
  any(1);
  static int order;
  order = vc_choice(2, "who is first");
  int when = vc_choice(3, "by a completion, while the loop is blocked, before the run");
  static auto f = [] { if (order) stop0(); (void)C->request_stop(); if (!order) stop0(); };
  if (when == 0) then_[1] = [] { f(); };
  if (when == 1) kern::idle = [] { f(); };
  go(0);
  go(1);
  if (when == 2) f();
  C->run_until_stopped();
  vc_assert(total == 2, "every started operation has completed");
  vc_assert(C->stop_requested(), "the context is stopped");
  over();
}
// ... at different times
PROOF(one_stop_after_the_other) {
  kern::SQ = 4;
  kern::CQ = 8;
  C = new ctx_t(2);
  source(0);
  for (int i = 0; i < 3; ++i) after(i);
  bool first = vc_bool("the context is first");
  static void (*a)();
  static void (*b)();
  static auto f = [] { (void)C->request_stop(); };
  a = first ? +[] { f(); } : stop0;
  b = first ? stop0 : +[] { f(); };
  kern::burst = true;
  then_[1] = a;
  then_[2] = b;
  for (int i = 0; i < 3; ++i) go(i);
  C->run_until_stopped();
  vc_assert(total == 3, "every started operation has completed");
  over();
}
// request_stop() completes everything, and what is started later completes at once
PROOF(context_stop) {
  begin();
  int n = vc_choice(4, "operations");
  for (int i = 0; i < n; ++i) any(i);
  after(4);
  now(5);
  int when = vc_choice(3, "before the starts, after the starts, while the loop is blocked, by a completion");
  static auto f = [] { vc_assert(!C->request_stop(), "request_stop succeeds"); };
  if (when == 0) f();
  for (int i = 0; i < n; ++i) go(i);
  if (when == 1) f();
  if (when == 2) kern::idle = [] { f(); };
  C->run_until_stopped();
  vc_assert(total == n, "every started operation has completed");
  if (when < 2)
    for (int i = 0; i < n; ++i) vc_assert(rec[i].kind == STOPPED, "operations of a stopped context are stopped");
  vc_assert(C->stop_requested() && !C->is_running(), "the loop ends because it was stopped");
  go(4);
  go(5);
  vc_assert(rec[4].kind == STOPPED && rec[5].kind == STOPPED, "a stopped context completes with stopped");
  over();
}
PROOF(stopped_by_completion) {
  begin();
  for (int i = 0; i < 4; ++i) any(i);
  then_[0] = [] { (void)C->request_stop(); go(3); };
  for (int i = 0; i < 3; ++i) go(i);
  C->run_until_stopped();
  vc_assert(total == 4, "every started operation has completed");
  vc_assert(rec[3].kind == STOPPED, "operations of a stopped context are stopped");
  over();
}
// the loop can be left and entered again
PROOF(run_again) {
  begin();
  int rounds = 2 + vc_choice(2, "rounds");
  for (int i = 0; i < rounds; ++i) {
    int before = total;
    any(i);
    go(i);
    empty();
    vc_assert(total == before + 1, "every started operation has completed");
    vc_assert(rec[i].kind == VALUE, "nothing is stopped without a request");
  }
  over();
}
PROOF(finish_and_run_again) {
  begin();
  now(0);
  any(1);
  then_[0] = [] { C->finish(); };
  go(0);
  C->run_until_stopped();
  vc_assert(rec[0].kind == VALUE && !C->stop_requested(), "finish() leaves the loop without stopping it");
  go(1);
  then_[1] = [] { (void)C->request_stop(); };
  C->run_until_stopped();
  vc_assert(total == 2 && rec[1].kind != ERROR, "every started operation has completed");
  over();
}
// a stop that is requested between two runs
PROOF(stopped_between_runs) {
  begin();
  any(0);
  any(1);
  any(2);
  go(0);
  empty();
  if (vc_bool("started before the stop")) go(1);
  (void)C->request_stop();
  if (vc_bool("until empty")) empty(); else C->run_until_stopped();
  if (!rec[1].n) go(1);
  go(2);
  vc_assert(total == 3 && rec[1].kind == STOPPED && rec[2].kind == STOPPED, "a stopped context completes with stopped");
  over();
}
PROOF(reset_and_run_again) {
  begin();
  any(0);
  now(1);
  any(2);
  go(0);
  int used = vc_choice(4, "used before, stopped by a completion, stopped while it is blocked");
  if (used == 1) empty();
  if (used == 2) then_[0] = [] { (void)C->request_stop(); };
  if (used == 3) kern::idle = [] { (void)C->request_stop(); };
  if (used >= 2) empty();
  if (!C->stop_requested()) {
    kern::idle = nullptr;
    (void)C->request_stop();
    C->run_until_stopped();
  }
  go(1);
  vc_assert(total == 2 && rec[1].kind == STOPPED, "a stopped context completes with stopped");
  C->reset();
  vc_assert(!C->stop_requested(), "reset() makes the context usable again");
  go(2);
  if (vc_bool("until empty")) empty();
  else { then_[2] = [] { (void)C->request_stop(); }; C->run_until_stopped(); }
  vc_assert(total == 3 && rec[2].kind == (C->stop_requested() && rec[2].kind == STOPPED ? STOPPED : VALUE), "every started operation has completed");
  over();
}
namespace {
int run_n, run_kind;
bool run_stop;
struct run_rcv {
  using receiver_concept = ex::receiver_t;
  ntok g{9};
  void fin(int k) noexcept { g.check(); vc_assert(run_n == 0, "run() completes once"); ++run_n; run_kind = k; }
  void set_value() noexcept { fin(VALUE); }
  void set_stopped() noexcept { fin(STOPPED); }
  void set_error(std::exception_ptr) noexcept { fin(ERROR); }
  auto get_env() const noexcept { return stop_env{ss[5] ? ss[5]->get_token() : ex::inplace_stop_token{}}; }
};
void run(exec::until m) {
  run_n = 0;
  auto op = ex::connect(C->run(m), run_rcv{});
  ex::start(op);
  vc_assert(run_n == 1, "run() completes once");
}
}
// the sender returned by run()
PROOF(run_sender) {
  begin();
  source(5);
  any(0);
  any(1);
  bool until_empty = vc_bool("until empty");
  int how = vc_choice(4, "stopped by its receiver before, while running, by the context, not at all");
  go(0);
  go(1);
  if (how == 0) ss[5]->request_stop();
  if (how == 1) then_[0] = [] { ss[5]->request_stop(); };
  if (how == 2) then_[0] = [] { (void)C->request_stop(); };
  if (how == 3 && !until_empty) { static int left; left = 2; then_[0] = then_[1] = [] { if (--left == 0) C->finish(); }; }
  run(until_empty ? exec::until::empty : exec::until::stopped);
  vc_assert(total == 2, "every started operation has completed");
  vc_assert(run_kind == (how == 3 ? VALUE : STOPPED), "run() is stopped exactly when a stop was requested");
  vc_assert(C->stop_requested() == (how != 3), "the stop request of the receiver of run() stops the context");
  over();
}
// only one thread may drive the context
PROOF(run_while_running) {
  begin();
  now(0);
  then_[0] = [] { run(vc_bool("until empty") ? exec::until::empty : exec::until::stopped); vc_assert(run_kind == ERROR, "a second run() is an error"); };
  go(0);
  empty();
  vc_assert(total == 1 && run_n == 1, "every operation completes once");
  over();
}
// the kernel refuses: the error is reported, and nothing that was started is lost
PROOF(enter_fails) {
  begin();
  any(0);
  any(1);
  go(0);
  go(1);
  kern::enter_errors = EBUSY;
  bool sender = vc_bool("sender");
  bool failed = false;
  if (sender) {
    run(exec::until::empty);
    failed = run_kind == ERROR;
  } else {
    try { C->run_until_empty(); }
    catch (std::system_error const & e) { failed = true; vc_assert(e.code().value() == EBUSY, "the error of the kernel is reported"); }
  }
  vc_assert(!C->is_running(), "the context is not running afterwards");
  if (failed) { vc_cover("failed"); empty(); }
  vc_assert(total == 2 && rec[0].kind == VALUE && rec[1].kind == VALUE, "every started operation has completed");
  over();
}
PROOF(constructor_fails) {
  kern::single = vc_bool("one mapping for both rings");
  int last = kern::single ? 4 : 5;
  kern::fail_at = 1 + vc_choice(last + 1, "the call that fails");
  kern::fail_code = EMFILE;
  bool failed = false;
  try { C = new ctx_t(2); }
  catch (std::system_error const & e) { failed = true; vc_assert(e.code().value() == EMFILE, "the error of the kernel is reported"); }
  vc_assert(failed == (kern::fail_at <= last), "a context exists exactly when the kernel gave what it needs");
  if (failed) vc_assert(!kern::ring_open && !kern::event_open && kern::maps == 0, "what was taken is given back");
  else over();
}

// ---- other threads
namespace {
void t_start(void* p) { go((int)(long)p); }
void await(int i) { vc_await((int const *)&fin_[i]); (void)fin_[i].load(std::memory_order_acquire); }
}
//@proofopt other_thread_starts preemptions=2
PROOF(other_thread_starts) {
  begin_threads();
  after(0);
  now(1);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  go(0);
  go(1);
  await(0);
  await(1);
  vc_assert(rec[0].kind == VALUE && rec[1].kind == VALUE, "nothing is stopped without a request");
  vc_assert(rec[0].by == 1 && rec[1].by == 1, "operations complete on the thread that drives the context");
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 2, "every started operation completes once");
  over();
}
//@proofopt starts_race_stop preemptions=2
// what is started while the context is being stopped completes, too
PROOF(starts_race_stop) {
  begin_threads();
  after(0);
  now(1);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  vc_spawn([](void*) { go(1); }, nullptr, "starts");
  go(0);
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 2, "every started operation completes once");
  over();
}
//@proofopt timer_races_stop preemptions=2
// what is started while the context is being stopped completes, too
PROOF(timer_races_stop) {
  begin_threads();
  now(0);
  after(1);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  vc_spawn([](void*) { go(1); }, nullptr, "starts");
  go(0);
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 2, "every started operation completes once");
  over();
}
//@proofopt receiver_stop_race preemptions=2
PROOF(receiver_stop_race) {
  begin_threads();
  source(0);
  after(0);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  go(0);
  ss[0]->request_stop();
  await(0);
  vc_assert(rec[0].kind != ERROR, "stopped or done");
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 1, "every started operation completes once");
  over();
}
//@proofopt two_stops_race preemptions=2
PROOF(two_stops_race) {
  begin_threads();
  source(0);
  after(0);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  vc_spawn([](void*) { stop0(); }, nullptr, "stops the operation");
  go(0);
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 1, "every started operation completes once");
  over();
}

//@proofopt stop_reaches_the_loop preemptions=2
// a stop is honoured however long the operations in flight would take
PROOF(stop_reaches_the_loop) {
  begin_threads();
  kern::never = true;
  after(0);
  now(1);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  go(0);
  vc_spawn([](void*) { go(1); }, nullptr, "starts");
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 2, "every started operation completes once");
  over();
}
//@proofopt receiver_stop_reaches_the_loop preemptions=2
PROOF(receiver_stop_reaches_the_loop) {
  begin_threads();
  kern::never = true;
  source(0);
  after(0);
  now(1);
  vc_spawn([](void*) { C->run_until_stopped(); }, nullptr, "the loop");
  go(0);
  vc_spawn([](void*) { go(1); }, nullptr, "starts");
  ss[0]->request_stop();
  await(0);
  await(1);
  vc_assert(rec[0].kind == STOPPED && rec[1].kind == VALUE, "only what was asked to is stopped");
  (void)C->request_stop();
  vc_join_all();
  vc_assert(total == 2, "every started operation completes once");
  over();
}
PROOF(finish_while_blocked) {
  begin();
  any(0);
  any(1);
  kern::idle = [] { C->finish(); };
  bool before = vc_bool("started before");
  if (before) go(0);
  kern::idle = [] { C->finish(); };
  if (before) then_[0] = [] { C->finish(); };
  C->run_until_stopped();
  vc_assert(!C->is_running() && !C->stop_requested(), "finish() leaves the loop without stopping it");
  if (!before) go(0);
  go(1);
  kern::idle = nullptr;
  then_[0] = nullptr;
  empty();
  if (total < 2) empty();  // finish() may have been left over
  vc_assert(total == 2 && rec[0].kind == VALUE && rec[1].kind == VALUE, "every started operation has completed");
  over();
}
// the owners of descriptors and mappings
PROOF(owners) {
  using fd_t = exec::safe_file_descriptor;
  using map_t = exec::memory_mapped_region;
  kern::ring_open = kern::event_open = true;
  kern::maps = 2;
  {
    fd_t a{kern::RING}, b{kern::EVENT};
    fd_t c{static_cast<fd_t&&>(a)};
    vc_assert(!a && c && c == kern::RING && b.native_handle() == kern::EVENT, "a descriptor is moved");
    switch (vc_choice(5, "operation")) {
      case 0: c = static_cast<fd_t&&>(b); vc_assert(!kern::ring_open && kern::event_open && c == kern::EVENT && !b, "the old one is closed"); break;
      case 1: { fd_t& r = c; c = static_cast<fd_t&&>(r); vc_assert(kern::ring_open && c == kern::RING, "assigning to itself changes nothing"); break; }
      case 2: c.reset(); vc_assert(!kern::ring_open && !c, "reset closes"); break;
      case 3: a = static_cast<fd_t&&>(c); vc_assert(kern::ring_open && a == kern::RING && !c, "a descriptor is moved"); break;
      default: b.reset(); c.reset(kern::EVENT); vc_assert(!kern::ring_open && c == kern::EVENT, "reset takes the new one"); kern::event_open = true;
    }
    map_t m{&kern::sq, sizeof kern::sq}, n{&kern::cq, sizeof kern::cq}, none{MAP_FAILED, 8};
    vc_assert(!none && m && m.data() == &kern::sq && m.size() == sizeof kern::sq, "a failed mapping is none");
    map_t o{static_cast<map_t&&>(m)};
    vc_assert(!m && o.data() == &kern::sq && o.size() == sizeof kern::sq, "a mapping is moved");
    if (vc_bool("assign")) { o = static_cast<map_t&&>(n); vc_assert(kern::maps == 1 && o.data() == &kern::cq && !n, "the old one is unmapped"); }
    map_t& r = o;
    o = static_cast<map_t&&>(r);
    vc_assert((bool)o, "assigning to itself changes nothing");
  }
  vc_assert(!kern::ring_open && !kern::event_open && kern::maps == 0, "everything is given back once");
}
