// Replays the schedule of a counterexample: real threads, of which exactly one runs at a
// time; they are switched at the recorded synchronising operations.  The code is compiled
// with -fsanitize=thread, whose callbacks are implemented here (the sanitizer's own runtime
// is not linked): happens-before races and uses of freed memory are reported.
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <chrono>
#include <semaphore.h>
#include <pthread.h>
#include <errno.h>
#include <unistd.h>
#include <set>
#include <memory>

namespace mt {
typedef std::map<int, uint64_t> VC;
struct th {
  int tid;
  void (*f)(void*);
  void* a;
  std::thread::_State* state = nullptr;
  sem_t sem;
  pthread_t pt;
  int status = 0;   // 0 runs, 1 mutex, 2 joinall, 3 join, 4 cv, 5 cv timed, 6 futex, 7 done
  void* on = nullptr;
  bool woken = false;
  VC vc, relf, pend;
};
bool on = false;
std::vector<th*>& ths() { static auto* v = new std::vector<th*>; return *v; }
int cur = 0;
uint64_t nsp = 0;
thread_local th* me = nullptr;
thread_local int inrt = 0;
struct rt { bool t; rt() : t(tracking) { ++inrt; tracking = false; } ~rt() { --inrt; tracking = t; } };

void join(VC& a, VC const & b) { for (auto& [k, v] : b) if (a[k] < v) a[k] = v; }

void start() {
  if (on) return;
  rt r;
  auto* t = new th;
  t->tid = 0; t->vc[0] = 1;
  sem_init(&t->sem, 0, 0);
  ths().push_back(t);
  me = t;
  on = true;
}
int match() {
  if (pos < inputs().size()) {
    auto& i = inputs()[pos];
    if (i.kind == "sched" && (i.v >> 8) == nsp + 1) { ++pos; ++nsp; return (int)(i.v & 255); }
  }
  return -1;
}
bool enabled(th* t) {
  extern bool held(void*);
  switch (t->status) {
    case 0: return true;
    case 1: return !held(t->on);
    case 2: for (auto* u : ths()) if (u != t && u->status != 7) return false; return true;
    case 3: return ((th*)t->on)->status == 7;
    case 5: return true;
  }
  return false;
}
// give the baton to thread i and wait until it comes back
void switch_to(int i) {
  th* self = me;
  if (i == self->tid) return;
  th* t = ths()[i];
  cur = i;
  if (t->status == 7) {
    // it ended earlier than in the recorded schedule
    int j = match();
    if (j >= 0) { switch_to(j); return; }
    diverged("a finished thread is scheduled");
  }
  sem_post(&t->sem);
  if (self->status == 7) return;
  while (sem_wait(&self->sem)) {}
}
void schedpoint() {
  rt r;
  for (int i; (i = match()) >= 0;) switch_to(i);
}
void opdone() { ++nsp; }
// the current thread is blocked; returns when it is scheduled again
void block(int status, void* w) {
  me->status = status;
  me->on = w;
  for (;;) {
    int i = match();
    if (i >= 0) { switch_to(i); if (me->status == 0) break; if (enabled(me)) break; if (status == 4 || status == 6) break; continue; }
    if (enabled(me) && status != 5) break;
    bool any = false;
    for (auto* t : ths()) if (enabled(t)) any = true;
    if (!any) violated("deadlock: every thread waits for ever");
    diverged("schedule ends while a thread is blocked");
  }
  me->status = 0;
}
std::map<void*, int>& mtx() { static auto* m = new std::map<void*, int>; return *m; }
std::map<void*, VC>& mvc() { static auto* m = new std::map<void*, VC>; return *m; }
bool held(void* m) { return mtx()[m] != 0; }
void lock(void* m) {
  rt r;
  schedpoint();
  while (mtx()[m]) {
    if (mtx()[m] == me->tid + 1) violated("mutex is locked again by the thread that holds it");
    block(1, m);
  }
  mtx()[m] = me->tid + 1;
  join(me->vc, mvc()[m]);
  opdone();
}
int trylock(void* m) {
  rt r;
  schedpoint();
  opdone();
  if (mtx()[m]) return EBUSY;
  mtx()[m] = me->tid + 1;
  join(me->vc, mvc()[m]);
  return 0;
}
void unlock(void* m) {
  rt r;
  if (mtx()[m] != me->tid + 1) violated("unlock of a mutex that is not held");
  mtx()[m] = 0;
  mvc()[m] = me->vc;
  me->vc[me->tid]++;
}
int cvwait(void* cv, void* m, bool timed) {
  rt r;
  unlock(m);
  me->woken = false;
  block(timed ? 5 : 4, cv);
  bool w = me->woken;
  while (mtx()[m]) block(1, m);
  mtx()[m] = me->tid + 1;
  join(me->vc, mvc()[m]);
  opdone();
  return w || !timed ? 0 : ETIMEDOUT;
}
void notify(void* cv, bool all) {
  rt r;
  std::vector<th*> ws;
  for (auto* t : ths()) if (t->status >= 4 && t->status <= 6 && t->on == cv) ws.push_back(t);
  if (!all && ws.size() > 1) {
    int w = (int)next("woken");
    for (auto* t : ws) if (t->tid == w) { ws = {t}; break; }
  }
  for (auto* t : ws) { t->status = 0; t->on = nullptr; t->woken = true; }
}
// ------------------------------------------------------------- happens-before
struct shadow { int wt = -1; uint64_t wc = 0; VC reads; };
std::map<uintptr_t, shadow>& sh() { static auto* m = new std::map<uintptr_t, shadow>; return *m; }
std::map<uintptr_t, VC>& loc() { static auto* m = new std::map<uintptr_t, VC>; return *m; }
struct blk { size_t n; bool alive; VC at; };
std::map<uintptr_t, blk>& blks() { static auto* m = new std::map<uintptr_t, blk>; return *m; }
blk* find(uintptr_t a) {
  auto& b = blks();
  auto it = b.upper_bound(a);
  if (it == b.begin()) return nullptr;
  --it;
  return a < it->first + it->second.n ? &it->second : nullptr;
}
void hb(bool ok, const char* what) { if (!ok) violated(what); }
void access(void* p, size_t n, bool w) {
  if (!on || inrt || !me) return;
  rt r;
  auto a = (uintptr_t)p;
  blk* b = find(a);
  if (!b) return;
  if (!b->alive) violated("use of memory after it is released");
  auto& s = sh()[a];
  if (s.wt >= 0 && s.wt != me->tid) hb(me->vc[s.wt] >= s.wc, "data race with a write");
  if (w) {
    for (auto& [t, c] : s.reads) if (t != me->tid) hb(me->vc[t] >= c, "data race with a read");
    s.reads.clear();
    s.wt = me->tid; s.wc = me->vc[me->tid];
  } else {
    s.reads[me->tid] = me->vc[me->tid];
  }
}
void pre_atomic(void* p) {
  if (!on || inrt || !me) return;
  schedpoint();
  rt r;
  blk* b = find((uintptr_t)p);
  if (b && !b->alive) violated("atomic use of memory after it is released");
}
enum { LOAD, STORE, RMW };
void post_atomic(void* p, int kind, int mo) {
  if (!on || inrt || !me) return;
  rt r;
  ++nsp;
  auto a = (uintptr_t)p;
  bool acq = mo == 1 || mo == 2 || mo == 4 || mo == 5, rel = mo == 3 || mo == 4 || mo == 5;
  if (blk* b = find(a)) {
    auto it = sh().find(a);
    if (it != sh().end() && it->second.wt >= 0 && it->second.wt != me->tid)
      hb(me->vc[it->second.wt] >= it->second.wc, "atomic access races with a plain write");
    b->at[me->tid] = me->vc[me->tid];
  }
  auto& L = loc()[a];
  if (kind != STORE) join(acq ? me->vc : me->pend, L);
  VC const & pub = rel ? me->vc : me->relf;
  if (kind == STORE) L = pub;
  else if (kind == RMW) join(L, pub);
  if (kind != LOAD) me->vc[me->tid]++;
}
void fence(int mo) {
  if (!on || inrt || !me) return;
  rt r;
  if (mo == 1 || mo == 2 || mo == 4 || mo == 5) join(me->vc, me->pend);
  if (mo >= 3) { me->relf = me->vc; me->vc[me->tid]++; }
}
void born(void* p, size_t n) {
  rt r;
  auto a = (uintptr_t)p;
  for (auto it = sh().lower_bound(a); it != sh().end() && it->first < a + n;) it = sh().erase(it);
  for (auto it = loc().lower_bound(a); it != loc().end() && it->first < a + n;) it = loc().erase(it);
  blks()[a] = blk{n, true, {}};
}
// returns true when the memory must be kept
bool died(void* p) {
  rt r;
  auto a = (uintptr_t)p;
  auto it = blks().find(a);
  if (it == blks().end()) return false;
  blk& b = it->second;
  if (!b.alive) violated("memory is released twice");
  if (on && me) {
    for (auto& [t, c] : b.at) if (t != me->tid) hb(me->vc[t] >= c, "memory is released while an atomic access is not ordered before it");
    for (auto s = sh().lower_bound(a); s != sh().end() && s->first < a + b.n; ++s) {
      if (s->second.wt >= 0 && s->second.wt != me->tid) hb(me->vc[s->second.wt] >= s->second.wc, "memory is released while a write is not ordered before it");
      for (auto& [t, c] : s->second.reads) if (t != me->tid) hb(me->vc[t] >= c, "memory is released while a read is not ordered before it");
    }
  }
  b.alive = false;
  return true;
}
void* body(void* v) {
  auto* t = (th*)v;
  me = t;
  while (sem_wait(&t->sem)) {}
  tracking = true;
  if (t->state) { t->state->_M_run(); delete t->state; }
  else t->f(t->a);
  {
    rt r;
    t->status = 7;
    int i = match();
    if (i < 0) {
      bool any = false;
      for (auto* u : ths()) if (enabled(u)) any = true;
      if (!any) violated("deadlock: every thread waits for ever");
      diverged("schedule ends at the end of a thread");
    }
    switch_to(i);
  }
  return nullptr;
}
th* spawn(void (*f)(void*), void* a, std::thread::_State* s) {
  start();
  rt r;
  auto* t = new th;
  t->tid = (int)ths().size();
  t->f = f; t->a = a; t->state = s;
  t->vc = me->vc;
  t->vc[t->tid] = 1;
  me->vc[me->tid]++;
  sem_init(&t->sem, 0, 0);
  ths().push_back(t);
  pthread_create(&t->pt, nullptr, body, t);
  return t;
}
bool mine(void* ra) {
  extern char __executable_start __asm__("__executable_start"), etext __asm__("etext");
  return on && me && !inrt && (char*)ra >= &__executable_start && (char*)ra < &etext;
}
}  // namespace mt
#define MINE mt::mine(__builtin_return_address(0))
#define REAL(f) ((decltype(&f))dlsym(RTLD_NEXT, #f))

extern "C" {
void vc_threads() noexcept { mt::start(); }
unsigned vc_spawn(void (*f)(void*), void* a, const char*) noexcept { return (unsigned)mt::spawn(f, a, nullptr)->tid; }
void vc_join_all() noexcept {
  if (!mt::on) return;
  mt::rt r;
  auto all = [] { for (auto* u : mt::ths()) if (u != mt::me && u->status != 7) return false; return true; };
  while (!all()) mt::block(2, nullptr);
  for (auto* u : mt::ths()) if (u != mt::me) mt::join(mt::me->vc, u->vc);
  mt::opdone();
}
unsigned vc_thread_id() noexcept { return mt::me ? (unsigned)mt::me->tid : 0; }
void vc_sched() noexcept { if (mt::on) { mt::schedpoint(); mt::opdone(); } }
void vc_await(const int* p) noexcept {
  mt::rt r;
  while (!*(volatile const int*)p) {
    int i = mt::match();
    if (i < 0) diverged("await");
    mt::switch_to(i);
  }
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (MINE) { mt::lock(m); return 0; } return REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { if (MINE) return mt::trylock(m); return REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (MINE) { mt::unlock(m); return 0; } return REAL(pthread_mutex_unlock)(m); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (MINE) return mt::cvwait(c, m, true); return REAL(pthread_cond_clockwait)(c, m, k, t); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (MINE) return mt::cvwait(c, m, true); return REAL(pthread_cond_timedwait)(c, m, t); }
int sched_yield() noexcept { return 0; }
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto& x : a) x = va_arg(ap, long);
  va_end(ap);
  if (n == 202 && MINE) {
    mt::rt r;
    int* p = (int*)a[0];
    if ((a[1] & 127) == 0 || (a[1] & 127) == 9) {
      mt::schedpoint();
      if (*p == (int)a[2]) mt::block(6, p);
      mt::opdone();
    } else {
      mt::notify(p, a[2] != 1);
    }
    return 0;
  }
  return REAL(syscall)(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
#define ACC(n) \
  void __tsan_read##n(void* p) { mt::access(p, n, false); } \
  void __tsan_write##n(void* p) { mt::access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { mt::access(p, n, false); } \
  void __tsan_unaligned_write##n(void* p) { mt::access(p, n, true); } \
  void __tsan_read_write##n(void* p) { mt::access(p, n, false); mt::access(p, n, true); } \
  void __tsan_unaligned_read_write##n(void* p) { mt::access(p, n, false); mt::access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { mt::access(p, 8, true); }
void __tsan_vptr_read(void** p) { mt::access(p, 8, false); }
static void range(const void* p, size_t n, bool w) {
  auto a = (uintptr_t)p, e = a + n;
  while (a < e) {
    size_t k = 8 - a % 8;
    if (k > e - a) k = e - a;
    mt::access((void*)a, k, w);
    a += k;
  }
}
void __tsan_read_range(void* p, unsigned long n) { range(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { range(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { range(s, n, false); range(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { range(d, n, true); return memset(d, c, n); }
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* p, int mo) { mt::pre_atomic((void*)p); T v = __atomic_load_n(p, 5); mt::post_atomic((void*)p, mt::LOAD, mo); return v; } \
  void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); __atomic_store_n(p, v, 5); mt::post_atomic((void*)p, mt::STORE, mo); } \
  T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); T r = __atomic_exchange_n(p, v, 5); mt::post_atomic((void*)p, mt::RMW, mo); return r; } \
  T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); T r = __atomic_fetch_add(p, v, 5); mt::post_atomic((void*)p, mt::RMW, mo); return r; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); T r = __atomic_fetch_sub(p, v, 5); mt::post_atomic((void*)p, mt::RMW, mo); return r; } \
  T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); T r = __atomic_fetch_and(p, v, 5); mt::post_atomic((void*)p, mt::RMW, mo); return r; } \
  T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); T r = __atomic_fetch_or(p, v, 5); mt::post_atomic((void*)p, mt::RMW, mo); return r; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { mt::pre_atomic((void*)p); T r = __atomic_fetch_xor(p, v, 5); mt::post_atomic((void*)p, mt::RMW, mo); return r; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fo) { mt::pre_atomic((void*)p); bool r = __atomic_compare_exchange_n(p, e, v, false, 5, 5); mt::post_atomic((void*)p, r ? mt::RMW : mt::LOAD, r ? mo : fo); return r; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fo) { return __tsan_atomic##B##_compare_exchange_strong(p, e, v, mo, fo); } \
  T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fo) { __tsan_atomic##B##_compare_exchange_strong(p, &e, v, mo, fo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { mt::fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
void std::condition_variable::wait(std::unique_lock<std::mutex>& l) { mt::cvwait(this, l.mutex()->native_handle(), false); }
void std::condition_variable::notify_one() noexcept { mt::notify(this, false); }
void std::condition_variable::notify_all() noexcept { mt::notify(this, true); }
void std::thread::_M_start_thread(_State_ptr s, void (*)()) {
  auto* t = mt::spawn(nullptr, nullptr, s.release());
  _M_id = id(t->pt);
}
void std::thread::join() {
  mt::rt r;
  for (auto* t : mt::ths())
    if (t->tid && t->pt == _M_id._M_thread) {
      while (t->status != 7) mt::block(3, t);
      mt::join(mt::me->vc, t->vc);
      mt::opdone();
    }
  _M_id = id();
}
unsigned std::thread::hardware_concurrency() noexcept { return (unsigned)::next("hardware_concurrency"); }
