#include "../harness/lib.h"
#include <atomic>
struct box { std::atomic<int> f{0}; int x = 0; };
static box* b;
PROOF(mp_ok) {
  b = new box;
  vc_spawn([](void*) { b->x = 5; b->f.store(1, std::memory_order_release); }, nullptr, "A");
  vc_spawn([](void*) { if (b->f.load(std::memory_order_acquire)) vc_assert(b->x == 5, "x"); }, nullptr, "B");
  vc_join_all();
  vc_assert(b->x==5, "after");
  delete b;
  vt::all_destroyed();
}
PROOF(mp_bad) {
  b = new box;
  vc_spawn([](void*) { b->x = 5; b->f.store(1, std::memory_order_relaxed); }, nullptr, "A");
  vc_spawn([](void*) { if (b->f.load(std::memory_order_acquire)) vc_assert(b->x == 5, "x"); }, nullptr, "B");
  vc_join_all();
  delete b;
}
PROOF(incr_bad) {
  b = new box;
  auto f = [](void*) { int v = b->f.load(); b->f.store(v+1); };
  vc_spawn(f, nullptr, "A");
  vc_spawn(f, nullptr, "B");
  vc_join_all();
  vc_assert(b->f == 2, "two");
  delete b;
}
PROOF(spin_ok) {
  b = new box;
  vc_spawn([](void*) { b->x = 5; b->f = 1; }, nullptr, "A");
  vc_spawn([](void*) { while (!b->f) ; vc_assert(b->x == 5, "x"); vc_cover("spin"); }, nullptr, "B");
  vc_join_all();
  delete b;
}
PROOF(wait_ok) {
  b = new box;
  vc_spawn([](void*) { b->x = 5; b->f = 1; b->f.notify_all(); }, nullptr, "A");
  vc_spawn([](void*) { b->f.wait(0); vc_assert(b->x == 5, "x"); vc_cover("wait"); }, nullptr, "B");
  vc_join_all();
  delete b;
}
PROOF(dead) {
  b = new box;
  vc_spawn([](void*) { b->f.wait(0); }, nullptr, "B");
  vc_join_all();
}
#include <mutex>
#include <thread>
#include <condition_variable>
struct mc { std::mutex m; std::condition_variable cv; bool r = false; };
PROOF(cv_ok) {
  vc_threads();
  auto* c = new mc;
  std::thread t([c] { std::unique_lock l(c->m); c->cv.wait(l, [&]{ return c->r; }); vc_cover("woken"); });
  { std::unique_lock l(c->m); c->r = true; c->cv.notify_one(); }
  t.join();
  delete c;
  vt::all_destroyed();
}
PROOF(cv_bad) {
  vc_threads();
  auto* c = new mc;
  std::thread t([c] { std::unique_lock l(c->m); c->cv.wait(l, [&]{ return c->r; }); vc_cover("woken"); });
  { std::unique_lock l(c->m); c->r = true; }
  t.join();
  delete c;
}
PROOF(stop) {
  vc_threads();
  auto* src = new ex::inplace_stop_source;
  static int hits; hits = 0;
  static ex::inplace_stop_source* sp; sp = src;
  vc_spawn([](void*) { sp->request_stop(); }, nullptr, "stop");
  vc_spawn([](void*) {
     static bool dead; dead = false;
     auto f = [] { vc_assert(!dead, "no call after destruction"); ++hits; };
     { ex::inplace_stop_callback<decltype(f)> cb(sp->get_token(), f); }
     dead = true;
  }, nullptr, "reg");
  vc_join_all();
  vc_assert(hits <= 1, "once");
  if (hits) vc_cover("hit"); else vc_cover("nohit");
  delete src;
  vt::all_destroyed();
}
