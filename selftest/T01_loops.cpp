#include "../harness/lib.h"
#include <atomic>
using namespace vt;
// counts to a symbolic bound
PROOF(count) {
  unsigned n = vc_u32("n"), s = 0;
  for (unsigned i = 0; i < n; ++i) s += 2;
  vc_assert(s == 2 * n, "sum");
}
//@proofopt count loops="cut"
PROOF(count_bad) {
  unsigned n = vc_u32("n"), s = 0;
  for (unsigned i = 0; i < n; ++i) s += 2;
  vc_assert(s == 2 * n && n != 100000, "sum");
}
//@proofopt count_bad loops="cut"
// lock-free increment against any number of other threads
static std::atomic<unsigned> w;
static unsigned g_old, g_new; static int g_cnt;
static void rely(void* p, int, int) { w.store(vc_u32("env")); }
static void guar(void* p, int k, uint64_t o, uint64_t n, int) { if (k == VC_CMPXCHG) { g_old = o; g_new = n; ++g_cnt; } }
PROOF(cas) {
  w = vc_u32("w0");
  vc_shared(&w, sizeof w, rely, guar);
  unsigned old = w.load(std::memory_order_relaxed), nw;
  do {
    if (old == 77) { vc_cover("77"); return; }
    nw = old + 3;
  } while (!w.compare_exchange_weak(old, nw));
  vc_assert(g_cnt == 1 && g_new == g_old + 3 && g_old != 77, "inc");
  vc_cover("done");
}
//@proofopt cas loops="subsume"
PROOF(cas_bad) {
  w = vc_u32("w0");
  vc_shared(&w, sizeof w, rely, guar);
  unsigned old = w.load(std::memory_order_relaxed), nw = old + 3;
  do {
    if (old == 77) { vc_cover("77"); return; }
  } while (!w.compare_exchange_weak(old, nw));
  vc_assert(g_cnt == 1 && g_new == g_old + 3 && g_old != 77, "inc");
}
//@proofopt cas_bad loops="subsume"
// down counter
struct op { unsigned n; int calls = 0; };
PROOF(down) {
  auto* o = new op{vc_u32("n")};
  unsigned total = o->n;
  uint64_t c = 0;
  while (o->n != 0) { --o->n; ++c; }
  vc_assert(c == total, "count");
  delete o;
}
//@proofopt down loops="cut"
PROOF(nested) {
  unsigned n = vc_u32("n"), c = 0;
  for (unsigned i = 0; i < n; ++i) { for (unsigned j = 0; j < 3; ++j) c++; }
  vc_assert(c == 3 * n, "count");
}
//@proofopt nested loops="cut"
PROOF(heap_in_loop) {
  unsigned n = vc_u32("n"), c = 0;
  for (unsigned i = 0; i < n; ++i) { int* p = new int(5); c += *p; delete p; }
  vc_assert(c == 5 * n, "count");
}
//@proofopt heap_in_loop loops="cut"
