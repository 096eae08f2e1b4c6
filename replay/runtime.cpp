// Native meaning of the vc_* interface: feeds the verifier's counterexample to the same
// contract compiled against the real code (no verifier involved).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <map>
#include <new>
#include <string>
#include <vector>
#include <dlfcn.h>
#include <exception>
#include <cstdarg>
#include <chrono>

namespace {
struct in_t { std::string name, kind; uint64_t v; };
std::vector<in_t>& inputs() { static auto* v = new std::vector<in_t>; return *v; }
size_t pos = 0;
bool oom = false, expect_term = false, tracking = false;
size_t live = 0;
[[noreturn]] void diverged(const char* why) {
  fprintf(stderr, "REPLAY-DIVERGED %s\n", why);
  _Exit(3);
}
[[noreturn]] void violated(const char* label) {
  fprintf(stderr, "REPLAY-VIOLATION %s\n", label);
  _Exit(1);
}
uint64_t next(const char* name) {
  bool t = tracking; tracking = false;
  // inputs the path never reached before the violation are arbitrary
  uint64_t r = 0;
  if (pos < inputs().size()) {
    auto& i = inputs()[pos++];
    if (i.name != name) { fprintf(stderr, "expected %s got %s\n", i.name.c_str(), name); diverged("input order"); }
    r = i.v;
  }
  tracking = t;
  return r;
}
}
extern "C" {
uint64_t vc_u64(const char* n) noexcept { return next(n); }
uint32_t vc_u32(const char* n) noexcept { return (uint32_t)next(n); }
uint16_t vc_u16(const char* n) noexcept { return (uint16_t)next(n); }
uint8_t vc_u8(const char* n) noexcept { return (uint8_t)next(n); }
bool vc_bool(const char* n) noexcept { return next(n) & 1; }
unsigned vc_choice(unsigned c, const char* n) noexcept { auto r = (unsigned)next(n); return r < c ? r : 0; }
void vc_assume(bool b) noexcept { if (!b) diverged("assumption"); }
void vc_assert(bool b, const char* l) noexcept { if (!b) violated(l); }
void vc_fail(const char* l) noexcept { violated(l); }
void vc_cover(const char*) noexcept {}
void vc_end() noexcept { _Exit(0); }
void vc_trace(const char*, uint64_t) noexcept {}
void vc_no_leaks(const char* l) noexcept { if (live) violated(l); }
void vc_leak_base() noexcept { live = 0; }
size_t vc_live() noexcept { return live; }
void vc_expect_terminate(bool b) noexcept { expect_term = b; }
void vc_oom(bool b) noexcept { oom = b; }
void vc_spurious(bool) noexcept {}
bool vc_alive(const void*) noexcept { return true; }
void vc_kill(const void*, const char*) noexcept { diverged("ghost"); }
void vc_revive(const void*) noexcept {}
void vc_release(const void*, const char*) noexcept { diverged("ghost"); }
void vc_env_owned(const void*) noexcept { diverged("ghost"); }
void vc_havoc(const void* p, size_t n, const char* name) noexcept {
  char* c = (char*)p;
  for (size_t i = 0; i < n;) {
    size_t k = n - i >= 8 ? 8 : n - i >= 4 ? 4 : 1;
    uint64_t v = next(name);
    memcpy(c + i, &v, k);
    i += k;
  }
}
void vc_shared(const void*, size_t, void (*)(void*, int, int), void (*)(void*, int, uint64_t, uint64_t, int)) noexcept { diverged("interference"); }
void vc_unshare(const void*) noexcept {}
void vc_ghost(bool) noexcept {}
void vc_mutex_hooks(void (*)(void*), void (*)(void*)) noexcept { diverged("interference"); }
void vc_wait_hook(void (*)(void*)) noexcept { diverged("interference"); }
void vc_yield_hook(void (*)()) noexcept { diverged("interference"); }
void vc_join_hook(void (*)(uint64_t)) noexcept { diverged("interference"); }
void vc_set_thread(uint64_t) noexcept {}
bool vc_mutex_held(const void*) noexcept { diverged("interference"); }
bool vc_fork_if(bool b) noexcept { return b; }
uint64_t vc_fork_u64(uint64_t v) noexcept { return v; }
size_t vc_thread_count() noexcept { diverged("threads"); }
void* vc_thread_state(size_t) noexcept { diverged("threads"); }
size_t vc_joined() noexcept { diverged("threads"); }
size_t vc_notified(const void*) noexcept { diverged("threads"); }
}
#ifdef VC_MT
#include "threads.inc"
#else
extern "C" {
void vc_threads() noexcept { diverged("threads"); }
unsigned vc_spawn(void (*)(void*), void*, const char*) noexcept { diverged("threads"); }
void vc_join_all() noexcept { }
unsigned vc_thread_id() noexcept { return 0; }
void vc_sched() noexcept { }
void vc_await(const int*) noexcept { diverged("threads"); }
}
#endif
__attribute__((weak)) std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
  return time_point(duration((int64_t)next("clock")));
}
__attribute__((weak)) std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
  return time_point(duration((int64_t)next("clock")));
}
static void* get(size_t n, size_t al, bool nothrow) {
  if (tracking) {
    if (oom && next("oom")) {
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    ++live;
  }
  size_t hdr = al < 16 ? 16 : al;
  char* p = (char*)aligned_alloc(hdr, (n + 2 * hdr - 1) / hdr * hdr + hdr);
  *(uint64_t*)p = tracking ? 0x7ac7ac7aull : 0;
#ifdef VC_MT
  if (tracking) mt::born(p + hdr, n);
#endif
  return p + hdr;
}
static void put(void* v, size_t al) {
  if (!v) return;
  size_t hdr = al < 16 ? 16 : al;
  char* p = (char*)v - hdr;
#ifdef VC_MT
  if (mt::died(v)) { --live; return; }
#endif
  if (*(uint64_t*)p == 0x7ac7ac7aull) --live;
  free(p);
}
void* operator new(size_t n) { return get(n, 16, false); }
void* operator new[](size_t n) { return get(n, 16, false); }
void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return get(n, (size_t)a, false); }
void* operator new(size_t n, std::nothrow_t const &) noexcept { return get(n, 16, true); }
void operator delete(void* p) noexcept { put(p, 16); }
void operator delete[](void* p) noexcept { put(p, 16); }
void operator delete(void* p, size_t) noexcept { put(p, 16); }
void operator delete[](void* p, size_t) noexcept { put(p, 16); }
void operator delete(void* p, std::align_val_t a) noexcept { put(p, (size_t)a); }
void operator delete[](void* p, std::align_val_t a) noexcept { put(p, (size_t)a); }
void operator delete(void* p, size_t, std::align_val_t a) noexcept { put(p, (size_t)a); }
void operator delete[](void* p, size_t, std::align_val_t a) noexcept { put(p, (size_t)a); }

int main(int argc, char** argv) {
  // argv[1]: proof function, argv[2]: input file with lines "kind value name"
  FILE* f = fopen(argv[2], "r");
  char line[512];
  while (f && fgets(line, sizeof line, f)) {
    char kind[32]; unsigned long long v; int n = 0;
    if (sscanf(line, "%31s %llu %n", kind, &v, &n) >= 2) {
      std::string name(line + n);
      while (!name.empty() && (name.back() == '\n')) name.pop_back();
      inputs().push_back({name, kind, v});
    }
  }
  if (f) fclose(f);
  std::string sym = std::string("proof_") + argv[1];
  auto fn = (void (*)())dlsym(RTLD_DEFAULT, sym.c_str());
  if (!fn) { fprintf(stderr, "no such proof\n"); return 4; }
  std::set_terminate([] {
    if (expect_term) _Exit(0);
    violated("std::terminate");
  });
  tracking = true;
  fn();
  tracking = false;
  fprintf(stderr, "REPLAY-PASSED\n");
  return 0;
}
