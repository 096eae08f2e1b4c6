// Interface between the contracts and the verifier.  Every vc_* function is given its
// meaning by /verif/engine (symbolic) and by /verif/replay/runtime.cpp (replay of inputs).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vc_u64(const char*) noexcept;
uint32_t vc_u32(const char*) noexcept;
uint16_t vc_u16(const char*) noexcept;
uint8_t vc_u8(const char*) noexcept;
bool vc_bool(const char*) noexcept;
unsigned vc_choice(unsigned n, const char*) noexcept;
void vc_assume(bool) noexcept;
void vc_assert(bool, const char* label) noexcept;
void vc_fail(const char* label) noexcept;
void vc_cover(const char*) noexcept;
[[noreturn]] void vc_end() noexcept;
void vc_trace(const char*, uint64_t) noexcept;
void vc_no_leaks(const char* label) noexcept;
void vc_leak_base() noexcept;
size_t vc_live() noexcept;
void vc_expect_terminate(bool) noexcept;
void vc_oom(bool) noexcept;
void vc_spurious(bool) noexcept;
bool vc_alive(const void*) noexcept;
void vc_kill(const void*, const char* why) noexcept;
void vc_revive(const void*) noexcept;
void vc_release(const void*, const char* why) noexcept;
void vc_env_owned(const void*) noexcept;
void vc_havoc(const void*, size_t, const char*) noexcept;
void vc_shared(const void*, size_t, void (*pre)(void*, int, int), void (*post)(void*, int, uint64_t, uint64_t, int)) noexcept;
void vc_unshare(const void*) noexcept;
void vc_ghost(bool) noexcept;
void vc_mutex_hooks(void (*acq)(void*), void (*rel)(void*)) noexcept;
void vc_wait_hook(void (*)(void*)) noexcept;
void vc_yield_hook(void (*)()) noexcept;
void vc_join_hook(void (*)(uint64_t)) noexcept;
void vc_set_thread(uint64_t) noexcept;
bool vc_mutex_held(const void*) noexcept;
bool vc_fork_if(bool) noexcept;
uint64_t vc_fork_u64(uint64_t) noexcept;
size_t vc_thread_count() noexcept;
void* vc_thread_state(size_t) noexcept;
size_t vc_joined() noexcept;
size_t vc_notified(const void*) noexcept;
// threads of real code, interleaved (bounded preemptions)
void vc_threads() noexcept;
unsigned vc_spawn(void (*)(void*), void*, const char* name) noexcept;
void vc_join_all() noexcept;
unsigned vc_thread_id() noexcept;
void vc_sched() noexcept;
void vc_await(const int*) noexcept;
}
// atomic operation kinds given to the shared-memory hooks
enum { VC_LOAD = 0, VC_STORE = 1, VC_RMW = 2, VC_CMPXCHG = 3, VC_CMPXCHG_FAIL = 4 };
// LLVM orderings
enum { VC_RELAXED = 2, VC_ACQUIRE = 4, VC_RELEASE = 5, VC_ACQ_REL = 6, VC_SEQ_CST = 7 };
static inline bool vc_releases(int o) { return o == 5 || o == 6 || o == 7; }
static inline bool vc_acquires(int o) { return o == 4 || o == 6 || o == 7; }
#define PROOF(name) extern "C" void proof_##name()
#define CONTRACT extern "C" __attribute__((noinline))
