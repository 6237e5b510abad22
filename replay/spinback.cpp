// Replay of a spinlock's lock() with its back-off policy. Every atomic access of the real code ends in the functions below
// (-fsanitize=thread instrumentation, no run-time library), which play the other threads: before each look at the lock the
// script decides whether another thread owns it. Observed: looks at a taken lock in a row without a step of the policy,
// and whether all steps of one call work on one policy state.
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <string>
#include <unistd.h>
#include <signal.h>
#include HEADER
#define NOTSAN __attribute__((no_sanitize("thread"), disable_sanitizer_instrumentation))
static uint64_t rng = 1; static bool active, mine; static int row, steps; static long looks, until_free; static int mode; static std::string log_; static void* cellp;
NOTSAN static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
NOTSAN static void bad(const char* s) { printf("FOUND\nlock(), looks at the lock and back-off steps so far: %s\nviolated: %s\n", log_.c_str(), s); fflush(stdout); _exit(1); }
NOTSAN static void done() { printf("NONE\n"); fflush(stdout); _exit(0); }
NOTSAN static void onalrm(int) { done(); }
NOTSAN static void note(const char* s) { if (log_.size() < 4000) log_ += s; }
struct P {
  struct state { int n; NOTSAN state() : n(0) { if (active && steps) bad("the policy state is started afresh while the call spins"); } };
  NOTSAN static void wait(state& s) {
    if (!active) return;
    note(" step");
    if (s.n != steps) bad("a back-off step works on another state than the steps before it in the same call");
    s.n = ++steps; row = 0;
    if (steps > 100000) done();
  }
};
template <class T> NOTSAN static bool look(volatile T* p) {           // true: the look may fail spuriously
  if (!active || mine || !cellp || (const void*)p < cellp || (const char*)p >= (const char*)cellp + sizeof(yamc::NS::basic_mutex<P>)) return false;
  ++looks; bool free_;
  if (mode == 0) free_ = looks > until_free; else free_ = looks > until_free || rnd() % 3 == 0;
  *p = free_ ? 0 : 1;
  if (looks > until_free + 10000) done();
  note(free_ ? " free" : " taken");
  if (free_) { row = 0; return looks <= until_free && rnd() % 2; }
  if (++row > 2) bad("three looks in a row at a lock owned by another thread without a back-off step");
  return false;
}
template <class T> NOTSAN static void after(volatile T* p, T o) { if (active && cellp && !mine && o == 0 && *p != 0) { mine = true; note(" acquired"); } }
#define SZ(B, T) extern "C" { \
NOTSAN T __tsan_atomic##B##_load(const volatile T* p, int) { look((volatile T*)p); return *p; } \
NOTSAN void __tsan_atomic##B##_store(volatile T* p, T v, int) { *p = v; } \
NOTSAN T __tsan_atomic##B##_exchange(volatile T* p, T v, int) { look(p); T o = *p; *p = v; after(p, o); return o; } \
NOTSAN T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int) { look(p); T o = *p; *p = o + v; after(p, o); return o; } \
NOTSAN T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = o - v; return o; } \
NOTSAN T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int) { look(p); T o = *p; *p = o | v; after(p, o); return o; } \
NOTSAN T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int) { T o = *p; *p = o & v; return o; } \
NOTSAN T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int) { T o = *p; *p = o ^ v; after(p, o); return o; } \
NOTSAN int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int, int) { look(p); T o = *p; if (o == *c) { *p = v; after(p, o); return 1; } *c = o; return 0; } \
NOTSAN int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int, int) { bool sp = look(p); T o = *p; if (o == *c && !sp) { *p = v; after(p, o); return 1; } *c = o; return 0; } \
NOTSAN T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int, int) { look(p); T o = *p; if (o == c) { *p = v; after(p, o); } return o; } }
SZ(8, uint8_t) SZ(16, uint16_t) SZ(32, uint32_t) SZ(64, uint64_t)
extern "C" {
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define RW(n) void __tsan_read##n(void*) {} void __tsan_write##n(void*) {} void __tsan_unaligned_read##n(void*) {} void __tsan_unaligned_write##n(void*) {} void __tsan_read_write##n(void*) {} void __tsan_unaligned_read_write##n(void*) {}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {} void __tsan_read_range(void*, size_t) {} void __tsan_write_range(void*, size_t) {}
NOTSAN void* __tsan_memcpy(void* d, const void* s, size_t n) { return memcpy(d, s, n); }
NOTSAN void* __tsan_memmove(void* d, const void* s, size_t n) { return memmove(d, s, n); }
NOTSAN void* __tsan_memset(void* d, int c, size_t n) { return memset(d, c, n); }
}
int main(int argc, char** argv) {
  signal(SIGALRM, onalrm); alarm(20); if (argc > 3) rng = 88172645463325252ULL + strtoull(argv[3], 0, 10);
  for (int r = 0; r < 20000; ++r) {
    yamc::NS::basic_mutex<P> m; mode = r % 2; until_free = rnd() % 12; row = steps = 0; looks = 0; mine = false; log_.clear(); cellp = &m;
    active = true; m.lock(); active = false; cellp = nullptr; m.unlock();
  }
  done();
}
