// Replay of the Windows and Apple wrappers on an emulated platform: the native functions work on virtual time and return scripted results.
// KIND 0 win::native_mutex, 1 critical_section, 2 slim_rwlock, 3/4 win counting/binary semaphore, 5/6 gcd counting/binary semaphore, 7 apple::unfair_lock
#include <cassert>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <new>
#include <string>
#include <system_error>
#include <vector>
#include <sys/syscall.h>
#include <unistd.h>
#if KIND <= 2
#include "win_native_mutex.hpp"
#elif KIND <= 4
#include "win_semaphore.hpp"
#elif KIND <= 6
#include "gcd_semaphore.hpp"
#else
#include "apple_native_mutex.hpp"
#endif
typedef long long LL;
static const LL TICK = 15600000;
static std::vector<std::string> calls; static std::string cur; static bool armed; static double deadline; static unsigned long rs = 1;
static LL sys_ns = 1700000000123456789LL, steady_ns = 5000000000111LL, blocked;
static unsigned long rnd() { rs = rs*6364136223846793005UL + 1442695040888963407UL; return rs >> 20; }
static double real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
[[noreturn]] static void bad(const std::string& w) {
  armed = false; printf("FOUND\noperation: %s\nnative calls:", cur.c_str()); size_t k = 0; for (auto& c : calls) { printf(" %s;", c.c_str()); if (++k > 40) break; } printf("\ntime spent blocked: %lld ns\nviolated: %s\n", blocked, w.c_str()); fflush(stdout); _exit(1); }
static void onsig(int s) { printf("FOUND\noperation: %s\nviolated: the process dies with signal %d\n", cur.c_str(), s); fflush(stdout); _exit(1); }
static void pass(LL d) { if (d > 0) { blocked += d; sys_ns += d; steady_ns += d; } }
static void call(const std::string& s) { calls.push_back(s); if (calls.size() > 200000) bad("the operation does not end"); }
#define STR(x) std::to_string(x)
// state of the emulated object; want_*: what the operation under way may do
static char H0, H1; static void* H = &H0; static bool null_next; static int created, closed, taken, sh_taken, released, sh_released, script; static LL relsum, initial, maximum; static bool may_block, may_wait_until; static bool owner_initially; static void* embedded;
static void chk(const void* h) { if (h != H) bad("a native call on something that is not the object's handle"); }
static void emb(const void* h) { if (embedded && h != embedded) bad("a native call on another object"); embedded = (void*)h; }
extern "C" {
int clock_gettime(clockid_t k, struct timespec* t) noexcept { if (!armed) return (int)syscall(SYS_clock_gettime, k, t); LL v = k == CLOCK_REALTIME ? sys_ns : steady_ns; t->tv_sec = v/1000000000; t->tv_nsec = v%1000000000; return 0; }
#if KIND <= 4
HANDLE CreateMutexW(LPSECURITY_ATTRIBUTES, BOOL o, LPCWSTR) { ++created; owner_initially = o; return null_next ? nullptr : H; }
HANDLE CreateSemaphoreW(LPSECURITY_ATTRIBUTES, LONG i, LONG m, LPCWSTR) { ++created; initial = i; maximum = m; return null_next ? nullptr : H; }
BOOL CloseHandle(HANDLE h) { chk(h); ++closed; return 1; }
BOOL ReleaseMutex(HANDLE h) { chk(h); call("ReleaseMutex"); ++released; return 1; }
BOOL ReleaseSemaphore(HANDLE h, LONG n, LPLONG) { chk(h); call("ReleaseSemaphore(" + STR(n) + ")"); if (n <= 0 || script == 2) return 0; relsum += n; return 5; }
DWORD WaitForSingleObject(HANDLE h, DWORD ms) {
  chk(h); call("WaitForSingleObject(" + STR(ms) + " ms)");
  if (ms == INFINITE && !may_block) bad("an operation that must not block for ever waits with INFINITE");
  if (ms && !may_block && !may_wait_until) bad("a try operation blocks");
  if (script == 0) { ++taken; return WAIT_OBJECT_0; }
  if (script == 2) return WAIT_FAILED;
  if (ms == INFINITE) { ++taken; return WAIT_OBJECT_0; }
  if (ms) pass((LL)ms*1000000 - (LL)(rnd() % (TICK < (LL)ms*1000000 ? TICK : (LL)ms*1000000)));
  return WAIT_TIMEOUT;
}
void Sleep(DWORD ms) { call("Sleep(" + STR(ms) + ")"); if (ms) pass((LL)ms*1000000 + TICK); }
DWORD GetLastError(void) { return 5; }
void InitializeCriticalSection(LPCRITICAL_SECTION c) { emb(c); ++created; } BOOL InitializeCriticalSectionAndSpinCount(LPCRITICAL_SECTION c, DWORD) { emb(c); ++created; return 1; }
void DeleteCriticalSection(LPCRITICAL_SECTION c) { emb(c); ++closed; }
void EnterCriticalSection(LPCRITICAL_SECTION c) { emb(c); call("Enter"); if (!may_block) bad("a try operation blocks"); ++taken; }
BOOL TryEnterCriticalSection(LPCRITICAL_SECTION c) { emb(c); call("TryEnter"); if (script) return 0; ++taken; return 256; }
void LeaveCriticalSection(LPCRITICAL_SECTION c) { emb(c); call("Leave"); ++released; }
void InitializeSRWLock(PSRWLOCK c) { emb(c); }
void AcquireSRWLockExclusive(PSRWLOCK c) { emb(c); call("AcquireExclusive"); if (!may_block) bad("a try operation blocks"); ++taken; }
BOOLEAN TryAcquireSRWLockExclusive(PSRWLOCK c) { emb(c); call("TryAcquireExclusive"); if (script) return 0; ++taken; return 128; }
void ReleaseSRWLockExclusive(PSRWLOCK c) { emb(c); call("ReleaseExclusive"); ++released; }
void AcquireSRWLockShared(PSRWLOCK c) { emb(c); call("AcquireShared"); if (!may_block) bad("a try operation blocks"); ++sh_taken; }
BOOLEAN TryAcquireSRWLockShared(PSRWLOCK c) { emb(c); call("TryAcquireShared"); if (script) return 0; ++sh_taken; return 128; }
void ReleaseSRWLockShared(PSRWLOCK c) { emb(c); call("ReleaseShared"); ++sh_released; }
#elif KIND <= 6
struct enough {}; static bool big; static LL tokdl[64]; static bool tokwall[64]; static unsigned ntok;
static dispatch_time_t tok(bool wall, LL v) { unsigned k = ntok++ % 64; tokdl[k] = v; tokwall[k] = wall; return 1000 + k; }
dispatch_semaphore_t dispatch_semaphore_create(intptr_t n) { ++created; initial = n; maximum = 0; return null_next ? nullptr : (dispatch_semaphore_t)H; }
intptr_t dispatch_semaphore_signal(dispatch_semaphore_t s) { chk(s); ++relsum; if (relsum > 200000) { if (big) throw enough(); bad("release does not end"); } return rnd() % 2; }
dispatch_time_t dispatch_time(dispatch_time_t w, int64_t d) { if (w != DISPATCH_TIME_NOW) { if (w == DISPATCH_TIME_FOREVER) return w; unsigned k = (unsigned)(w - 1000); return tok(tokwall[k], tokdl[k] + d); } return tok(false, steady_ns + d); }
dispatch_time_t dispatch_walltime(const struct timespec* t, int64_t d) { return tok(true, (t ? (LL)t->tv_sec*1000000000 + t->tv_nsec : sys_ns) + d); }
intptr_t dispatch_semaphore_wait(dispatch_semaphore_t s, dispatch_time_t t) {
  chk(s); call(t == DISPATCH_TIME_NOW ? "wait(NOW)" : t == DISPATCH_TIME_FOREVER ? "wait(FOREVER)" : "wait(" + STR(tokdl[t - 1000]) + " ns on the " + (tokwall[t - 1000] ? "wall clock)" : "uptime clock)"));
  if (t == DISPATCH_TIME_FOREVER && !may_block) bad("an operation that must not block for ever waits with FOREVER");
  if (t != DISPATCH_TIME_NOW && !may_block && !may_wait_until) bad("a try operation blocks");
  if (script == 0) { ++taken; return 0; }
  if (script == 2) return 14;
  if (t == DISPATCH_TIME_FOREVER) { ++taken; return 0; }
  if (t != DISPATCH_TIME_NOW) { LL d = tokdl[t - 1000] - (tokwall[t - 1000] ? sys_ns : steady_ns); pass(d); }
  return KERN_OPERATION_TIMED_OUT;
}
void dispatch_release(void* p) { chk(p); ++closed; }
void free(void* p) { if (p == H) ++closed; }      // the harness itself releases no memory that matters
#else
void os_unfair_lock_lock(os_unfair_lock_t c) { emb(c); call("lock"); if (!may_block) bad("a try operation blocks"); ++taken; }
bool os_unfair_lock_trylock(os_unfair_lock_t c) { emb(c); call("trylock"); if (script) return false; ++taken; return true; }
void os_unfair_lock_unlock(os_unfair_lock_t c) { emb(c); call("unlock"); ++released; }
#endif
}
using ns = std::chrono::nanoseconds; using ms = std::chrono::milliseconds; using sysc = std::chrono::system_clock; using stc = std::chrono::steady_clock;
template <class F> static int run(const std::string& n, int sc, bool block, bool until, F f) {     // 0 false, 1 true, 2 void; 1000+code: system_error
  static const char* S[] = { "available", "not available", "native call fails" };
  cur = n + " (" + S[sc] + ")"; calls.clear(); script = sc; may_block = block; may_wait_until = until; taken = sh_taken = released = sh_released = closed = created = 0; relsum = blocked = 0; int r; armed = true;
  try { r = f(); } catch (const std::system_error& e) { r = e.code().category() == std::generic_category() ? 1000 + e.code().value() : -2; } catch (...) { r = -1; }
  armed = false; return r;
}
static void counts(int t, int s, int r, int sr, LL sum, const char* w) { if (taken != t || sh_taken != s || released != r || sh_released != sr || relsum != sum || closed) bad(w); }
static LL span() { static const LL V[] = { 0, 1, 999999, 1000000, 1000001, 999999999, 1000000000, 3600000000000LL, 86400000000000LL, 2592000000000000LL }; LL v = rnd() % 2 ? V[rnd() % 10] : (LL)(rnd() % 4000000000ULL); return rnd() % 3 == 0 ? -v : v; }
#if KIND == 0 || (KIND >= 3 && KIND <= 6)
template <class X> static void timed(X* x, bool null) {
  for (int v = 0; v < 5; ++v) {
    sys_ns = 1700000000123456789LL + (LL)(rnd() % 5000000000ULL); steady_ns = 5000000000111LL + (LL)(rnd() % 5000000000ULL);
    LL d = span(); int sc = (int)(rnd() % 3); LL s0 = sys_ns, m0 = steady_ns, want = d;
#if KIND == 0
#define OP try_lock_for
#define OU try_lock_until
#else
#define OP try_acquire_for
#define OU try_acquire_until
#endif
    if (v == 1) { d = d/1000000*1000000; want = d; }
    if (v == 4) { want = (s0 + d)/1000000*1000000 - s0; }
    if (v == 3 && rnd() % 8 == 0) want = 1 + (LL)(rnd() % 3) - s0;
    int r = run(std::string(v < 2 ? "timed try, relative " : v == 2 ? "timed try, until (steady) now + " : "timed try, until (system) now + ") + STR(want) + " ns", sc, false, true, [&]() -> int {
      switch (v) { case 0: return x->OP(ns(want)); case 1: return x->OP(ms(want/1000000)); case 2: return x->OU(std::chrono::time_point<stc, ns>(ns(m0 + want)));
        case 3: return x->OU(std::chrono::time_point<sysc, ns>(ns(s0 + want))); default: return x->OU(std::chrono::time_point<sysc, ms>(ms((s0 + want)/1000000))); } });
    if (null) { if (r != 1022) bad("an invalid handle must be reported as invalid_argument"); counts(0, 0, 0, 0, 0, "a refused operation has an effect"); continue; }
    if (sc == 0) { if (r != 1) bad("the available object was not acquired"); counts(1, 0, 0, 0, 0, "not exactly one acquisition"); continue; }
    counts(0, 0, 0, 0, 0, "a failed operation has an effect");
    if (sc == 2) { if (r != 1011) bad("a native failure must surface as resource_unavailable_try_again"); continue; }
    if (r != 0) bad("a time-out must be reported as false");
    LL w = want > 0 ? want : 0;
#if KIND <= 4
    if (blocked < w) bad("returns false before the requested time has passed"); if (w == 0 && blocked) bad("blocks although the deadline has passed"); if (blocked > w + 1000000 + 3*TICK) bad("blocks past the deadline");
#else
    if (blocked != w) bad("the wait does not end at the requested time");
#endif
  }
}
#endif
#if KIND == 0 || KIND == 1 || KIND == 2 || KIND == 7
#if KIND == 0
typedef yamc::win::native_mutex X;
#elif KIND == 1
typedef yamc::win::critical_section X;
#elif KIND == 2
typedef yamc::win::slim_rwlock X;
#else
typedef yamc::apple::unfair_lock X;
#endif
static void once() {
  alignas(64) static char b[sizeof(X)]; X* x = nullptr; H = rnd() % 2 ? &H0 : &H1; embedded = nullptr; null_next = KIND == 0 && rnd() % 8 == 0;
  for (char& c : b) c = 0x77;
  int r = run("constructor", 0, false, false, [&] { x = new (b) X; return 2; });
#if KIND == 0
  if (created != 1 || owner_initially) bad("the constructor must create one unowned mutex");
  if (null_next) { if (r != 1022) bad("a failed creation must throw invalid_argument"); return; }
#elif KIND == 1
  if (created != 1) bad("the critical section is not initialised exactly once");
#else
  for (char c : b) if (c) bad("the lock is not statically initialised");
#endif
  if (r != 2) bad("the constructor throws");
#if KIND == 0
  if ((void*)x->native_handle() != H) bad("native_handle is not the handle");
#else
  if ((char*)x->native_handle() < b || (char*)x->native_handle() >= b + sizeof(X)) bad("native_handle is not inside the object");
  if (embedded && embedded != (void*)x->native_handle()) bad("native_handle is not the handle"); embedded = (void*)x->native_handle();
#endif
  int sc = (int)(rnd() % 3);
#if KIND == 0
  r = run("lock()", sc, true, false, [&] { x->lock(); return 2; }); if (r != (sc == 2 ? 1011 : 2)) bad("wrong outcome"); counts(sc != 2, 0, 0, 0, 0, "not exactly one acquisition");
#else
  run("lock()", 0, true, false, [&] { x->lock(); return 2; }); counts(1, 0, 0, 0, 0, "not exactly one acquisition");
#endif
  r = run("try_lock()", sc, false, false, [&] { return (int)x->try_lock(); }); if (r != (sc == 0)) bad("the result does not tell whether the lock was acquired"); counts(sc == 0, 0, 0, 0, 0, "wrong number of acquisitions");
  r = run("unlock()", 0, false, false, [&] { x->unlock(); return 2; }); counts(0, 0, 1, 0, 0, "not exactly one release"); if (r != 2) bad("throws");
#if KIND == 2
  run("lock_shared()", 0, true, false, [&] { x->lock_shared(); return 2; }); counts(0, 1, 0, 0, 0, "not exactly one shared acquisition");
  r = run("try_lock_shared()", sc, false, false, [&] { return (int)x->try_lock_shared(); }); if (r != (sc == 0)) bad("the result does not tell whether the lock was acquired"); counts(0, sc == 0, 0, 0, 0, "wrong number of shared acquisitions");
  run("unlock_shared()", 0, false, false, [&] { x->unlock_shared(); return 2; }); counts(0, 0, 0, 1, 0, "not exactly one shared release");
#elif KIND == 0
  timed(x, false);
#endif
  run("destructor", 0, false, false, [&] { x->~X(); return 2; }); if (closed != (KIND <= 1)) bad("the native object is not released exactly once");
}
#else
#if KIND == 3
typedef yamc::win::counting_semaphore<> X;
#elif KIND == 4
typedef yamc::win::binary_semaphore X;
#elif KIND == 5
typedef yamc::gcd::counting_semaphore<> X;
#else
typedef yamc::gcd::binary_semaphore X;
#endif
#define BIN (KIND == 4 || KIND == 6)
static void once() {
  alignas(64) static char b[sizeof(X)]; X* x = nullptr; H = rnd() % 2 ? &H0 : &H1; null_next = rnd() % 6 == 0; bool null = null_next;
  for (char& c : b) c = 0x77;
  LL init = BIN ? (LL)(rnd() % 2) : rnd() % 3 ? (LL)(rnd() % 100000) : (LL)(rnd() % 2147483648UL);
  int r = run("constructor with " + STR(init), 0, false, false, [&] { x = new (b) X(init); return 2; });
  if (r != 2 || created != 1 || initial != init) bad("the constructor must create one semaphore with the initial count");
#if KIND <= 4
  if (maximum < X::max() && maximum != 0x7fffffff) bad("the native maximum is too small");
#endif
  int sc = (int)(rnd() % 3);
  r = run("acquire()", sc, true, false, [&] { x->acquire(); return 2; });
  if (null) { if (r != 1022) bad("an invalid handle must be reported as invalid_argument"); counts(0, 0, 0, 0, 0, "a refused operation has an effect"); }
  else { if (r != (sc == 2 ? 1011 : 2)) bad("wrong outcome"); counts(sc != 2, 0, 0, 0, 0, "not exactly one permit taken"); }
  r = run("try_acquire()", sc, false, false, [&] { return (int)x->try_acquire(); }); if (r != (sc == 0 && !null)) bad("wrong result"); counts(sc == 0 && !null, 0, 0, 0, 0, "wrong number of permits taken");
  static const long NS[] = { 0, 1, 2, 3, 7, 255, 256, 257, 65535, 65536, 65537, 70000 }; LL n = BIN ? (LL)(rnd() % 2) : rnd() % 2 ? (LL)(rnd() % 4) : NS[rnd() % 12];
  r = run("release(" + STR(n) + ")", 0, false, false, [&] { x->release(n); return 2; }); if (r != (null ? 1022 : 2)) bad("wrong outcome"); counts(0, 0, 0, 0, null ? 0 : n, "not the requested number of permits added");
#if KIND == 5
  if (!null && rnd() % 64 == 0) { static const LL BIG[] = { 2147483648LL, 2147483649LL, 4294967296LL, 4294967297LL, 1099511627776LL }; LL m = BIG[rnd() % 5]; big = true;     // followed for 200000 signals
    r = run("release(" + STR(m) + ")", 0, false, false, [&] { try { x->release(m); return 2; } catch (enough) { return 3; } }); big = false; if (r != 3) bad("not the requested number of permits added"); }
#endif
  r = run("release()", 0, false, false, [&] { x->release(); return 2; }); if (r != (null ? 1022 : 2)) bad("wrong outcome"); counts(0, 0, 0, 0, null ? 0 : 1, "not exactly one permit added");
#if KIND <= 4
  if (!null) { r = run("release()", 2, false, false, [&] { x->release(); return 2; }); if (r != 1011) bad("a native failure must surface as resource_unavailable_try_again"); }
#endif
  timed(x, null);
  run("destructor", 0, false, false, [&] { x->~X(); return 2; }); if (closed != !null) bad("the native object is not released exactly once");
}
#endif
int main(int argc, char** v) { (void)argc; deadline = real_now() + atof(v[2]); rs = (unsigned long)atoi(v[3])*77 + 1; for (int i = 0; i < 20; ++i) rnd(); for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onsig); while (real_now() < deadline) once(); printf("NONE\n"); return 0; }
