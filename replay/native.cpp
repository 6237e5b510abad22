// Replay of the POSIX wrappers: the native functions are stand-ins that record their arguments and return scripted codes.
// KIND 0 native_mutex, 1 native_recursive_mutex, 2 rwlock, 3 spinlock, 4 counting_semaphore, 5 binary_semaphore
#include <cassert>
#include <cerrno>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <new>
#include <string>
#include <system_error>
#include <vector>
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <unistd.h>
#if KIND <= 3
#include "posix_native_mutex.hpp"
#else
#include "posix_semaphore.hpp"
#endif
struct Call { std::string fn; void* h; long sec, nsec; int arg; };
static std::vector<Call> calls; static std::vector<int> plan; static size_t at; static bool armed; static long long now_ns = 1700000000123456789LL, steady_ns = 5000000000111LL;
static std::string cur; static double deadline; static unsigned long rs = 1;
static unsigned long rnd() { rs = rs*6364136223846793005UL + 1442695040888963407UL; return rs >> 20; }
static double real_now() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
[[noreturn]] static void bad(const std::string& w) {
  armed = false; printf("FOUND\noperation: %s\n", cur.c_str()); printf("native calls:"); for (auto& c : calls) printf(" %s(%p, %ld.%09ld, %d)", c.fn.c_str(), c.h, c.sec, c.nsec, c.arg); printf("\ncodes returned:"); for (int x : plan) printf(" %d", x); printf("\nviolated: %s\n", w.c_str()); fflush(stdout); _exit(1); }
static void onsig(int s) { printf("FOUND\noperation: %s\nviolated: the process dies with signal %d\n", cur.c_str(), s); fflush(stdout); _exit(1); }
static int rec(const char* f, void* h, const struct timespec* t = nullptr, int a = 0) {
  calls.push_back({f, h, t ? (long)t->tv_sec : 0, t ? (long)t->tv_nsec : 0, a}); if (calls.size() > 200000) bad("the operation does not end"); return at < plan.size() ? plan[at++] : 0; }
static int recs(const char* f, void* h, const struct timespec* t = nullptr) { int r = rec(f, h, t); if (r) { errno = r; return -1; } static const int E[] = { 0, EINTR, ETIMEDOUT, EAGAIN, EINVAL }; if (rnd() % 2) errno = E[rnd() % 5]; return 0; }      // a successful call may leave any errno
template <class F> static F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
#define M1(n) int n(pthread_mutex_t* m) noexcept { if (!armed) return real<int (*)(pthread_mutex_t*)>(#n)(m); return rec(#n, m); }
M1(pthread_mutex_lock) M1(pthread_mutex_trylock) M1(pthread_mutex_unlock) M1(pthread_mutex_destroy)
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) noexcept { return rec("pthread_mutex_timedlock", m, t); }
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t k, const struct timespec* t) noexcept { return rec(k == CLOCK_REALTIME ? "pthread_mutex_timedlock" : "pthread_mutex_clocklock(monotonic)", m, t); }
static int last_type = -1;
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) noexcept { last_type = k; return real<int (*)(pthread_mutexattr_t*, int)>("pthread_mutexattr_settype")(a, k); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept { if (armed) rec("pthread_mutex_init", m, nullptr, last_type); return real<int (*)(pthread_mutex_t*, const pthread_mutexattr_t*)>("pthread_mutex_init")(m, a); }
#define R1(n) int n(pthread_rwlock_t* m) noexcept { if (!armed) return real<int (*)(pthread_rwlock_t*)>(#n)(m); return rec(#n, m); }
R1(pthread_rwlock_rdlock) R1(pthread_rwlock_tryrdlock) R1(pthread_rwlock_wrlock) R1(pthread_rwlock_trywrlock) R1(pthread_rwlock_unlock) R1(pthread_rwlock_destroy)
int pthread_rwlock_timedrdlock(pthread_rwlock_t* m, const struct timespec* t) noexcept { return rec("pthread_rwlock_timedrdlock", m, t); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t* m, const struct timespec* t) noexcept { return rec("pthread_rwlock_timedwrlock", m, t); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t* m, clockid_t k, const struct timespec* t) noexcept { return rec(k == CLOCK_REALTIME ? "pthread_rwlock_timedrdlock" : "clockrdlock(monotonic)", m, t); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t* m, clockid_t k, const struct timespec* t) noexcept { return rec(k == CLOCK_REALTIME ? "pthread_rwlock_timedwrlock" : "clockwrlock(monotonic)", m, t); }
#define P1(n) int n(pthread_spinlock_t* m) noexcept { return rec(#n, (void*)m); }
P1(pthread_spin_lock) P1(pthread_spin_trylock) P1(pthread_spin_unlock) P1(pthread_spin_destroy)
int pthread_spin_init(pthread_spinlock_t* m, int sh) noexcept { *m = 1; return rec("pthread_spin_init", (void*)m, nullptr, sh); }
int sem_init(sem_t* s, int sh, unsigned v) noexcept { rec("sem_init", s, nullptr, sh ? -1 : (int)v); return 0; }
int sem_destroy(sem_t* s) noexcept { return recs("sem_destroy", s); }
int sem_post(sem_t* s) noexcept { return recs("sem_post", s); }
int sem_wait(sem_t* s) { return recs("sem_wait", s); }
int sem_trywait(sem_t* s) noexcept { return recs("sem_trywait", s); }
int sem_timedwait(sem_t* s, const struct timespec* t) { return recs("sem_timedwait", s, t); }
int sem_clockwait(sem_t* s, clockid_t k, const struct timespec* t) { return recs(k == CLOCK_REALTIME ? "sem_timedwait" : "sem_clockwait(monotonic)", s, t); }
int clock_gettime(clockid_t k, struct timespec* t) noexcept {
  if (!armed) return (int)syscall(SYS_clock_gettime, k, t);
  long long v = k == CLOCK_REALTIME ? now_ns : steady_ns; t->tv_sec = v/1000000000; t->tv_nsec = v%1000000000; return 0;
}
}
using ns = std::chrono::nanoseconds; using sysc = std::chrono::system_clock; using stc = std::chrono::steady_clock;
static const int CODES[] = { 0, EBUSY, EAGAIN, EINVAL, EDEADLK, EPERM, ETIMEDOUT };
template <class F> static int run(const std::string& n, std::vector<int> p, F f) {      // 0 false, 1 true, 2 void; 1000+code: system_error; -1 other
  cur = n; calls.clear(); plan = p; at = 0; int r; armed = true; static const int E0[] = { 0, EINTR, ETIMEDOUT, EAGAIN, EINVAL }; errno = E0[rnd() % 5];
  try { r = f(); } catch (const std::system_error& e) { r = e.code().category() == std::generic_category() || e.code().category() == std::system_category() ? 1000 + e.code().value() : -2; } catch (...) { r = -1; }
  armed = false; return r;
}
static void want(const char* fn, void* h, long long dl, bool timed) {
  if (calls.size() != 1) bad(std::string("expected one native call, ") + fn);
  if (calls[0].fn != fn) bad(std::string("expected ") + fn); if (calls[0].h != h) bad("another object's handle");
  if (timed) { long long s = dl/1000000000, n = dl%1000000000; if (n < 0) { n += 1000000000; --s; } if (calls[0].sec != s || calls[0].nsec != n) bad("deadline is not " + std::to_string(s) + "." + std::to_string(n)); }
}
static long long instant(bool neg) { long long v; switch (rnd() % 6) { case 0: v = (long long)(rnd() % 2000000000ULL)*1000000000LL + (long long)(rnd() % 1000000000ULL); break; case 1: v = (long long)(rnd() % 3000000000ULL); break; case 2: v = (long long)(rnd() % 9ULL)*1000000000LL + (long long)(rnd() % 3ULL); break; case 3: v = (long long)(rnd() % 9000000000ULL)*1000000000LL + 999999999; break; case 4: v = (long long)(rnd() % 100000ULL)*1000000; break; default: v = 1500000000123456789LL; } return neg && rnd() % 2 ? -v : v; }
template <class C, class T> static std::chrono::time_point<C, T> tp(long long v) { return std::chrono::time_point<C, T>(std::chrono::duration_cast<T>(ns(v))); }
#if KIND <= 3
#if KIND == 0
typedef yamc::posix::native_mutex X;
#define L_ "pthread_mutex_lock"
#define T_ "pthread_mutex_trylock"
#define U_ "pthread_mutex_unlock"
#define TL_ "pthread_mutex_timedlock"
#define D_ "pthread_mutex_destroy"
#elif KIND == 1
typedef yamc::posix::native_recursive_mutex X;
#define L_ "pthread_mutex_lock"
#define T_ "pthread_mutex_trylock"
#define U_ "pthread_mutex_unlock"
#define TL_ "pthread_mutex_timedlock"
#define D_ "pthread_mutex_destroy"
#elif KIND == 2
typedef yamc::posix::rwlock X;
#define L_ "pthread_rwlock_wrlock"
#define T_ "pthread_rwlock_trywrlock"
#define U_ "pthread_rwlock_unlock"
#define TL_ "pthread_rwlock_timedwrlock"
#define D_ "pthread_rwlock_destroy"
#else
typedef yamc::posix::spinlock X;
#define L_ "pthread_spin_lock"
#define T_ "pthread_spin_trylock"
#define U_ "pthread_spin_unlock"
#define D_ "pthread_spin_destroy"
#endif
static void once() {
  alignas(64) static char b[sizeof(X)]; X* x = nullptr;
  for (char& c : b) c = 0x77;
  run("constructor", {}, [&] { x = new (b) X; return 2; });
  void* h = (void*)x->native_handle(); if ((char*)h < b || (char*)h >= b + sizeof(X)) bad("native_handle is not inside the object");
#if KIND == 0 || KIND == 1
  int k = ((pthread_mutex_t*)h)->__data.__kind & 3; if (k != (KIND == 1 ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL) && !(KIND == 0 && k == PTHREAD_MUTEX_ERRORCHECK)) bad("the native mutex has the wrong kind");
  { pthread_mutex_t ref; memset(&ref, 0, sizeof ref); pthread_mutex_t* q = (pthread_mutex_t*)h; if (q->__data.__lock != ref.__data.__lock || q->__data.__owner || q->__data.__count) bad("the native mutex is not initialised"); }
#elif KIND == 3
  if (calls.size() != 1 || calls[0].fn != "pthread_spin_init" || calls[0].h != h) bad("the spinlock is not initialised exactly once");
#endif
  int c = CODES[rnd() % 7]; bool r;
  run("lock()", {0}, [&] { x->lock(); return 2; }); want(L_, h, 0, false);
  r = run("try_lock()", {c}, [&] { return x->try_lock(); }) == 1; want(T_, h, 0, false); if (r != (c == 0)) bad("result does not tell whether the lock was acquired");
  run("unlock()", {0}, [&] { x->unlock(); return 2; }); want(U_, h, 0, false);
#if KIND == 2
  run("lock_shared()", {0}, [&] { x->lock_shared(); return 2; }); want("pthread_rwlock_rdlock", h, 0, false);
  r = run("try_lock_shared()", {c}, [&] { return x->try_lock_shared(); }) == 1; want("pthread_rwlock_tryrdlock", h, 0, false); if (r != (c == 0)) bad("result does not tell whether the lock was acquired");
  run("unlock_shared()", {0}, [&] { x->unlock_shared(); return 2; }); want(U_, h, 0, false);
#endif
#if KIND <= 2
  for (int sh = 0; sh < (KIND == 2 ? 2 : 1); ++sh) for (int v = 0; v < 5; ++v) {
    const char* fn = sh ? "pthread_rwlock_timedrdlock" : TL_; long long d = instant(false), e = 0; c = CODES[rnd() % 7]; std::string n = sh ? "try_lock_shared_" : "try_lock_";
    now_ns = 1700000000123456789LL + (long long)(rnd() % 5000000000ULL);
    auto f = [&]() -> int {
#if KIND == 2
      if (sh) switch (v) { case 0: e = now_ns + d % 1000000000000000LL; return x->try_lock_shared_for(ns(e - now_ns)); case 1: e = now_ns + d/1000000 % 1000000000LL*1000000; return x->try_lock_shared_for(std::chrono::milliseconds((e - now_ns)/1000000)); case 2: e = now_ns + d/1000000000 % 1000000LL*1000000000; return x->try_lock_shared_for(std::chrono::seconds((e - now_ns)/1000000000)); case 3: e = d; return x->try_lock_shared_until(tp<sysc, sysc::duration>(d)); default: e = d/1000000*1000000; return x->try_lock_shared_until(tp<sysc, std::chrono::milliseconds>(d)); }
#endif
      switch (v) { case 0: e = now_ns + d % 1000000000000000LL; return x->try_lock_for(ns(e - now_ns)); case 1: e = now_ns + d/1000000 % 1000000000LL*1000000; return x->try_lock_for(std::chrono::milliseconds((e - now_ns)/1000000)); case 2: e = now_ns + d/1000000000 % 1000000LL*1000000000; return x->try_lock_for(std::chrono::seconds((e - now_ns)/1000000000)); case 3: e = d; return x->try_lock_until(tp<sysc, sysc::duration>(d)); default: e = d/1000000*1000000; return x->try_lock_until(tp<sysc, std::chrono::milliseconds>(d)); }
    };
    int q = run(n + (v < 3 ? "for" : "until") + " " + std::to_string(d) + " ns (native code " + std::to_string(c) + ")", {c}, f); want(fn, h, e, true); if ((q == 1) != (c == 0)) bad("result does not tell whether the lock was acquired");
  }
#endif
  run("destructor", {}, [&] { x->~X(); return 2; }); want(D_, h, 0, false);
}
#else
#if KIND == 4
typedef yamc::posix::counting_semaphore<> X;
#else
typedef yamc::posix::binary_semaphore X;
#endif
static void each(const char* fn, void* h, size_t n) { if (calls.size() != n) bad(std::string("expected ") + std::to_string(n) + " calls of " + fn + ", got " + std::to_string(calls.size())); for (auto& c : calls) { if (c.fn != fn) bad(std::string("expected ") + fn); if (c.h != h) bad("another semaphore"); } }
static void once() {
  alignas(64) static char b[sizeof(X)]; X* x = nullptr; long init = KIND == 5 ? (long)(rnd() % 2) : (long)(rnd() % 3 ? rnd() % 100000 : rnd() % 2147483648UL);
  run("constructor with " + std::to_string(init), {}, [&] { x = new (b) X(init); return 2; });
  if (calls.size() != 1 || calls[0].fn != "sem_init" || calls[0].arg != (int)init || (char*)calls[0].h < b || (char*)calls[0].h >= b + sizeof(X)) bad("sem_init with the initial count is expected");
  void* h = calls[0].h;
  std::vector<int> p; for (unsigned long i = rnd() % 4; i--; ) p.push_back(EINTR);
  size_t k = p.size();
  int fin = rnd() % 3 == 0 ? EINVAL : 0; p.push_back(fin);
  int r = run("acquire()", p, [&] { x->acquire(); return 2; }); each("sem_wait", h, k + 1); if (r != (fin ? 1000 + fin : 2)) bad("acquire must " + std::string(fin ? "throw system_error with the native code" : "succeed"));
  fin = rnd() % 2 ? EAGAIN : 0; r = run("try_acquire()", {fin}, [&] { return (int)x->try_acquire(); }); each("sem_trywait", h, 1); if (r != (fin == 0)) bad("try_acquire returns the wrong result");
  static const long NS[] = { 0, 1, 2, 3, 7, 255, 256, 257, 65535, 65536, 65537, 70000 }; long n = KIND == 5 ? 1 : rnd() % 2 ? (long)(rnd() % 4) : NS[rnd() % 12];
  r = run("release(" + std::to_string(n) + ")", {}, [&] { x->release(n); return 2; }); if (r != 2) bad("release must succeed"); each("sem_post", h, (size_t)n);
  r = run("release()", {}, [&] { x->release(); return 2; }); if (r != 2) bad("release must succeed"); each("sem_post", h, 1);
  if (KIND == 4) { r = run("release(3), the second post overflows", {0, EOVERFLOW}, [&] { x->release(3); return 2; }); if (r != 1000 + EOVERFLOW) bad("the native error must surface"); }
  for (int v = 0; v < 5; ++v) {
    long long d = instant(true), e = 0; now_ns = 1700000000123456789LL + (long long)(rnd() % 5000000000ULL); steady_ns = 5000000000111LL + (long long)(rnd() % 5000000000ULL);
    static const int FIN[] = { 0, ETIMEDOUT, EINVAL }; fin = FIN[rnd() % 3]; p.assign(k, EINTR); p.push_back(fin);
    auto f = [&]() -> int { switch (v) { case 0: e = now_ns + d % 1000000000000000LL; return x->try_acquire_for(ns(e - now_ns)); case 1: e = now_ns + d/1000000 % 1000000000LL*1000000; return x->try_acquire_for(std::chrono::milliseconds((e - now_ns)/1000000)); case 2: e = d; return x->try_acquire_until(tp<sysc, sysc::duration>(d)); case 3: e = d/1000000*1000000; return x->try_acquire_until(tp<sysc, std::chrono::milliseconds>(d));
      default: d %= 1000000000000000LL; e = now_ns + (d - steady_ns); return x->try_acquire_until(tp<stc, stc::duration>(d)); } };
    r = run(std::string("try_acquire_") + (v < 2 ? "for" : v < 4 ? "until(system)" : "until(steady)") + " " + std::to_string(d) + " ns", p, f);
    each("sem_timedwait", h, k + 1); long long s = e/1000000000, q = e%1000000000; if (q < 0) { q += 1000000000; --s; }
    for (auto& c : calls) if (c.sec != s || c.nsec != q) bad("deadline is not " + std::to_string(s) + "." + std::to_string(q));
    if (r != (fin == 0 ? 1 : fin == ETIMEDOUT ? 0 : 1000 + fin)) bad("wrong result " + std::to_string(r));
  }
  run("destructor", {}, [&] { x->~X(); return 2; }); each("sem_destroy", h, 1);
}
#endif
int main(int argc, char** v) { (void)argc; deadline = real_now() + atof(v[2]); rs = (unsigned long)atoi(v[3])*77 + 1; for (int i = 0; i < 20; ++i) rnd(); for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onsig); while (real_now() < deadline) once(); printf("NONE\n"); return 0; }
