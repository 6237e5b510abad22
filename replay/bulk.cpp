// Replay with large numbers: recursion depth, readers and waiters beyond 2^8 and 2^16. Same -D configuration as locks.cpp.
// Thread identities of operations that do not block are made up, so that 66000 readers need no threads.
#include <cassert>
#include HEADER
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <thread>
#include <vector>
#include <atomic>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <dlfcn.h>
#include <pthread.h>
typedef MTYPE MT;
#ifndef CHECKED
#define CHECKED 0
#endif
#ifndef ABRT
#define ABRT 0
#endif
#ifndef REC
#define REC 0
#endif
#ifndef TIMED
#define TIMED 0
#endif
#ifndef SHARED
#define SHARED 0
#endif
#ifndef SPINNY
#define SPINNY 0
#endif
#ifndef POLICY
#define POLICY 0
#endif
static thread_local unsigned long fake;
extern "C" pthread_t pthread_self() noexcept {
  if (fake) return (pthread_t)(fake*4096 + 64);
  static pthread_t (*real)() = (pthread_t (*)())dlsym(RTLD_NEXT, "pthread_self"); return real();
}
struct As { unsigned long o; As(unsigned long i) : o(fake) { fake = i; } ~As() { fake = o; } };
static std::string want; static double T0, LIM; static long n_;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static void ms(int n) { std::this_thread::sleep_for(std::chrono::milliseconds(n)); }
static void fail(const std::string& props, const std::string& what) {
  if ((" " + props + " ").find(" " + want + " ") != std::string::npos) { printf("FOUND\nviolated: %s\n", what.c_str()); fflush(stdout); _exit(1); }
}
static std::string N(long n) { return std::to_string(n); }
static void died(int s) { const char m[] = "FOUND\nviolated: the process dies in a run with many threads or levels (signal)\n"; (void)s; if (write(1, m, sizeof m - 1)) {} _exit(1); }
static bool interesting(long i) { return i < 4 || (i & 255) <= 1 || (i & 255) == 255 ; }
static void levels() {
#if REC
  alignas(64) static char b[sizeof(MT)]; MT* m = new (b) MT; const long K = 66000; int odd = 0;
  auto other = [&] { As a(2); ++n_; bool r = m->try_lock(); if (r) m->unlock(); return r; };
  { As a(1);
    for (long i = 1; i <= K; ++i) {
      if (i % 3 == 1) m->lock(); else if (!m->try_lock()) fail("C02 C06", "the owner cannot acquire level " + N(i));
      if (interesting(i) && other()) fail("C02", "another thread acquires the mutex while its owner holds " + N(i) + " levels");
    }
    for (long i = K; i > 1; --i) { try { m->unlock(); } catch (...) { fail("C02 C10", "unlock of level " + N(i) + " by the owner throws"); } if (interesting(i - 1) && other()) fail("C02", "another thread acquires the mutex while its owner still holds " + N(i - 1) + " of " + N(K) + " levels"); }
    m->unlock(); }
  if (!other()) fail("C02 C05", "the mutex is not free after " + N(K) + " acquisitions and as many releases");
  m->~MT(); (void)odd;
#endif
}
static void readers() {
#if SHARED
  alignas(64) static char b[sizeof(MT)]; MT* m = new (b) MT; const long K = 66000;
  auto wr = [&] { As a(K + 7); ++n_; bool r = m->try_lock(); if (r) m->unlock(); return r; };
  auto rd = [&] { As a(K + 8); bool r = m->try_lock_shared(); if (r) m->unlock_shared(); return r; };
  for (long i = 1; i <= K; ++i) {
    { As a(i); if (i % 3 == 1) m->lock_shared(); else if (!m->try_lock_shared()) fail("C03 C06 C09 C08", "reader number " + N(i) + " is not admitted"); }
    if (interesting(i) && wr()) fail("C03", "a writer acquires the lock while " + N(i) + " readers hold it");
    if (interesting(i) && !rd()) fail("C06 C09 C08", "a reader is refused while only " + N(i) + " readers hold the lock");
    if (now() - T0 > LIM*0.6) return;
  }
  for (long i = K; i > 1; --i) {
    { As a(i); try { m->unlock_shared(); } catch (...) { fail("C03 C10", "unlock_shared by a reader throws (" + N(i) + " readers)"); } }
    if (interesting(i - 1) && wr()) fail("C03", "a writer acquires the lock while " + N(i - 1) + " of " + N(K) + " readers still hold it");
    if (now() - T0 > LIM*0.8) return;
  }
  { As a(1); m->unlock_shared(); }
  if (!wr()) fail("C03 C05", "the lock is not free after " + N(K) + " readers came and went");
  m->~MT();
#endif
}
static void waiters(int k) {       // k threads wait for the lock at the same time
  MT* m = new MT; std::atomic<int> in{0}, done{0}; std::atomic<bool> stop{false}; std::vector<std::thread> ts;
#if SHARED
  m->lock_shared();
#else
  m->lock();
#endif
  for (int i = 0; i < k; ++i) ts.emplace_back([&] { m->lock(); if (++in != 1) fail(PRIM, "two of " + N(k) + " waiting threads own the lock at the same time"); std::this_thread::yield(); --in; m->unlock(); ++done; });
  ms(400); int bad = 0;
  for (int r = 0; r < 3; ++r) {
    std::thread p([&] {
      ++n_;
      if (m->try_lock()) { fail(PRIM, "the lock is acquired by a try operation while it is held and " + N(k) + " threads wait"); m->unlock(); }
#if SHARED && POLICY >= 2
      if (m->try_lock_shared()) { m->unlock_shared(); ++bad; }
#endif
    }); p.join(); if (done) fail(PRIM, "one of " + N(k) + " waiting threads acquires the lock while it is held");
    if (bad == r + 1) ms(1000); else break;
  }
  if (bad == 3) fail("C08 C09", "a reader is admitted although " + N(k) + " writers are waiting");
#if SHARED
  m->unlock_shared();
#else
  m->unlock();
#endif
  double t = now(); while (done < k && now() - t < 40) ms(2);
  if (done < k) { fail(std::string("C05 ") + PRIM, N(k - done) + " of " + N(k) + " waiting threads sleep for good after the lock was released"); _exit(0); }
  for (auto& x : ts) x.join();
  delete m;
}
int main(int c, char** v) {
  want = v[1]; T0 = now(); LIM = c > 2 ? atof(v[2]) : 30;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, died);
  levels(); readers();
#if !SPINNY
  for (int k : {255, 256, 257}) { if (now() - T0 > LIM) break; waiters(k); }
#endif
  printf("NONE %ld\n", n_);
}
