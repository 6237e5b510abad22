// Replay of the semaphore, latch and barrier: KIND 0 counting semaphore, 1 binary semaphore, 2 latch, 3 barrier
#include "engine.hpp"
#include <cassert>
#include <cstdio>
#include <cstring>
#include <cstddef>
#include <limits>
#include <new>
#include <chrono>
#include <utility>
#if KIND == 2
#include "yamc_latch.hpp"
#elif KIND == 3
#include "yamc_barrier.hpp"
#else
#include "yamc_semaphore.hpp"
#endif
using namespace eng;
using ns = std::chrono::nanoseconds;
constexpr int64_t D = 10000000;
struct Op { bool on; char k; int64_t start, dl; }; static Op op[6];
static bool calm(int f) { for (int g = 0; g < nfibers(); ++g) if (g != f && op[g].on && !done(g) && !cvsleep(g)) return false; return true; }
static void begin(char k) { int f = self(); op[f].k = k; op[f].dl = -1; op[f].on = true; op_begin(); op[f].start = stamp(); trace("%c ...", k); }
static void end_() { op_end(); op[self()].on = false; }
static long initc;
#if KIND <= 1
#define PROP "C12"
#if KIND == 0
typedef yamc::counting_semaphore<> T;
#else
typedef yamc::binary_semaphore T;
#endif
static long got, put0, put1;     // successful acquisitions; permits of started / finished releases
static bool acqop(char k) { return strchr("atfy", k) != nullptr; }
static void run1(int f, char k, T& x) {
  begin(k); bool ok = false;
  switch (k) {
  case 'a': x.acquire(); ok = true; break;
  case 't': ok = x.try_acquire(); break;
  case 'f': op[f].dl = -2; ok = x.try_acquire_for(ns(D)); break;
  case 'y': op[f].dl = vtime + D; ok = x.try_acquire_until(std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(ns(SYSTEM0 + op[f].dl)))); break;
  case '1': put0 += 1; x.release(); put1 += 1; break;
  case '2': put0 += 2; x.release(2); put1 += 2; break;
  case '3': put0 += 3; x.release(3); put1 += 3; break;
  case '0': x.release(0); break;
  }
  if (!acqop(k)) { end_(); trace("%c done", k); return; }
  if (ok) { ++got; trace("%c acquired", k); if (got > initc + put0) violation("C12", "%ld permits acquired out of %ld", got, initc + put0); end_(); return; }
  trace("%c failed", k);
  int64_t dl = op[f].dl; if (dl == -2) dl = first_clock(f) < 0 ? -1 : first_clock(f) + D;
  if (k != 't' && dl >= 0 && vtime < dl) violation("C12", "T%d gives up before its deadline", f);
  if (k == 'f' && dl < 0) violation("C12", "timed acquire fails without looking at the clock");
  int64_t since = lock_stamp(f) > op[f].start ? lock_stamp(f) : op[f].start;
  if (calm(f) && !ran_since(f, since) && initc + put1 > got && put0 == put1) violation("C12", "T%d fails to acquire although a permit is available", f);
  end_();
}
static void slept() { int f = self(); if (op[f].k == 't') violation("C12", "try_acquire sleeps"); if (!acqop(op[f].k)) violation("C12", "release sleeps");
  if (calm(f) && !ran_since(f, lock_stamp(f) > op[f].start ? lock_stamp(f) : op[f].start) && put0 == put1 && initc + put1 > got) violation("C12", "T%d sleeps although a permit is available", f); }
static void model_reset() { got = put0 = put1 = 0; }
static void model_quiet() {
  for (int f = 0; f < nfibers(); ++f) if (!done(f) && !holding(f) && op[f].on) {
    if (mtxblocked(f)) violation("C12", "T%d is stuck on the internal mutex", f);
    if (initc + put1 > got) violation("C12", "T%d stays asleep although %ld permits are available", f, initc + put1 - got);
  }
}
static void model_finish(T& x) {
  long n = 0; while (n < 100 && x.try_acquire()) ++n;
  if (n != initc + put1 - got) violation("C12", "%ld permits are left instead of %ld", n, initc + put1 - got);
}
static T* make(void* p) { return new (p) T(initc); }
#elif KIND == 2
#define PROP "C13"
typedef yamc::latch T;
static long c0, c1;   // count with started / finished decrements
static void run1(int f, char k, T& x) {
  (void)f; bool open = c1 == 0; begin(k);
  long u = k == 'c' || k == 'a' ? 1 : k == 'C' || k == 'A' ? 2 : 0; c0 -= u;
  switch (k) {
  case 'c': x.count_down(); c1 -= u; break; case 'C': x.count_down(2); c1 -= u; break; case 'z': x.count_down(0); break;
  case 'a': x.arrive_and_wait(); break; case 'A': x.arrive_and_wait(2); break; case 'Z': x.arrive_and_wait(0); break;
  case 'w': x.wait(); break;
  case 't': { bool r = x.try_wait(); if (r && c0 > 0) violation("C13", "try_wait is true with a count of %ld", c0); if (!r && open) violation("C13", "try_wait is false although the count has reached zero"); break; }
  }
  if (strchr("aAZw", k) && c0 > 0) violation("C13", "T%d is released with a count of %ld", f, c0);
  if (k == 'a' || k == 'A') c1 -= u;
  end_(); trace("%c done", k);
}
static void slept() { int f = self(); if (strchr("cCzt", op[f].k)) violation("C13", "a non-waiting operation sleeps"); }
static void model_reset() { c0 = c1 = initc; }
static void model_quiet() {
  for (int f = 0; f < nfibers(); ++f) if (!done(f) && !holding(f) && op[f].on) {
    if (mtxblocked(f)) violation("C13", "T%d is stuck on the internal mutex", f);
    if (c0 == 0) violation("C13", "T%d stays asleep although the count has reached zero", f);
  }
}
static void model_finish(T& x) { if (x.try_wait() != (c0 == 0)) violation("C13", "try_wait is wrong at the end"); }
static T* make(void* p) { return new (p) T(initc); }
#else
#define PROP "C14"
static int ncomp; static bool incomp; static int64_t compstart; static bool live;
struct Arr { long u; bool drop; int lo, hi; }; static Arr arr[64]; static int narr; static long started, e0;
static int dropped_max;
struct Completion { void operator()() noexcept {
  if (!live) return;
  incomp = true; compstart = stamp(); trace("completion function starts");
  long need = 0; bool amb = false;      // units that n phases take at least (every drop counted as early as possible)
  for (int j = 0; j <= ncomp; ++j) { long e = e0; for (int i = 0; i < narr; ++i) if (arr[i].drop && arr[i].lo < j) --e; need += e; }
  (void)amb; if (started < need) violation("C14", "phase %d completes after %ld of %ld arrivals", ncomp, started, need);
  point(); point(); ++ncomp; incomp = false; trace("completion function ends");
} };
typedef yamc::barrier<Completion> T;
static T::arrival_token tok[6]; static int tlo[6], thi[6]; static int cura[6];
static void run1(int f, char k, T& x) {
  begin(k);
  long u = strchr("rad", k) ? 1 : k == 'R' ? 2 : 0; int lo = ncomp; int64_t t0 = stamp();
  if (u) { started += u; cura[f] = narr; arr[narr++] = Arr{u, k == 'd', lo, -1}; }
  switch (k) {
  case 'r': tok[f] = x.arrive(); break; case 'R': tok[f] = x.arrive(2); break;
  case 'w': x.wait(std::move(tok[f])); if (ncomp < tlo[f] + 1) violation("C14", "T%d is released before its phase is complete", f); break;
  case 'a': x.arrive_and_wait(); if (ncomp < lo + 1) violation("C14", "T%d is released before its phase is complete", f); break;
  case 'd': x.arrive_and_drop(); break;
  }
  if (u && arr[cura[f]].hi < 0) arr[cura[f]].hi = ncomp;
  if (k == 'r' || k == 'R') { tlo[f] = lo; thi[f] = ncomp; if (incomp && t0 > compstart) violation("C14", "an arrival of the next phase ends while the completion function is running"); }
  if (incomp) violation("C14", "T%d goes on while the completion function is running", f);
  end_(); trace("%c done", k);
}
static void slept() { int f = self(); if (strchr("rR", op[f].k)) violation("C14", "arrive sleeps"); if (op[f].k != 'w' && arr[cura[f]].hi < 0) arr[cura[f]].hi = ncomp; }
static void model_reset() { ncomp = narr = 0; started = 0; incomp = false; e0 = initc; live = true; memset(tlo, 0, sizeof tlo); memset(thi, 0, sizeof thi); }
static void model_quiet() {
  bool exact = true; long total = 0;
  for (int f = 0; f < nfibers(); ++f) if (!done(f) && op[f].on && mtxblocked(f)) violation("C14", "T%d is stuck on the internal mutex", f);
  for (int i = 0; i < narr; ++i) { total += arr[i].u; if (arr[i].drop && arr[i].hi != arr[i].lo && !(arr[i].hi == arr[i].lo + 1)) exact = false; }
  // phases that must be complete: a drop belongs to phase lo unless another phase was completed meanwhile (then skip)
  for (int i = 0; i < narr; ++i) if (arr[i].drop && arr[i].hi != arr[i].lo) {     // hi = lo+1 is unambiguous only when the drop completed the phase itself
    exact = false; }
  if (exact) {
    int n = 0; long left = total;
    for (;;) { long e = e0; for (int i = 0; i < narr; ++i) if (arr[i].drop && arr[i].lo < n) --e; if (e <= 0 || left < e) break; left -= e; ++n; }
    if (n != ncomp) violation("C14", "%d phases are complete instead of %d (%ld arrivals)", ncomp, n, total);
  }
  for (int f = 0; f < nfibers(); ++f) if (!done(f) && !holding(f) && op[f].on) {
    int hi = op[f].k == 'w' ? thi[f] : arr[cura[f]].hi;
    if (hi >= 0 && ncomp > hi) violation("C14", "T%d stays asleep although its phase is complete", f);
  }
}
static void model_finish(T&) { model_quiet(); }
static T* make(void* p) { return new (p) T(initc); }
#endif
alignas(64) static char st_[sizeof(T)]; static T* obj; static long prelude;
static void setup() {
  memset(st_, 0x5a, sizeof st_); model_reset(); memset(op, 0, sizeof op);
#if KIND == 3
  live = false; obj = make(st_); for (long i = 0; i < prelude; ++i) { auto t = obj->arrive(initc); (void)t; } live = true;
#else
  obj = make(st_);
#endif
  track(st_, sizeof(T), "the object");
  on_plainwait = [] { slept(); };
  on_timedwait = [](int, int64_t dl) {
    int f = self(); slept(); int64_t e = op[f].dl == -2 && first_clock(f) >= 0 ? first_clock(f) + D : op[f].dl;
    if (e >= 0 && dl > e + 100000) violation(PROP, "T%d waits beyond its deadline", f);
  };
}
static void script(int f, const std::string& s) { for (char k : s) { if (k == ' ') continue; if (k == 'H') { hold(); continue; } run1(f, k, *obj); } }
static bool go(long init, std::vector<std::string> sc, double secs, int bound, long pre = 0) {
  if (!report.empty()) return false;
  initc = init; prelude = pre; Scenario s; s.name = "initial count " + std::to_string(init) + (pre ? ", " + std::to_string(pre) + " earlier phases" : "") + ": "; for (auto& x : sc) s.name += "[" + x + "] ";
  s.setup = setup; s.quiescent = [] { model_quiet(); }; s.finish = [] { model_finish(*obj); };
  for (size_t i = 0; i < sc.size(); ++i) { std::string t = sc[i]; int f = (int)i; s.threads.push_back([f, t] { script(f, t); }); }
  Limits l; l.bound = bound; l.seconds = secs; l.execs = 2000000; l.max_timeouts = 2; l.max_spurious = 1;
  return explore(s, l);
}
static void sequential() {
#if KIND == 0
  for (int k = 0; k < 62; ++k) for (long d = -1; d <= 1; ++d) {
    long n = (1L << k) + d; if (n <= 0) continue;
    T s(0), t(n); s.release(n); bool a = s.try_acquire(), b = t.try_acquire(), full = true;
    if (n <= 70000) { long c = 1, e = 1; while (c <= n && s.try_acquire()) ++c; while (e <= n && t.try_acquire()) ++e; full = c == n && e == n; }
    if (!a || !b || !full) { report = "a semaphore with " + std::to_string(n) + " permits (released, or initial)\nviolated: not exactly that many can be acquired\n"; return; }
  }
#elif KIND == 2
  for (int k = 0; k < 62; ++k) for (long d = -1; d <= 1; ++d) {
    long n = (1L << k) + d; if (n <= 0) continue;
    T s(n); bool a = s.try_wait(); s.count_down(n - 1); bool b = s.try_wait(); s.count_down(); bool c = s.try_wait();
    if (a || b || !c) { report = "latch(" + std::to_string(n) + "); count_down(n-1); count_down()\nviolated: try_wait is " + std::to_string(a) + std::to_string(b) + std::to_string(c) + " before, between and after\n"; return; }
  }
#endif
}
static void all() {
  double Tm = deadline_real - now_real();
  struct S { long i; std::vector<std::string> v; long pre; };
#if KIND == 0
  std::vector<S> L = { {0, {"a", "a", "1 1"}, 0}, {0, {"a", "a", "a", "3"}, 0}, {0, {"a 1", "f", "H 1", "t"}, 0}, {1, {"a 1", "a 1", "t"}, 0}, {0, {"f", "f", "1"}, 0}, {0, {"a", "f", "H 1", "H 1"}, 0}, {0, {"a", "a", "H 2"}, 0}, {0, {"a", "y", "1", "1"}, 0}, {0, {"a a", "f", "2 1"}, 0}, {2, {"t t t", "a", "f"}, 0}, {0, {"a", "a", "a", "2 H 1"}, 0}, {0, {"f", "a", "1 H 1"}, 0}, {0, {"a", "0 1", "f 1"}, 0} };
#elif KIND == 1
  std::vector<S> L = { {0, {"a", "1"}, 0}, {1, {"a 1", "a 1", "t"}, 0}, {0, {"f", "1", "t"}, 0}, {0, {"a", "f", "H 1"}, 0}, {1, {"a H 1", "f H 1", "a 1"}, 0}, {0, {"y", "1"}, 0}, {1, {"a H 1", "a H 1", "a H 1"}, 0}, {1, {"a 1", "t"}, 0} };
#elif KIND == 2
  std::vector<S> L = { {1, {"w", "c", "t"}, 0}, {2, {"w", "a", "a", "t"}, 0}, {3, {"w", "w", "C c"}, 0}, {3, {"w", "A", "a"}, 0}, {3, {"a", "a", "a", "w"}, 0}, {2, {"w", "w", "C", "t"}, 0}, {0, {"w", "t", "Z z"}, 0}, {2, {"c z t", "Z t", "c t"}, 0}, {4, {"C", "A", "w t"}, 0}, {2, {"w", "t c t", "t H c"}, 0}, {2, {"w", "t", "c"}, 0} };
#else
  std::vector<S> L = { {2, {"a a a", "a a a"}, 0}, {2, {"r w r w", "a a"}, 0}, {3, {"a a", "a a", "r w a"}, 0}, {2, {"r w", "H r R", "H"}, 0}, {3, {"d", "a a", "a H a"}, 0}, {3, {"d", "H a a", "H H a a"}, 0}, {2, {"d", "a a a"}, 0}, {2, {"H d", "a a a"}, 0}, {3, {"r w R w", "a a", "a"}, 0}, {2, {"R R r", "H r w"}, 0}, {1, {"a r w", "H"}, 0}, {3, {"H d", "H H d", "a a a a"}, 0}, {3, {"a d", "d", "a a a"}, 0}, {2, {"R r", "H r w"}, 0} };
  for (long p : {1L, 2L, 3L, 127L, 128L, 254L, 255L, 256L, 257L, 32767L, 32768L, 65534L, 65535L, 65536L}) L.push_back({2, {"r w", "H r"}, p});
#endif
  sequential(); if (!report.empty()) return;
  for (int r = 0; r < 3; ++r) for (auto& s : L) { if (deadline_real < now_real()) return; if (!go(s.i, s.v, Tm*(r == 0 ? 0.15 : r == 1 ? 0.35 : 0.5)/(double)L.size(), s.pre > 300 && r ? 1 : r + 1, s.pre)) return; if (s.pre > 300 && r) continue; }
}
int main(int c, char** v) { return main_loop(c, v, all); }
