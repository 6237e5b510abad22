// Replay of shared_lock (KIND 0: against std::shared_lock, same operations on identical mutexes) and scoped_lock (KIND 1)
#include <cassert>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <memory>
#include <mutex>
#include <new>
#include <shared_mutex>
#include <string>
#include <system_error>
#include <vector>
#if KIND == 0
#include "yamc_shared_lock.hpp"
#else
#include "yamc_scoped_lock.hpp"
#endif
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static double deadline; static unsigned long rs = 1;
static unsigned rnd(unsigned n) { rs = rs*6364136223846793005UL + 1442695040888963407UL; return (unsigned)(rs >> 33) % n; }
static std::string cur;
static void onsig(int s) { printf("FOUND\nsequence: %s\nviolated: the process dies with signal %d\n", cur.c_str(), s); fflush(stdout); _exit(1); }
[[noreturn]] static void bad(const std::string& w) { printf("FOUND\nsequence: %s\nviolated: %s\n", cur.c_str(), w.c_str()); fflush(stdout); _exit(1); }
#if KIND == 0
using sysc = std::chrono::system_clock;
struct Mock {      // counts shares; results are scripted
  std::string log; int held = 0; int next = 1;      // next: 0 false, 1 true, 2 throw
  int id;
  bool acq(const char* n) { log += std::to_string(id); log += n; if (next == 2) { log += '!'; throw std::runtime_error("mutex"); } if (next == 1) { ++held; log += '+'; } else log += '-'; return next == 1; }
  void lock_shared() { if (next == 0) { next = 1; } acq("lock "); }
  bool try_lock_shared() { return acq("try "); }
  template <class R, class P> bool try_lock_shared_for(const std::chrono::duration<R, P>& d) { return acq(("for " + std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count())).c_str()); }
  template <class C, class D> bool try_lock_shared_until(const std::chrono::time_point<C, D>& t) { return acq(("until " + std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count())).c_str()); }
  void unlock_shared() { log += std::to_string(id) + "unlock "; if (next == 2) { log += '!'; throw std::runtime_error("mutex"); } --held; }
};
static const char* ON[] = { "default", "(m)", "defer", "try", "adopt", "until", "for", "move-construct", "move-assign", "swap", "std::swap", "release", "lock", "try_lock", "try_lock_for", "try_lock_until", "unlock", "destroy" };
struct Step { int op, a, b, m, next; };
template <class L> struct Sys {
  Mock mu[2]; std::unique_ptr<L> o[3]; std::string out;
  Sys() { mu[0].id = 0; mu[1].id = 1; for (auto& x : o) x.reset(new L()); }
  template <class... A> void mk(int a, A&&... x) { mu[0].next = mu[0].next; std::unique_ptr<L> n(new L(std::forward<A>(x)...)); int s[2] = {mu[0].next, mu[1].next}; mu[0].next = mu[1].next = 1; o[a] = std::move(n); mu[0].next = s[0]; mu[1].next = s[1]; }
  void step(const Step& s) {
    Mock& m = mu[s.m]; for (auto& q : mu) q.next = s.next;
    bool del = s.op == 8 || s.op == 17 || s.op == 7; if (del) for (auto& q : mu) if (q.next == 2) q.next = 1;
    const sysc::time_point tp(std::chrono::duration_cast<sysc::duration>(std::chrono::nanoseconds(123456789)));
    try { switch (s.op) {
      case 0: mk(s.a); break; case 1: mk(s.a, m); break; case 2: mk(s.a, m, std::defer_lock); break; case 3: mk(s.a, m, std::try_to_lock); break;
      case 4: ++m.held; mk(s.a, m, std::adopt_lock); break;
      case 5: mk(s.a, m, tp); break; case 6: mk(s.a, m, std::chrono::microseconds(77)); break;
      case 7: mk(s.a, std::move(*o[s.b])); break;
      case 8: if (s.a != s.b) *o[s.a] = std::move(*o[s.b]); break;
      case 9: o[s.a]->swap(*o[s.b]); break; case 10: { using std::swap; swap(*o[s.a], *o[s.b]); break; }
      case 11: { Mock* p = o[s.a]->release(); out += p ? std::to_string(p->id) : "n"; break; }
      case 12: o[s.a]->lock(); break; case 13: out += o[s.a]->try_lock() ? "T" : "F"; break;
      case 14: out += o[s.a]->try_lock_for(std::chrono::milliseconds(5)) ? "T" : "F"; break;
      case 15: out += o[s.a]->try_lock_until(tp) ? "T" : "F"; break;
      case 16: o[s.a]->unlock(); break;
      case 17: mk(s.a); break;
    } } catch (const std::system_error& e) { out += "E" + std::to_string(e.code().value()) + e.code().category().name(); }
    catch (const std::runtime_error&) { out += "R"; }
    catch (...) { out += "?"; }
    for (auto& x : o) { out += x->owns_lock() ? 'o' : '.'; out += static_cast<bool>(*x) ? 'b' : '.'; out += x->mutex() ? char('0' + x->mutex()->id) : 'n'; }
    out += '|';
    for (auto& q : mu) q.next = 1;
  }
};
static void all() {
  while (now() < deadline) for (int rep = 0; rep < 50; ++rep) {
    auto* A = new Sys<yamc::shared_lock<Mock>>; auto* B = new Sys<std::shared_lock<Mock>>; cur.clear();
    int n = 2 + (int)rnd(9);
    for (int i = 0; i < n; ++i) {
      Step s{(int)rnd(18), (int)rnd(3), (int)rnd(3), (int)rnd(2), rnd(4) == 0 ? 2 : rnd(3) == 0 ? 0 : 1};
      cur += std::string(ON[s.op]) + " a=" + std::to_string(s.a) + " b=" + std::to_string(s.b) + " m=" + std::to_string(s.m) + (s.next == 2 ? " (mutex throws); " : s.next == 0 ? " (not available); " : "; ");
      A->out.clear(); B->out.clear(); A->step(s); B->step(s);
      if (A->out != B->out) bad("result and states " + A->out + ", expected " + B->out);
      for (int k = 0; k < 2; ++k) { if (A->mu[k].held != B->mu[k].held) bad("mutex " + std::to_string(k) + " has " + std::to_string(A->mu[k].held) + " shares, expected " + std::to_string(B->mu[k].held)); }
      std::string la, lb; for (int k = 0; k < 2; ++k) { la += A->mu[k].log; lb += B->mu[k].log; }
      if (la != lb) bad("calls on the mutexes: " + la + ", expected " + lb);
    }
    cur += "destroy all"; for (int k = 0; k < 3; ++k) { A->o[k].reset(); B->o[k].reset(); }
    for (int k = 0; k < 2; ++k) if (A->mu[k].held != B->mu[k].held) bad("mutex " + std::to_string(k) + " has " + std::to_string(A->mu[k].held) + " shares at the end, expected " + std::to_string(B->mu[k].held));
    delete A; delete B;
  }
}
#else
struct Mock; static std::vector<Mock*> ms; static int heldby;
struct Mock {
  int held = 0, nl = 0, nu = 0; int failtry = 0, throwat = -1, calls = 0;
  void call() { if (calls++ == throwat) { cur += "throws "; throw 7; } }
  void lock() { for (Mock* o : ms) if (o != this && o->held) bad("blocks on one mutex while holding another"); call(); cur += "lock "; if (held) bad("locks a mutex that is held"); ++held; ++nl; }
  bool try_lock() { call(); if (held) bad("try_lock on a mutex it holds"); if (failtry > 0) { --failtry; cur += "try- "; return false; } cur += "try+ "; ++held; ++nl; return true; }
  void unlock() { cur += "unlock "; if (held != 1) bad("unlocks a mutex that is not held"); --held; ++nu; }
};
template <class L, class... M> static void one(bool adopt, const int* ft, const int* ta, M&... m) {
  ms = {&m...}; int i = 0;
  for (Mock* p : ms) { p->failtry = ft[i]; p->throwat = adopt ? -1 : ta[i]; if (adopt) p->held = 1; ++i; }
  cur += std::to_string(sizeof...(M)) + " mutexes" + (adopt ? " adopted: " : ": ");
  bool threw = false; int before = 0; for (Mock* p : ms) before += p->calls;
  try {
    if (adopt) { L l(std::adopt_lock, m...); for (Mock* p : ms) { if (p->held != 1 || p->calls) bad("adopt_lock touches a mutex"); } }
    else { L l(m...); for (Mock* p : ms) if (p->held != 1) bad("a mutex is not held after construction"); }
  } catch (int) { threw = true; }
  for (Mock* p : ms) { if (p->held != 0) bad(threw ? "a mutex is still held after construction threw" : "a mutex is still held after destruction"); }
  if (!threw && adopt) for (Mock* p : ms) if (p->nu != 1) bad("not unlocked exactly once");
  if (!threw && !adopt) for (Mock* p : ms) if (p->nl != p->nu) bad("unlocked more or less often than locked");
  bool ex = false; for (Mock* p : ms) ex = ex || (p->throwat >= 0 && p->calls > p->throwat);
  if (ex != threw) bad("an exception of a mutex is lost");
}
static void all() {
  while (now() < deadline) for (int rep = 0; rep < 200; ++rep) {
    int ft[4], ta[4]; for (int i = 0; i < 4; ++i) { ft[i] = (int)rnd(3) - 1; ta[i] = rnd(4) ? -1 : (int)rnd(3); }
    bool ad = rnd(3) == 0; cur.clear(); Mock a, b, c, d;
    switch (rnd(5)) {
    case 0: { yamc::scoped_lock<> l; if (ad) { yamc::scoped_lock<> k(std::adopt_lock); (void)k; } break; }
    case 1: one<yamc::scoped_lock<Mock>>(ad, ft, ta, a); break;
    case 2: one<yamc::scoped_lock<Mock, Mock>>(ad, ft, ta, a, b); break;
    case 3: one<yamc::scoped_lock<Mock, Mock, Mock>>(ad, ft, ta, a, b, c); break;
    case 4: one<yamc::scoped_lock<Mock, Mock, Mock, Mock>>(ad, ft, ta, a, b, c, d); break;
    }
  }
}
#endif
int main(int argc, char** v) { (void)argc; deadline = now() + atof(v[2]); rs = (unsigned long)atoi(v[3]) + 1; for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onsig); all(); printf("NONE\n"); return 0; }
