// Replay of the lock classes: MTYPE, HEADER, PRIM ("C01".."C03"), REC, TIMED, SHARED, CHECKED, DETECT, ABRT, SPINNY,
// POLICY: 0 none, 1 reader preference, 2 writer preference, 3 task fair, 4 phase fair, 5 first come first served
#include "engine.hpp"
#include <cassert>
#include HEADER
#include <cstdio>
#include <csignal>
#include <cerrno>
#include <cstring>
#include <new>
#include <chrono>
#include <system_error>
#if defined(CHECKED) && CHECKED
#include "yamc_lock_validator.hpp"
#endif
using namespace eng;
using ns = std::chrono::nanoseconds;
typedef MTYPE MT;
constexpr int64_t D = 10000000;
#ifndef CHECKED
#define CHECKED 0
#endif
#ifndef DETECT
#define DETECT 0
#endif
#ifndef ABRT
#define ABRT 0
#endif
#ifndef REC
#define REC 0
#endif
#ifndef TIMED
#define TIMED 0
#endif
#ifndef SHARED
#define SHARED 0
#endif
#ifndef SPINNY
#define SPINNY 0
#endif
#ifndef POLICY
#define POLICY 0
#endif
alignas(64) static char store_[3][sizeof(MT)]; static MT* mx[3]; static long data_[3]; static int nm;
struct Model { int x, dep, sh[6]; }; static Model mo[3];
struct Op { bool on; char k; int m; int64_t start, dl; bool calm; bool grant; }; static Op op[6];
static bool misused;      // an operation was refused as misuse: it must have had no effect
static const char* MIS() { return misused ? "C10" : ""; }
static unsigned must[6]; static bool mustset[3];
static bool share_op(char k) { return k == 'l' || k == 't' || k == 'f' || k == 'y'; }
static bool acq_op(char k) { return strchr("LTFYPltfy", k) != nullptr; }
static bool anysh(int m, int but = -1) { for (int g = 0; g < 6; ++g) if (g != but && mo[m].sh[g]) return true; return false; }
static bool waits(int g, int m) { return op[g].on && op[g].m == m && acq_op(op[g].k) && !done(g) && slept_stamp(g) >= 0; }
static bool gone(int g) { return op[g].dl >= 0 && (timeout_at(g) >= 0 || vtime >= op[g].dl); }     // may be giving up
static bool hold_ok(int f, int m, bool s) {      // the holders allow it
  if (s) return mo[m].x < 0;
  if (REC && mo[m].x == f) return true;
  return mo[m].x < 0 && !anysh(m);
}
static bool granted(int f, int m, bool s) {      // by holders and policy, when every other fiber in an operation sleeps
  if (REC && mo[m].x == f) return true;
  if (!hold_ok(f, m, s)) return false;
  for (int g = 0; g < nfibers(); ++g) if (g != f && waits(g, m)) {
    if (POLICY == 5 || POLICY == 0) { if (POLICY == 5) return false; }
    if (POLICY == 2 && s && !share_op(op[g].k)) return false;
    if ((POLICY == 3 || POLICY == 4) && (!s || !share_op(op[g].k))) return false;
  }
  return true;
}
static bool calm(int f) {        // every other fiber in an operation is asleep for good
  for (int g = 0; g < nfibers(); ++g) if (g != f && op[g].on && !done(g) && !cvsleep(g)) return false;
  return true;
}
static const char* fairp() { return POLICY == 5 ? "C07" : POLICY >= 3 ? "C08" : POLICY >= 1 ? "C09" : "C05"; }
static char buf_[64];
static const char* MIS();
static const char* P(const char* a, const char* b = "", const char* c = "") { snprintf(buf_, sizeof buf_, "%s %s %s %s", a, b, c, MIS()); return buf_; }
static bool holds(int f, int m) { return mo[m].x == f || mo[m].sh[f]; }
static bool cycle_from(int f, int m) {           // some owner of m waits, through a chain, for a lock of f
  bool seen[3] = {}; int st[3], n = 0; st[n++] = m; seen[m] = true;
  while (n) { int q = st[--n];
    for (int g = 0; g < nfibers(); ++g) if (holds(g, q)) {
      if (g == f) return true;
      if (op[g].on && (op[g].k == 'L' || op[g].k == 'l') && slept_stamp(g) >= 0 && !done(g) && !seen[op[g].m]) { seen[op[g].m] = true; st[n++] = op[g].m; } } }
  return false;
}
static void on_acquire(int f, int m, char k) {
  bool s = share_op(k);
  if (s ? mo[m].x >= 0 : ((mo[m].x >= 0 && !(REC && mo[m].x == f)) || anysh(m))) violation(P(PRIM), "T%d gets %s lock %c while %s", f, s ? "shared" : "exclusive", 'a' + m, mo[m].x >= 0 ? "another thread owns it" : "readers hold it");
  bool nested = REC && mo[m].x == f;
  if (!nested) for (int g = 0; g < nfibers(); ++g) if (g != f && waits(g, m) && !gone(g)) {
    bool gs = share_op(op[g].k); int64_t ga = slept_stamp(g); bool fs = ever_slept(f);
    bool before = ga < (fs ? slept_stamp(f) : op[f].start);
    if (POLICY == 5 && before) violation("C07", "T%d acquires although T%d has been waiting longer", f, g);
    if (POLICY == 3 && before && !(s && gs)) violation("C08", "T%d (%s) acquires although T%d (%s) has been waiting longer", f, s ? "reader" : "writer", g, gs ? "reader" : "writer");
    if (POLICY == 4 && before && !s) violation("C08", "writer T%d acquires although T%d has been waiting longer", f, g);
    if (POLICY == 4 && before && s && !gs && !fs) violation("C08", "reader T%d does not wait although writer T%d is waiting", f, g);
    if (POLICY == 2 && s && !gs && cvsleep(g)) violation("C09", "reader T%d is admitted while writer T%d is waiting", f, g);
  }
  if (op[f].calm && !ran_since(f, op[f].start) && !op[f].grant && hold_ok(f, m, s)) violation(fairp(), "T%d (%s) is admitted at once although the policy denies it", f, s ? "reader" : "writer");
  if (s) ++mo[m].sh[f]; else { mo[m].x = f; ++mo[m].dep; }
  trace("%c%c acquired", k, 'a' + m);
  if (s) { volatile long v = data_[m]; (void)v; } else data_[m] = data_[m] + 1;
}
static void begin(int f, char k, int m) {
  op[f].k = k; op[f].m = m; op[f].dl = -1; op[f].calm = calm(f); op[f].grant = acq_op(k) && granted(f, m, share_op(k)); op[f].on = true; op_begin(); op[f].start = stamp();
  trace("%c%c ...", k, 'a' + m);
}
static void end_(int f) { op_end(); op[f].on = false; must[f] = 0; }
static int code_of(const std::system_error& e) { return e.code().category() == std::generic_category() ? e.code().value() : -1; }
static void slept_check(int f) {
  int m = op[f].m; char k = op[f].k;
  if (!acq_op(k)) return;
  if (REC && mo[m].x == f) violation("C02 C05", "the owner T%d is put to sleep by its own lock", f);
  if (k == 'T' || k == 't') violation("C06", "try operation of T%d sleeps", f);
  if (op[f].calm && op[f].grant && !ran_since(f, op[f].start)) violation(P("C05", fairp(), PRIM), "T%d is put to sleep although the lock can be granted to it", f);
}
// one operation; returns false if an acquisition did not happen
static bool run1(int f, char k, int m) {
  MT& x = *mx[m]; bool s = share_op(k);
  if (k == 'H') { hold(); return true; }
  if (k == 'U' || k == 'u') {
    bool mis = k == 'U' ? mo[m].x != f : !mo[m].sh[f];
    if (mis && (!CHECKED || ABRT)) return true;
    if (mis) misused = true;
    if (!mis && !CHECKED) { if (k == 'U') data_[m] = data_[m] + 1; }
    if (!mis) { if (k == 'U') { if (--mo[m].dep == 0) mo[m].x = -1; } else --mo[m].sh[f]; }
    bool cal = calm(f); unsigned mu = 0;
    if (k == 'U' && !mis && mo[m].x < 0 && cal && POLICY >= 3 && POLICY <= 4) {
      int64_t firstw = -1, firstr = -1;
      for (int g = 0; g < nfibers(); ++g) if (g != f && waits(g, m)) { int64_t a = slept_stamp(g); if (share_op(op[g].k)) { if (firstr < 0 || a < firstr) firstr = a; } else if (firstw < 0 || a < firstw) firstw = a; }
      if (firstr >= 0 && (firstw < 0 || firstr < firstw)) for (int g = 0; g < nfibers(); ++g) if (g != f && waits(g, m) && share_op(op[g].k) && op[g].dl < 0 && (POLICY == 4 || firstw < 0 || slept_stamp(g) < firstw)) mu |= 1u << g;
    }
    begin(f, k, m); int err = 0; bool threw = false;
    try { if (k == 'U') x.unlock();
#if SHARED
      else x.unlock_shared();
#endif
    } catch (const std::system_error& e) { threw = true; err = code_of(e); }
    bool alone = !ran_since(f, op[f].start);
    end_(f); trace("%c%c %s", k, 'a' + m, threw ? "throws" : "done");
    if (mis && (!threw || err != EPERM)) violation("C10", "unlock without holding the lock in that mode is not reported as operation_not_permitted");
    if (!mis && threw) violation(P("C10", PRIM), "unlock of a lock that is held throws");
    if (mu && alone) for (int g = 0; g < nfibers(); ++g) if (mu >> g & 1 && op[g].on) must[g] = 1;
    return true;
  }
  bool mis = CHECKED && ((mo[m].x == f && !REC) || mo[m].sh[f]);
  if (mis && ABRT) return false;
  if (mis) misused = true;
  bool nested = REC && mo[m].x == f;
  begin(f, k, m); bool ok = false, threw = false; int err = 0;
  try {
    switch (k) {
    case 'L': x.lock(); ok = true; break;
    case 'T': ok = x.try_lock(); break;
#if TIMED
    case 'F': { op[f].dl = -2; ok = x.try_lock_for(ns(D)); break; }
    case 'P': { op[f].dl = -3; ok = x.try_lock_for(ns(-5)); break; }
    case 'Y': { op[f].dl = vtime + D; ok = x.try_lock_until(std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(ns(SYSTEM0 + op[f].dl)))); break; }
#endif
#if SHARED
    case 'l': x.lock_shared(); ok = true; break;
    case 't': ok = x.try_lock_shared(); break;
#if TIMED
    case 'f': { op[f].dl = -2; ok = x.try_lock_shared_for(ns(D)); break; }
    case 'y': { op[f].dl = vtime + D; ok = x.try_lock_shared_until(std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(ns(SYSTEM0 + op[f].dl)))); break; }
#endif
#endif
    }
  } catch (const std::system_error& e) { threw = true; err = code_of(e); }
  int64_t dl = op[f].dl; bool still = op[f].calm && !ran_since(f, op[f].start); bool grant = op[f].grant;
  if (mis) {
    end_(f); trace("%c%c %s", k, 'a' + m, threw ? "throws" : "returns");
    if (!threw || err != EDEADLK) violation("C10", "locking again what the thread already holds is not reported as resource_deadlock_would_occur");
    return false;
  }
  if (threw) {
    bool c = (k == 'L' || k == 'l') && DETECT && err == EDEADLK;
    if (!c) violation("C10 C11", "correct use throws (code %d)", err);
    if (!cycle_from(f, m)) violation("C11 C10", "T%d is refused although no cycle is closed", f);
    end_(f); trace("%c%c refused", k, 'a' + m); return false;
  }
  if (ok) {
    if (DETECT && (k == 'L' || k == 'l') && still && !grant && !hold_ok(f, m, s)) {}
    on_acquire(f, m, k); end_(f); return true;
  }
  trace("%c%c failed", k, 'a' + m);
  if (nested) violation("C02 C06", "try by the owner fails");
  if (dl == -2 || dl == -3) { int64_t c1 = first_clock(f); dl = c1 < 0 ? -1 : c1 + (dl == -2 ? D : -5); if (c1 < 0) violation("C06", "timed attempt fails without looking at the clock"); }
  if (dl >= 0 && vtime < dl) violation("C06", "T%d gives up %ld ns before its deadline", f, (long)(dl - vtime));
  int64_t since = lock_stamp(f) > op[f].start ? lock_stamp(f) : op[f].start;     // the last moment the operation looked at the lock
  op[f].on = false; bool g2 = granted(f, m, s); op[f].on = true;
  if (!SPINNY && calm(f) && !ran_since(f, since) && g2) violation(P("C06", POLICY >= 1 && POLICY <= 4 ? fairp() : ""), "T%d fails to acquire although the lock is available to it", f);
  end_(f); return false;
}
static void script(int f, const std::string& s) {
  for (size_t i = 0; i < s.size(); ++i) {
    char k = s[i]; if (k == ' ') continue;
    int m = 0; if (i + 1 < s.size() && s[i+1] >= 'a' && s[i+1] <= 'c' && k != 'H') { m = s[i+1] - 'a'; ++i; }
    bool r = run1(f, k, m);
    if (!r && acq_op(k)) {     // not acquired: skip the matching release (the next U/u of that mutex), unless misuse
      if (CHECKED && (mo[m].x == f || mo[m].sh[f])) continue;
      char rel = share_op(k) ? 'u' : 'U'; size_t j = i + 1;
      for (; j < s.size(); ++j) if (s[j] == rel && ((j + 1 < s.size() && s[j+1] >= 'a' && s[j+1] <= 'c') ? s[j+1] - 'a' : 0) == m) break;
      // refused: release everything still held and stop
      if (k == 'L' || k == 'l') { for (int q = 0; q < nm; ++q) { while (mo[q].x == f) run1(f, 'U', q); while (mo[q].sh[f]) run1(f, 'u', q); } return; }
      i = j < s.size() ? j : s.size();
      if (i + 1 < s.size() && s[i+1] >= 'a' && s[i+1] <= 'c') ++i;
    }
  }
}
static void setup() {
#if CHECKED && DETECT
  yamc::validator::deadlock::global_table().mutexmap.clear();
#endif
  for (int i = 0; i < nm; ++i) { memset(store_[i], 0x5a, sizeof(MT)); mx[i] = new (store_[i]) MT; mo[i].x = -1; mo[i].dep = 0; memset(mo[i].sh, 0, sizeof mo[i].sh); data_[i] = 0;
    track(store_[i], sizeof(MT), "the lock"); track(&data_[i], sizeof(long), "data guarded by the lock"); }
  memset(op, 0, sizeof op); memset(must, 0, sizeof must); misused = false;
  on_plainwait = [] { slept_check(self()); };
  on_timedwait = [](int, int64_t dl) {
    int f = self(); slept_check(f);
    int64_t e = op[f].dl == -2 ? first_clock(f) + D : op[f].dl;
    if (op[f].dl == -2 && first_clock(f) >= 0) op[f].dl = e;
    if (e >= 0 && dl > e + 100000) violation("C06", "T%d waits %ld ns beyond its deadline", f, (long)(dl - e));
  };
}
static void quiescent() {
  for (int f = 0; f < nfibers(); ++f) if (!done(f) && !holding(f) && op[f].on) {
    int m = op[f].m; bool s = share_op(op[f].k);
    if (mtxblocked(f) && (!acq_op(op[f].k) || op[f].k == 'T' || op[f].k == 't' || hold_ok(f, m, s))) violation(P("C05", PRIM), "T%d is stuck on the internal mutex, which an operation that has ended left locked", f);
    if (!acq_op(op[f].k)) violation("C05", "T%d is stuck in an unlock", f);
    if (REC && mo[m].x == f) violation("C02 C05", "the owner T%d sleeps on its own lock", f);
    bool ahead = false;      // somebody with precedence is waiting too
    for (int g = 0; g < nfibers(); ++g) if (g != f && waits(g, m)) {
      bool gs = share_op(op[g].k);
      if (POLICY == 2 && s && !gs) ahead = true;
      if ((POLICY == 3 || POLICY == 4 || POLICY == 5) && slept_stamp(g) < slept_stamp(f) && !(s && gs && POLICY != 5)) ahead = true;
    }
    if (hold_ok(f, m, s) && !ahead) violation(P("C05", fairp(), PRIM), "T%d stays asleep although %s lock %c could be granted to it", f, s ? "shared" : "exclusive", 'a' + m);
    if (must[f]) violation("C08 C05", "reader T%d is not admitted by the release of the exclusive lock", f);
    if (DETECT && (op[f].k == 'L' || op[f].k == 'l') && cycle_from(f, m)) violation("C11 C05", "T%d sleeps in a cycle of waiting threads that was not refused", f);
  }
  for (int f = 0; f < 6; ++f) must[f] = 0;
}
static void finish() {
  for (int i = 0; i < nm; ++i) {
    if (mo[i].x >= 0 || anysh(i)) continue;
    bool ok = false;
    try { ok = mx[i]->try_lock(); } catch (...) {}
    if (!ok && !SPINNY) violation(P(PRIM, "C05", "C06"), "the lock is not free after everybody released it");
    if (ok) try { mx[i]->unlock(); } catch (...) { violation("C10", "unlock throws"); }
#if SHARED
    try { ok = mx[i]->try_lock_shared(); } catch (...) { ok = false; }
    if (!ok) violation(P(PRIM, "C05", "C06"), "the lock is not free after everybody released it");
    if (ok) try { mx[i]->unlock_shared(); } catch (...) { violation("C10", "unlock_shared throws"); }
#endif
#if CHECKED
    try { mx[i]->~MT(); } catch (...) { violation("C10", "destroying a free mutex throws"); }
#endif
  }
#if CHECKED && DETECT
  bool all = true; for (int i = 0; i < nm; ++i) all = all && mo[i].x < 0 && !anysh(i);
  if (all && !yamc::validator::deadlock::global_table().mutexmap.empty()) violation("C11", "the detector still lists a destroyed mutex");
#endif
}
static bool go(std::vector<std::string> sc, double secs, int mutexes = 1, int bound = 2) {
  if (!report.empty()) return false;
  Scenario s; nm = mutexes; s.name = ""; for (auto& x : sc) s.name += "[" + x + "] ";
  s.setup = setup; s.quiescent = quiescent; s.finish = finish;
  for (size_t i = 0; i < sc.size(); ++i) { std::string t = sc[i]; int f = (int)i; s.threads.push_back([f, t] { script(f, t); }); }
  Limits l; l.bound = bound; l.seconds = secs; l.execs = 2000000; l.max_timeouts = 3; l.max_spurious = 1;
  return explore(s, l);
}
#if CHECKED
#include <sys/wait.h>
#include <unistd.h>
// uses by one thread, misuse last: reported (thrown or, when so configured, aborting) with the right code
static int useof(const char* ops) {      // 0 no report, code, -1 other exception, 256 abort
  alignas(64) static char b[sizeof(MT)]; MT* p = new (b) MT; int r = 0;
  for (const char* q = ops; *q && !r; ++q) try { switch (*q) {
    case 'L': p->lock(); break; case 'T': (void)p->try_lock(); break; case 'U': p->unlock(); break; case 'D': p->~MT(); break;
#if TIMED
    case 'F': (void)p->try_lock_for(ns(10)); break; case 'Y': (void)p->try_lock_until(std::chrono::system_clock::now()); break;
#endif
#if SHARED
    case 'l': p->lock_shared(); break; case 't': (void)p->try_lock_shared(); break; case 'u': p->unlock_shared(); break;
#if TIMED
    case 'f': (void)p->try_lock_shared_for(ns(10)); break; case 'y': (void)p->try_lock_shared_until(std::chrono::system_clock::now()); break;
#endif
#endif
    } } catch (const std::system_error& e) { r = q[1] ? -2 : code_of(e); } catch (...) { r = -1; }
#if DETECT && !ABRT
  yamc::validator::deadlock::global_table().mutexmap.clear();
#endif
  return r;
}
static int use_of(const char* ops) {
  if (!ABRT) return useof(ops);
  int fd[2]; if (pipe(fd)) return 0;
  pid_t c = fork();
  if (c == 0) { for (int s : {6, 11}) signal(s, SIG_DFL); int r = useof(ops); if (write(fd[1], &r, sizeof r)) {} _exit(0); }
  int st = 0, r = 0; waitpid(c, &st, 0); if (WIFEXITED(st) && read(fd[0], &r, sizeof r) < 0) r = 0;
  close(fd[0]); close(fd[1]); return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT ? 256 : WIFSIGNALED(st) ? -3 : r;
}
static void misuse_tests() {
  struct { const char* o; int e; } t[] = { {"D", 0}, {"LD", EDEADLK}, {"LUD", 0}, {"TD", EDEADLK}, {"TUD", 0}, {"U", EPERM}, {"LUU", EPERM},
#if REC
    {"LLUUD", 0}, {"LLUD", EDEADLK}, {"LTUUU", EPERM},
#else
    {"LL", EDEADLK}, {"LT", EDEADLK}, {"TL", EDEADLK},
#if TIMED
    {"LF", EDEADLK}, {"LY", EDEADLK}, {"FL", EDEADLK},
#endif
#endif
#if SHARED
    {"lD", EDEADLK}, {"luD", 0}, {"tD", EDEADLK}, {"u", EPERM}, {"luu", EPERM}, {"Lu", EPERM}, {"lU", EPERM}, {"ll", EDEADLK}, {"lL", EDEADLK}, {"Ll", EDEADLK}, {"lT", EDEADLK}, {"lt", EDEADLK}, {"Lt", EDEADLK}, {"luLUluD", 0},
#if TIMED
    {"lF", EDEADLK}, {"lf", EDEADLK}, {"Lf", EDEADLK}, {"ly", EDEADLK}, {"Ly", EDEADLK}, {"lY", EDEADLK}, {"fuyuFUYUD", 0},
#endif
#endif
  };
  for (auto& x : t) { int r = use_of(x.o); int e = ABRT && x.e ? 256 : x.e; if (r != e) { report = std::string("sequence of operations of one thread (L lock, T try_lock, F/Y timed, U unlock, small: shared, D destroy): ") + x.o + "\nviolated: the last one reports " + std::to_string(r) + " instead of " + std::to_string(e) + " (256: abort)\n"; return; } }
}
#endif
static void all() {
  double T = (deadline_real - now_real());
  typedef std::vector<std::string> V; std::vector<V> S;
#if SHARED
  S = { {"l H u", "L U", "l u"}, {"L H U", "l H u", "l H u", "L U"}, {"l H u", "L U", "t u", "T U"}, {"L H U", "T U", "t u", "l H u"}, {"l H u", "l H u", "L H U", "L U"}, {"l H u", "L H U", "l H u", "l H u"}, {"L H U", "L H U", "l H u", "l H u"}, {"L U", "l u", "L U"},
        {"L H U", "l H u", "L H U", "l H u", "l H u"}, {"l H u", "L H U", "l H u", "L H U", "l u"} };
#if TIMED
  std::vector<V> Q = { {"l H u", "F U", "l u"}, {"L H U", "f u", "l u"}, {"l H u", "F H U", "l H u", "l u"}, {"L H U", "F U", "l H u", "l u"}, {"l H u", "F U", "L U", "l u"}, {"L H U", "F U", "L U"}, {"L H U", "f u", "F U", "L U"}, {"l H u", "F U", "t u"},
        {"L H U", "Y U", "y u"}, {"L H U", "P U", "f u"}, {"l H u", "P U", "f u"}, {"l H u", "F U", "F U", "l u"}, {"L H U", "f H u", "F H U", "f H u"}, {"L H U", "F H U", "l H u", "L U"}, {"P U"}, {"F U", "f u"}, {"l H u", "L H U", "f u", "F U"}, {"l H u", "L H U", "F U", "l u"}, {"L H U", "L H U", "F U", "l u", "l u"}, {"L H U", "l H u", "F U", "l u", "l u"} };
  S.insert(S.begin(), Q.begin(), Q.end());
#endif
#elif REC
  S = { {"L L U U", "L U"}, {"L L U H U", "L U", "T U"}, {"L T U U", "L U", "L U"}, {"L H U", "L L H U U", "T T U U", "L U"}, {"L H T H U H U", "T U", "L U"}, {"L L L U U U L U", "T U"} };
#if TIMED
  std::vector<V> Q = { {"L F U U", "F U"}, {"L L H U H U", "F U", "L U"}, {"L H U", "F F U U", "L U"}, {"L H U", "F U", "F U"}, {"L H U", "F H U", "L U", "L U"}, {"L H U", "Y U", "L U"}, {"P U"}, {"L P H U H U", "P U"}, {"L H U", "F U", "T U", "L U"}, {"L H U", "L H U", "F U", "L H U"} };
  S.insert(S.begin(), Q.begin(), Q.end());
#endif
#else
  S = { {"L U", "L U", "L U"}, {"L U", "T U", "T U"}, {"L H U", "L U", "L U", "T U"}, {"L U L U", "L U", "T U"}, {"L H U", "L H U", "L H U"}, {"L H U T U", "L H U", "T U"} };
#if TIMED
  std::vector<V> Q = { {"L H U", "F U", "L U"}, {"L H U", "F U", "F U"}, {"L H U", "F H U", "L U", "L U"}, {"L H U", "Y U", "L U"}, {"P U"}, {"L H U", "P U"}, {"L H U", "F U", "T U", "L U"}, {"L H U", "F U", "L H U", "T U"}, {"L U", "F U", "Y U"}, {"L H U", "L H U", "F U", "L H U"} };
  S.insert(S.begin(), Q.begin(), Q.end());
#endif
#endif
#if CHECKED && !ABRT
  std::vector<V> C = { {"U", "L H U"}, {"L U U", "L U"}, {"U L U"}, {"L H U", "L U", "U"} };
#if !REC
  C.push_back({"L L U", "L U"}); C.push_back({"L T U", "T U"});
#if TIMED
  C.push_back({"L F U", "F U"}); C.push_back({"L Y U", "F U"});
#endif
#else
  C.push_back({"L L U U U", "L U"});
#endif
#if SHARED
  for (auto v : std::vector<V>{ {"l U u", "l H u"}, {"L u U", "L U"}, {"u", "l H u"}, {"U", "l H u"}, {"u", "L H U"}, {"l L u", "l u"}, {"l T u", "L U"}, {"l l u", "L U"}, {"l t u", "L U"}, {"L l U", "L U"}, {"L t U", "l u"}, {"l u u", "l H u"}, {"l H u", "l u u", "L U"}, {"l H u u", "l H u"} }) C.push_back(v);
#if TIMED
  for (auto v : std::vector<V>{ {"l f u", "l u"}, {"l F u", "L U"}, {"L f U", "l u"}, {"L y U"}, {"l y u"}, {"l Y u"} }) C.push_back(v);
#endif
#endif
  if (want == "C10") S.insert(S.begin(), C.begin(), C.end()); else S.insert(S.end(), C.begin(), C.end());
#endif
#if DETECT && !ABRT
  std::vector<std::pair<V, int>> Dl = { {{"La Lb Ub Ua", "Lb La Ua Ub"}, 2}, {{"La Lb Ub Ua", "Lb Lc Uc Ub", "Lc La Ua Uc"}, 3}, {{"La H Ua", "La Lb Ub Ua", "Lb La Ua Ub"}, 2}, {{"La H Ua La Ua", "La Ua", "La Ua"}, 1}, {{"Lb H La Ua Ub", "La H Lb Ub Ua", "La Ua", "Lb Ub"}, 2}, {{"Lb H Ub", "La Lb Ub Ua", "La Ua"}, 2}, {{"Lb H La Ua Ub", "Lb Ub", "La H H Lb Ub Ua"}, 2} };
#if SHARED
  for (auto v : std::vector<std::pair<V, int>>{ {{"la H Lb Ub ua", "la H ua", "Lb H La Ua Ub"}, 2}, {{"la H ua", "la H Lb Ub ua", "Lb H La Ua Ub"}, 2}, {{"la Lb Ub ua", "Lb la ua Ub"}, 2}, {{"la H Lb Ub ua", "Lb H La Ua Ub"}, 2}, {{"lb H La Ua ub", "La H lb ub Ua", "La Ua"}, 2}, {{"lb H La Ua ub", "la H Lb Ub ua", "la ua"}, 2} }) Dl.push_back(v);
#endif
  if (want == "C11") for (int r = 0; r < 2; ++r) for (auto& d : Dl) if (!go(d.first, T/20, d.second, r + 1)) return;
#endif
#if CHECKED
  if (want == "C10") { misuse_tests(); if (!report.empty()) return; }
#endif
  for (int r = 0; r < 3; ++r) for (auto& s : S) {
    double left = deadline_real - now_real(); if (left < 0) return;
    if (!go(s, T*(r == 0 ? 0.15 : r == 1 ? 0.35 : 0.5)/(double)S.size(), 1, r + 1)) return;
  }
#if DETECT && !ABRT
  for (auto& d : Dl) if (!go(d.first, T/20, d.second, 1)) return;
#endif
}
int main(int c, char** v) { return main_loop(c, v, all); }
