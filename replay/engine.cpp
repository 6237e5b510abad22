#include "engine.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <map>
#include <unordered_map>
#include <set>
#include <algorithm>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <cxxabi.h>
namespace eng {
int64_t vtime; std::string want, report; long total_execs; double deadline_real; unsigned seed = 1; int notify_one_used;
std::function<void(int, int64_t)> on_timedwait; std::function<void()> on_plainwait; std::function<void(int)> on_native;
enum State { RUN, BLKM, SLEEP, HOLD, SPIN, DONE };
struct EH { void* a; unsigned b; };
struct Fiber {
  void* sp = nullptr; char* stack = nullptr; State st = DONE; const void* obj = nullptr; const void* mtx = nullptr; bool timed = false; int64_t dl = 0; bool tout = false;
  VC vc; EH eh; std::function<void()>* body = nullptr; const void* spin = nullptr; int spins = 0; bool fresh = false;
  bool inop = false, slept = false; int64_t clk1 = -1, tat = -1, sat = -1; long lastrun = 0, gotm = -1;
};
static Fiber F[MAXF]; static int nf, cur = -1; static void* sched_sp; static EH sched_eh;
constexpr size_t STK = 256*1024;
struct Mtx { int owner = -1; VC vc; };
static std::unordered_map<const void*, Mtx> mtxs; static std::unordered_map<const void*, VC> avc;
struct Range { char* a; char* b; const char* what; };
static std::vector<Range> ranges;
struct Shadow { int w = -1; uint32_t wc = 0; uint32_t r[MAXF]; };
static std::unordered_map<uintptr_t, Shadow> shadow;
static std::vector<std::string> tr; static long steps, accesses; static bool stop_exec, found; static const char* vprops;
static bool in_engine = true;
// --- choices
struct Ch { int n, k; };
static std::vector<Ch> pre; static size_t pos; static bool randmode; static unsigned long rs;
static unsigned rnd() { rs = rs*6364136223846793005UL + 1442695040888963407UL; return (unsigned)(rs >> 33); }
static int choose(int n) {
  if (n <= 1) return 0;
  if (randmode) { int k = (int)(rnd() % (unsigned)n); pre.push_back({n, k}); ++pos; return k; }
  if (pos < pre.size()) return pre[pos++].k;
  pre.push_back({n, 0}); ++pos; return 0;
}
extern "C" void eng_switch(void** save, void* to);
asm(R"(
.text
.globl eng_switch
eng_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
static void to_sched() {
  int me = cur; EH* g = (EH*)abi::__cxa_get_globals(); F[me].eh = *g; *g = sched_eh; cur = -1;
  eng_switch(&F[me].sp, sched_sp);
}
static void run_fiber(int f) {
  EH* g = (EH*)abi::__cxa_get_globals(); sched_eh = *g; *g = F[f].eh; cur = f; in_engine = false;
  eng_switch(&sched_sp, F[f].sp);
  in_engine = true;
}
static void fiber_main() {
  try { (*F[cur].body)(); } catch (...) { int c = cur; (void)c; in_engine = true; violation("*", "exception escapes a client thread"); }
  F[cur].st = DONE; to_sched(); abort();
}
int self() { return cur; }
uint64_t tid_of(int f) { return (uint64_t)(f + 1)*4096 + 64; }
bool sleeping(int f) { return F[f].st == SLEEP || F[f].st == SPIN || F[f].st == BLKM; }
bool timed_sleep(int f) { return F[f].st == SLEEP && F[f].timed; }
bool done(int f) { return F[f].st == DONE; }
bool holding(int f) { return F[f].st == HOLD; }
bool ever_slept(int f) { return F[f].slept; }
int64_t first_clock(int f) { return F[f].clk1; }
int64_t timeout_at(int f) { return F[f].tat; }
int64_t lock_stamp(int f) { return F[f].gotm; }
int64_t slept_stamp(int f) { return F[f].sat; }
bool ran_since(int f, int64_t s) { for (int g = 0; g < nf; ++g) if (g != f && F[g].lastrun > s) return true; return false; }
bool cvsleep(int f) { return F[f].st == SLEEP; }
bool mtxblocked(int f) { return F[f].st == BLKM; }
int nfibers() { return nf; }
int64_t stamp() { return steps; }
void op_begin() { Fiber& f = F[cur]; f.inop = true; f.slept = false; f.clk1 = f.tat = f.sat = -1; f.spins = 0; }
void op_end() { F[cur].inop = false; }
double now_real() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
void trace(const char* fmt, ...) {
  char b[400]; int n = snprintf(b, sizeof b, "[%ld] T%d ", steps, cur); va_list ap; va_start(ap, fmt); vsnprintf(b + n, sizeof b - (size_t)n, fmt, ap); va_end(ap); tr.push_back(b);
}
static std::string curname; long max_steps = 4000;
void violation(const char* props, const char* fmt, ...) {
  if (stop_exec) { if (cur >= 0) to_sched(); return; }
  char b[600]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  std::string p = std::string(" ") + props + " ";
  stop_exec = true;
  if (want == "ANY" || p.find(" * ") != std::string::npos || p.find(" " + want + " ") != std::string::npos) {
    found = true; report = "scenario: " + curname + "\nviolated: " + b + "\nschedule:\n";
    for (auto& s : tr) report += "  " + s + "\n";
  }
  in_engine = true;
  if (cur >= 0) to_sched();
}
void track(void* p, size_t n, const char* what) { ranges.push_back({(char*)p, (char*)p + n, what}); }
static const Range* tracked(const void* p) { for (auto& r : ranges) if ((char*)p >= r.a && (char*)p < r.b) return &r; return nullptr; }
static void tick() { ++F[cur].vc.c[cur]; }
static void join(VC& a, const VC& b) { for (int i = 0; i < MAXF; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
void point() { if (cur < 0) return; in_engine = true; to_sched(); in_engine = false; if (stop_exec) { for (;;) to_sched(); } }
void hold() { if (cur < 0) return; trace("holds until nobody else can run"); F[cur].st = HOLD; point(); trace("goes on"); }
static void block(State s) { F[cur].st = s; point(); }

// --- plain accesses
static void access(const void* p, size_t n, bool w) {
  if (in_engine || cur < 0 || stop_exec) return;
  if (++accesses > 3000000) { violation("*", "an operation does not terminate (more than 3 million memory accesses)"); }
  const Range* r = tracked(p);
  if (!r) {
    for (int f = 0; f < nf; ++f) if (f != cur && (char*)p >= F[f].stack && (char*)p < F[f].stack + STK) {
      if (!F[f].inop || (char*)p < (char*)F[f].sp - 128) violation("C20", "%s of the stack of T%d, which is not inside that call any more", w ? "write" : "read", f);
    }
    return;
  }
  uintptr_t a = (uintptr_t)p & ~(uintptr_t)7;
  for (uintptr_t e = (uintptr_t)p + n; a < e; a += 8) {
    auto it = shadow.find(a); if (it == shadow.end()) { it = shadow.emplace(a, Shadow()).first; memset(it->second.r, 0, sizeof it->second.r); }
    Shadow& s = it->second; VC& v = F[cur].vc;
    if (s.w >= 0 && s.w != cur && s.wc > v.c[s.w]) violation("C04", "data race on %s+%ld: %s by T%d is not ordered after the write by T%d", r->what, (long)((char*)a - r->a), w ? "write" : "read", cur, s.w);
    if (w) {
      for (int f = 0; f < nf; ++f) if (f != cur && s.r[f] > v.c[f]) violation("C04", "data race on %s+%ld: write by T%d is not ordered after the read by T%d", r->what, (long)((char*)a - r->a), cur, f);
      s.w = cur; s.wc = v.c[cur];
    } else s.r[cur] = v.c[cur];
  }
}
// --- atomics
static bool acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static bool rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void apoint(const void* p) { if (!in_engine && cur >= 0 && tracked(p)) point(); }
static void aread(const void* p, int mo) { if (in_engine || cur < 0) return; if (acq(mo)) { auto i = avc.find(p); if (i != avc.end()) join(F[cur].vc, i->second); } }
static void wake_spinners(const void* p) { for (int f = 0; f < nf; ++f) if (F[f].spin == p) { F[f].spins = 0; if (F[f].st == SPIN) F[f].st = RUN; } }
static void awrite(const void* p, int mo, bool rmw) {
  if (in_engine || cur < 0) return;
  if (rel(mo)) { if (!rmw) avc[p] = F[cur].vc; else join(avc.emplace(p, VC{}).first->second, F[cur].vc); tick(); }
  else if (!rmw) avc[p] = VC{};
  if (tracked(p)) wake_spinners(p);
}
static void spinning(const void* p) {   // an unsuccessful look at p
  if (in_engine || cur < 0 || !tracked(p)) return;
  Fiber& f = F[cur]; if (f.spin != p) { f.spin = p; f.spins = 0; }
  if (++f.spins > 6) { f.slept = true; if (f.sat < 0) f.sat = steps; block(SPIN); f.spins = 3; }
}
static int spur_left;
static bool weak_fail(const void* p) {
  if (in_engine || cur < 0 || !tracked(p) || spur_left <= 0) return false;
  if (choose(2) == 1) { --spur_left; trace("compare_exchange_weak fails spuriously"); return true; }
  return false;
}
// --- scheduler
static int bound_left, tout_left;
static bool enabled(int f) { return F[f].st == RUN || (F[f].st == BLKM && mtxs[F[f].obj].owner < 0); }
static bool exec_once(const Scenario& sc, const Limits& lim) {
  mtxs.clear(); avc.clear(); shadow.clear(); ranges.clear(); tr.clear(); steps = accesses = 0; stop_exec = false; vtime = 0; pos = 0; cur = -1;
  bound_left = lim.bound; tout_left = lim.max_timeouts; spur_left = lim.max_spurious; curname = sc.name;
  nf = (int)sc.threads.size();
  in_engine = true; sc.setup();
  static std::vector<std::function<void()>> bodies; bodies = sc.threads;
  for (int f = 0; f < nf; ++f) {
    Fiber& x = F[f]; char* st = x.stack; if (!st) st = (char*)mmap(nullptr, STK, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    x = Fiber(); x.stack = st; x.st = RUN; x.body = &bodies[(size_t)f]; memset(&x.vc, 0, sizeof x.vc); x.vc.c[f] = 1; x.eh = EH{nullptr, 0};
    void** sp = (void**)(st + STK - 64); sp = (void**)((uintptr_t)sp & ~(uintptr_t)15); *--sp = nullptr; *--sp = (void*)fiber_main; for (int i = 0; i < 6; ++i) *--sp = nullptr; x.sp = sp;
  }
  int last = -1;
  while (!stop_exec) {
    if (++steps > max_steps) break;
    int opt[4*MAXF], kind[4*MAXF], cost[4*MAXF], n = 0;
    bool lasten = last >= 0 && enabled(last); int nen = 0;
    for (int f = 0; f < nf; ++f) nen += enabled(f);
    if (lasten) { opt[n] = last; kind[n] = 0; cost[n++] = 0; }
    for (int f = 0; f < nf; ++f) if (f != last && enabled(f) && (!lasten || bound_left > 0)) { opt[n] = f; kind[n] = 0; cost[n++] = lasten ? 1 : 0; }
    bool quiet = nen == 0;
    if (quiet) {
      bool alldone = true; for (int f = 0; f < nf; ++f) alldone &= F[f].st == DONE;
      if (alldone) { if (sc.finish) sc.finish(); break; }
      if (sc.quiescent) sc.quiescent();
      if (stop_exec) break;
    }
    for (int f = 0; f < nf; ++f) {
      if (F[f].st == HOLD && quiet) { opt[n] = f; kind[n] = 3; cost[n++] = 0; }
      if (F[f].st == SLEEP && F[f].timed && tout_left > 0 && (quiet || bound_left > 0)) { opt[n] = f; kind[n] = 1; cost[n++] = quiet ? 0 : 1; }
      if (F[f].st == SLEEP && F[f].timed && quiet && tout_left <= 0) { opt[n] = f; kind[n] = 1; cost[n++] = 0; }
      if (F[f].st == SLEEP && spur_left > 0 && bound_left > 0) { opt[n] = f; kind[n] = 2; cost[n++] = 1; }
    }
    if (n == 0) { violation("C05", "nobody can run any more: %s", "deadlock"); break; }
    int k = choose(n), f = opt[k]; bound_left -= cost[k];
    if (kind[k] == 1) { --tout_left; F[f].st = RUN; F[f].tout = true; if (F[f].dl > vtime) vtime = F[f].dl; F[f].tat = steps; cur = f; trace("time-out (now=%ld)", (long)vtime); cur = -1; continue; }
    if (kind[k] == 2) { --spur_left; vtime += 3000000; F[f].st = RUN; F[f].tout = false; cur = f; trace("spurious wake-up"); cur = -1; continue; }
    if (kind[k] == 3) { F[f].st = RUN; vtime += 3000000; }
    if (F[f].st == BLKM) F[f].st = RUN;
    last = f; F[f].lastrun = steps; run_fiber(f);
  }
  cur = -1; in_engine = true;
  ++total_execs;
  return !found;
}
bool explore(const Scenario& sc, const Limits& lim) {
  double t0 = now_real(); found = false;
  for (int b = 0; b <= lim.bound; ++b) {
    Limits l = lim; l.bound = b; pre.clear(); randmode = false;
    for (long n = 0; n < lim.execs; ++n) {
      if (!exec_once(sc, l)) return false;
      double t = now_real(); if (t - t0 > lim.seconds || t > deadline_real) return true;
      while (!pre.empty() && pre.back().k + 1 >= pre.back().n) pre.pop_back();
      if (pre.empty()) break;
      ++pre.back().k;
    }
  }
  return true;
}
static void onsig(int s) {
  static char buf[64]; (void)buf;
  report = "scenario: " + curname + "\nviolated: the process dies with signal " + std::to_string(s) + (s == SIGALRM ? " (no progress for 20 s)" : "") + "\nschedule:\n";
  for (auto& x : tr) report += "  " + x + "\n";
  fputs("FOUND\n", stdout); fputs(report.c_str(), stdout); fflush(stdout); _exit(1);
}
int main_loop(int argc, char** argv, std::function<void()> body) {
  want = argv[1]; deadline_real = now_real() + atof(argv[2]); seed = argc > 3 ? (unsigned)atoi(argv[3]) : 1; rs = seed;
  static char alt[65536]; stack_t ss; ss.ss_sp = alt; ss.ss_size = sizeof alt; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
  body();
  if (!report.empty()) { printf("FOUND\n%s", report.c_str()); return 1; }
  printf("NONE %ld\n", total_execs); return 0;
}
}
using namespace eng;
static bool off() { return cur < 0 || in_engine; }
extern "C" {
pthread_t pthread_self() noexcept { return cur < 0 ? (pthread_t)1 : (pthread_t)tid_of(cur); }
static void m_lock(pthread_mutex_t* m) {
  point();
  Mtx& x = mtxs[m];
  if (x.owner == cur) violation("C05", "a thread locks the internal mutex it already holds");
  while (mtxs[m].owner >= 0) { F[cur].obj = m; block(BLKM); }
  Mtx& y = mtxs[m]; y.owner = cur; F[cur].gotm = steps; join(F[cur].vc, y.vc);
}
static void m_unlock(pthread_mutex_t* m) {
  Mtx& x = mtxs[m];
  if (x.owner != cur) { violation("C05", "a thread unlocks an internal mutex it does not hold"); return; }
  x.owner = -1; join(x.vc, F[cur].vc); tick();
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { if (off()) return 0; in_engine = true; in_engine = false; m_lock(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (off()) return 0;
  point(); Mtx& x = mtxs[m]; if (x.owner >= 0) return EBUSY; x.owner = cur; F[cur].gotm = steps; join(F[cur].vc, x.vc); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { if (off()) return 0; point(); m_unlock(m); return 0; }
int pthread_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*) noexcept { return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) noexcept { return 0; }
int pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) noexcept { return 0; }
int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
static int c_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, int clk, int64_t dl) {
  if (off()) return 0;
  if (mtxs[m].owner != cur) violation("C05", "waits without holding the internal mutex");
  if (timed && on_timedwait) { in_engine = true; on_timedwait(clk, dl); in_engine = false; }
  if (!timed && on_plainwait) { in_engine = true; on_plainwait(); in_engine = false; }
  if (timed) trace("sleeps until %ld", (long)dl); else trace("sleeps");
  Fiber& f = F[cur]; f.obj = c; f.timed = timed; f.dl = dl; f.tout = false; f.slept = true; if (f.sat < 0) f.sat = steps;
  m_unlock(m);
  block(SLEEP);
  bool t = F[cur].tout;
  while (mtxs[m].owner >= 0) { F[cur].obj = m; block(BLKM); }
  Mtx& y = mtxs[m]; y.owner = cur; F[cur].gotm = steps; join(F[cur].vc, y.vc);
  return t ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return c_wait(c, m, false, 0, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) { return c_wait(c, m, true, CLOCK_REALTIME, t->tv_sec*1000000000LL + t->tv_nsec - SYSTEM0); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) { return c_wait(c, m, true, k, t->tv_sec*1000000000LL + t->tv_nsec - (k == CLOCK_REALTIME ? SYSTEM0 : STEADY0)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept {
  if (off()) return 0;
  notify_one_used = 1; point(); int w[MAXF], n = 0;
  for (int f = 0; f < nf; ++f) if (F[f].st == SLEEP && F[f].obj == c) w[n++] = f;
  if (n == 0) { trace("notify_one: nobody sleeps"); return 0; }
  in_engine = true; int k = choose(n); in_engine = false; F[w[k]].st = RUN; trace("notify_one wakes T%d", w[k]); return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept {
  if (off()) return 0;
  point(); int n = 0; for (int f = 0; f < nf; ++f) if (F[f].st == SLEEP && F[f].obj == c) { F[f].st = RUN; ++n; }
  trace("notify_all wakes %d", n); return 0;
}
int clock_gettime(clockid_t k, struct timespec* t) noexcept {
  if (cur >= 0) { if (F[cur].clk1 < 0) F[cur].clk1 = vtime; }
  int64_t v = vtime + (k == CLOCK_REALTIME ? SYSTEM0 : STEADY0); t->tv_sec = v/1000000000; t->tv_nsec = v%1000000000; if (cur >= 0) vtime += 1000; return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept { int64_t v = vtime + SYSTEM0; t->tv_sec = v/1000000000; t->tv_usec = v%1000000000/1000; return 0; }
time_t time(time_t* p) noexcept { time_t v = (vtime + SYSTEM0)/1000000000; if (p) *p = v; return v; }
static long yields_;
long eng_yields() { return yields_; }
int sched_yield() noexcept { ++yields_; return 0; }
// ---- clang thread sanitizer interface
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { access(p, n, false); } void __tsan_write##n(void* p) { access(p, n, true); } \
  void __tsan_unaligned_read##n(void* p) { access(p, n, false); } void __tsan_unaligned_write##n(void* p) { access(p, n, true); } \
  void __tsan_read_write##n(void* p) { access(p, n, false); access(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { access(p, n, false); access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
void __tsan_read_range(void* p, size_t n) { access(p, n, false); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true); }
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#define AT(B, T) \
extern "C" T __tsan_atomic##B##_load(const volatile T* p, int mo) { apoint((void*)p); T v = *p; aread((void*)p, mo); spinning((void*)p); return v; } \
extern "C" void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { apoint((void*)p); *p = v; awrite((void*)p, mo, false); } \
extern "C" T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = v; awrite((void*)p, mo, true); spinning((void*)p); return o; } \
extern "C" T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = (T)(o + v); awrite((void*)p, mo, true); return o; } \
extern "C" T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = (T)(o - v); awrite((void*)p, mo, true); return o; } \
extern "C" T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = (T)(o | v); awrite((void*)p, mo, true); return o; } \
extern "C" T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = (T)(o & v); awrite((void*)p, mo, true); return o; } \
extern "C" T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = (T)(o ^ v); awrite((void*)p, mo, true); return o; } \
extern "C" T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { apoint((void*)p); T o = *p; aread((void*)p, mo); *p = (T)~(o & v); awrite((void*)p, mo, true); return o; } \
static int cas##B(volatile T* p, T* c, T v, int mo, int fmo, bool weak) { \
  apoint((void*)p); T o = *p; bool was = in_engine; bool sp = false; if (weak && o == *c) { in_engine = was; sp = weak_fail((void*)p); } \
  if (o == *c && !sp) { aread((void*)p, mo); *p = v; awrite((void*)p, mo, true); if (cur >= 0) F[cur].spins = 0; return 1; } \
  aread((void*)p, fmo); *c = o; if (!sp) spinning((void*)p); return 0; } \
extern "C" int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo) { return cas##B(p, c, v, mo, fmo, false); } \
extern "C" int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return cas##B(p, c, v, mo, fmo, true); } \
extern "C" T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo) { T x = c; cas##B(p, &x, v, mo, fmo, false); return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
