// Replay of the deadlock detector: random histories of mutexes created, locked, waited for, unlocked, destroyed (also while held) by threads
// that are played by one real thread; every answer of enqueue() is compared with the wait-for graph of the history.
#include "yamc_lock_validator.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <string>
#include <iostream>
#include <sstream>
#include <cstring>
#include <unistd.h>
using V = yamc::validator::deadlock;
static const int T = 5, M = 4;
static unsigned long rs = 1; static unsigned long rnd() { rs = rs*6364136223846793005UL + 1442695040888963407UL; return rs >> 20; }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
static std::string hist;
[[noreturn]] static void bad(const std::string& w) { printf("FOUND\nhistory (Ti thread, a.. mutexes):\n%sviolated: %s\n", hist.c_str(), w.c_str()); fflush(stdout); _exit(1); }
static void onsig(int s) { char b[64]; snprintf(b, sizeof b, "the process dies with signal %d", s); bad(b); }
static std::thread::id id(int t) { pthread_t p = (pthread_t)(0x7f0000001000UL + (unsigned long)t*0x1000); return std::thread::id(p); }
static uintptr_t base = 0x10000; static uintptr_t key(int m) { return base + 64u*(unsigned)m; }
static int x[M]; static bool sh[M][T]; static int wait_[T]; static bool wsh[T];
static bool own(int t, int m) { return x[m] == t || sh[m][t]; }
static bool free_for(int m, bool s) { if (x[m] >= 0) return false; if (!s) for (int t = 0; t < T; ++t) if (sh[m][t]) return false; return true; }
static bool closes(int t, int m) {          // some owner of m waits, through a chain, for a lock of t
  bool seen[M] = {}; int st[M], n = 0; st[n++] = m; seen[m] = true;
  while (n) { int q = st[--n]; for (int g = 0; g < T; ++g) if (own(g, q)) { if (g == t) return true; int w = wait_[g]; if (w >= 0 && !seen[w]) { seen[w] = true; st[n++] = w; } } }
  return false;
}
static void note(int t, const char* w, int m) { hist += (t < 0 ? std::string() : "T" + std::to_string(t) + " ") + w + " " + std::string(1, (char)('a' + m)) + "\n"; }
static void wait_for(int t, int m, bool s) {
  bool c = closes(t, m); note(t, s ? "waits for a share of" : "waits for", m);
  bool r = V::enqueue(key(m), id(t), s);
  if (!r && !c) bad("the wait is refused although it closes no cycle"); if (r && c) bad("the wait is admitted although it closes a cycle");
  if (r) { wait_[t] = m; wsh[t] = s; } else wait_[t] = -1;
}
static void take(int t, int m, bool s) { note(t, s ? "shares" : "locks", m); V::locked(key(m), id(t), s); if (s) sh[m][t] = true; else x[m] = t; }
static void once() {
  hist.clear(); base += 64*M; for (int t = 0; t < T; ++t) wait_[t] = -1;
  for (int m = 0; m < M; ++m) { x[m] = -1; memset(sh[m], 0, sizeof sh[m]); V::ctor(key(m)); }
  int len = 5 + (int)(rnd() % 40);
  for (int i = 0; i < len; ++i) {
    int t = (int)(rnd() % T), m = (int)(rnd() % M); bool s = rnd() % 3 == 0;
    if (wait_[t] >= 0) {          // woken up
      int w = wait_[t]; V::dequeue(key(w), id(t)); wait_[t] = -1; note(t, "wakes up, which waited for", w);
      if (free_for(w, wsh[t])) take(t, w, wsh[t]); else if (rnd() % 4) wait_for(t, w, wsh[t]);
      continue;
    }
    bool w = false; for (int g = 0; g < T; ++g) w = w || wait_[g] == m;
    if (rnd() % 16 == 0 && !w) {
      note(-1, "destroyed:", m); V::dtor(key(m)); x[m] = -1; memset(sh[m], 0, sizeof sh[m]); note(-1, "created:", m); V::ctor(key(m)); continue; }
    if (own(t, m)) { note(t, "unlocks", m); V::unlocked(key(m), id(t), sh[m][t]); x[m] = -1 == x[m] || x[m] == t ? -1 : x[m]; sh[m][t] = false; continue; }
    if (free_for(m, s)) take(t, m, s); else wait_for(t, m, s);
  }
  for (int t = 0; t < T; ++t) if (wait_[t] >= 0) V::dequeue(key(wait_[t]), id(t));
  for (int m = 0; m < M; ++m) { if (x[m] >= 0) V::unlocked(key(m), id(x[m]), false); for (int t = 0; t < T; ++t) if (sh[m][t]) V::unlocked(key(m), id(t), true); V::dtor(key(m)); }
}
int main(int, char** v) {
  if (strcmp(v[1], "C11")) { printf("NONE\n"); return 0; }
  double end = now() + atof(v[2]); rs = (unsigned long)atoi(v[3])*77 + 1; for (int i = 0; i < 20; ++i) rnd();
  std::ostringstream os; std::cout.rdbuf(os.rdbuf()); for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) signal(s, onsig);
  for (int i = 0; now() < end; ++i) { once(); if (i % 1000 == 0) os.str(""); }
  printf("NONE\n"); return 0;
}
