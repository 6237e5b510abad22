// Replay of the back-off policies: KIND 0 exponential, 1 yield, 2 busy. Observed: at which steps the processor is yielded.
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <csignal>
#include <unistd.h>
#include <sched.h>
#include <string>
#include "yamc_backoff_spin.hpp"
static long yields; static bool blocked;
extern "C" int sched_yield() noexcept { ++yields; return 0; }
extern "C" int nanosleep(const struct timespec*, struct timespec*) { blocked = true; return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { blocked = true; return 0; }
static void bad(const std::string& s) { printf("FOUND\n%s\n", s.c_str()); fflush(stdout); _exit(1); }
static void onalrm(int) { bad("violated: no progress within 60 s"); }
template <unsigned N> static void expo() {
  using P = yamc::backoff::exponential<N>; typename P::state s; long last = 0, gap = 0, prev = -1, step = 0, ny = 0;
  std::string nm = "exponential<" + std::to_string(N) + ">: ";
  long cap = 4L*N + 1000;
  for (step = 1; step <= cap; ++step) {
    long y = yields; P::wait(s); long k = yields - y;
    if (blocked) bad(nm + "step " + std::to_string(step) + "\nviolated: a step sleeps");
    if (k > 1) bad(nm + "step " + std::to_string(step) + "\nviolated: one step yields " + std::to_string(k) + " times");
    gap = step - last;
    if (k == 1) { if (prev >= 0 && gap > prev + (ny == 1 ? 1 : 0)) bad(nm + "violated: the interval grows from " + std::to_string(prev) + " to " + std::to_string(gap) + " steps at step " + std::to_string(step)); if (ny == 0 && gap > (long)N + 1) bad(nm + "violated: the first yield comes after " + std::to_string(gap) + " steps"); prev = gap; last = step; ++ny; }
    else { long lim = prev < 0 ? (long)N + 1 : prev + 1; if (gap > lim) bad(nm + "violated: no yield for " + std::to_string(gap) + " steps, the interval before was " + std::to_string(prev)); }
  }
  if (N <= 2000000 && prev != 1) bad(nm + "violated: the interval is still " + std::to_string(prev) + " after " + std::to_string(cap) + " steps");
}
int main() {
  signal(SIGALRM, onalrm); alarm(60);
#if KIND == 0
  expo<0>(); expo<1>(); expo<2>(); expo<3>(); expo<4>(); expo<5>(); expo<7>(); expo<8>(); expo<16>(); expo<100>(); expo<127>(); expo<128>(); expo<255>(); expo<256>(); expo<257>(); expo<4000>(); expo<32767>(); expo<32768>(); expo<65535>(); expo<65536>(); expo<65537>(); expo<100000>(); expo<131072>(); expo<1000000>();
  { yamc::backoff::exponential<>::state s; for (int i = 0; i < 20000; ++i) yamc::backoff::exponential<>::wait(s); }
#elif KIND == 1
  yamc::backoff::yield::state s; for (int i = 1; i <= 100000; ++i) { yamc::backoff::yield::wait(s); if (yields != i) bad("yield\nviolated: step " + std::to_string(i) + " does not yield exactly once"); }
#else
  yamc::backoff::busy::state s; for (int i = 1; i <= 100000; ++i) { yamc::backoff::busy::wait(s); if (yields) bad("busy\nviolated: a step yields"); }
#endif
  printf("NONE\n"); return 0;
}
