// Bounded replay of the real headers under a controlled scheduler.
// Every client thread is a fiber; pthread mutexes, condition variables, clocks, thread ids and (through
// the -fsanitize=thread instrumentation) atomics and plain accesses of the real code end up here.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace eng {
constexpr int MAXF = 6;
struct VC { uint32_t c[MAXF]; };
extern int64_t vtime;                        // virtual nanoseconds since both clocks' bases
constexpr int64_t STEADY0 = 1000000000000LL, SYSTEM0 = 1700000000000000000LL;
int self();                                  // running fiber, -1 outside
uint64_t tid_of(int f);
void track(void* p, size_t n, const char* what);   // region checked for data races, and where atomics are schedule points
void hold();                                 // block until every other fiber is blocked or done
void point();                                // plain schedule point
void violation(const char* props, const char* fmt, ...);   // props: space separated; ends the execution (when it concerns the property asked for the run stops)
void trace(const char* fmt, ...);
bool sleeping(int f); bool done(int f); bool holding(int f); bool timed_sleep(int f);
bool ever_slept(int f);                      // slept since op_begin
void op_begin(); void op_end();
int64_t first_clock(int f);                  // value-independent: vtime at the first clock read of the running operation, -1 if none
int64_t timeout_at(int f);                   // schedule stamp of the last time-out of the running operation, -1 if none
bool ran_since(int f, int64_t s);              // another fiber ran after stamp s
bool cvsleep(int f); bool mtxblocked(int f); int nfibers(); extern long max_steps;
int64_t stamp();                             // logical time (schedule steps)
int64_t lock_stamp(int f);                    // when the fiber last got an internal mutex
int64_t slept_stamp(int f);                  // when the running operation first went to sleep
extern std::function<void(int clk, int64_t dl)> on_timedwait;   // absolute deadline (vtime) of a timed wait of the running fiber
extern std::function<void()> on_plainwait;
extern std::function<void(int)> on_native;
struct Scenario {
  std::string name;
  std::function<void()> setup;               // fresh objects
  std::vector<std::function<void()>> threads;
  std::function<void()> quiescent;           // no fiber can run (some may hold)
  std::function<void()> finish;              // all fibers done
};
struct Limits { int bound = 2; long execs = 20000; double seconds = 5; int max_timeouts = 2, max_spurious = 1; };
bool explore(const Scenario&, const Limits&);      // false: violation of the wanted property found
extern std::string want;                     // property looked for
extern std::string report;                   // description of the violation
extern long total_execs;
int main_loop(int argc, char** argv, std::function<void()> body);
double now_real();
extern double deadline_real;
extern unsigned seed;
extern int notify_one_used;
}
