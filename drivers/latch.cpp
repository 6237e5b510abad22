#include "common.hpp"
#include "yamc_latch.hpp"
using T = yamc::latch;
OBJ() OFF(counter_) OFF(cv_) OFF(mtx_)
DTOR()
extern "C" {
void m_ctor(T* p, long n) { new (p) T(n); }
void m_count_down(T* p, long u) { p->count_down(u); }
void m_count_down1(T* p) { p->count_down(); }
bool m_try_wait(T* p) { return p->try_wait(); }
void m_wait(T* p) { p->wait(); }
void m_arrive_and_wait(T* p, long u) { p->arrive_and_wait(u); }
void m_arrive_and_wait1(T* p) { p->arrive_and_wait(); }
}
