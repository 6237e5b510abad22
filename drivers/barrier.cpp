#include "common.hpp"
#include "yamc_barrier.hpp"
extern "C" void vp_completion();
struct Comp { void operator()() { vp_completion(); } };
#ifdef NOCOMP
using T = yamc::barrier<>;
#else
using T = yamc::barrier<Comp>;
#endif
OBJ() OFF(counter_) OFF(init_count_) OFF(phase_) OFF(cv_) OFF(mtx_)
DTOR()
extern "C" {
void m_ctor(T* p, long n) { new (p) T(n); }
T::arrival_token m_arrive(T* p, long u) { return p->arrive(u); }
T::arrival_token m_arrive1(T* p) { return p->arrive(); }
void m_wait(T* p, T::arrival_token* t) { p->wait(std::move(*t)); }
void m_arrive_and_wait(T* p) { p->arrive_and_wait(); }
void m_arrive_and_drop(T* p) { p->arrive_and_drop(); }
}
