#include "common.hpp"
#include "yamc_semaphore.hpp"
#ifdef BINARY
using T = yamc::binary_semaphore;
#else
using T = yamc::counting_semaphore<>;
#endif
OBJ() OFF(counter_) OFF(cv_) OFF(mtx_)
DTOR() TIMED(try_acquire)
extern "C" {
void m_ctor(T* p, long n) { new (p) T(n); }
void m_release(T* p, long u) { p->release(u); }
void m_release1(T* p) { p->release(); }
void m_acquire(T* p) { p->acquire(); }
bool m_try_acquire(T* p) { return p->try_acquire(); }
}
