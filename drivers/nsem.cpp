#include "common.hpp"
#ifdef WIN
#include "win_semaphore.hpp"
#define NS win
#else
#include "gcd_semaphore.hpp"
#define NS gcd
#endif
#ifdef BINARY
using T = yamc::NS::binary_semaphore;
#else
using T = yamc::NS::counting_semaphore<>;
#endif
#define OFFX(x) OFF(x)
OBJ() OFFX(HND)
DTOR()
extern "C" {
void m_ctor(T* p, long n) { new (p) T(n); }
void m_release(T* p, long u) { p->release(u); }
void m_release1(T* p) { p->release(); }
void m_acquire(T* p) { p->acquire(); }
bool m_try_acquire(T* p) { return p->try_acquire(); }
}
TIMED(try_acquire)
