#include "common.hpp"
#include "posix_semaphore.hpp"
#ifdef BINARY
using T = yamc::posix::binary_semaphore;
#else
using T = yamc::posix::counting_semaphore<>;
#endif
OBJ() OFF(sem_)
DTOR()
extern "C" {
void m_ctor(T* p, long n) { new (p) T(n); }
void m_release(T* p, long u) { p->release(u); }
void m_release1(T* p) { p->release(); }
void m_acquire(T* p) { p->acquire(); }
bool m_try_acquire(T* p) { return p->try_acquire(); }
bool m_try_acquire_for_ns(T* p, long d) { return p->try_acquire_for(ns_(d)); }
bool m_try_acquire_for_ms(T* p, long d) { return p->try_acquire_for(ms_(d)); }
bool m_try_acquire_until_system(T* p, long d) { return p->try_acquire_until(std::chrono::time_point<system_, ns_>(ns_(d))); }
bool m_try_acquire_until_system_ms(T* p, long d) { return p->try_acquire_until(std::chrono::time_point<system_, ms_>(ms_(d))); }
bool m_try_acquire_until_steady(T* p, long d) { return p->try_acquire_until(std::chrono::time_point<steady_, ns_>(ns_(d))); }
}
