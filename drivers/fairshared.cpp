#include "common.hpp"
#include "fair_shared_mutex.hpp"
#ifdef TIMEDOPS
using T = yamc::fair::basic_shared_timed_mutex<yamc::rwlock::POL>;
#else
using T = yamc::fair::basic_shared_mutex<yamc::rwlock::POL>;
#endif
#define OFFP(n, path) extern "C" const unsigned long OFF_##n = __builtin_offsetof(T, path); extern "C" const unsigned long SZ_##n = sizeof(((T*)0)->path);
OBJ()
OFFP(queue_, queue_) OFFP(locked_, locked_) OFFP(cv_, cv_) OFFP(mtx_, mtx_)
OFFP(q_next, queue_.next) OFFP(q_prev, queue_.prev) OFFP(q_status, queue_.status)
CTOR() DTOR() EXCL_BASIC() SHARED_BASIC()
#ifdef TIMEDOPS
EXCL_TIMED() SHARED_TIMED()
#endif
