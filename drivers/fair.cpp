#include "common.hpp"
#include "fair_mutex.hpp"
using T = yamc::fair::CLS;
#define OFFP(n, path) extern "C" const unsigned long OFF_##n = __builtin_offsetof(T, path); extern "C" const unsigned long SZ_##n = sizeof(((T*)0)->path);
OBJ()
#ifdef TIMEDOPS
OFFP(queue_, impl_.queue_) OFFP(locked_, impl_.locked_) OFFP(cv_, impl_.cv_) OFFP(mtx_, impl_.mtx_)
OFFP(q_next, impl_.queue_.next) OFFP(q_prev, impl_.queue_.prev)
#else
OFF(next_) OFF(curr_) OFF(cv_) OFF(mtx_)
#endif
#ifdef REC
OFF(ncount_) OFF(owner_)
#endif
CTOR() DTOR() EXCL_BASIC()
#ifdef TIMEDOPS
EXCL_TIMED()
#endif
