#include "common.hpp"
#ifdef CHECKED
#include "checked_shared_mutex.hpp"
#define NSP checked
#else
#include "alternate_shared_mutex.hpp"
#define NSP alternate
#endif
#ifdef TIMEDOPS
using T = yamc::NSP::basic_shared_timed_mutex<yamc::rwlock::POL>;
#else
using T = yamc::NSP::basic_shared_mutex<yamc::rwlock::POL>;
#endif
#define OFFP(n, path) extern "C" const unsigned long OFF_##n = __builtin_offsetof(T, path); extern "C" const unsigned long SZ_##n = sizeof(((T*)0)->path);
OBJ() OFF(cv_) OFF(mtx_)
#ifdef IS_RP
OFFP(rwcount, state_.rwcount)
#else
OFFP(nwriter, state_.nwriter) OFFP(nreader, state_.nreader)
#endif
#ifdef CHECKED
OFF(e_owner_) OFF(s_owner_)
#endif
CTOR() DTOR() EXCL_BASIC() SHARED_BASIC()
#ifdef TIMEDOPS
EXCL_TIMED() SHARED_TIMED()
#endif
