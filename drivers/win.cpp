#include "common.hpp"
#include "win_native_mutex.hpp"
using T = yamc::win::CLS;
#define OFFX(x) OFF(x)
OBJ() OFFX(HND)
CTOR() DTOR() EXCL_BASIC()
extern "C" void* m_handle(T* p) { return (void*)p->native_handle(); }
#ifdef SHAREDOPS
SHARED_BASIC()
#endif
#ifdef TIMEDOPS
EXCL_TIMED()
#endif
