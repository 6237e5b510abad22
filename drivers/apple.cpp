#include "common.hpp"
#include "apple_native_mutex.hpp"
using T = yamc::apple::unfair_lock;
OBJ() OFF(oslock_)
CTOR() DTOR() EXCL_BASIC()
extern "C" void* m_handle(T* p) { return (void*)p->native_handle(); }
