#include "common.hpp"
#include "checked_mutex.hpp"
using T = yamc::checked::CLS;
OBJ() OFF(owner_) OFF(cv_) OFF(mtx_)
#ifdef REC
OFF(ncount_)
#endif
CTOR() DTOR() EXCL_BASIC()
#ifdef TIMEDOPS
EXCL_TIMED()
#endif
