#include "common.hpp"
#include "alternate_mutex.hpp"
using T = yamc::alternate::timed_mutex;
OBJ() OFF(state_) OFF(cv_) OFF(mtx_)
CTOR() DTOR() EXCL_BASIC() EXCL_TIMED()
