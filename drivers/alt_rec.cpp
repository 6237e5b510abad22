#include "common.hpp"
#include "alternate_mutex.hpp"
using T = yamc::alternate::recursive_mutex;
OBJ() OFF(ncount_) OFF(owner_) OFF(mtx_)
CTOR() DTOR() EXCL_BASIC()
