#include "common.hpp"
#include <atomic>
#include "naive_spin_mutex.hpp"
#include "ttas_spin_mutex.hpp"
#ifndef POLICY
#define POLICY YAMC_BACKOFF_SPIN_DEFAULT
#endif
using T = yamc::NS::basic_mutex<POLICY>;
OBJ() OFF(state_)
CTOR() DTOR() EXCL_BASIC()
