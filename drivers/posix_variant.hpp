// selects the branches of posix_native_mutex.hpp that other systems compile: 1 names with suffix _NP, 2 no static initialiser for
// recursive mutexes, 3 macOS (no timed operations, no spinlock, recursive initialiser without suffix)
#pragma once
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include <system_error>
#include <pthread.h>
#include <time.h>
#if VARIANT == 1
#undef PTHREAD_MUTEX_INITIALIZER
#undef PTHREAD_RWLOCK_INITIALIZER
#define PTHREAD_MUTEX_INITIALIZER_NP { { 0, 0, 0, 0, PTHREAD_MUTEX_TIMED_NP, 0, 0, { 0, 0 } } }
#define PTHREAD_RWLOCK_INITIALIZER_NP { { 0, 0, 0, 0, 0, 0, 0, 0, { 0 }, 0, PTHREAD_RWLOCK_DEFAULT_NP } }
#elif VARIANT == 2
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP
#elif VARIANT == 3
#undef PTHREAD_RECURSIVE_MUTEX_INITIALIZER_NP
#define PTHREAD_RECURSIVE_MUTEX_INITIALIZER { { 0, 0, 0, 0, PTHREAD_MUTEX_RECURSIVE_NP, 0, 0, { 0, 0 } } }
#define __APPLE__ 1
#endif
