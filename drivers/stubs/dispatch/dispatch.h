// Declarations (no definitions) of the libdispatch functions used by gcd_semaphore.hpp.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <time.h>
typedef struct dispatch_semaphore_s* dispatch_semaphore_t; typedef uint64_t dispatch_time_t;
#define DISPATCH_TIME_NOW (0ull)
#define DISPATCH_TIME_FOREVER (~0ull)
#define KERN_SUCCESS 0
#define KERN_OPERATION_TIMED_OUT 49
extern "C" {
dispatch_semaphore_t dispatch_semaphore_create(intptr_t); intptr_t dispatch_semaphore_signal(dispatch_semaphore_t); intptr_t dispatch_semaphore_wait(dispatch_semaphore_t, dispatch_time_t);
dispatch_time_t dispatch_time(dispatch_time_t, int64_t); dispatch_time_t dispatch_walltime(const struct timespec*, int64_t); void dispatch_release(void*);
}
