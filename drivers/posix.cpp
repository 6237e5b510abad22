#ifdef VARIANT
#include "posix_variant.hpp"
#endif
#include "common.hpp"
#include <type_traits>
#include "posix_native_mutex.hpp"
using T = yamc::posix::CLS;
#define OFFX(x) OFF(x)
OBJ() OFFX(HND)
CTOR() DTOR() EXCL_BASIC()
#define STIMED(op) extern "C" { \
  bool m_##op##_for_ns(T* p, long d) { return p->op##_for(ns_(d)); } \
  bool m_##op##_for_ms(T* p, long d) { return p->op##_for(ms_(d)); } \
  bool m_##op##_for_s(T* p, long d) { return p->op##_for(s_(d)); } \
  bool m_##op##_until_system(T* p, long d) { return p->op##_until(std::chrono::time_point<system_, ns_>(ns_(d))); } \
  bool m_##op##_until_system_ms(T* p, long d) { return p->op##_until(std::chrono::time_point<system_, ms_>(ms_(d))); } \
  bool m_##op##_until_system_s(T* p, long d) { return p->op##_until(std::chrono::time_point<system_, s_>(s_(d))); } }
extern "C" void* m_handle(T* p) { return (void*)p->native_handle(); }
#ifdef TIMEDOPS
STIMED(try_lock)
#endif
#ifdef SHAREDOPS
SHARED_BASIC()
#ifndef NOTIMED
STIMED(try_lock_shared)
#endif
#endif
