// Verification drivers: thin extern "C" wrappers that instantiate the real
// headers of /repo/include.  No code of the library is restated here.
#pragma once
#include <cassert>
#include <cstddef>
#include <new>
#include <chrono>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <system_error>
#define OFF(f) extern "C" const unsigned long OFF_##f = __builtin_offsetof(T, f); \
               extern "C" const unsigned long SZ_##f = sizeof(((T*)0)->f);
#define OBJ() extern T OBJ_; extern "C" void* use_obj_() { return &OBJ_; } \
  extern "C" const unsigned long SZ_OBJ = sizeof(T);
using ns_ = std::chrono::nanoseconds;
using ms_ = std::chrono::milliseconds;
using us_ = std::chrono::microseconds;
using s_ = std::chrono::seconds;
using steady_ = std::chrono::steady_clock;
using system_ = std::chrono::system_clock;
#define CTOR() extern "C" void m_ctor(T* p) { new (p) T; }
#define DTOR() extern "C" void m_dtor(T* p) { p->~T(); }
#define EXCL_BASIC() extern "C" { \
  void m_lock(T* p) { p->lock(); } \
  bool m_try_lock(T* p) { return p->try_lock(); } \
  void m_unlock(T* p) { p->unlock(); } }
#define TIMED(op) extern "C" { \
  bool m_##op##_for_ns(T* p, long d) { return p->op##_for(ns_(d)); } \
  bool m_##op##_for_ms(T* p, long d) { return p->op##_for(ms_(d)); } \
  bool m_##op##_until_steady(T* p, long d) { return p->op##_until(std::chrono::time_point<steady_, ns_>(ns_(d))); } \
  bool m_##op##_until_system(T* p, long d) { return p->op##_until(std::chrono::time_point<system_, ns_>(ns_(d))); } \
  bool m_##op##_until_system_ms(T* p, long d) { return p->op##_until(std::chrono::time_point<system_, ms_>(ms_(d))); } }
#define EXCL_TIMED() TIMED(try_lock)
#define SHARED_BASIC() extern "C" { \
  void m_lock_shared(T* p) { p->lock_shared(); } \
  bool m_try_lock_shared(T* p) { return p->try_lock_shared(); } \
  void m_unlock_shared(T* p) { p->unlock_shared(); } }
#define SHARED_TIMED() TIMED(try_lock_shared)
