#include "common.hpp"
#include "yamc_shared_lock.hpp"
// abstract shared lockable: behaviour given only by contracts
struct M;
extern "C" {
void e_lock_shared(M*); bool e_try_lock_shared(M*); void e_unlock_shared(M*) noexcept;
bool e_try_for(M*, long ns); bool e_try_until(M*, long ns, int clock);
}
template<class C> struct clk_; template<> struct clk_<steady_> { enum { v = 1 }; }; template<> struct clk_<system_> { enum { v = 0 }; };
struct M {
  void lock_shared() { e_lock_shared(this); }
  bool try_lock_shared() { return e_try_lock_shared(this); }
  void unlock_shared() { e_unlock_shared(this); }
  template<class R, class P> bool try_lock_shared_for(const std::chrono::duration<R, P>& d) { return e_try_for(this, std::chrono::duration_cast<ns_>(d).count()); }
  template<class C, class D> bool try_lock_shared_until(const std::chrono::time_point<C, D>& t) { return e_try_until(this, std::chrono::duration_cast<ns_>(t.time_since_epoch()).count(), clk_<C>::v); }
};
using T = yamc::shared_lock<M>;
OBJ() OFF(pm_) OFF(owns_)
using tst_ = std::chrono::time_point<steady_, ns_>; using tsy_ = std::chrono::time_point<system_, ns_>;
extern "C" {
void m_ctor(T* p) { new (p) T; }
void m_ctor_m(T* p, M* m) { new (p) T(*m); }
void m_ctor_defer(T* p, M* m) { new (p) T(*m, std::defer_lock); }
void m_ctor_try(T* p, M* m) { new (p) T(*m, std::try_to_lock); }
void m_ctor_adopt(T* p, M* m) { new (p) T(*m, std::adopt_lock); }
void m_ctor_for(T* p, M* m, long d) { new (p) T(*m, ns_(d)); }
void m_ctor_until(T* p, M* m, long d) { new (p) T(*m, tst_(ns_(d))); }
void m_ctor_until_sys(T* p, M* m, long d) { new (p) T(*m, tsy_(ns_(d))); }
void m_ctor_move(T* p, T* q) { new (p) T(std::move(*q)); }
void m_assign(T* p, T* q) { *p = std::move(*q); }
void m_dtor(T* p) { p->~T(); }
void m_lock(T* p) { p->lock(); }
bool m_try_lock(T* p) { return p->try_lock(); }
bool m_try_lock_for(T* p, long d) { return p->try_lock_for(ns_(d)); }
bool m_try_lock_until(T* p, long d) { return p->try_lock_until(tst_(ns_(d))); }
bool m_try_lock_until_sys(T* p, long d) { return p->try_lock_until(tsy_(ns_(d))); }
void m_unlock(T* p) { p->unlock(); }
void m_swap(T* p, T* q) { p->swap(*q); }
void m_std_swap(T* p, T* q) { std::swap(*p, *q); }
M* m_release(T* p) { return p->release(); }
bool m_owns_lock(const T* p) { return p->owns_lock(); }
bool m_bool(const T* p) { return static_cast<bool>(*p); }
M* m_mutex(const T* p) { return p->mutex(); }
}
