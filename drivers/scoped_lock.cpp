#include "common.hpp"
#include "yamc_scoped_lock.hpp"
struct M;
extern "C" { void e_lock(M*); bool e_try_lock(M*); void e_unlock(M*) noexcept; void vp_body(); }
struct M { void lock() { e_lock(this); } bool try_lock() { return e_try_lock(this); } void unlock() { e_unlock(this); } };
struct N : M {};
extern "C" {
void m_0() { yamc::scoped_lock<> l; vp_body(); }
void m_0a() { yamc::scoped_lock<> l(std::adopt_lock); vp_body(); }
void m_1(M* a) { yamc::scoped_lock<M> l(*a); vp_body(); }
void m_1a(M* a) { yamc::scoped_lock<M> l(std::adopt_lock, *a); vp_body(); }
void m_2(M* a, N* b) { yamc::scoped_lock<M, N> l(*a, *b); vp_body(); }
void m_2a(M* a, N* b) { yamc::scoped_lock<M, N> l(std::adopt_lock, *a, *b); vp_body(); }
void m_2s(M* a, M* b) { yamc::scoped_lock<M, M> l(*a, *b); vp_body(); }
void m_3(M* a, N* b, M* c) { yamc::scoped_lock<M, N, M> l(*a, *b, *c); vp_body(); }
void m_3a(M* a, N* b, M* c) { yamc::scoped_lock<M, N, M> l(std::adopt_lock, *a, *b, *c); vp_body(); }
void m_4(M* a, N* b, M* c, N* d) { yamc::scoped_lock<M, N, M, N> l(*a, *b, *c, *d); vp_body(); }
void m_4a(M* a, N* b, M* c, N* d) { yamc::scoped_lock<M, N, M, N> l(std::adopt_lock, *a, *b, *c, *d); vp_body(); }
void m_6(M* a, N* b, M* c, N* d, M* e, N* f) { yamc::scoped_lock<M, N, M, N, M, N> l(*a, *b, *c, *d, *e, *f); vp_body(); }
void m_6a(M* a, N* b, M* c, N* d, M* e, N* f) { yamc::scoped_lock<M, N, M, N, M, N> l(std::adopt_lock, *a, *b, *c, *d, *e, *f); vp_body(); }
}
