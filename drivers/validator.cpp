#include "common.hpp"
#include <cstddef>
#include "yamc_lock_validator.hpp"
using D = yamc::validator::deadlock;
using PAIR = D::mutexmap_type::value_type;
extern "C" {
extern const unsigned long OFF_mapped = offsetof(PAIR, second);
extern const unsigned long OFF_mid = offsetof(D::entry, mid);
extern const unsigned long OFF_owners = offsetof(D::entry, owners);
extern const unsigned long OFF_waiters = offsetof(D::entry, waiters);
}
extern "C" {
void m_ctor(uintptr_t k) { D::ctor(k); }
void m_dtor(uintptr_t k) { D::dtor(k); }
void m_locked(uintptr_t k, std::thread::id t, bool s) { D::locked(k, t, s); }
void m_unlocked(uintptr_t k, std::thread::id t, bool s) { D::unlocked(k, t, s); }
bool m_enqueue(uintptr_t k, std::thread::id t, bool s) { return D::enqueue(k, t, s); }
void m_dequeue(uintptr_t k, std::thread::id t) { D::dequeue(k, t); }
bool m_search(const D::mutexmap_type& m, uintptr_t k, std::thread::id t) { return D::find_closepath(m, k, t); }
}
