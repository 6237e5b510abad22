#include "common.hpp"
#include "yamc_backoff_spin.hpp"
using P = POLICY;
using T = P::state;
OBJ()
#ifdef EXPO
OFF(initcount) OFF(counter)
#endif
extern "C" {
void m_ctor(T* p) { new (p) T(); }
void m_step(T* p) { P::wait(*p); }
}
