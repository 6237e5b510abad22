from units import Unit
import excl
UNITS = []
def U(*a, **k): UNITS.append(Unit(*a, **k))
U('alternate::timed_mutex', 'alt_timed.cpp', excl.AltTimed, excl.excl_methods(False, True), ['C01', 'C04', 'C05', 'C06'], fields=[('state_', 'int')], headers=('alternate_mutex.hpp',))
U('alternate::recursive_timed_mutex', 'alt_rectimed.cpp', excl.AltRecTimed, excl.excl_methods(True, True), ['C02', 'C04', 'C05', 'C06'], fields=[('ncount_', 'int'), ('owner_', 'int')], headers=('alternate_mutex.hpp',))
import sync
from theory import Method
from excl import timed_methods
U('latch', 'latch.cpp', sync.Latch, [Method('m_ctor', 'ctor'), Method('m_count_down', 'count_down'), Method('m_count_down1', 'count_down', case='default'), Method('m_try_wait', 'try'),
   Method('m_wait', 'wait'), Method('m_arrive_and_wait', 'arrive', blocking=True), Method('m_arrive_and_wait1', 'arrive', case='default', blocking=True)], ['C13', 'C04'], fields=[('counter_', 'int')], headers=('yamc_latch.hpp',))
SEM = [Method('m_ctor', 'ctor'), Method('m_release', 'release'), Method('m_release1', 'release', case='default'), Method('m_acquire', 'acquire'), Method('m_try_acquire', 'try')] + timed_methods('try_acquire', 'try')
U('counting_semaphore', 'semaphore.cpp', sync.Semaphore, SEM, ['C12', 'C04'], fields=[('counter_', 'int')], headers=('yamc_semaphore.hpp',))
U('binary_semaphore', 'semaphore.cpp', sync.Semaphore, SEM, ['C12', 'C04'], fields=[('counter_', 'int')], headers=('yamc_semaphore.hpp',), defs=['BINARY'], lmax=1)
BAR = [Method('m_ctor', 'ctor'), Method('m_arrive', 'arrive'), Method('m_arrive1', 'arrive', case='default'), Method('m_wait', 'wait'), Method('m_arrive_and_wait', 'arrive_wait', blocking=True), Method('m_arrive_and_drop', 'drop', blocking=True)]
U('barrier', 'barrier.cpp', sync.Barrier, BAR, ['C14', 'C04'], fields=[('counter_', 'int'), ('init_count_', 'int'), ('phase_', 'int')], headers=('yamc_barrier.hpp',))
import spin
SPM = [Method('m_ctor', 'ctor'), Method('m_lock', 'lock'), Method('m_try_lock', 'try'), Method('m_unlock', 'unlock'), Method('m_dtor', 'dtor')]
for ns, h in (('spin', 'naive'), ('spin_weak', 'naive'), ('spin_ttas', 'ttas')):
    for pol in ('exponential<>', 'yield', 'busy'):
        U('%s::basic_mutex<%s>' % (ns, pol), 'spin.cpp', spin.Spin, SPM, ['C01', 'C04', 'C06', 'C19'], defs=['NS=' + ns, 'POLICY=yamc::backoff::' + pol], headers=(h + '_spin_mutex.hpp', 'yamc_backoff_spin.hpp'))
BOM = [Method('m_ctor', 'ctor'), Method('m_step', 'step')]
for n in (0, 1, 2, 3, 7, 4000, 0x80000000, 0xffffffff):
    U('backoff::exponential<%d>' % n, 'backoff.cpp', spin.Backoff, BOM, ['C19'], defs=['POLICY=yamc::backoff::exponential<%du>' % n, 'EXPO'], headers=('yamc_backoff_spin.hpp',), init=n)
for n in ('yield', 'busy'):
    U('backoff::' + n, 'backoff.cpp', spin.Backoff, BOM, ['C19'], defs=['POLICY=yamc::backoff::' + n], headers=('yamc_backoff_spin.hpp',), kind=n)
import nposix
PT = [('for_ns', ('for', 1)), ('for_ms', ('for', 1000000)), ('for_s', ('for', 1000000000)), ('until_system', ('until', 'system', 1)), ('until_system_ms', ('until', 'system', 1000000)), ('until_system_s', ('until', 'system', 1000000000))]
def pm(timed, shared=False):
    ms = [Method('m_ctor', 'ctor'), Method('m_dtor', 'dtor'), Method('m_lock', 'lock'), Method('m_try_lock', 'try'), Method('m_unlock', 'unlock'), Method('m_handle', 'handle')]
    if timed: ms += [Method('m_try_lock_' + v, 'timed', timed=t) for v, t in PT]
    if shared:
        ms += [Method('m_lock_shared', 'lock', shared=True), Method('m_try_lock_shared', 'try', shared=True), Method('m_unlock_shared', 'unlock', shared=True)]
        ms += [Method('m_try_lock_shared_' + v, 'timed', timed=t, shared=True) for v, t in PT]
    return ms
U('posix::native_mutex', 'posix.cpp', nposix.Native, pm(True), ['C17'], defs=['CLS=native_mutex', 'HND=mtx_', 'TIMEDOPS'], intmode=True, headers=('posix_native_mutex.hpp',))
U('posix::native_recursive_mutex', 'posix.cpp', nposix.Native, pm(True), ['C17'], defs=['CLS=native_recursive_mutex', 'HND=mtx_', 'TIMEDOPS'], intmode=True, headers=('posix_native_mutex.hpp',), kind=1)
U('posix::rwlock', 'posix.cpp', nposix.NativeRW, pm(True, True), ['C17'], defs=['CLS=rwlock', 'HND=rwlock_', 'TIMEDOPS', 'SHAREDOPS'], intmode=True, headers=('posix_native_mutex.hpp',), fam='rw')
U('posix::spinlock', 'posix.cpp', nposix.NativeSpin, pm(False), ['C17'], defs=['CLS=spinlock', 'HND=slock_'], intmode=True, headers=('posix_native_mutex.hpp',), fam='spin')
for v, vn in ((1, 'np'), (2, 'attr'), (3, 'macos')):     # branches of the header that other systems compile
    kw = dict(intmode=True, headers=('posix_native_mutex.hpp',)); T = ['TIMEDOPS'] if v == 2 else []; D = ['VARIANT=%d' % v] + T
    if v != 2:
        U('posix::native_mutex/' + vn, 'posix.cpp', nposix.Native, pm(False), ['C17'], defs=['CLS=native_mutex', 'HND=mtx_'] + D, **kw)
        U('posix::rwlock/' + vn, 'posix.cpp', nposix.NativeRW, [m for m in pm(False, True) if m.kind != 'timed'], ['C17'], defs=['CLS=rwlock', 'HND=rwlock_', 'SHAREDOPS', 'NOTIMED'] + D, fam='rw', **kw)
    if v != 1: U('posix::native_recursive_mutex/' + vn, 'posix.cpp', nposix.Native, pm(v == 2), ['C17'], defs=['CLS=native_recursive_mutex', 'HND=mtx_'] + D, kind=1, **kw)
PSM = [Method('m_ctor', 'ctor'), Method('m_dtor', 'dtor'), Method('m_release', 'release'), Method('m_release1', 'release', case='default'), Method('m_acquire', 'acquire'), Method('m_try_acquire', 'try')]
PSM += [Method('m_try_acquire_' + v, 'timed', timed=t) for v, t in (('for_ns', ('for', 1)), ('for_ms', ('for', 1000000)), ('until_system', ('until', 'system', 1)), ('until_system_ms', ('until', 'system', 1000000)), ('until_steady', ('until', 'steady', 1)))]
U('posix::counting_semaphore', 'posix_sem.cpp', nposix.NativeSem, PSM, ['C18'], intmode=True, headers=('posix_semaphore.hpp',))
U('posix::binary_semaphore', 'posix_sem.cpp', nposix.NativeSem, PSM, ['C18'], defs=['BINARY'], intmode=True, headers=('posix_semaphore.hpp',), kind=1)
import wraplock
U('shared_lock', 'shared_lock.cpp', wraplock.SharedLock, wraplock.SL_METHODS, ['C15'], headers=('yamc_shared_lock.hpp',))
U('scoped_lock', 'scoped_lock.cpp', wraplock.ScopedLock, wraplock.SC_METHODS, ['C16'], headers=('yamc_scoped_lock.hpp',))
import altrec
U('alternate::recursive_mutex', 'alt_rec.cpp', altrec.AltRec, altrec.METHODS, ['C02', 'C04', 'C05', 'C06'], headers=('alternate_mutex.hpp',))
import rw
RWF = {'RP': [('rwcount', 'int')], 'WP': [('nwriter', 'int'), ('nreader', 'int')]}
for pol, pn in (('RP', 'ReaderPrefer'), ('WP', 'WriterPrefer')):
    for t in (False, True):
        U('alternate::basic_shared_%smutex<%s>' % ('timed_' if t else '', pn), 'rw.cpp', rw.RW, rw.rw_methods(t), ['C03', 'C04', 'C05', 'C06', 'C09'],
          defs=['POL=' + pn, 'IS_' + pol] + (['TIMEDOPS'] if t else []), fields=RWF[pol], headers=('alternate_shared_mutex.hpp', 'yamc_rwlock_sched.hpp'), pol=pol)
import checked
for cls, rec, timed in (('mutex', 0, 0), ('timed_mutex', 0, 1), ('recursive_mutex', 1, 0), ('recursive_timed_mutex', 1, 1)):
    for cfg, cd, ck in (('', [], {}), ('/abort', ['YAMC_CHECKED_CALL_ABORT=1'], dict(abort=True)), ('/nodetect', ['YAMC_CHECKED_DETECT_DEADLOCK=0'], dict(detect=False))):
        U('checked::%s%s' % (cls, cfg), 'checked.cpp', checked.CheckedExcl, checked.checked_excl_methods(bool(rec), bool(timed)), ['C02' if rec else 'C01', 'C04', 'C05', 'C06', 'C10'] + ([] if 'node' in cfg else ['C11']),
          defs=['CLS=' + cls] + (['REC'] if rec else []) + (['TIMEDOPS'] if timed else []) + cd, fields=[('owner_', 'int')] + ([('ncount_', 'int')] if rec else []), headers=('checked_mutex.hpp', 'yamc_lock_validator.hpp'), rec=bool(rec), **ck)
for pol, pn in (('RP', 'ReaderPrefer'), ('WP', 'WriterPrefer')):
    for t in (False, True):
        for cfg, cd, ck in (('', [], {}), ('/abort', ['YAMC_CHECKED_CALL_ABORT=1'], dict(abort=True)), ('/nodetect', ['YAMC_CHECKED_DETECT_DEADLOCK=0'], dict(detect=False))):
            U('checked::basic_shared_%smutex<%s>%s' % ('timed_' if t else '', pn, cfg), 'rw.cpp', checked.CheckedRW, rw.rw_methods(t, misuse=True), ['C03', 'C04', 'C05', 'C06', 'C09', 'C10'] + ([] if 'node' in cfg else ['C11']),
              defs=['CHECKED', 'POL=' + pn, 'IS_' + pol] + (['TIMEDOPS'] if t else []) + cd, fields=RWF[pol] + [('e_owner_', 'int')], headers=('checked_shared_mutex.hpp', 'yamc_rwlock_sched.hpp', 'yamc_lock_validator.hpp'), pol=pol, **ck)
import fair
for cls, rec in (('mutex', False), ('recursive_mutex', True)):
    U('fair::' + cls, 'fair.cpp', fair.FairTicket, fair.fair_methods(rec, False), ['C02' if rec else 'C01', 'C04', 'C05', 'C06', 'C07'], defs=['CLS=' + cls] + (['REC'] if rec else []),
      fields=[('next_', 'int'), ('curr_', 'int')] + ([('ncount_', 'int'), ('owner_', 'int')] if rec else []), headers=('fair_mutex.hpp',), rec=rec)
for cls, rec in (('timed_mutex', False), ('recursive_timed_mutex', True)):
    U('fair::' + cls, 'fair.cpp', fair.FairList, fair.fair_methods(rec, True), ['C02' if rec else 'C01', 'C04', 'C05', 'C06', 'C07', 'C20'], defs=['TIMEDOPS', 'CLS=' + cls] + (['REC'] if rec else []),
      fields=[('ncount_', 'int'), ('owner_', 'int')] if rec else [], headers=('fair_mutex.hpp',), rec=rec)
for ph, pn in ((False, 'TaskFairness'), (True, 'PhaseFairness')):
    for t in (False, True):
        U('fair::basic_shared_%smutex<%s>' % ('timed_' if t else '', pn), 'fairshared.cpp', fair.FairList, fair.fair_methods(False, t, True), ['C03', 'C04', 'C05', 'C06', 'C08', 'C20'], defs=['POL=' + pn] + (['TIMEDOPS'] if t else []), fields=[],
          headers=('fair_shared_mutex.hpp',), shared=True, phased=ph)
import validator
U('validator::deadlock', 'validator.cpp', validator.Validator, validator.METHODS, ['C11'], headers=('yamc_lock_validator.hpp',))
import native2
def wm(timed=False, shared=False, dtor=True):
    ms = [m for m in pm(False, False)] + ([Method('m_lock_shared', 'lock', shared=True), Method('m_try_lock_shared', 'try', shared=True), Method('m_unlock_shared', 'unlock', shared=True)] if shared else [])
    return ms + (WT('try_lock') if timed else [])
WTV = (('for_ns', ('for', 1)), ('for_ms', ('for', 1000000)), ('until_steady', ('until', 'steady', 1)), ('until_system', ('until', 'system', 1)), ('until_system_ms', ('until', 'system', 1000000)))
def WT(op): return [Method('m_%s_%s' % (op, v), 'timed', timed=t) for v, t in WTV]
NSM = [Method('m_ctor', 'ctor'), Method('m_dtor', 'dtor'), Method('m_release', 'release'), Method('m_release1', 'release', case='default'), Method('m_acquire', 'acquire'), Method('m_try_acquire', 'try')] + WT('try_acquire')
U('win::native_mutex', 'win.cpp', native2.WinMutex, wm(True), ['C21'], defs=['CLS=native_mutex', 'HND=hmtx_', 'TIMEDOPS'], intmode=True, headers=('win_native_mutex.hpp',))
U('win::native_mutex/coarse', 'win.cpp', native2.WinMutex, wm(True), ['C21'], defs=['CLS=native_mutex', 'HND=hmtx_', 'TIMEDOPS', 'YAMC_WIN_ACCURATE_TIMEOUT=0'], intmode=True, headers=('win_native_mutex.hpp',), accurate=False)
U('win::critical_section', 'win.cpp', native2.CritSec, wm(), ['C21'], defs=['CLS=critical_section', 'HND=cs_'], intmode=True, headers=('win_native_mutex.hpp',), fam='cs')
U('win::slim_rwlock', 'win.cpp', native2.SrwLock, wm(False, True), ['C21'], defs=['CLS=slim_rwlock', 'HND=srwlock_', 'SHAREDOPS'], intmode=True, headers=('win_native_mutex.hpp',), fam='srw')
U('win::counting_semaphore', 'nsem.cpp', native2.WinSem, NSM, ['C21'], defs=['WIN', 'HND=hsem_'], intmode=True, headers=('win_semaphore.hpp',))
U('win::counting_semaphore/coarse', 'nsem.cpp', native2.WinSem, NSM, ['C21'], defs=['WIN', 'HND=hsem_', 'YAMC_WIN_ACCURATE_TIMEOUT=0'], intmode=True, headers=('win_semaphore.hpp',), accurate=False)
U('win::binary_semaphore', 'nsem.cpp', native2.WinSem, NSM, ['C21'], defs=['WIN', 'HND=hsem_', 'BINARY'], intmode=True, headers=('win_semaphore.hpp',), lmax=1)
U('apple::unfair_lock', 'apple.cpp', native2.UnfairLock, wm(), ['C22'], intmode=True, headers=('apple_native_mutex.hpp',), fam='unfair')
U('gcd::counting_semaphore', 'nsem.cpp', native2.GcdSem, NSM, ['C22'], defs=['HND=dsema_'], intmode=True, headers=('gcd_semaphore.hpp',), fam='gcd', lmax=(1 << 63) - 1, relmax=(1 << 63) - 1)
U('gcd::binary_semaphore', 'nsem.cpp', native2.GcdSem, NSM, ['C22'], defs=['HND=dsema_', 'BINARY'], intmode=True, headers=('gcd_semaphore.hpp',), fam='gcd', lmax=1)
