"""Which replay harness (in /verif/replay) exercises the real code of a unit."""
import os
VARIANT_HPP = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'drivers', 'posix_variant.hpp')
KINDS = ['counting_semaphore', 'binary_semaphore', 'latch', 'barrier']
NATIVE = ['native_mutex', 'native_recursive_mutex', 'rwlock', 'spinlock', 'counting_semaphore', 'binary_semaphore']
WINAPPLE = ['win::native_mutex', 'win::critical_section', 'win::slim_rwlock', 'win::counting_semaphore', 'win::binary_semaphore', 'gcd::counting_semaphore', 'gcd::binary_semaphore', 'apple::unfair_lock']
ENGINE = ('locks.cpp', 'sync.cpp')
def config(u, prop=None):
    n = u.name
    cfg = ''
    if '/' in n: n, cfg = n.split('/')
    d = {}
    src = 'locks.cpp'
    hdr = u.headers[0]
    if n.startswith('alternate::') and 'shared' not in n:
        mt = 'yamc::' + n; d = dict(PRIM='C02' if 'recursive' in n else 'C01', REC=int('recursive' in n), TIMED=int('timed' in n))
    elif n.startswith('fair::') and 'shared' not in n:
        mt = 'yamc::' + n; d = dict(PRIM='C02' if 'recursive' in n else 'C01', REC=int('recursive' in n), TIMED=int('timed' in n), POLICY=5)
    elif n.startswith('checked::') and 'shared' not in n:
        mt = 'yamc::' + n; d = dict(PRIM='C02' if 'recursive' in n else 'C01', REC=int('recursive' in n), TIMED=int('timed' in n), CHECKED=1, DETECT=int(cfg != 'nodetect'), ABRT=int(cfg == 'abort'))
    elif n.startswith('alternate::') or n.startswith('checked::'):
        mt = 'yamc::' + n.replace('<', '<yamc::rwlock::'); wp = 'WriterPrefer' in n
        d = dict(PRIM='C03', SHARED=1, TIMED=int('timed' in n), POLICY=2 if wp else 1)
        if n.startswith('checked::'): d.update(CHECKED=1, DETECT=int(cfg != 'nodetect'), ABRT=int(cfg == 'abort'))
    elif n.startswith('fair::'):
        mt = 'yamc::' + n.replace('<', '<yamc::rwlock::'); d = dict(PRIM='C03', SHARED=1, TIMED=int('timed' in n), POLICY=4 if 'Phase' in n else 3)
    elif n.startswith('spin') and prop == 'C19': return [('spinback.cpp', ['-DHEADER="%s"' % hdr, '-DNS=' + n.split('::')[0]])]
    elif n.startswith('spin'):
        mt = 'yamc::' + n.replace('<', '<yamc::backoff::', 1); d = dict(PRIM='C01', SPINNY=1)
    elif n.startswith('posix::') and cfg == 'macos': return []      # the harness drives the timed operations too
    elif n.startswith('posix::'): return [('native.cpp', ['-DKIND=%d' % NATIVE.index(n[7:])] + (['-DVARIANT=%d' % (1 + ('np', 'attr', 'macos').index(cfg)), '-include', VARIANT_HPP] if cfg else []))]
    elif n in WINAPPLE and cfg == 'coarse': return []      # the harness expects the extra tick
    elif n in WINAPPLE: return [('winapple.cpp', ['-DKIND=%d' % WINAPPLE.index(n)])]
    elif n in ('shared_lock', 'scoped_lock'): return [('wrap.cpp', ['-DKIND=%d' % (n == 'scoped_lock')])]
    elif n.startswith('backoff::'): return [('backoff.cpp', ['-DKIND=%d' % (0 if 'expo' in n else 1 if 'yield' in n else 2)])]
    elif n in KINDS: return [('sync.cpp', ['-DKIND=%d' % KINDS.index(n)])]
    elif n == 'validator::deadlock':
        return [('graph.cpp', []), ('locks.cpp', ['-DMTYPE=yamc::checked::mutex', '-DHEADER="checked_mutex.hpp"', '-DPRIM="C01"', '-DCHECKED=1', '-DDETECT=1']),
                ('locks.cpp', ['-DMTYPE=yamc::checked::shared_mutex', '-DHEADER="checked_shared_mutex.hpp"', '-DPRIM="C03"', '-DCHECKED=1', '-DDETECT=1', '-DSHARED=1', '-DPOLICY=1'])]
    else: return []
    defs = ['-DMTYPE=' + mt, '-DHEADER="%s"' % hdr] + ['-D%s=%s' % (k, '"%s"' % v if k == 'PRIM' else v) for k, v in d.items()]
    if cfg == 'abort': defs.append('-DYAMC_CHECKED_CALL_ABORT=1')
    if cfg == 'nodetect': defs.append('-DYAMC_CHECKED_DETECT_DEADLOCK=0')
    return [(src, defs)] + ([] if n.startswith('spin') else [('bulk.cpp', defs)])
