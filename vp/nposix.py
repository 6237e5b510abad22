"""POSIX wrappers: native calls as contracts, integer arithmetic mathematical with overflow obligations"""
from theory import *
EINTR, EAGAIN, ETIMEDOUT = 4, 11, 110
G9 = 1000000000

class Native(Spec):
    """effect of each operation in terms of native calls on the object's own handle"""
    prim = 'C17'
    assumptions = ('native pthread/sem functions follow POSIX; pthread_mutex_lock/rdlock/wrlock/spin_lock return 0 for correct use; system_clock is within 1970..2262',)
    fam = 'mutex'
    def __init__(self, mod, lay, fam='mutex', kind=0):
        self.fam = fam; self.kindval = kind
        super().__init__(mod); self.layout = lay
        self.obj = Region('obj', 'obj', None, 'obj')
    def overflow_tags(self): return {self.prim}
    def memsafe_tags(self): return {self.prim}
    def assert_tags(self, ex, st): return {self.prim}
    def cut_extra(self, st): return ()
    def hnd(self): return self.layout['OFF_' + self.handle]
    handle = 'mtx_'
    def ok_handle(self, ex, st, p, what):
        ok = isinstance(p, Ptr) and p.r is self.obj and p.off == self.hnd()
        ex.oblige(st, '%s is applied to the object\'s own handle' % what, {self.prim}, z3.BoolVal(ok))
    def bump(self, st, k): st.ctr[k] = st.ctr[k] + 1
    def common_contracts(self):
        super().common_contracts()
        C = self.contract
        def ev(name, ret, eff=None, blocking=False):
            def h(ex, st, n, d, a, i):
                self.ok_handle(ex, st, a[0], n)
                st.events += 1
                key = ex.cut_key(st, 'ev')
                if ex.do_cut(st, key): raise PathEnd('subsumed')
                if blocking and self.m.kind == 'try': ex.oblige(st, 'try operation does not block', {self.prim}, False)
                self.bump(st, 'calls')
                out = []
                for r, tag in ret:
                    s = st.clone()
                    if eff and tag == 'ok': self.bump(s, eff)
                    if tag == 'fail': self.bump(s, 'nfail')
                    if callable(r): rv = r(ex, s)
                    else: rv = ex.const(r, 32) if r is not None else None
                    s.trace.append('%s=%s' % (n, tag))
                    out.append(('ret', s, rv))
                return Outcomes(out)
            C(name + '$', h)
        def nz(ex, s):
            e = ex.freshint(32, 'err'); s.assume(z3.And(e > 0, e < 4096)); return e
        for pre in ('pthread_mutex_', 'pthread_spin_'):
            ev(pre + 'lock', [(0, 'ok')], 'X', True)
            ev(pre + 'trylock', [(0, 'ok'), (nz, 'fail')], 'X')
            ev(pre + 'unlock', [(0, 'ok')], 'U')
        ev('pthread_rwlock_wrlock', [(0, 'ok')], 'X', True); ev('pthread_rwlock_rdlock', [(0, 'ok')], 'S', True)
        ev('pthread_rwlock_trywrlock', [(0, 'ok'), (nz, 'fail')], 'X'); ev('pthread_rwlock_tryrdlock', [(0, 'ok'), (nz, 'fail')], 'S')
        ev('pthread_rwlock_unlock', [(0, 'ok')], 'U')
        def timed(name, eff, clockarg=False):
            def h(ex, st, n, d, a, i):
                self.ok_handle(ex, st, a[0], n)
                tp = a[2] if clockarg else a[1]
                if self.m.timed is None: ex.oblige(st, 'untimed operation uses no timed native call', {self.prim}, False)
                if clockarg:
                    ex.oblige(st, 'deadline is measured on the real-time clock', {self.prim}, ex.z(a[1], 32) == 0)
                self.check_deadline(ex, st, tp)
                self.bump(st, 'calls')
                s2 = st.clone()
                self.bump(st, eff); self.bump(s2, 'nfail')
                st.trace.append(n + '=ok'); s2.trace.append(n + '=fail')
                return Outcomes([('ret', st, ex.const(0, 32)), ('ret', s2, nz(ex, s2))])
            C(name + '$', h)
        timed('pthread_mutex_timedlock', 'X'); timed('pthread_rwlock_timedwrlock', 'X'); timed('pthread_rwlock_timedrdlock', 'S')
        timed('pthread_mutex_clocklock', 'X', True); timed('pthread_rwlock_clockwrlock', 'X', True); timed('pthread_rwlock_clockrdlock', 'S', True)
        # initialisation
        def attr_init(ex, st, n, d, a, i): st.g['attr:' + a[0].r.key] = 0; return ex.const(0, 32)
        C(r'pthread_mutexattr_init$', attr_init)
        def settype(ex, st, n, d, a, i):
            st.g['attr:' + a[0].r.key] = a[1]; return ex.const(0, 32)
        C(r'pthread_mutexattr_settype$', settype)
        C(r'pthread_mutexattr_destroy$', lambda ex, st, n, d, a, i: ex.const(0, 32))
        def minit(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n)
            k = 0 if a[1] == NULLP else st.g.get('attr:' + a[1].r.key)
            st.g['init'].append(k); return ex.const(0, 32)
        C(r'pthread_mutex_init$', minit)
        def rinit(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); st.g['init'].append(0 if a[1] == NULLP else None); return ex.const(0, 32)
        C(r'pthread_rwlock_init$', rinit)
        def sinit(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); st.g['init'].append(a[1]); return ex.const(0, 32)
        C(r'pthread_spin_init$', sinit)
        def destroy(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); self.bump(st, 'D'); return ex.const(0, 32)
        C(r'pthread_(mutex|rwlock|spin)_destroy$', destroy)
    def read_clock(self, ex, st, clock):
        t = super().read_clock(ex, st, clock)
        st.assume(z3.And(t >= 0, t < 1 << 62)); return t
    def check_deadline(self, ex, st, tp):
        sec = ex.z(ex.load(st, tp, ('i', 64)), 64); nsec = ex.z(ex.load(st, ex.gep(st, tp, 8), ('i', 64)), 64)
        T = self.deadline(ex, st)
        if T is None: ex.oblige(st, 'deadline is computed from the caller\'s argument', {self.prim}, False); return
        pre = [T >= 0] if self.epoch_only else []
        ex.oblige(st, 'native deadline is well-formed (0 <= tv_nsec < 10^9)', {self.prim}, z3.And(nsec >= 0, nsec < G9), extra=pre)
        ex.oblige(st, 'native deadline equals the requested time to the nanosecond', {self.prim}, z3.Or(*[sec*G9 + nsec == t for t in self.deadlines(ex, st)]), extra=pre)
    epoch_only = True
    def deadline(self, ex, st):
        d = self.deadlines(ex, st); return d[0] if d else None
    def deadlines(self, ex, st):
        m = self.m
        if m.timed is None: return []
        if m.timed[0] == 'until': return [self.argd*m.timed[2]]
        return [n + self.argd*m.timed[1] for c, n, w in st.g.get('nows', []) if 'system' in c]
    def run_any(self, ex, m):
        self.m = m
        st = St(); st.mem['obj'] = {}
        st.ctr.update(X=0, S=0, U=0, D=0, nfail=0, calls=0); st.g.update(nows=[], init=[])
        f = self.mod.funcs[m.fn]; args = [Ptr(self.obj, 0)]
        for i, (ty, n, info) in enumerate(f.params[1:]):
            v = ex.fresh_of(st, ty, 'arg%d' % i); args.append(v); self.argd = v; self.on_arg(ex, st, m, i, v)
        self.prepare(ex, st, m)
        ex.run(m.name, m.fn, args, st, self.end)
    def on_arg(self, ex, st, m, i, v):
        if m.timed:
            u = m.timed[-1]
            st.assume(z3.And(v*u >= (0 if self.epoch_only and m.timed[0] == 'until' else -(1 << 62)), v*u < 1 << 62))
    def prepare(self, ex, st, m): pass
    def end(self, ex, st, kind, val):
        m = self.m; P = {self.prim}
        if ex.check(st, [], 5000) == z3.unsat: return
        c = {k: ex.z(v, 64) for k, v in st.ctr.items()}
        def note(o): ex.outcomes[(m.name, o)] = ex.outcomes.get((m.name, o), 0) + 1
        if m.kind == 'ctor':
            note(kind); self.check_init(ex, st); ex.oblige(st, 'construction succeeds', P, z3.BoolVal(kind == 'ret')); return
        if m.kind == 'dtor':
            note(kind); ex.oblige(st, 'native object destroyed exactly once', P, c['D'] == 1); return
        if kind != 'ret': note(kind); ex.oblige(st, 'does not throw', P, False); return
        if m.kind == 'handle':
            note('ret'); ex.oblige(st, 'native_handle is the handle', P, z3.BoolVal(isinstance(val, Ptr) and val.r is self.obj and val.off == self.hnd())); return
        mode = 'S' if m.kw.get('shared') else 'X'; other = 'X' if mode == 'S' else 'S'
        if m.kind == 'lock':
            note('ret'); ex.oblige(st, 'acquires natively exactly once, in the right mode', P, z3.And(c[mode] == 1, c[other] == 0, c['U'] == 0))
        elif m.kind == 'unlock':
            note('ret'); ex.oblige(st, 'releases natively exactly once', P, z3.And(c['U'] == 1, c['X'] == 0, c['S'] == 0))
        elif m.kind in ('try', 'timed'):
            V = b2z(val) if not (is_sym(val) and not z3.is_bool(val)) else val != 0
            for cond, o in ((V, 'true'), (z3.Not(V), 'false')):
                if not ex.feasible(st, cond): continue
                s = st.clone(); s.assume(cond); note(o)
                if o == 'true': ex.oblige(s, 'true only when natively acquired once, in the right mode', P, z3.And(c[mode] == 1, c[other] == 0, c['U'] == 0))
                else: ex.oblige(s, 'false only when the native attempt failed', P, z3.And(c['X'] == 0, c['S'] == 0, c['U'] == 0, c['nfail'] >= 1))
    def check_init(self, ex, st):
        P = {self.prim}
        ini = st.g['init']; cells = st.mem['obj']
        nz = {o: (s, v) for o, (s, v) in cells.items() if not (not is_sym(v) and v in (0, NULLP, False))}
        if ini:
            ok = len(ini) == 1 and not is_sym(ini[0]) and ini[0] == self.kindval
            ex.oblige(st, 'native object initialised once with the right kind', P, z3.BoolVal(bool(ok)))
        else:
            size = self.layout['SZ_' + self.handle]
            covered = sum(s for o, (s, v) in cells.items())
            want = {16: self.kindval} if self.kindval else {}
            ok = self.fam != 'spin' and {o: v for o, (s, v) in nz.items()} == want and covered >= size
            ex.oblige(st, 'native object initialised once with the right kind', P, z3.BoolVal(bool(ok)))
class NativeRW(Native): handle = 'rwlock_'
class NativeSpin(Native): handle = 'slock_'

class NativeSem(Native):
    prim = 'C18'; handle = 'sem_'; epoch_only = False
    assumptions = ('sem_* follow POSIX: 0 on success, -1 with errno set otherwise; errno is otherwise unspecified after a call; system_clock is within 1970..2262',)
    def common_contracts(self):
        super().common_contracts()
        C = self.contract
        self.errno = Region('errno', 'heap', 4)
        C(r'__errno_location$', lambda ex, st, n, d, a, i: Ptr(self.errno, 0))
        def sem(name, kind, eff):
            def h(ex, st, n, d, a, i):
                self.ok_handle(ex, st, a[0], n)
                st.events += 1
                if kind == 'timed' and self.m.timed is None: ex.oblige(st, 'untimed operation uses no timed native call', {self.prim}, False)
                if kind == 'timed': self.check_deadline(ex, st, a[1])
                if kind == 'wait' and (self.m.kind != 'acquire'): ex.oblige(st, 'does not block without a deadline', {self.prim}, False)
                key = ex.cut_key(st, 'ev')
                if ex.do_cut(st, key): raise PathEnd('subsumed')
                out = []
                s = st.clone(); self.bump(s, eff); s.trace.append(n + '=0')
                s.mem['errno'] = {0: (4, ex.fresh_of(s, ('i', 32), 'errno'))}
                out.append(('ret', s, ex.const(0, 32)))
                fails = [('EINTR', EINTR)] if kind != 'post' else []
                if kind == 'timed': fails.append(('ETIMEDOUT', ETIMEDOUT))
                if kind == 'try': fails.append(('EAGAIN', EAGAIN))
                fails.append(('error', None))
                for t, e in fails:
                    s = st.clone(); s.trace.append('%s=%s' % (n, t))
                    if e is None:
                        e = z3.Int(fresh_name('err')); s.assume(z3.And(e > 0, e < 4096, e != EINTR, e != ETIMEDOUT, e != EAGAIN))
                    s.mem['errno'] = {0: (4, e)}
                    s.ctr['last'] = e; self.bump(s, 'nfail')
                    out.append(('ret', s, ex.const(-1, 32)))
                return Outcomes(out)
            C(name + '$', h)
        sem('sem_wait', 'wait', 'T'); sem('sem_trywait', 'try', 'T'); sem('sem_timedwait', 'timed', 'T'); sem('sem_post', 'post', 'R')
        def init(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); st.g['init'].append((a[1], a[2])); return ex.const(0, 32)
        C(r'sem_init$', init)
        def destroy(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); self.bump(st, 'D'); return ex.const(0, 32)
        C(r'sem_destroy$', destroy)
    def prepare(self, ex, st, m):
        st.ctr.update(T=0, R=0, last=0)
        st.mem['errno'] = {0: (4, z3.Int('errno0'))}
    def on_arg(self, ex, st, m, i, v):
        if m.timed: st.assume(z3.And(v*m.timed[-1] >= -(1 << 61), v*m.timed[-1] < 1 << 61))
        elif m.kind == 'ctor': st.assume(z3.And(v >= 0, v <= (1 if self.kindval else 2147483647)))
        elif m.kind == 'release': st.assume(v >= 0); self.n = v
    def deadlines(self, ex, st):
        m = self.m
        if m.timed is not None and m.timed[0] == 'until' and 'steady' in m.timed[1]:
            return [n + (self.argd*m.timed[2] - n2) for c, n, w in st.g['nows'] if 'system' in c for c2, n2, w2 in st.g['nows'] if 'steady' in c2]
        return super().deadlines(ex, st)
    def loop_invariant(self, ex, st, key, label): return 'widen'
    def end(self, ex, st, kind, val):
        m = self.m; P = {self.prim}
        if ex.check(st, [], 5000) == z3.unsat: return
        c = {k: ex.z(v, 64) for k, v in st.ctr.items()}
        def note(o): ex.outcomes[(m.name, o)] = ex.outcomes.get((m.name, o), 0) + 1
        note('throw' if kind == 'throw' else kind if not (kind == 'ret' and m.kind in ('try', 'timed')) else 'ret')
        if m.kind == 'ctor':
            ini = st.g['init']
            ok = len(ini) == 1 and not is_sym(ini[0][0]) and ini[0][0] == 0
            ex.oblige(st, 'semaphore initialised once, process-private', P, z3.BoolVal(bool(ok)))
            if ok: ex.oblige(st, 'initial permits are the requested number', P, ex.z(ini[0][1], 32) == self.argd)
            return
        if m.kind == 'dtor': ex.oblige(st, 'native object destroyed exactly once', P, c['D'] == 1); return
        if kind == 'throw':
            e = val
            ok = e.tinfo == '_ZTISt12system_error' and e.code is not None
            ex.oblige(st, 'a native failure surfaces as system_error', P, z3.BoolVal(ok))
            if ok:
                cat = e.cat is not None and isinstance(e.cat, Ptr) and e.cat.r is not None and ('generic_category' in str(e.cat.r.name) or 'system_category' in str(e.cat.r.name))
                ex.oblige(st, 'the error carries the native code', P, z3.And(z3.BoolVal(bool(cat)), ex.z(e.code, 32) == c['last'], c['nfail'] >= 1))
            ex.oblige(st, 'an interruption or time-out is never reported as an error', P, z3.And(c['last'] != EINTR, z3.Or(c['last'] != ETIMEDOUT, z3.BoolVal(m.timed is None))))
            ex.oblige(st, 'a failed acquisition takes no permit', P, c['T'] == 0)
            if m.kind == 'try': ex.oblige(st, 'try_acquire does not throw', P, False)
            return
        if kind != 'ret': ex.oblige(st, 'terminates normally', P, False); return
        if m.kind == 'acquire': ex.oblige(st, 'takes exactly one permit', P, z3.And(c['T'] == 1, c['R'] == 0))
        elif m.kind == 'release': ex.oblige(st, 'adds exactly the requested permits', P, z3.And(c['R'] == (self.n if m.case != 'default' else 1), c['T'] == 0))
        elif m.kind in ('try', 'timed'):
            V = b2z(val)
            for cond, o in ((V, 'true'), (z3.Not(V), 'false')):
                if not ex.feasible(st, cond): continue
                s = st.clone(); s.assume(cond); note(o)
                if o == 'true': ex.oblige(s, 'true only with exactly one permit taken', P, z3.And(c['T'] == 1, c['R'] == 0))
                else:
                    ex.oblige(s, 'false takes no permit', P, z3.And(c['T'] == 0, c['R'] == 0))
                    if m.kind == 'timed': ex.oblige(s, 'false only after the native wait reported a time-out', P, c['last'] == ETIMEDOUT)
                    else: ex.oblige(s, 'false only when the native attempt failed', P, c['nfail'] >= 1)
