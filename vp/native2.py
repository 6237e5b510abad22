"""Windows and Apple wrappers: native calls as contracts over declaration-only system headers (drivers/stubs)"""
from theory import *
from nposix import Native, NativeSem
M1 = 1000000
FOREVER = (1 << 64) - 1
SE_INVAL, SE_AGAIN = 22, 11

class Embedded(Native):
    """wrapper whose native object is a member: critical section, SRW lock, os_unfair_lock"""
    prim = 'C21'
    assumptions = ('the stand-in declarations in /verif/drivers/stubs agree with the platform headers (64-bit Windows, macOS); native functions behave as documented',)
    EV = ()
    def common_contracts(self):
        super().common_contracts()
        C = self.contract
        def ev(name, outs, eff, blocking):
            def h(ex, st, n, d, a, i):
                self.ok_handle(ex, st, a[0], n)
                st.events += 1
                key = ex.cut_key(st, 'ev')
                if ex.do_cut(st, key): raise PathEnd('subsumed')
                if blocking and self.m.kind == 'try': ex.oblige(st, 'try operation does not block', {self.prim}, False)
                self.bump(st, 'calls'); out = []
                w = {'BOOL': 32, 'BOOLEAN': 8, 'bool': 1}.get(outs)
                if w is None:
                    self.bump(st, eff); st.trace.append(n); return Outcomes([('ret', st, None)])
                s = st.clone(); self.bump(s, eff); s.trace.append(n + '=true')
                if w == 1: rv = True
                else: rv = ex.freshint(w, 'r'); s.assume(z3.And(rv != 0, rv >= -(1 << (w - 1)), rv < 1 << (w - 1)))
                out.append(('ret', s, rv))
                s = st.clone(); self.bump(s, 'nfail'); s.trace.append(n + '=false'); out.append(('ret', s, False if w == 1 else ex.const(0, w)))
                return Outcomes(out)
            C(name + '$', h)
        for e in (('EnterCriticalSection', 'void', 'X', True), ('TryEnterCriticalSection', 'BOOL', 'X', False), ('LeaveCriticalSection', 'void', 'U', False),
                  ('AcquireSRWLockExclusive', 'void', 'X', True), ('TryAcquireSRWLockExclusive', 'BOOLEAN', 'X', False), ('ReleaseSRWLockExclusive', 'void', 'U', False),
                  ('AcquireSRWLockShared', 'void', 'S', True), ('TryAcquireSRWLockShared', 'BOOLEAN', 'S', False), ('ReleaseSRWLockShared', 'void', 'US', False),
                  ('os_unfair_lock_lock', 'void', 'X', True), ('os_unfair_lock_trylock', 'bool', 'X', False), ('os_unfair_lock_unlock', 'void', 'U', False)): ev(*e)
        def init(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); st.g['init'].append(0)
            return ex.const(1, 32) if 'SpinCount' in n or n.endswith('Ex') else None
        C(r'(InitializeCriticalSection(AndSpinCount)?|InitializeSRWLock)$', init)
        def destroy(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); self.bump(st, 'D'); return None
        C(r'DeleteCriticalSection$', destroy)
    def prepare(self, ex, st, m): st.ctr.update(US=0)
    def end(self, ex, st, kind, val):
        m = self.m; P = {self.prim}
        if m.kind in ('unlock', 'dtor') and kind == 'ret':
            if ex.check(st, [], 5000) == z3.unsat: return
            c = {k: ex.z(v, 64) for k, v in st.ctr.items()}
            ex.outcomes[(m.name, 'ret')] = ex.outcomes.get((m.name, 'ret'), 0) + 1
            if m.kind == 'dtor': ex.oblige(st, 'native object destroyed exactly once', P, c['D'] == (1 if self.fam == 'cs' else 0)); return
            u, o = ('US', 'U') if m.kw.get('shared') else ('U', 'US')
            ex.oblige(st, 'releases natively exactly once, in the right mode', P, z3.And(c[u] == 1, c[o] == 0, c['X'] == 0, c['S'] == 0)); return
        if m.kind in ('lock', 'try', 'timed'): 
            if ex.feasible(st, ex.z(st.ctr['US'], 64) != 0): ex.oblige(st, 'an acquisition releases nothing', P, ex.z(st.ctr['US'], 64) == 0)
        super().end(ex, st, kind, val)
    def check_init(self, ex, st):
        if self.fam == 'cs': ex.oblige(st, 'native object initialised once with the right kind', {self.prim}, z3.BoolVal(st.g['init'] == [0]))
        else: super().check_init(ex, st)
class CritSec(Embedded): handle = 'cs_'
class SrwLock(Embedded): handle = 'srwlock_'
class UnfairLock(Embedded): handle = 'oslock_'; prim = 'C22'

class Handle(NativeSem):
    """wrapper that owns a native object through a handle: Win32 mutex and semaphore, GCD semaphore"""
    prim = 'C21'; handle = 'hsem_'
    assumptions = Embedded.assumptions + ('timeouts are shorter than 2^32-1 ms (Windows); the Win32 mutex is never abandoned; system_clock is within 1970..2262',)
    sem = True
    def __init__(self, mod, lay, fam='win', kind=0, lmax=0x7fffffff, relmax=None, accurate=True):
        super().__init__(mod, lay, fam, kind); self.accurate = accurate; self.lmax = lmax; self.relmax = relmax or min(lmax, 0x7fffffff)
        self.hreg = Region('native', 'heap', None, 'native')
        self.H = Ptr(self.hreg, 0)
    def ok_handle(self, ex, st, p, what):
        ok = isinstance(p, Ptr) and p.r is self.hreg and p.off == 0
        ex.oblige(st, '%s is applied to the object\'s own handle' % what, {self.prim}, z3.BoolVal(ok))
        if not ok: raise PathEnd('wrong handle')
    def common_contracts(self):
        super().common_contracts()
        C = self.contract
        def arrive(ex, st):
            st.events += 1
            key = ex.cut_key(st, 'ev')
            if ex.do_cut(st, key): raise PathEnd('subsumed')
        # ---- Win32
        def create(ex, st, n, d, a, i):
            if 'Mutex' in n: st.g['init'].append(('mutex', a[1]))
            else: st.g['init'].append(('sem', a[1], a[2]))
            s = st.clone(); st.trace.append(n + '=handle'); s.trace.append(n + '=NULL'); s.g['null'] = True
            return Outcomes([('ret', st, self.H), ('ret', s, NULLP)])
        C(r'Create(Mutex|Semaphore)(Ex)?[AW]$', create)
        def close(ex, st, n, d, a, i):
            if not (n == 'free' and a[0] == NULLP): self.ok_handle(ex, st, a[0], n); self.bump(st, 'D')
            return ex.const(1, 32) if n == 'CloseHandle' else None
        C(r'(CloseHandle|free|dispatch_release)$', close)
        def waitfor(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n)
            ms = ex.z(a[1], 32)
            inf = z3.Or(ms == -1, ms == 0xffffffff)
            arrive(ex, st); P = {self.prim}; m = self.m
            self.bump(st, 'calls')
            k = m.kind
            if k in ('lock', 'acquire'): pass
            elif k == 'timed': self.check_ms(ex, st, ms)
            else: ex.oblige(st, 'does not block without a deadline', P, ms == 0)
            out = []
            s = st.clone(); self.bump(s, 'X'); self.bump(s, 'T'); s.trace.append(n + '=OBJECT_0'); out.append(('ret', s, ex.const(0, 32)))
            s = st.clone(); s.assume(z3.Not(inf)); self.bump(s, 'nfail'); s.ctr['last'] = 258; s.trace.append(n + '=TIMEOUT')
            s.ctr['acc'] = ex.z(s.ctr['acc'], 64) + z3.If(ms < 0, ms + (1 << 32), ms)*M1; s.ctr['owed'] = z3.If(ms != 0, z3.IntVal(1), ex.z(s.ctr['owed'], 64)); s.g['lastwait'] = len(s.g['nows'])
            out.append(('ret', s, ex.const(258, 32)))
            s = st.clone(); self.bump(s, 'nfail'); s.ctr['last'] = -1; s.trace.append(n + '=FAILED'); out.append(('ret', s, ex.const(-1, 32)))
            return Outcomes(out)
        C(r'WaitForSingleObject(Ex)?$', waitfor)
        def sleep(ex, st, n, d, a, i):
            ms = ex.z(a[0], 32)
            st.ctr['owed'] = z3.If(z3.And(ms >= 1, ms < 1000), z3.IntVal(0), ex.z(st.ctr['owed'], 64))
            ex.oblige(st, 'sleeps only to complete an early time-out', {self.prim}, z3.And(ms >= 0, ms <= 20, z3.BoolVal(self.m.timed is not None)))
        C(r'Sleep$', sleep)
        def relm(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); self.bump(st, 'U'); return ex.const(1, 32)
        C(r'ReleaseMutex$', relm)
        def rels(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); arrive(ex, st)
            k = ex.z(a[1], 32); out = []
            s = st.clone(); s.assume(k > 0); s.ctr['R'] = ex.z(s.ctr['R'], 64) + k; s.trace.append(n + '=TRUE')
            rv = ex.freshint(32, 'r'); s.assume(z3.And(rv != 0, rv >= -(1 << 31), rv < 1 << 31)); out.append(('ret', s, rv))
            s = st.clone(); self.bump(s, 'nfail'); s.ctr['relfail'] = z3.If(k > 0, ex.z(s.ctr['relfail'], 64) + 1, ex.z(s.ctr['relfail'], 64)); s.trace.append(n + '=FALSE'); out.append(('ret', s, ex.const(0, 32)))
            return Outcomes(out)
        C(r'ReleaseSemaphore$', rels)
        C(r'GetLastError$', lambda ex, st, n, d, a, i: ex.fresh_of(st, ('i', 32), 'gle'))
        # ---- GCD
        def dcreate(ex, st, n, d, a, i):
            st.g['init'].append(('sem', a[0], None))
            s = st.clone(); st.trace.append(n + '=handle'); s.trace.append(n + '=NULL'); s.g['null'] = True
            return Outcomes([('ret', st, self.H), ('ret', s, NULLP)])
        C(r'dispatch_semaphore_create$', dcreate)
        def dsignal(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); self.bump(st, 'R'); return ex.fresh_of(st, ('i', 64), 'woken')
        C(r'dispatch_semaphore_signal$', dsignal)
        def dtime(ex, st, n, d, a, i):
            ok = not is_sym(a[0]) and not isinstance(a[0], Opaque) and a[0] == 0
            if not ok: raise Unsupported('dispatch_time base')
            return Opaque(('dtime', 'rel', ex.z(a[1], 64)))
        C(r'dispatch_time$', dtime)
        def wtime(ex, st, n, d, a, i):
            if a[0] == NULLP:
                sysn = self.read_clock(ex, st, 'std::chrono::_V2::system_clock'); return Opaque(('dtime', 'wall', sysn + ex.z(a[1], 64)))
            sec = ex.z(ex.load(st, a[0], ('i', 64)), 64); nsec = ex.z(ex.load(st, ex.gep(st, a[0], 8), ('i', 64)), 64)
            return Opaque(('dtime', 'wall', sec*1000*M1 + nsec + ex.z(a[1], 64)))
        C(r'dispatch_walltime$', wtime)
        def dwait(ex, st, n, d, a, i):
            self.ok_handle(ex, st, a[0], n); arrive(ex, st); P = {self.prim}; k = self.m.kind
            self.bump(st, 'calls'); t = a[1]; forever = False
            if isinstance(t, Opaque) and isinstance(t.tag, tuple) and t.tag[0] == 'dtime':
                if k != 'timed': ex.oblige(st, 'untimed operation uses no timed native call', P, False)
                else:
                    w = [z3.BoolVal(False)]
                    if t.tag[1] == 'rel': w += [t.tag[2] == x for x in self.spans(st)]
                    else: w += [t.tag[2] == x for x in self.deadlines(ex, st)]
                    ex.oblige(st, 'native deadline equals the requested time to the nanosecond', P, z3.Or(*w))
            else:
                tz = ex.z(t, 64); now = tz == 0; forever = not is_sym(t) and t in (-1, FOREVER)
                if k == 'acquire': ex.oblige(st, 'acquire waits without a deadline', P, z3.BoolVal(forever))
                elif k == 'timed': ex.oblige(st, 'native deadline equals the requested time to the nanosecond', P, z3.And(now, z3.Or(*[x <= 0 for x in self.spans(st)])) if self.spans(st) else z3.BoolVal(False))
                else: ex.oblige(st, 'does not block without a deadline', P, now)
            out = []
            s = st.clone(); self.bump(s, 'T'); s.trace.append(n + '=0'); out.append(('ret', s, ex.const(0, 64)))
            if not forever:
                s = st.clone(); self.bump(s, 'nfail'); s.ctr['last'] = 49; s.ctr['late'] = 1; s.trace.append(n + '=TIMED_OUT'); out.append(('ret', s, ex.const(49, 64)))
            s = st.clone(); self.bump(s, 'nfail'); e = ex.freshint(64, 'err'); s.assume(z3.And(e != 0, e != 49, e > -(1 << 31), e < 1 << 31)); s.ctr['last'] = e; s.trace.append(n + '=error'); out.append(('ret', s, e))
            return Outcomes(out)
        C(r'dispatch_semaphore_wait$', dwait)
    def spans(self, st):
        """the requested relative timeouts, in ns"""
        m = self.m
        if m.timed[0] == 'for': return [self.argd*m.timed[1]]
        return [self.argd*m.timed[2] - n for c, n, w in st.g['nows'] if m.timed[1] in c]
    def check_ms(self, ex, st, ms):
        P = {self.prim}; T = self.spans(st)
        if not T: ex.oblige(st, 'the timeout is computed from the caller\'s argument', P, False); return
        fits = [t < ((1 << 32) - 2)*M1 for t in T]
        u = z3.If(ms < 0, ms + (1 << 32), ms)
        ex.oblige(st, 'native timeout is the requested time rounded up to a millisecond, none once it has passed', P, z3.Or(*[z3.If(t <= 0, ms == 0, z3.And(ms != -1, u*M1 >= t, u*M1 < t + M1)) for t in T]), extra=fits)
    def prepare(self, ex, st, m):
        super().prepare(ex, st, m)
        st.ctr.update(acc=0, owed=0, relfail=0, late=0); st.g['null'] = False
    def run_any(self, ex, m):
        if m.kind == 'ctor': return self.run_state(ex, m, None)
        for h in ([self.H, NULLP] if self.sem and m.kind != 'handle' else [self.H]): self.run_state(ex, m, h)
    def run_state(self, ex, m, h):
        self.m = m
        st = St(); st.mem['obj'] = {}; st.mem['native'] = {}
        if h is not None: st.mem['obj'] = {self.hnd(): (8, h)}
        st.ctr.update(X=0, S=0, U=0, D=0, nfail=0, calls=0); st.g.update(nows=[], init=[])
        f = self.mod.funcs[m.fn]; args = [Ptr(self.obj, 0)]
        for i, (ty, n, info) in enumerate(f.params[1:]):
            v = ex.fresh_of(st, ty, 'arg%d' % i); args.append(v); self.argd = v; self.on_arg(ex, st, m, i, v)
        self.prepare(ex, st, m); st.g['null'] = h == NULLP
        ex.run(m.name, m.fn, args, st, self.end)
    def on_arg(self, ex, st, m, i, v):
        if m.timed: st.assume(z3.And(v*m.timed[-1] >= -(1 << 61), v*m.timed[-1] < 1 << 61))
        elif m.kind == 'ctor': st.assume(z3.And(v >= 0, v <= self.lmax))
        elif m.kind == 'release': st.assume(z3.And(v >= 0, v <= self.relmax)); self.n = v
    def cut_extra(self, st): return (st.g.get('null'),)
    def end(self, ex, st, kind, val):
        m = self.m; P = {self.prim}
        if ex.check(st, [], 5000) == z3.unsat: return
        c = {k: ex.z(v, 64) for k, v in st.ctr.items()}; null = st.g['null']
        def note(o): ex.outcomes[(m.name, o)] = ex.outcomes.get((m.name, o), 0) + 1
        note('throw' if kind == 'throw' else kind if not (kind == 'ret' and m.kind in ('try', 'timed')) else 'ret')
        if kind == 'end': ex.oblige(st, 'terminates normally', P, False); return
        def code(e, v):
            ok = e.tinfo == '_ZTISt12system_error' and e.code is not None
            return z3.And(z3.BoolVal(bool(ok and e.cat is not None and isinstance(e.cat, Ptr) and 'generic_category' in str(e.cat.r.name))), ex.z(e.code, 32) == v if ok else z3.BoolVal(False))
        if m.kind == 'ctor':
            ini = st.g['init']; ok = len(ini) == 1 and ini[0][0] == ('sem' if self.sem else 'mutex')
            ex.oblige(st, 'native object created exactly once', P, z3.BoolVal(ok))
            if ok and self.sem:
                ex.oblige(st, 'initial permits are the requested number', P, ex.z(ini[0][1], 32) == self.argd)
                if ini[0][2] is not None: ex.oblige(st, 'the native maximum admits max() permits', P, ex.z(ini[0][2], 32) >= self.lmax)
            elif ok: ex.oblige(st, 'the mutex is created unowned', P, ex.z(ini[0][1], 32) == 0)
            if kind == 'ret':
                want = NULLP if null else self.H
                cell = st.mem['obj'].get(self.hnd()); ex.oblige(st, 'the object keeps the handle it created', P, z3.BoolVal(bool(cell and cell[1] == want)))
            if not self.sem: ex.oblige(st, 'construction throws invalid_argument exactly when the native object could not be created', P, z3.BoolVal((kind == 'throw') == null) if kind != 'throw' else z3.And(z3.BoolVal(null), code(val, SE_INVAL)))
            else: ex.oblige(st, 'construction does not throw', P, z3.BoolVal(kind == 'ret'))
            return
        if m.kind == 'dtor': ex.oblige(st, 'the handle is released exactly once', P, z3.And(z3.BoolVal(kind == 'ret'), c['D'] == (0 if null else 1))); return
        ex.oblige(st, 'the handle stays open', P, c['D'] == 0)
        if m.kind == 'handle': ex.oblige(st, 'native_handle is the handle', P, z3.BoolVal(kind == 'ret' and isinstance(val, Ptr) and val == self.H)); return
        T = c['T']
        if kind == 'throw':
            ex.oblige(st, 'a failed operation takes no permit', P, T == 0)
            if m.kind == 'try': ex.oblige(st, 'the try operation does not throw', P, False); return
            if null: ex.oblige(st, 'an invalid handle is reported as invalid_argument', P, code(val, SE_INVAL)); return
            ex.oblige(st, 'a native failure surfaces as resource_unavailable_try_again', P, code(val, SE_AGAIN))
            if m.kind == 'release': ex.oblige(st, 'release fails only when the native release of the requested permits fails', P, c['relfail'] >= 1)
            else: ex.oblige(st, 'a time-out is never reported as an error', P, z3.And(c['nfail'] >= 1, c['last'] != (258 if self.fam == 'win' else 49)))
            return
        if null and m.kind not in ('try',): ex.oblige(st, 'an invalid handle is reported as invalid_argument', P, False); return
        if m.kind in ('acquire', 'lock'): ex.oblige(st, 'takes exactly one permit', P, z3.And(T == 1, c['R'] == 0, c['U'] == 0))
        elif m.kind == 'unlock': ex.oblige(st, 'releases natively exactly once', P, z3.And(c['U'] == 1, T == 0))
        elif m.kind == 'release': ex.oblige(st, 'adds exactly the requested permits', P, z3.And(c['R'] == (self.n if m.case != 'default' else 1), T == 0))
        elif m.kind in ('try', 'timed'):
            V = b2z(val) if not (is_sym(val) and not z3.is_bool(val)) else val != 0
            for cond, o in ((V, 'true'), (z3.Not(V), 'false')):
                if not ex.feasible(st, cond): continue
                s = st.clone(); s.assume(cond); note(o)
                if o == 'true': ex.oblige(s, 'true only with exactly one permit taken', P, z3.And(T == 1, c['R'] == 0, c['U'] == 0))
                else:
                    ex.oblige(s, 'false takes no permit', P, z3.And(T == 0, c['R'] == 0, c['U'] == 0))
                    if m.kind == 'try' and not null: ex.oblige(s, 'false only when the native attempt failed', P, c['nfail'] >= 1)
                    if m.kind == 'timed':
                        if self.fam == 'win':
                            done = [z3.And(c['acc'] >= t, z3.BoolVal(True) if not self.accurate else c['owed'] == 0) for t in self.spans(st)]
                            # a later clock reading at or past the deadline is as good
                            if m.timed[0] == 'until': done += [n >= self.argd*m.timed[2] for cl_, n, w in st.g['nows'][st.g.get('lastwait', 0):] if m.timed[1] in cl_]
                            fits = [t < ((1 << 32) - 2)*M1 for t in self.spans(st)]
                            ex.oblige(s, 'false only after the requested time has passed', P, z3.And(c['last'] == 258, z3.Or(*done)) if done else z3.BoolVal(False), extra=fits)
                        else: ex.oblige(s, 'false only after the native wait reported a time-out', P, c['last'] == 49)
class WinMutex(Handle): handle = 'hmtx_'; sem = False
class WinSem(Handle): handle = 'hsem_'
class GcdSem(Handle): handle = 'dsema_'; prim = 'C22'
