"""shared_lock and scoped_lock over an abstract lockable (behaviour only by contract)"""
from theory import *
EPERM, EDEADLK = 1, 35

class WrapBase(Spec):
    prim = ''
    assumptions = ('the wrapped mutex meets its requirements: lock functions either acquire once or throw without acquiring, unlock does not throw',)
    def __init__(self, mod, lay):
        super().__init__(mod); self.layout = lay
    def overflow_tags(self): return {self.prim}
    memsafe_tags = overflow_tags
    def assert_tags(self, ex, st): return {self.prim}
    def mexc(self, st):
        r = Region('exc:mutex', 'heap', 16); st.mem.setdefault('exc:mutex', {})
        return Exc(r, '_ZTI5MutexError')
    def mname(self, p):
        return p.r.key if isinstance(p, Ptr) and p.r is not None and p.off == 0 and p.r.key in self.ms else None
    def cut_extra(self, st): return (tuple(sorted(st.g['held'].items())), tuple(st.g['ev']))
    def note(self, ex, st, o): ex.outcomes[(self.m.name, o)] = ex.outcomes.get((self.m.name, o), 0) + 1

class SharedLock(WrapBase):
    """owns: the object holds exactly one share of *pm_; st.g['ev'] = calls made on mutexes"""
    prim = 'C15'
    def common_contracts(self):
        super().common_contracts()
        C = self.contract; P = {self.prim}
        def call(name, kind):
            def h(ex, st, n, d, a, i):
                mk = self.mname(a[0])
                ex.oblige(st, '%s goes to the wrapped mutex' % n, P, z3.BoolVal(mk is not None))
                if mk is None: raise PathEnd('bad mutex')
                if kind == 'rel':
                    ex.oblige(st, 'releases only a share it holds', P, z3.BoolVal(st.g['held'].get(mk, 0) > 0))
                    st.g['held'] = dict(st.g['held']); st.g['held'][mk] = st.g['held'].get(mk, 0) - 1
                    st.g['ev'] = st.g['ev'] + (('rel', mk),); return None
                st.events += 1
                if name == 'e_try_for': st.g['ev'] = st.g['ev'] + (('for', mk),); ex.oblige(st, 'the caller\'s duration is passed on', P, ex.z(a[1], 64) == self.argd)
                elif name == 'e_try_until': st.g['ev'] = st.g['ev'] + (('until', mk),); ex.oblige(st, 'the caller\'s deadline is passed on', P, z3.And(ex.z(a[1], 64) == self.argd, ex.z(a[2], 32) == (0 if 'sys' in self.m.fn else 1)))
                else: st.g['ev'] = st.g['ev'] + ((kind, mk),)
                out = []
                s = st.clone(); s.g['held'][mk] = s.g['held'].get(mk, 0) + 1; s.g['res'] = True; s.trace.append(name + '=ok')
                out.append(('ret', s, None if kind == 'lock' else True))
                if kind != 'lock':
                    s = st.clone(); s.g['res'] = False; s.trace.append(name + '=false'); out.append(('ret', s, False))
                s = st.clone(); s.g['res'] = 'throw'; s.trace.append(name + '=throw'); out.append(('throw', s, self.mexc(s)))
                return Outcomes(out)
            C(name + '$', h)
        call('e_lock_shared', 'lock'); call('e_try_lock_shared', 'try'); call('e_try_for', 'try'); call('e_try_until', 'try'); call('e_unlock_shared', 'rel')
    def setsl(self, st, reg, pm, owns):
        o, s = self.layout['OFF_pm_'], self.layout['OFF_owns_']
        st.mem[reg.key] = {o: (8, NULLP if pm is None else Ptr(self.M[pm], 0)), s: (1, 1 if owns else 0)}
    def getsl(self, ex, st, reg):
        """(mutex key | None | '?', owns as bool/z3)"""
        c = st.mem[reg.key]; pm = c.get(self.layout['OFF_pm_'], (8, '?'))[1]; ow = c.get(self.layout['OFF_owns_'], (1, '?'))[1]
        if pm == NULLP: pm = None
        else: pm = self.mname(pm) or '?'
        if is_sym(ow):
            cv = conc(ow); ow = cv if cv is not None else '?'
        return pm, (bool(int(ow) & 1) if ow != '?' else '?')
    def run_any(self, ex, m):
        self.m = m; self.ms = ('M1', 'M2')
        self.M = {k: Region(k, 'heap', 8) for k in self.ms}
        A, B = Region('slA', 'heap', 16), Region('slB', 'heap', 16)
        two = m.kind in ('move', 'assign', 'swap')
        S1 = [(None, False), ('M1', False), ('M1', True)]
        S2 = S1 + [('M2', False), ('M2', True)]
        ini = [None] if m.kind in ('ctor', 'move') else S1
        allobs = ex.obs
        for a in ini:
            for b in (S2 + (['self'] if m.kind == 'assign' else []) if two else [None]):
                st = St(); st.mem['slA'] = {}; st.mem['slB'] = {}
                for k in self.ms: st.mem[k] = {}
                held = {}
                if a is not None:
                    self.setsl(st, A, *a)
                    if a[1]: held[a[0]] = held.get(a[0], 0) + 1
                args = [Ptr(A, 0)]
                if b == 'self': args.append(Ptr(A, 0))
                elif b is not None:
                    self.setsl(st, B, *b); args.append(Ptr(B, 0))
                    if b[1]: held[b[0]] = held.get(b[0], 0) + 1
                if m.kind == 'ctor' and m.fn != 'm_ctor': args.append(Ptr(self.M['M1'], 0))
                if m.fn == 'm_ctor_adopt': held['M1'] = 1
                f = self.mod.funcs[m.fn]
                if len(f.params) > len(args):
                    self.argd = ex.fresh_of(st, f.params[-1][0], 'dur'); args.append(self.argd)
                st.g.update(held=held, ev=(), res=None, nows=[])
                st.trace.append('pre A=%s B=%s' % (a, b))
                ex.run(m.name, m.fn, args, st, lambda ex, s, kind, val, a=a, b=b, h0=dict(held): self.end(ex, s, kind, val, a, b, h0, A, B))
    def end(self, ex, st, kind, val, a, b, h0, A, B):
        m = self.m; P = {self.prim}
        if m.kind == 'dtor': a1 = None
        elif m.kind == 'ctor' and kind == 'throw': a1 = None
        else: a1 = self.getsl(ex, st, A)
        b1 = self.getsl(ex, st, B) if b not in (None, 'self') else None
        ev, res, held = list(st.g['ev']), st.g['res'], st.g['held']
        def ob(n, c): ex.oblige(st, n, P, z3.BoolVal(bool(c)))
        def owned(*xs):
            h = {}
            for x in xs:
                if x and x[1] is True: h[x[0]] = h.get(x[0], 0) + 1
            return h
        hn = {k: v for k, v in held.items() if v}
        self.note(ex, st, kind)
        if kind not in ('ret', 'throw'): ob('does not terminate the program', False); return
        # conservation: the shares held equal what the objects say they own
        if m.kind == 'release': ob('the share is handed to the caller unreleased', hn == owned(a) and ev == [])
        else: ob('shares held are exactly those the objects claim', hn == owned(a1, b1))
        if m.kind == 'ctor':
            v = m.fn[len('m_ctor'):]
            if v == '': ob('default: refers to nothing', kind == 'ret' and a1 == (None, False) and not ev)
            elif v == '_defer': ob('defer: refers to the mutex without locking', kind == 'ret' and a1 == ('M1', False) and not ev)
            elif v == '_adopt': ob('adopt: takes over the share without locking', kind == 'ret' and a1 == ('M1', True) and not ev)
            else:
                want = {'_m': 'lock', '_try': 'try', '_for': 'for', '_until': 'until', '_until_sys': 'until'}[v]
                ob('acquires once, in the way it was asked to', [e for e in ev] == [(want, 'M1')])
                if res == 'throw': ob('a failure of the mutex propagates', kind == 'throw' and val.tinfo == '_ZTI5MutexError')
                else: ob('refers to the mutex and owns exactly what was acquired', kind == 'ret' and a1 == ('M1', res))
        elif m.kind == 'move':
            ob('move construction hands the share on', kind == 'ret' and a1 == b and b1 == (None, False) and not ev)
        elif m.kind == 'assign':
            ob('does not throw', kind == 'ret')
            if b == 'self': ob('self-assignment loses no share', ev in ([], [('rel', a[0])]))
            else: ob('releases its own share once and takes over the other', a1 == b and b1 == (None, False) and ev == ([('rel', a[0])] if a[1] else []))
        elif m.kind == 'swap': ob('exchanges both', kind == 'ret' and a1 == b and b1 == a and not ev)
        elif m.kind == 'dtor': ob('releases a held share exactly once', kind == 'ret' and ev == ([('rel', a[0])] if a[1] else []))
        elif m.kind == 'release':
            r = None if val == NULLP else self.mname(val)
            ob('returns the mutex and refers to nothing afterwards', kind == 'ret' and r == a[0] and a1 == (None, False) and (a[0] is not None or val == NULLP))
        elif m.kind == 'observe':
            ob('observers change nothing', kind == 'ret' and a1 == a and not ev)
            if m.fn == 'm_mutex': ob('mutex() reports the mutex', (val == NULLP) if a[0] is None else self.mname(val) == a[0])
            else:
                v = val if not is_sym(val) else conc(val)
                ob('reports ownership truthfully', v is not None and bool(v) == a[1])
        elif m.kind == 'unlock':
            if not a[1]:
                ob('unlock without ownership changes nothing', a1 == a and not ev); self.syserr(ex, st, kind, val, EPERM)
            else: ob('releases its share once', kind == 'ret' and a1 == (a[0], False) and ev == [('rel', a[0])])
        elif m.kind in ('lock', 'try', 'for', 'until'):
            if a[0] is None or a[1]:
                ob('misuse changes nothing', a1 == a and not ev); self.syserr(ex, st, kind, val, EPERM if a[0] is None else EDEADLK)
            else:
                ob('acquires once, in the way it was asked to', ev == [(m.kind, 'M1')])
                if res == 'throw': ob('a failure of the mutex propagates and changes nothing', kind == 'throw' and val.tinfo == '_ZTI5MutexError' and a1 == a)
                else:
                    ob('owns exactly what was acquired', kind == 'ret' and a1 == ('M1', res))
                    if m.kind != 'lock':
                        v = val if not is_sym(val) else conc(val)
                        ob('result tells whether it was acquired', v is not None and bool(v) == res)
    def syserr(self, ex, st, kind, val, code):
        ok = kind == 'throw' and val.tinfo == '_ZTISt12system_error' and val.code is not None and isinstance(val.cat, Ptr) and 'generic' in str(val.cat.r.name)
        ex.oblige(st, 'misuse raises system_error with the standard code', {self.prim}, z3.And(z3.BoolVal(bool(ok)), ex.z(val.code, 32) == code) if ok else z3.BoolVal(False))
SL_METHODS = [Method(f, 'ctor', blocking=False) for f in ('m_ctor', 'm_ctor_m', 'm_ctor_defer', 'm_ctor_try', 'm_ctor_adopt', 'm_ctor_for', 'm_ctor_until', 'm_ctor_until_sys')] + [
    Method('m_ctor_move', 'move'), Method('m_assign', 'assign'), Method('m_dtor', 'dtor'), Method('m_lock', 'lock'), Method('m_try_lock', 'try'), Method('m_try_lock_for', 'for'),
    Method('m_try_lock_until', 'until'), Method('m_try_lock_until_sys', 'until'), Method('m_unlock', 'unlock'), Method('m_swap', 'swap'), Method('m_std_swap', 'swap'), Method('m_release', 'release'),
    Method('m_owns_lock', 'observe'), Method('m_bool', 'observe'), Method('m_mutex', 'observe')]

class ScopedLock(WrapBase):
    prim = 'C16'
    assumptions = WrapBase.assumptions + ('std::lock acquires all its arguments without deadlock or throws holding none',)
    def common_contracts(self):
        super().common_contracts()
        C = self.contract; P = {self.prim}
        def get(ex, st, p, n):
            k = self.mname(p); ex.oblige(st, '%s goes to one of the mutexes' % n, P, z3.BoolVal(k is not None))
            if k is None: raise PathEnd('bad mutex')
            return k
        def take(ex, st, k):
            ex.oblige(st, 'no mutex is acquired twice', P, z3.BoolVal(st.g['held'].get(k, 0) == 0)); st.g['held'] = dict(st.g['held']); st.g['held'][k] = 1
        def ulock(ex, st, n, d, a, i):
            k = get(ex, st, a[0], n)
            ex.oblige(st, 'unlocks only a mutex it holds', P, z3.BoolVal(st.g['held'].get(k, 0) == 1)); st.g['held'] = dict(st.g['held']); st.g['held'][k] = 0; st.g['ev'] = st.g['ev'] + (('rel', k),)
        C('e_unlock$', ulock)
        def blockers(ex, st, what): ex.oblige(st, '%s never blocks while holding another mutex' % what, P, z3.BoolVal(not any(st.g['held'].values())))
        def lock(ex, st, n, d, a, i):
            k = get(ex, st, a[0], n); blockers(ex, st, 'lock'); st.events += 1
            if ex.do_cut(st, ex.cut_key(st, 'ev')): raise PathEnd('subsumed')
            s = st.clone(); s.g['thrown'] = True; s.trace.append('lock throws')
            take(ex, st, k); st.g['ev'] = st.g['ev'] + (('acq', k),)
            return Outcomes([('ret', st, None), ('throw', s, self.mexc(s))])
        C('e_lock$', lock)
        def tlock(ex, st, n, d, a, i):
            k = get(ex, st, a[0], n); st.events += 1
            if ex.do_cut(st, ex.cut_key(st, 'ev')): raise PathEnd('subsumed')
            s = st.clone(); s2 = st.clone(); s2.g['thrown'] = True
            take(ex, st, k); st.g['ev'] = st.g['ev'] + (('acq', k),)
            return Outcomes([('ret', st, True), ('ret', s, False), ('throw', s2, self.mexc(s2))])
        C('e_try_lock$', tlock)
        def stdlock(ex, st, n, d, a, i):
            ks = [get(ex, st, p, 'std::lock') for p in a]; blockers(ex, st, 'std::lock'); st.events += 1
            s = st.clone(); s.g['thrown'] = True; s.trace.append('std::lock throws')
            for k in ks: take(ex, st, k); st.g['ev'] = st.g['ev'] + (('acq', k),)
            return Outcomes([('ret', st, None), ('throw', s, self.mexc(s))])
        C(r'void std::lock<', stdlock)
        def stdtry(ex, st, n, d, a, i):
            ks = [get(ex, st, p, 'std::try_lock') for p in a]; st.events += 1
            if ex.do_cut(st, ex.cut_key(st, 'ev')): raise PathEnd('subsumed')
            outs = []
            for j in range(len(ks)): outs.append(('ret', st.clone(), ex.const(j, 32)))
            s = st.clone(); s.g['thrown'] = True; outs.append(('throw', s, self.mexc(s)))
            for k in ks: take(ex, st, k); st.g['ev'] = st.g['ev'] + (('acq', k),)
            return Outcomes(outs + [('ret', st, ex.const(-1, 32))])
        C(r'int std::try_lock<', stdtry)
        def body(ex, st, n, d, a, i):
            ex.oblige(st, 'owns every mutex once construction finished', P, z3.BoolVal(all(st.g['held'].get(k, 0) == 1 for k in self.ms)))
            ex.oblige(st, 'construction releases nothing it keeps and adopts without locking', P, z3.BoolVal(not self.adopt or not st.g['ev']))
            st.g['body'] += 1; st.g['ev'] = ()
            s = st.clone(); s.g['thrown'] = True; s.trace.append('body throws')
            return Outcomes([('ret', st, None), ('throw', s, self.mexc(s))])
        C(r'vp_body', body)
    def run_any(self, ex, m):
        self.m = m; n = len(self.mod.funcs[m.fn].params); self.adopt = m.fn.endswith('a')
        self.ms = tuple('M%d' % i for i in range(n)); P = {self.prim}
        st = St(); regs = []
        for k in self.ms: st.mem[k] = {}; regs.append(Region(k, 'heap', 8))
        st.g.update(held={k: 1 if self.adopt else 0 for k in self.ms}, ev=(), thrown=False, body=0, nows=[])
        def end(ex, st, kind, val):
            self.note(ex, st, kind + (' before body' if not st.g['body'] else ''))
            ex.oblige(st, 'holds nothing afterwards', P, z3.BoolVal(not any(st.g['held'].values())))
            if st.g['body']:
                ex.oblige(st, 'unlocks each mutex exactly once', P, z3.BoolVal(sorted(st.g['ev']) == sorted(('rel', k) for k in self.ms)))
                ex.oblige(st, 'destruction neither throws nor swallows', P, z3.BoolVal(kind == ('throw' if st.g['thrown'] else 'ret')))
            else: ex.oblige(st, 'construction fails only when a mutex failed', P, z3.BoolVal(kind == 'throw' and bool(st.g['thrown'])))
        ex.run(m.name, m.fn, [Ptr(r, 0) for r in regs], st, end)
SC_METHODS = [Method('m_' + x, 'life') for x in ('0', '0a', '1', '1a', '2', '2a', '2s', '3', '3a', '4', '4a', '6', '6a')]
