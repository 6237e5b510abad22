"""checked mutexes: misuse reporting and the deadlock detector's picture, over the exclusive and RW monitors"""
from theory import *
import excl, rw
from excl import Excl, timed_methods
EPERM, EDEADLK = 1, 35
TABS = z3.ArraySort(TID, TID)

class CheckedMixin:
    """ghost tO[t], tW[t]: how often t is listed as owner / waiter of this mutex in the detector's table.
    validator functions are used by contract; their bodies are verified in the validator units."""
    abort = False; detect = True
    trusted = ()
    def ghost_fresh(self, ex, st, Go):
        if Go is not None and self.m.kind == 'dtor': return dict(Go)     # nobody else operates on an object being destroyed
        G = super().ghost_fresh(ex, st, Go)
        G['tO'] = z3.Const(fresh_name('tO'), TABS); G['tW'] = z3.Const(fresh_name('tW'), TABS); G['enq'] = z3.Const(fresh_name('enq'), z3.ArraySort(TID, z3.BoolSort()))
        if Go is not None and 'tO' in Go:
            for k in ('tO', 'tW', 'enq'): st.assume(G[k][self.SELF] == Go[k][self.SELF])
        return G
    def init_ghost(self, ex, st, m):
        super().init_ghost(ex, st, m)
        G = st.g['G']
        G['tO'] = z3.Const('tO0', TABS); G['tW'] = z3.Const('tW0', TABS); G['enq'] = z3.Const('enq0', z3.ArraySort(TID, z3.BoolSort()))
        st.assume(z3.Not(G['enq'][self.SELF]))
        if self.detect: st.assume(G['tO'][self.SELF] == z3.If(self.holds(G, self.SELF), BV(1), BV(0))); st.assume(G['tW'][self.SELF] == 0)
        st.g['refused'] = False; st.g['live'] = m.kind != 'ctor'
    cut_flags = Monitor.cut_flags + ('refused', 'live')
    def self_proj(self, G):
        d = super().self_proj(G)
        d.update(tO=G['tO'][self.SELF], tW=G['tW'][self.SELF], enq=G['enq'][self.SELF]); return d
    def holds(self, G, t): return z3.Or(G['st'][t] == X, G['st'][t] == S)
    def table_inv(self, F, G):
        if not self.detect: return []
        return [fa('the detector lists exactly the current owners', 'T', lambda t: G['tO'][t] == z3.If(self.holds(G, t), BV(1), BV(0)), {'C11'}),
                fa('the detector lists exactly the threads waiting in lock', 'T', lambda t: G['tW'][t] == z3.If(G['enq'][t], BV(1), BV(0)), {'C11'}),
                fa('only sleeping threads are registered as waiters', 'T', lambda t: z3.Implies(G['enq'][t], self.waiting(G, t)), {'C11'})]
    def inv(self, F, G): return super().inv(F, G) + self.table_inv(F, G)
    def ghost_wait(self, ex, st, m, F0, G0, F1, G1):
        G = super().ghost_wait(ex, st, m, F0, G0, F1, G1)
        if m.timed is None and self.detect: G['enq'] = z3.Store(G['enq'], self.SELF, z3.BoolVal(True))
        return G
    def extra_wait(self, ex, st, m, F0, G0, F1, G1):
        super().extra_wait(ex, st, m, F0, G0, F1, G1)
        if self.detect: ex.oblige(st, 'a refused wait does not sleep', {'C11'}, z3.BoolVal(not st.g['refused']))
        if m.case.startswith('misuse'): ex.oblige(st, 'misuse is reported instead of blocking', {'C10'}, False)
    def on_section(self, ex, st):
        super().on_section(ex, st)
        # the sleeper is still listed as waiter when it wakes up; from here on it is no longer asleep
        st.g['G'] = dict(st.g['G'])
    def wake_unenq(self, G): G['enq'] = z3.Store(G['enq'], self.SELF, z3.BoolVal(False)); return G
    def common_contracts(self):
        super().common_contracts()
        C = self.contract
        def G_(ex, st, a, n, needtid=True):
            from symex import Ptr
            k = a[0]
            ok = isinstance(k, Opaque) and k.tag[0] == 'p2i' and isinstance(k.tag[1], Ptr) and k.tag[1].r is self.obj and k.tag[1].off == 0
            ex.oblige(st, '%s is about this mutex' % n, {'C11'}, z3.BoolVal(bool(ok)))
            if needtid: ex.oblige(st, '%s is about the calling thread' % n, {'C11'}, ex.z(a[1], 64) == self.SELF)
            if needtid: ex.oblige(st, '%s happens while the mutex is locked internally' % n, {'C11'}, z3.BoolVal(bool(st.g.get('held'))))
            return dict(st.g['G'])
        def locked(ex, st, n, d, a, i):
            G = G_(ex, st, a, 'locked')
            ex.oblige(st, 'an owner is recorded only after it was removed from the waiters', {'C11'}, G['tW'][self.SELF] == 0)
            G['tO'] = z3.Store(G['tO'], self.SELF, G['tO'][self.SELF] + 1); st.g['G'] = G
        def unlocked(ex, st, n, d, a, i):
            G = G_(ex, st, a, 'unlocked'); ex.oblige(st, 'a thread is listed as owner at most once', {'C11'}, z3.ULE(G['tO'][self.SELF], BV(1))); G['tO'] = z3.Store(G['tO'], self.SELF, BV(0)); st.g['G'] = G
        def enqueue(ex, st, n, d, a, i):
            G = G_(ex, st, a, 'enqueue')
            ex.oblige(st, 'a thread is registered as waiter at most once', {'C11'}, G['tW'][self.SELF] == 0)
            ex.oblige(st, 'deadlock is checked only for a wait that is necessary', {'C11', 'C10'}, self.blocked_as(st, G))
            if self.m.timed is not None or self.m.kind == 'try': ex.oblige(st, 'only untimed waits take part in deadlock detection', {'C11'}, False)
            s = st.clone()
            G1 = dict(G); G1['tW'] = z3.Store(G['tW'], self.SELF, G['tW'][self.SELF] + 1); st.g['G'] = G1
            s.g['refused'] = True; s.trace.append('enqueue refuses')
            return Outcomes([('ret', st, True), ('ret', s, False)])
        def dequeue(ex, st, n, d, a, i):
            G = G_(ex, st, a, 'dequeue'); ex.oblige(st, 'a thread is listed as waiter at most once', {'C11'}, z3.ULE(G['tW'][self.SELF], BV(1))); G['tW'] = z3.Store(G['tW'], self.SELF, BV(0)); G = self.wake_unenq(G); st.g['G'] = G
        def ctor(ex, st, n, d, a, i):
            self.key_only(ex, st, a, 'ctor'); st.g['live'] = 'born'
        def dtor(ex, st, n, d, a, i):
            self.key_only(ex, st, a, 'dtor'); st.g['live'] = 'dead'
        V = r'yamc::validator::deadlock::'
        for nm, h in (('locked', locked), ('unlocked', unlocked), ('enqueue', enqueue), ('dequeue', dequeue), ('ctor', ctor), ('dtor', dtor)): C(V + nm + r'\(', h)
    def key_only(self, ex, st, a, n):
        k = a[0]; ok = isinstance(k, Opaque) and k.tag[0] == 'p2i' and isinstance(k.tag[1], Ptr) and k.tag[1].r is self.obj and k.tag[1].off == 0
        ex.oblige(st, '%s is about this mutex' % n, {'C11'}, z3.BoolVal(bool(ok)))
    def blocked_as(self, st, G):
        """the lock is denied to the caller in the state reached so far"""
        return G['own'] != 0
    def throw_tags(self, m): return {'C10', 'C11'}
    # ---- misuse ----
    def misuse_code(self, m): return EPERM if m.kind == 'unlock' else EDEADLK
    def err_goals(self, ex, st, m, out, val, code, goals, tags):
        if self.abort: goals.append(('aborts as configured', tags, z3.BoolVal(out == 'abort'))); return
        if out != 'throw': goals.append(('misuse is reported', tags, z3.BoolVal(False))); return
        ok = val.tinfo == '_ZTISt12system_error' and val.code is not None and isinstance(val.cat, Ptr) and 'generic' in str(val.cat.r.name)
        goals.append(('reported as system_error with the documented code', tags, z3.And(z3.BoolVal(bool(ok)), ex.z(val.code, 32) == code) if ok else z3.BoolVal(False)))
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        self._val = val
        return super().commit(ex, st, m, out, F0, G0, F1, G, val)
    def commit_misuse(self, ex, st, m, out, F0, G0, F1, G, goals):
        self.err_goals(ex, st, m, out, self._val, self.misuse_code(m), goals, {'C10'})
        return G, goals
    def commit_throw(self, ex, st, m, out, F0, G0, F1, G, goals):
        if out == 'throw' and st.g['refused'] and m.kind == 'lock':
            self.err_goals(ex, st, m, out, self._val, EDEADLK, goals, {'C11', 'C10'})
            return self.to_idle(G), goals
        if out == 'throw': goals.append(('correct use raises no error', {'C10', 'C11'} if m.kind == 'lock' else {'C10'}, z3.BoolVal(False)))
        return self.to_idle(G) if m.kind in ('lock', 'try') else G, goals
    def to_idle(self, G): G['st'] = z3.Store(G['st'], self.SELF, z3.IntVal(IDLE)); return G
    def _end(self, ex, st, m, out, val):
        if out in ('ret', 'true', 'false') and st.g.get('refused') and m.kind == 'lock':
            ex.oblige(st, 'a wait that closes a cycle is refused', {'C11'}, z3.BoolVal(False))
        if m.kind == 'dtor' and self.detect and out not in ('abort', 'terminate'):
            ex.oblige(st, 'destruction removes the mutex from the detector', {'C11'}, z3.BoolVal(st.g['live'] == 'dead'))
        super()._end(ex, st, m, out, val)
    def end_abort(self, ex, st, m, out):
        ok = self.abort and out == 'abort' and (bool(m.case.startswith('misuse')) or st.g.get('refused'))
        ex.oblige(st, 'aborts exactly on misuse or refused wait, when so configured', {'C10'} | ({'C11'} if st.g.get('refused') else set()), z3.BoolVal(bool(ok)))
    def end_nosection(self, ex, st, m, out, val):
        if m.kind == 'dtor' and m.case == '': ex.oblige(st, 'destructor of a free mutex returns', {'C10'}, z3.BoolVal(out == 'ret')); return
        if m.kind == 'dtor': ex.oblige(st, 'destroying a held mutex is reported', {'C10'}, z3.BoolVal(False)); return
        super().end_nosection(ex, st, m, out, val)
    def rep_tags(self, m, out):
        r = set(super().rep_tags(m, out))
        return r | {'C10'} if (m.case.startswith('misuse') or out == 'throw') else r
    def ctor_ghost(self, ex, st, m):
        G = super().ctor_ghost(ex, st, m)
        G['tO'] = z3.K(TID, BV(0)); G['tW'] = z3.K(TID, BV(0)); G['enq'] = z3.K(TID, z3.BoolVal(False))
        if self.detect: ex.oblige(st, 'construction registers the mutex with the detector', {'C11'}, z3.BoolVal(st.g.get('live') == 'born'))
        return G
    def setup_state(self, ex, m):
        st = super().setup_state(ex, m)
        if m.kind == 'dtor': st.g['exclusive'] = (m.case == '')
        return st

class CheckedExcl(CheckedMixin, Excl):
    def __init__(self, mod, layout, rec=False, abort=False, detect=True):
        self.rec = rec; self.abort = abort; self.detect = detect
        super().__init__(mod, layout)
    def rep(self, F, G):
        cs = [cl('owner_ is the owner', F['owner_'] == G['own'])]
        if self.rec: cs.append(cl('ncount_ is the depth', F['ncount_'] == G['dep']))
        return cs
    def wait_tags(self, m): return Excl.wait_tags(self, m) | ({'C10'} if m.case.startswith('misuse') else set())

def checked_excl_methods(rec, timed):
    ms = [Method('m_ctor', 'ctor')]
    for case in ['fresh', 'nested' if rec else 'misuse']:
        ms += [Method('m_lock', 'lock', case=case), Method('m_try_lock', 'try', case=case)]
        if timed: ms += timed_methods('try_lock', 'try', case=case)
    return ms + [Method('m_unlock', 'unlock'), Method('m_unlock', 'unlock', case='misuse'), Method('m_dtor', 'dtor'), Method('m_dtor', 'dtor', case='misuse')]

class CheckedRW(CheckedMixin, rw.RW):
    """adds the list of shared owners: V.cnt[t] = how often t is listed, V.n = length of the vector"""
    def __init__(self, mod, layout, pol='RP', abort=False, detect=True):
        self.abort = abort; self.detect = detect
        super().__init__(mod, layout, pol)
        self.vo = layout['OFF_s_owner_']
    def denied_now(self, G): return self.denied(G, bool(self.m.kw.get('shared')))
    def blocked_as(self, st, G): return self.denied_now(G)
    def to_idle(self, G): return self.setst(G, IDLE)
    def throw_tags(self, m): return {'C10', 'C11'}
    # ---- abstract vector ----
    def shared_cells(self): return [c for c in super().shared_cells() if not (self.vo <= c[0] < self.vo + 24)]
    def fresh_vec(self, st):
        cnt = z3.Const(fresh_name('vcnt'), z3.ArraySort(TID, TID)); n = z3.BitVec(fresh_name('vlen'), 64); w = z3.BitVec(fresh_name('vwit'), 64)
        st.reg('T', w); st.assume(z3.ULT(n, BV(1 << 62))); st.assume(z3.Implies(n != 0, cnt[w] != 0))
        st.add_univ('T', lambda t: z3.ULE(cnt[t], n), 'vector count')
        return (cnt, n)
    def havoc(self, ex, st):
        super().havoc(ex, st); st.g['V'] = self.fresh_vec(st); st.g['Vv'] = fresh_name('vv')
    def F(self, st):
        d = super().F(st); d['V.cnt'], d['V.n'] = st.g['V']; return d
    def cut_terms(self, st, kind):
        d = super().cut_terms(st, kind)
        if kind == 'hdr' and 'V' in st.g: d['V.cnt'], d['V.n'] = st.g['V']
        return d
    def rep(self, F, G):
        return super().rep(F, G) + [cl('e_owner_ is the exclusive owner', F['e_owner_'] == G['own']), cl('s_owner_ has one entry per reader', F['V.n'] == G['nS']),
            fa('s_owner_ lists exactly the readers', 'T', lambda t: F['V.cnt'][t] == z3.If(G['st'][t] == S, BV(1), BV(0)))]
    def common_contracts(self):
        super().common_contracts()
        V = r'std::vector<std::thread::id, std::allocator<std::thread::id> ?>::'
        IT = r'__gnu_cxx::__normal_iterator<(std::thread::id|std::thread::id const)\*, std::vector<std::thread::id, std::allocator<std::thread::id> ?> ?>'
        C = self.contract
        def chk(ex, st, p, w):
            if not (isinstance(p, Ptr) and p.r is self.obj and p.off == self.vo): raise Unsupported('unknown vector')
            self.access(ex, st, self.vo, 24, w)
        def setV(st, V): st.g['V'] = V; st.g['Vv'] = fresh_name('vv')
        def it(kind, x=None):
            def h(ex, st, n, d, a, i):
                chk(ex, st, a[0], False); return Opaque(('vit', st.g['Vv'], kind))
            return h
        C(V + r'c?begin\(', it('begin')); C(V + r'c?end\(', it('end'))
        def isit(st, x, kind):
            if not (isinstance(x, Opaque) and x.tag[0] == 'vit'): raise Unsupported('iterator')
            ok = x.tag[1] == st.g['Vv'] and (kind is None or x.tag[2] == kind)
            if not ok: raise Unsupported('iterator use %r' % (x,))
        def tidarg(ex, st, p): return ex.z(ex.load(st, p, ('i', 64)), 64)
        def full(ex, st, a):
            isit(st, a[0], 'begin'); isit(st, a[1], 'end'); self.access(ex, st, self.vo, 24, False)
        def find(ex, st, n, d, a, i):
            full(ex, st, a); return Opaque(('vit', st.g['Vv'], ('find', tidarg(ex, st, a[2]))))
        def count(ex, st, n, d, a, i):
            full(ex, st, a); return st.g['V'][0][tidarg(ex, st, a[2])]
        def remove(ex, st, n, d, a, i):
            full(ex, st, a); self.access(ex, st, self.vo, 24, True); t = tidarg(ex, st, a[2]); cnt, ln = st.g['V']
            keep = (z3.Store(cnt, t, BV(0)), ln - cnt[t])
            f = self.fresh_vec(st); st.assume(f[1] == ln)
            setV(st, f); return Opaque(('vit', st.g['Vv'], ('removed', keep)))
        C(IT + r' std::find<', find); C(r'(std::iterator_traits<.*>::difference_type|long) std::count<', count); C(IT + r' std::remove<', remove)
        def erase2(ex, st, n, d, a, i):
            chk(ex, st, a[0], True); isit(st, a[1], None); isit(st, a[2], 'end'); k = a[1].tag[2]
            if k == 'begin': setV(st, (z3.K(TID, BV(0)), BV(0)))
            elif k == 'end': pass
            elif k[0] == 'removed': setV(st, k[1])
            else: setV(st, self.fresh_vec(st))
            return Opaque(('vit', st.g['Vv'], 'end'))
        def erase1(ex, st, n, d, a, i):
            chk(ex, st, a[0], True); isit(st, a[1], None); k = a[1].tag[2]; cnt, ln = st.g['V']
            if isinstance(k, tuple) and k[0] == 'find':
                ex.oblige(st, 'erases an element that is there', self.memsafe_tags(), cnt[k[1]] != 0)
                setV(st, (z3.Store(cnt, k[1], cnt[k[1]] - 1), ln - 1))
            else:
                f = self.fresh_vec(st); st.assume(f[1] == ln - 1); setV(st, f)
            return Opaque(('vit', st.g['Vv'], ('other', 0)))
        ER = V + r'erase\(__gnu_cxx::__normal_iterator<[^()]*>'
        C(V + r'erase\((?:(?!, __gnu_cxx).)*\)', erase1); C(V + r'erase\(.*, __gnu_cxx', erase2)
        def push(ex, st, n, d, a, i):
            chk(ex, st, a[0], True); t = tidarg(ex, st, a[1]); cnt, ln = st.g['V']; setV(st, (z3.Store(cnt, t, cnt[t] + 1), ln + 1))
        C(V + r'(push_back|emplace_back)', push); C(r'.* ' + V + r'emplace_back', push)
        C(V + r'empty\(', lambda ex, st, n, d, a, i: (chk(ex, st, a[0], False), st.g['V'][1] == 0)[1])
        C(V + r'size\(', lambda ex, st, n, d, a, i: (chk(ex, st, a[0], False), st.g['V'][1])[1])
        C(V + r'clear\(', lambda ex, st, n, d, a, i: (chk(ex, st, a[0], True), setV(st, (z3.K(TID, BV(0)), BV(0))))[0] and None)
        C(V + r'vector\(\)', lambda ex, st, n, d, a, i: setV(st, (z3.K(TID, BV(0)), BV(0))))
        C(V + r'~vector\(\)', lambda ex, st, n, d, a, i: None)
    def opaque_cmp(self, ex, st, pred, x, y):
        if isinstance(x, Opaque) and isinstance(y, Opaque) and x.tag[0] == 'vit' and y.tag[0] == 'vit':
            cnt, ln = st.g['V']
            if x.tag[1] != y.tag[1] or x.tag[1] != st.g['Vv']: raise Unsupported('stale iterator')
            if x.tag == y.tag: r = z3.BoolVal(True)
            else:
                a, b = x.tag[2], y.tag[2]
                if b != 'end': a, b = b, a
                if b != 'end': raise Unsupported('iterator comparison')
                if a == 'begin': r = ln == 0
                elif a[0] == 'find': r = cnt[a[1]] == 0
                elif a[0] == 'removed': r = a[1][1] == ln
                else: raise Unsupported('iterator comparison')
            return ex.simpb(r if pred == 'eq' else z3.Not(r))
        return super().opaque_cmp(ex, st, pred, x, y)
