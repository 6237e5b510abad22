"""Exclusive monitors: alternate timed / recursive_timed, (checked via subclass)."""
from theory import *

STS = z3.ArraySort(TID, z3.IntSort())

class Excl(Monitor):
    """own: owner thread (0 none); st[t] in {IDLE,X,WX}; dep: nesting depth (rec)"""
    rec = False
    shared_names = ()
    def __init__(self, mod, layout):
        super().__init__(mod, layout)
        self.prim = 'C02' if self.rec else 'C01'
    def ghost_fresh(self, ex, st, Go):
        S = self.SELF
        G = dict(own=z3.BitVec(fresh_name('own'), 64), st=z3.Const(fresh_name('st'), STS))
        if self.rec: G['dep'] = z3.BitVec(fresh_name('dep'), 64)
        if Go is not None:
            st.assume(G['st'][S] == Go['st'][S]); st.assume((G['own'] == S) == (Go['own'] == S))
            if self.rec: st.assume(z3.Implies(Go['own'] == S, G['dep'] == Go['dep']))
        return G
    def init_ghost(self, ex, st, m):
        S = self.SELF
        G = dict(own=z3.BitVec('own0', 64), st=z3.Const('st0', STS))
        if self.rec: G['dep'] = z3.BitVec('dep0', 64)
        st.g['G'] = G
        if m.kind in ('lock', 'try'):
            if m.case == 'nested': st.assume(G['own'] == S); st.assume(G['st'][S] == X); st.assume(G['dep'] != 0); st.assume(G['dep'] != BV(-1))
            elif m.case == 'misuse': st.assume(G['own'] == S); st.assume(G['st'][S] == X)
            else: st.assume(G['own'] != S); st.assume(G['st'][S] == IDLE)
        elif m.kind == 'unlock':
            if m.case == 'misuse': st.assume(G['own'] != S); st.assume(G['st'][S] == IDLE)
            else:
                st.assume(G['own'] == S); st.assume(G['st'][S] == X)
                if self.rec: st.assume(G['dep'] != 0)
        elif m.kind == 'dtor':
            st.assume(G['st'][S] == IDLE)
            if m.case == 'misuse': st.assume(G['own'] != 0); st.assume(G['own'] != S)
            else: st.assume(G['own'] == 0)
    def inv(self, F, G):
        own, st = G['own'], G['st']
        cs = [fa('per-thread state', 'T', lambda t: z3.And((st[t] == X) == z3.And(own == t, t != 0), z3.Or(st[t] == IDLE, st[t] == X, st[t] == WX))),
              ]
        if self.rec: cs.append(cl('depth', (own == 0) == (G['dep'] == 0)))
        return cs + self.rep(F, G)
    def rep(self, F, G): raise NotImplementedError
    def ghost_wait(self, ex, st, m, F0, G0, F1, G1):
        G1['st'] = z3.Store(G1['st'], self.SELF, z3.IntVal(WX)); return G1
    def self_proj(self, G):
        d = {'st': G['st'][self.SELF], 'own': G['own'] == self.SELF}
        if self.rec: d['dep'] = z3.If(G['own'] == self.SELF, G['dep'], BV(0))
        return d
    def waiting(self, G, t): return G['st'][t] == WX
    def blocked(self, F, G, t): return G['own'] != 0
    def notify_one_ok(self, F0, G0, F1, G1, k): return z3.BoolVal(True)   # all waiters want the same exclusive grant
    def pool_terms(self, F, G): return [('T', G['own'])]
    def wait_tags(self, m):
        return {'C05', 'C02'} if m.case == 'nested' else {'C05'}
    def rep_tags(self, m, out):
        if out == 'false': return {self.prim, 'C06'}
        return {self.prim}
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        S = self.SELF; goals = []
        own = G['own']
        p = self.prim
        if m.kind in ('lock', 'try') and m.case != 'misuse':
            if out in ('ret', 'true'):
                if m.case == 'nested':
                    goals.append(('acquires again only as the owner', {p}, own == S))
                    G['dep'] = G['dep'] + 1
                else:
                    goals.append(('acquires only a free mutex', {p}, own == 0))
                    G['own'] = S
                    if self.rec: G['dep'] = BV(1)
                G['st'] = z3.Store(G['st'], S, z3.IntVal(X))
            elif out == 'false':
                if m.case == 'nested': goals.append(('the owner can always acquire again', {p, 'C06'}, z3.BoolVal(False)))
                else:
                    goals.append(('fails only while another thread owns it', {'C06'}, own != 0))
                    G['st'] = z3.Store(G['st'], S, z3.IntVal(IDLE))
            elif out == 'throw': return self.commit_throw(ex, st, m, out, F0, G0, F1, G, goals)
            else: goals.append(('unexpected outcome %s' % out, {p}, z3.BoolVal(False)))
        elif m.kind == 'unlock' and m.case != 'misuse':
            if out != 'ret': return self.commit_throw(ex, st, m, out, F0, G0, F1, G, goals)
            if self.rec:
                G['dep'] = z3.simplify(G['dep'] - 1)
                last = G['dep'] == 0
                G['own'] = z3.If(last, BV(0), own)
                G['st'] = z3.Store(G['st'], S, z3.If(last, z3.IntVal(IDLE), z3.IntVal(X)))
            else:
                G['own'] = BV(0); G['st'] = z3.Store(G['st'], S, z3.IntVal(IDLE))
        elif m.kind == 'dtor' and m.case != 'misuse':
            if out != 'ret': return self.commit_throw(ex, st, m, out, F0, G0, F1, G, goals)
        else: return self.commit_misuse(ex, st, m, out, F0, G0, F1, G, goals)
        return G, goals
    def commit_throw(self, ex, st, m, out, F0, G0, F1, G, goals):
        goals.append(('does not throw', self.throw_tags(m), z3.BoolVal(False)))
        return G, goals
    def commit_misuse(self, ex, st, m, out, F0, G0, F1, G, goals): raise NotImplementedError
    def end_nosection(self, ex, st, m, out, val):
        if m.kind == 'dtor':
            ex.oblige(st, 'destructor of a free mutex returns', {self.prim}, z3.BoolVal(out == 'ret')); return
        super().end_nosection(ex, st, m, out, val)
    def ctor_ghost(self, ex, st, m):
        G = dict(own=BV(0), st=z3.K(TID, z3.IntVal(IDLE)))
        if self.rec: G['dep'] = BV(0)
        return G
    def setup_state(self, ex, m):
        st = super().setup_state(ex, m)
        if m.kind == 'dtor':
            # destruction: no concurrent access is allowed any more
            self.assume_inv(ex, st, self.F(st), st.g['G'])
            st.g['exclusive'] = True
        return st

class AltTimed(Excl):
    notify_one_used = True
    def rep(self, F, G):
        return [cl('state_ is 0 exactly when free', (F['state_'] == 0) == (G['own'] == 0)), cl('state_ in {0,1}', z3.Or(F['state_'] == 0, F['state_'] == 1))]
class AltRecTimed(Excl):
    notify_one_used = True; rec = True
    def rep(self, F, G):
        return [cl('owner_ is the owner', F['owner_'] == G['own']), cl('ncount_ is the depth', F['ncount_'] == G['dep'])]

TIMEDV = [('for_ns', ('for', 1)), ('for_ms', ('for', 1000000)), ('until_steady', ('until', 'std::chrono::_V2::steady_clock', 1)),
          ('until_system', ('until', 'std::chrono::_V2::system_clock', 1)), ('until_system_ms', ('until', 'std::chrono::_V2::system_clock', 1000000))]
def timed_methods(op, kind, **kw):
    return [Method('m_%s_%s' % (op, v), kind, timed=t, **kw) for v, t in TIMEDV]
def excl_methods(rec, timed, misuse=False):
    ms = [Method('m_ctor', 'ctor')]
    for case in ['fresh', 'nested'] if rec else ['fresh'] + (['misuse'] if misuse else []):
        ms.append(Method('m_lock', 'lock', case=case))
        ms.append(Method('m_try_lock', 'try', case=case))
        if timed: ms += timed_methods('try_lock', 'try', case=case)
    ms.append(Method('m_unlock', 'unlock'))
    ms.append(Method('m_dtor', 'dtor'))
    if misuse:
        ms.append(Method('m_unlock', 'unlock', case='misuse'))
        ms.append(Method('m_dtor', 'dtor', case='misuse'))
    return ms
