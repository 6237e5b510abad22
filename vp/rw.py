"""readers-writer monitors (alternate and checked shared mutexes, both policies)"""
from theory import *
STS = z3.ArraySort(TID, z3.IntSort())
MSB = BV(1 << 63)

class RW(Monitor):
    """own: exclusive owner (0 none); st[t]: IDLE,X,WX,S,WS; nS, nWX: how many threads are in S, WX"""
    pol = 'RP'; rec = False
    def __init__(self, mod, layout, pol='RP'):
        super().__init__(mod, layout); self.pol = pol; self.prim = 'C03'
    def ghost_fresh(self, ex, st, Go):
        G = dict(own=z3.BitVec(fresh_name('own'), 64), st=z3.Const(fresh_name('st'), STS), nS=z3.BitVec(fresh_name('nS'), 64), nWX=z3.BitVec(fresh_name('nWX'), 64))
        if Go is not None:
            st.assume(G['st'][self.SELF] == Go['st'][self.SELF]); st.assume((G['own'] == self.SELF) == (Go['own'] == self.SELF))
        return G
    def setst(self, G, v):
        S_, old = self.SELF, G['st'][self.SELF]
        for k, code in (('nS', S), ('nWX', WX)):
            G[k] = G[k] + z3.If(z3.IntVal(v) == code, BV(1), BV(0)) - z3.If(old == code, BV(1), BV(0))
        G['st'] = z3.Store(G['st'], S_, z3.IntVal(v))
        return G
    def init_ghost(self, ex, st, m):
        G = RW.ghost_fresh(self, ex, st, None); st.g['G'] = G
        me, own, SELF = G['st'][self.SELF], G['own'], self.SELF
        st.assume((me == X) == (own == SELF))
        c = m.case
        if m.kind in ('lock', 'try'): st.assume(me == {'': IDLE, 'misuse_X': X, 'misuse_S': S}[c])
        elif m.kind == 'unlock':
            want = S if m.kw.get('shared') else X
            st.assume(me == {'': want, 'misuse_I': IDLE, 'misuse_X': X, 'misuse_S': S}[c])
        elif m.kind == 'dtor':
            st.assume(me == IDLE)
            if c == 'misuse_X': st.assume(own != 0)
            elif c == 'misuse_S': st.assume(G['nS'] != 0)
            else: st.assume(own == 0); st.assume(G['nS'] == 0)
            st.assume(G['nWX'] == 0)
    def facts(self, F, G):
        st = G['st']
        return [cl('number of threads', z3.And(z3.ULT(G['nS'], BV(1 << 62)), z3.ULT(G['nWX'], BV(1 << 62)))),
                fa('cardinality of readers', 'T', lambda t: z3.Implies(st[t] == S, G['nS'] != 0)),
                fa('cardinality of waiting writers', 'T', lambda t: z3.Implies(st[t] == WX, G['nWX'] != 0)),
                fa2('cardinality of readers (2)', 'T', lambda t, u: z3.Implies(z3.And(t != u, st[t] == S, st[u] == S), z3.UGE(G['nS'], BV(2))))]
    def inv(self, F, G):
        st, own = G['st'], G['own']
        cs = [fa('per-thread state', 'T', lambda t: z3.And((st[t] == X) == z3.And(own == t, t != 0), st[t] >= 0, st[t] <= 4, z3.Implies(t == 0, st[t] == IDLE))),
              cl('no reader while exclusively owned', z3.Or(own == 0, G['nS'] == 0))]
        return cs + self.rep(F, G)
    def rep(self, F, G):
        ownbit = z3.If(G['own'] == 0, BV(0), MSB)
        if self.pol == 'RP': return [cl('rwcount counts readers and the writer', F['rwcount'] == (ownbit | G['nS']))]
        return [cl('nreader counts readers', F['nreader'] == G['nS']), cl('nwriter counts waiting writers and the writer', F['nwriter'] == ownbit + G['nWX'])]
    def denied(self, G, shared):
        """the documented admission rules"""
        if not shared: return z3.Or(G['own'] != 0, G['nS'] != 0)
        return G['own'] != 0 if self.pol == 'RP' else z3.Or(G['own'] != 0, G['nWX'] != 0)
    def waiting(self, G, t): return z3.Or(G['st'][t] == WX, G['st'][t] == WS)
    def blocked(self, F, G, t): return z3.If(G['st'][t] == WX, self.denied(G, False), self.denied(G, True))
    def one_class(self, G, t): return G['st'][t] == WX
    def notify_one_goal(self, ex, st, F0, G0, F1, G1, k, goal, where):
        # one wake-up is enough when every sleeper it can reach wants the single exclusive grant
        self.forall_oblige(ex, st, 'notify_one suffices for the threads that became grantable, %s' % where, self.wake_tags(self.m),
            lambda t: z3.Or(goal(t), z3.And(G1['st'][t] == WX, self.only_writers(F0, G0))), F1, G1)
    def only_writers(self, F0, G0):
        return z3.Not(self.denied(G0, True))   # no reader can be asleep
    def pool_terms(self, F, G): return [('T', G['own'])]
    def self_proj(self, G): return {'st': G['st'][self.SELF], 'own': G['own'] == self.SELF}
    def wait_tags(self, m): return {'C05', 'C09'}
    def wake_tags(self, m): return {'C05', 'C09'}
    def rep_tags(self, m, out): return {'C03', 'C09'} | ({'C06'} if out == 'false' else set()) | ({'C10'} if out == 'throw' else set())
    def ghost_wait(self, ex, st, m, F0, G0, F1, G1):
        return self.setst(G1, WS if m.kw.get('shared') else WX)
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        goals = []; sh = bool(m.kw.get('shared')); SELF = self.SELF
        if m.case: return self.commit_misuse(ex, st, m, out, F0, G0, F1, G, goals)
        if out == 'throw': return self.commit_throw(ex, st, m, out, F0, G0, F1, G, goals)
        if m.kind in ('lock', 'try'):
            if out in ('ret', 'true'):
                if sh:
                    goals.append(('shared ownership only while no thread owns exclusively', {'C03', 'C09'}, G['own'] == 0))
                    goals.append(('a reader is admitted only when the policy allows', {'C09'}, z3.Not(self.denied(G, True))))
                    G = self.setst(G, S)
                else:
                    goals.append(('exclusive ownership only while no thread owns exclusively', {'C03'}, G['own'] == 0))
                    goals.append(('exclusive ownership only while no thread shares', {'C03'}, lambda t: G0['st'][t] != S))
                    G = self.setst(G, X); G['own'] = SELF
            elif out == 'false':
                goals.append(('fails only while the rules deny the lock', {'C06', 'C09'}, self.denied(G, sh)))
                G = self.setst(G, IDLE)
        elif m.kind == 'unlock':
            if not sh: G['own'] = BV(0)
            G = self.setst(G, IDLE)
        elif m.kind == 'dtor': pass
        else: goals.append(('unexpected outcome %s' % out, {'C03'}, z3.BoolVal(False)))
        return G, goals
    def commit_throw(self, ex, st, m, out, F0, G0, F1, G, goals):
        goals.append(('does not throw', self.throw_tags(m), z3.BoolVal(False))); return G, goals
    def commit_misuse(self, ex, st, m, out, F0, G0, F1, G, goals): raise NotImplementedError
    def end_nosection(self, ex, st, m, out, val):
        if m.kind == 'dtor': ex.oblige(st, 'destructor of a free mutex returns', {'C03'}, z3.BoolVal(out == 'ret')); return
        super().end_nosection(ex, st, m, out, val)
    def ctor_ghost(self, ex, st, m):
        return dict(own=BV(0), st=z3.K(TID, z3.IntVal(IDLE)), nS=BV(0), nWX=BV(0))
    def setup_state(self, ex, m):
        st = super().setup_state(ex, m)
        if m.kind == 'dtor':
            self.assume_inv(ex, st, self.F(st), st.g['G']); st.g['exclusive'] = True
        return st

from excl import TIMEDV, timed_methods
def rw_methods(timed, misuse=False):
    ms = [Method('m_ctor', 'ctor')]
    for sh, sfx in ((False, ''), (True, '_shared')):
        for case in [''] + (['misuse_X', 'misuse_S'] if misuse else []):
            ms.append(Method('m_lock' + sfx, 'lock', case=case, shared=sh)); ms.append(Method('m_try_lock' + sfx, 'try', case=case, shared=sh))
            if timed: ms += timed_methods('try_lock' + sfx, 'try', case=case, shared=sh)
        ms.append(Method('m_unlock' + sfx, 'unlock', shared=sh))
        if misuse:
            ms += [Method('m_unlock' + sfx, 'unlock', shared=sh, case='misuse_I'), Method('m_unlock' + sfx, 'unlock', shared=sh, case='misuse_X' if sh else 'misuse_S')]
    ms.append(Method('m_dtor', 'dtor'))
    if misuse: ms += [Method('m_dtor', 'dtor', case='misuse_X'), Method('m_dtor', 'dtor', case='misuse_S')]
    return ms
