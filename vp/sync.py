"""latch, counting_semaphore, barrier"""
from theory import *
STS = z3.ArraySort(TID, z3.IntSort())
TOKS = z3.ArraySort(TID, TID)
MAX = (1 << 63) - 1

class Counter(Monitor):
    """common: st[t] in {0,1 waiting}"""
    def fresh_vars(self): return {}
    def rely(self, ex, st, Go, G): pass
    def ghost_fresh(self, ex, st, Go):
        G = dict(st=z3.Const(fresh_name('st'), STS))
        for n in self.ghosts: G[n] = z3.BitVec(fresh_name(n), 64)
        for n in self.tghosts: G[n] = z3.Const(fresh_name(n), TOKS)
        if Go is not None:
            st.assume(G['st'][self.SELF] == Go['st'][self.SELF])
            for n in self.tghosts: st.assume(G[n][self.SELF] == Go[n][self.SELF])
            self.rely(ex, st, Go, G)
        return G
    tghosts = ()
    def init_ghost(self, ex, st, m):
        G = self.ghost_fresh(ex, st, None); st.g['G'] = G
        st.assume(G['st'][self.SELF] == 0)
        st.g['arrived'] = False
    def inv(self, F, G):
        return [fa('waiting flags', 'T', lambda t: z3.Or(G['st'][t] == 0, G['st'][t] == 1))] + self.rep(F, G)
    def waiting(self, G, t): return G['st'][t] == 1
    def self_proj(self, G): return dict({'st': G['st'][self.SELF]}, **{n: G[n][self.SELF] for n in self.tghosts})
    def ghost_wait(self, ex, st, m, F0, G0, F1, G1):
        if not st.g['arrived']:
            G1 = self.effect(ex, st, m, F0, G0, F1, G1); st.g['arrived'] = True
        G1['st'] = z3.Store(G1['st'], self.SELF, z3.IntVal(1)); return G1
    def ghost_release(self, ex, st, m, F0, G0, F1, G1):
        # an arrival may be its own critical section, followed by the wait in another one
        if st.g['arrived'] or m.kind in ('wait', 'try', 'acquire') or all(z3.eq(ex.z(F0[n], F0[n].size()), ex.z(F1[n], F1[n].size())) for n in F0): return G1
        st.g['arrived'] = True
        return self.effect(ex, st, m, F0, G0, F1, G1)
    def effect(self, ex, st, m, F0, G0, F1, G): return G
    def on_section(self, ex, st):
        if not st.g['arrived']: self.client_pre(ex, st, self.m, st.g['G'])
    def client_pre(self, ex, st, m, G): pass
    def wait_tags(self, m): return {self.prim}
    wake_tags = wait_tags
    held_tags = wait_tags
    def try_tags(self, m): return {self.prim}
    dl_tags = try_tags
    def rep_tags(self, m, out): return {self.prim}
    def ctor_ghost(self, ex, st, m):
        G = dict(st=z3.K(TID, z3.IntVal(0)))
        for n in self.tghosts: G[n] = z3.K(TID, BV(0))
        return G
    def end_nosection(self, ex, st, m, out, val):
        if m.kind == 'dtor': return
        super().end_nosection(ex, st, m, out, val)

class Latch(Counter):
    prim = 'C13'; ghosts = ('pend',)
    def rely(self, ex, st, Go, G): st.assume(z3.And(G['pend'] <= Go['pend']))
    def rep(self, F, G): return [cl('counter_ is the remaining count', F['counter_'] == G['pend']), cl('count not negative', G['pend'] >= 0)]
    def blocked(self, F, G, t): return G['pend'] != 0
    def on_arg(self, ex, st, m, i, v):
        self.u = v
        if m.kind == 'ctor': st.assume(z3.And(v >= 0, v < BV(MAX)))
        else: st.assume(v >= 0)
    def client_pre(self, ex, st, m, G):
        if m.kind in ('count_down', 'arrive'): st.assume(self.upd(m) <= G['pend'])
    def upd(self, m): return BV(1) if m.case == 'default' else self.u
    def effect(self, ex, st, m, F0, G0, F1, G):
        if m.kind in ('count_down', 'arrive'): G['pend'] = z3.simplify(G['pend'] - self.upd(m))
        return G
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        p = {self.prim}; goals = []
        if out == 'throw': goals.append(('does not throw', p, z3.BoolVal(False)))
        if not st.g['arrived']: G = self.effect(ex, st, m, F0, G0, F1, G)
        if m.kind in ('wait', 'arrive'): goals.append(('returns only once the count is zero', p, G['pend'] == 0))
        if m.kind == 'try': goals.append(('try_wait is true exactly when the count is zero', p, (G['pend'] == 0) if out == 'true' else (G['pend'] != 0)))
        G['st'] = z3.Store(G['st'], self.SELF, z3.IntVal(0))
        return G, goals
    def ctor_ghost(self, ex, st, m):
        G = super().ctor_ghost(ex, st, m); G['pend'] = self.u; return G

class Semaphore(Counter):
    prim = 'C12'; ghosts = ('per',)
    lmax = MAX
    def __init__(self, mod, lay, lmax=MAX): super().__init__(mod, lay); self.lmax = lmax
    def rep(self, F, G): return [cl('counter_ is the number of permits', F['counter_'] == G['per']), cl('permits not negative', G['per'] >= 0)]
    def blocked(self, F, G, t): return G['per'] == 0
    def on_arg(self, ex, st, m, i, v):
        self.u = v
        if m.kind == 'ctor': st.assume(z3.And(v >= 0, v <= BV(self.lmax)))
        elif m.kind == 'release': st.assume(v >= 0)
    def upd(self, m): return BV(1) if m.case == 'default' else self.u
    def client_pre(self, ex, st, m, G):
        st.assume(G['per'] <= BV(self.lmax))
        if m.kind == 'release': st.assume(self.upd(m) <= BV(self.lmax) - G['per'])
    def effect(self, ex, st, m, F0, G0, F1, G):
        if m.kind == 'release': G['per'] = z3.simplify(G['per'] + self.upd(m))
        return G
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        p = {self.prim}; goals = []
        if out == 'throw': goals.append(('does not throw', p, z3.BoolVal(False)))
        elif m.kind == 'release':
            if not st.g['arrived']: G = self.effect(ex, st, m, F0, G0, F1, G)
        elif m.kind in ('acquire', 'try'):
            if out == 'false': goals.append(('fails only while no permit is available', p, G['per'] == 0))
            else:
                goals.append(('takes a permit that is available', p, G['per'] > 0))
                G['per'] = z3.simplify(G['per'] - 1)
        G['st'] = z3.Store(G['st'], self.SELF, z3.IntVal(0))
        return G, goals
    def wake_check(self, ex, st, F0, G0, F1, G1, where):
        if st.g['nall'] or not self.notify_one_used: return super().wake_check(ex, st, F0, G0, F1, G1, where)
        delta = G1['per'] - G0['per']; k = ex.z(st.ctr['none'], 64)
        t = z3.Const(fresh_name('skT'), TID)
        other = z3.And(t != self.SELF, self.waiting(G1, t))
        st = st.clone(); self.aux_facts(st, G1); st.reg('T', t)
        ex.oblige(st, 'at least one wake-up per added permit, %s' % where, self.wake_tags(self.m), z3.Implies(z3.And(other, G1['per'] > 0), z3.Or(delta <= 0, k >= delta, self.wakes_all(ex, st, k))))
        if st.g['woke']:
            ex.oblige(st, 'a woken thread passes an unused wake-up on, %s' % where, self.wake_tags(self.m), z3.Implies(z3.And(other, G1['per'] > 0), z3.Or(delta < 0, k > 0)))
    def ctor_ghost(self, ex, st, m):
        G = super().ctor_ghost(ex, st, m); G['per'] = self.u; return G

class Barrier(Counter):
    prim = 'C14'; ghosts = ('P', 'E', 'R'); tghosts = ('tok',)
    def rely(self, ex, st, Go, G):
        d = G['P'] - Go['P']
        st.assume(z3.ULT(d, BV(1 << 31)))   # fewer than 2^31 phases pass while one call sleeps
        st.assume(z3.Implies(d == 0, z3.And(G['R'] <= Go['R'], G['E'] <= Go['E'])))
    def rep(self, F, G):
        return [cl('counter_ is the outstanding count', F['counter_'] == G['R']), cl('init_count_ is the expected count', F['init_count_'] == G['E']),
                cl('phase_ is the phase number', F['phase_'] == z3.Extract(31, 0, G['P'])), cl('counts not negative', z3.And(G['R'] >= 0, G['R'] <= G['E']))]
    def facts(self, F, G): return []
    def blocked(self, F, G, t): return G['tok'][t] == G['P']
    def on_arg(self, ex, st, m, i, v):
        self.u = v
        if m.kind == 'ctor' and i == 0: st.assume(z3.And(v >= 0, v < BV(MAX)))
        if m.kind == 'arrive': st.assume(v > 0)
    def upd(self, m): return self.u if m.kind == 'arrive' and m.case != 'default' else BV(1)
    def init_ghost(self, ex, st, m):
        super().init_ghost(ex, st, m)
        st.g['compl'] = 0; st.g['tp'] = None
        if m.kind == 'wait':
            st.g['tp'] = z3.BitVec('tp', 64)
            st.assume(z3.ULT(st.g['G']['P'] - st.g['tp'], BV(2)))   # token of the current or the preceding phase
            st.assume(st.g['G']['tok'][self.SELF] == st.g['tp'])
    def client_pre(self, ex, st, m, G):
        if m.kind in ('arrive', 'arrive_wait', 'drop'): st.assume(self.upd(m) <= G['R'])
    def on_section(self, ex, st):
        super().on_section(ex, st)
        # environment assumption: one call is not suspended across 2^32 phases
        if st.g['tp'] is not None: st.assume(z3.ULT(st.g['G']['P'] - st.g['tp'], BV(1 << 32)))
    def make_args(self, ex, st, m, f):
        if m.kind != 'wait': return super().make_args(ex, st, m, f)
        r = Region('tokarg', 'heap', 4); st.mem['tokarg'] = {0: (4, z3.Extract(31, 0, st.g['tp']))}
        return [Ptr(self.obj, 0), Ptr(r, 0)]
    def common_contracts(self):
        super().common_contracts()
        def compl(ex, st, n, d, a, i):
            ex.oblige(st, 'completion runs while the barrier is locked', {self.prim}, z3.BoolVal(bool(st.g.get('held'))))
            st.g['compl'] += 1; return None
        self.contract(r'vp_completion', compl)
    def effect(self, ex, st, m, F0, G0, F1, G):
        if m.kind in ('arrive', 'arrive_wait', 'drop'):
            R = G['R'] - self.upd(m); E = G['E'] - 1 if m.kind == 'drop' else G['E']
            done = R == 0
            st.g['tp'] = G['P']
            ex.oblige(st, 'completion function runs exactly once when the phase completes, else not', {self.prim}, z3.If(done, z3.BoolVal(st.g['compl'] == 1), z3.BoolVal(st.g['compl'] == 0)))
            G = dict(G, P=z3.simplify(z3.If(done, G['P'] + 1, G['P'])), E=z3.simplify(E), R=z3.simplify(z3.If(done, E, R)), tok=z3.Store(G['tok'], self.SELF, G['P']))
            st.g['compl'] = 0
        return G
    def extra_wait(self, ex, st, m, F0, G0, F1, G1):
        if st.g['compl']: ex.oblige(st, 'no spurious completion', {self.prim}, False)
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        p = {self.prim}; goals = []
        if out == 'throw': goals.append(('does not throw', p, z3.BoolVal(False)))
        if not st.g['arrived']: G = self.effect(ex, st, m, F0, G0, F1, G); st.g['arrived'] = True
        if st.g['compl']: goals.append(('no spurious completion', p, z3.BoolVal(False)))
        if m.kind in ('wait', 'arrive_wait'): goals.append(('returns only once its phase has completed', p, G['P'] != st.g['tp']))
        if m.kind == 'arrive' and out != 'throw': goals.append(('token names the phase of the arrival', p, ex.z(val, 32) == z3.Extract(31, 0, st.g['tp'])))
        G['st'] = z3.Store(G['st'], self.SELF, z3.IntVal(0))
        return G, goals
    def ctor_ghost(self, ex, st, m):
        G = super().ctor_ghost(ex, st, m); G.update(P=BV(0), E=self.u, R=self.u); return G
