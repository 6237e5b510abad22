"""spinlocks (atomic protocol) and back-off policies"""
import re
from theory import *
ACQ = ('acquire', 'acq_rel', 'seq_cst'); REL = ('release', 'acq_rel', 'seq_cst')

STEP = re.compile(r'yamc::backoff::\w+(<[^(]*>)?::\w+\(yamc::backoff::[^)]*::state&\)$')

class Spin(Spec):
    prim = 'C01'
    assumptions = ('spinlocks: the state word is the only shared state of a spinlock; user accesses are ordered by C++11 release/acquire rules on it',)
    def __init__(self, mod, lay):
        super().__init__(mod); self.layout = lay; self.SELF = z3.BitVec('self', 64)
        self.obj = Region('obj', 'obj', None, 'obj')
    def private_region(self, ex, st, key): return key != 'obj' and not str(key).startswith('g:')
    def memsafe_tags(self): return {'C01'}
    def assert_tags(self, ex, st): return {'C01'}
    def overflow_tags(self): return {'C19'}
    # ---- contracts of the back-off policy (discharged by the back-off units) ----
    def common_contracts(self):
        super().common_contracts()
        self.steps = any(STEP.match(d) for d in self.mod.dem.values())
        def ctor(ex, st, n, d, a, i):
            if not isinstance(a[0], Ptr): raise Unsupported('back-off state')
            ex.oblige(st, 'a back-off state is not started afresh while a call spins', {'C19'}, z3.BoolVal(not st.g.get('stepped')))
            st.g['bo'] = dict(st.g.get('bo', {})); st.g['bo'][a[0].r.key] = True; return None
        self.contract(r'yamc::backoff::\w+(<[^(]*>)?::state::state\(\)$', ctor)
        def step(ex, st, n, d, a, i):
            p = a[-1]
            if not isinstance(p, Ptr): raise Unsupported('back-off state')
            ex.oblige(st, 'the back-off state belongs to the call', {'C04', 'C19'}, z3.BoolVal(p.r is not self.obj and not str(p.r.key).startswith('g:')))
            if self.m.kind == 'try': ex.oblige(st, 'try_lock does not wait', {'C06'}, False)
            if ex.want in (None, 'C19') and (st.mem.get(p.r.key) or any('::exponential' in x and '::state::state()' in x for x in self.mod.dem.values()) and not st.g.get('bo', {}).get(p.r.key)):
                raise Unsupported('back-off state is not made by its constructor')
            if st.g.get('stepped') not in (None, p.r.key): ex.oblige(st, 'all back-off steps of a call work on one state', {'C19'}, False)
            st.g['stepped'] = p.r.key; st.g['taken'] = 0; return None
        self.contract(STEP.pattern, step)
    def observed(self, ex, st):
        if self.m.kind != 'lock': return True
        st.g['taken'] += 1
        if not self.steps:
            if ex.want in (None, 'C19') and st.g['taken'] > 2: raise Unsupported('no back-off step function')
            if st.g['taken'] > 2: st.g['taken'] = 2
            return True
        if ex.want not in (None, 'C19'): st.g['taken'] = min(st.g['taken'], 2); return True
        ok = st.g['taken'] <= 2
        ex.oblige(st, 'a spinning call takes a back-off step at the latest after two looks in a row at a taken lock', {'C19'}, z3.BoolVal(ok))
        return ok
    # ---- atomic steps ----
    def step(self, ex, st, p, ty, order, rmw, fn, what):
        """fn(v)->(new value or None, result, extra_condition_branches)"""
        if not (isinstance(p, Ptr) and p.r is self.obj and p.off == self.layout['OFF_state_']): raise Unsupported('atomic access to %r' % (p,))
        w = ty[1]
        out = []
        for case in ('free', 'self', 'other'):
            if (case == 'self') != st.g['mine']: continue
            s = st.clone()
            v = z3.BitVec(fresh_name('v'), w)
            s.assume((v == 0) == z3.BoolVal(case == 'free'))
            s.assume(z3.Or(v == 0, v == 1) if not self.values_open else z3.BoolVal(True))
            for cond, new, res, o in fn(v):
                if cond is not None and not ex.feasible(s, cond): continue
                s2 = s.clone()
                if cond is not None: s2.assume(cond)
                s2.trace.append('%s[%s]' % (what, case))
                if new is not None: 
                    r = self.modify(ex, s2, case, v, new, o, rmw)
                    if not r: continue
                elif case == 'other' and not self.observed(ex, s2): continue
                elif case == 'free': s2.g['taken'] = 0
                out.append((s2, res))
        return out
    values_open = True
    def cut_extra(self, st): return tuple(st.g.get(k) for k in ('mine', 'acq', 'rel', 'acqord', 'fence_rel', 'taken', 'stepped'))
    def modify(self, ex, st, case, v, new, order, rmw):
        z = ex.simpb(new == 0) if is_sym(new) else (new == 0)
        if is_sym(z):
            raise Unsupported('undetermined new state value')
        m = self.m
        if case == 'free':
            if not z:
                ok = m.kind in ('lock', 'try') and st.g['acq'] == 0
                ex.oblige(st, 'claims the free lock only once and only in an acquiring operation', {'C01'}, z3.BoolVal(ok))
                st.g['mine'] = True; st.g['acq'] += 1
                st.g['acqord'] = order in ACQ
                if not rmw: pass
            else:
                ex.oblige(st, 'no plain store breaks the release sequence of a free lock', {'C04'}, z3.BoolVal(bool(rmw) or order in REL and False))
        elif case == 'self':
            if z:
                ok = m.kind == 'unlock' and st.g['rel'] == 0
                ex.oblige(st, 'gives the lock up only in unlock', {'C01'}, z3.BoolVal(ok))
                ex.oblige(st, 'unlock publishes with release order', {'C04'}, z3.BoolVal(order in REL or bool(st.g['fence_rel'])))
                st.g['mine'] = False; st.g['rel'] += 1
        else:
            if z:
                ex.oblige(st, 'never frees a lock owned by another thread', {'C01'}, z3.BoolVal(False)); return False
            if not rmw: pass
        return True
    def fence(self, ex, st, order):
        if order in ACQ and st.g['acq']: st.g['acqord'] = True
        if order in REL: st.g['fence_rel'] = True
    def atomic_load(self, ex, st, p, ty, order):
        return self.step(ex, st, p, ty, order, False, lambda v: [(None, None, v, order)], 'load')
    def atomic_store(self, ex, st, p, ty, v, order):
        x = ex.z(v, ty[1])
        return self.step(ex, st, p, ty, order, False, lambda o: [(None, x, None, order)], 'store')
    def cmpxchg(self, ex, st, p, ty, c, n, so, fo, weak):
        C = ex.z(c, ty[1]); N = ex.z(n, ty[1])
        return self.step(ex, st, p, ty, so, True, lambda v: [(v == C, N, (v, True), so), (None if weak else v != C, None, (v, False), fo)], 'cas')
    def atomicrmw(self, ex, st, op, p, ty, v, order):
        x = ex.z(v, ty[1])
        f = {'xchg': lambda o: x, 'add': lambda o: o + x, 'sub': lambda o: o - x, 'and': lambda o: o & x, 'or': lambda o: o | x, 'xor': lambda o: o ^ x}.get(op)
        if f is None: raise Unsupported('rmw ' + op)
        if op == 'xchg': return self.step(ex, st, p, ty, order, True, lambda o: [(None, f(o), o, order)], 'xchg')
        return self.step(ex, st, p, ty, order, True, lambda o: [(f(o) == 0, ex.z(0, ty[1]), o, order), (f(o) != 0, ex.z(1, ty[1]), o, order)], op)
    def mem_load(self, ex, st, p, size, ty):
        if isinstance(p, Ptr) and p.r is self.obj and not st.g.get('exclusive'):
            ex.oblige(st, 'shared state is accessed atomically', {'C04'}, False)
            return ex.fresh_of(st, ty, 'race')
        return None
    def mem_store(self, ex, st, p, size, ty, v):
        if isinstance(p, Ptr) and p.r is self.obj and not st.g.get('exclusive'):
            ex.oblige(st, 'shared state is accessed atomically', {'C04'}, False)
            for case in ('x',): pass
            return True
        return False
    def on_yield(self, ex, st):
        if self.m.kind == 'try': ex.oblige(st, 'try_lock does not wait', {'C06'}, False)
        if self.m.kind == 'unlock': pass
        return [(st, 0)]
    def run_any(self, ex, m):
        self.m = m
        st = St(); st.assume(self.SELF != 0)
        st.g.update(mine=m.kind == 'unlock', acq=0, rel=0, acqord=True, fence_rel=False, taken=0, stepped=None)
        st.mem['obj'] = {}
        if m.kind in ('ctor', 'dtor'): st.g['exclusive'] = True
        f = self.mod.funcs[m.fn]
        def end(ex, st, kind, val):
            if ex.check(st, [], 5000) == z3.unsat: return
            def note(o): ex.outcomes[(m.name, o)] = ex.outcomes.get((m.name, o), 0) + 1
            if kind != 'ret':
                note(kind); ex.oblige(st, 'does not throw', {'C01'}, False); return
            if m.kind == 'ctor':
                note('ret'); c = st.mem['obj'].get(self.layout['OFF_state_'])
                ex.oblige(st, 'a new spinlock is free', {'C01'}, z3.BoolVal(False) if c is None else ex.z(c[1], 8*c[0]) == 0); return
            if m.kind == 'dtor': note('ret'); return
            if m.kind == 'lock':
                note('ret')
                ex.oblige(st, 'lock returns only as the owner', {'C01'}, z3.BoolVal(st.g['mine'] and st.g['acq'] == 1))
                ex.oblige(st, 'the acquisition synchronises (acquire order)', {'C04'}, z3.BoolVal(bool(st.g['acqord'])))
            elif m.kind == 'try':
                V = b2z(val)
                for c, o in ((V, 'true'), (z3.Not(V), 'false')):
                    if not ex.feasible(st, c): continue
                    s = st.clone(); s.assume(c); note(o)
                    if o == 'true':
                        ex.oblige(s, 'success is reported only to the owner', {'C01', 'C06'}, z3.BoolVal(s.g['mine'] and s.g['acq'] == 1))
                        if s.g['mine']: ex.oblige(s, 'the acquisition synchronises (acquire order)', {'C04'}, z3.BoolVal(bool(s.g['acqord'])))
                    else: ex.oblige(s, 'a failed try_lock acquires nothing', {'C01', 'C06'}, z3.BoolVal(not s.g['mine'] and s.g['acq'] == 0))
            elif m.kind == 'unlock':
                note('ret'); ex.oblige(st, 'unlock leaves the lock without owner', {'C01'}, z3.BoolVal(not st.g['mine'] and st.g['rel'] == 1))
        ex.run(m.name, m.fn, [Ptr(self.obj, 0)], st, end)

class Backoff(Spec):
    prim = 'C19'
    def __init__(self, mod, lay, kind='exp', init=None):
        super().__init__(mod); self.layout = lay; self.kind = kind; self.init = init
        self.obj = Region('obj', 'obj', None, 'obj')
    def overflow_tags(self): return {'C19'}
    def memsafe_tags(self): return {'C19'}
    def assert_tags(self, ex, st): return {'C19'}
    def on_yield(self, ex, st): st.ctr['yields'] += 1; return [(st, 0)]
    def run_any(self, ex, m):
        st = St(); st.ctr['yields'] = 0; st.mem['obj'] = {}
        P = {'C19'}; L = self.layout
        if m.kind == 'step' and self.kind == 'exp':
            ic, c = z3.BitVec('initcount', 32), z3.BitVec('counter', 32)
            st.mem['obj'] = {L['OFF_initcount']: (4, ic), L['OFF_counter']: (4, c)}
            st.assume(z3.ULE(c, ic))
        cells0 = dict(st.mem['obj'])
        def end(ex, st, kind, val):
            ex.outcomes[(m.name, kind)] = 1
            ex.oblige(st, 'returns normally', P, z3.BoolVal(kind == 'ret'))
            y = st.ctr['yields']; cells = st.mem['obj']
            Y = ex.z(y, 64)
            if m.kind == 'ctor':
                if self.kind == 'exp':
                    a, b = cells.get(L['OFF_initcount']), cells.get(L['OFF_counter'])
                    if not a or not b: ex.oblige(st, 'state initialised', P, False); return
                    ex.oblige(st, 'counter starts within the interval', P, z3.ULE(ex.z(b[1], 32), ex.z(a[1], 32)))
                    ex.oblige(st, 'the first interval is the configured one', P, z3.And(ex.z(a[1], 32) == self.init, ex.z(b[1], 32) == self.init))
                return
            if self.kind == 'yield': ex.oblige(st, 'yields once at every step', P, Y == 1); return
            if self.kind == 'busy': ex.oblige(st, 'changes nothing', P, z3.BoolVal(cells == cells0)); ex.oblige(st, 'does not yield', P, Y == 0); return
            i1, c1 = ex.z(cells[L['OFF_initcount']][1], 32), ex.z(cells[L['OFF_counter']][1], 32)
            zero = c == 0
            ex.oblige(st, 'yields exactly when the interval is used up', P, Y == z3.If(zero, BV(1), BV(0)))
            ex.oblige(st, 'counter stays within the current interval (no wrap-around)', P, z3.ULE(c1, i1))
            ex.oblige(st, 'between yields the counter strictly decreases and the interval is kept', P, z3.Implies(z3.Not(zero), z3.And(z3.ULT(c1, c), i1 == ic)))
            ex.oblige(st, 'after a yield the interval shrinks, down to one', P, z3.Implies(zero, z3.And(z3.UGE(i1, 1), z3.If(z3.UGT(ic, 1), z3.ULT(i1, ic), i1 == 1))))
            ex.oblige(st, 'the next yield comes within the previous interval', P, z3.Implies(zero, z3.And(z3.ULT(c1, i1))))
        ex.run(m.name, m.fn, [Ptr(self.obj, 0)], st, end)
