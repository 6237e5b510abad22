"""alternate::recursive_mutex: internal mutex kept locked for the whole ownership, owner_ an atomic
read without it.  Rely: owner_ holds the caller's id exactly while the caller owns (only the owner
stores it, and stores 0 before releasing)."""
from theory import *

class AltRec(Spec):
    prim = 'C02'
    def __init__(self, mod, lay):
        super().__init__(mod); self.layout = lay
        self.obj = Region('obj', 'obj', None, 'obj'); self.SELF = z3.BitVec('self', 64)
        self.no, self.oo, self.mo = lay['OFF_ncount_'], lay['OFF_owner_'], lay['OFF_mtx_']
    def overflow_tags(self): return {self.prim}
    memsafe_tags = overflow_tags
    def assert_tags(self, ex, st): return {self.prim}
    def private_region(self, ex, st, key): return not str(key).startswith('g:')
    def cut_extra(self, st): return (st.g['mine'],)
    def field(self, p):
        if isinstance(p, Ptr) and p.r is self.obj:
            return 'n' if p.off == self.no else 'o' if p.off == self.oo else '?'
        return None
    def plain(self, ex, st, p, w):
        k = self.field(p)
        if k is None or st.g['excl']: return
        ok = (k == 'n' and st.g['mine'])
        ob = Ob('%s of %s only by the holder of the internal mutex' % ('write' if w else 'read', {'n': 'the nesting count', 'o': 'the atomic owner (non-atomic access)', '?': 'internal storage'}[k]), frozenset({'C04'}), ex.method)
        ob.status = 'proved' if ok else 'refuted'; ob.solver = 'syntactic'; ob.path = '; '.join(st.trace[-20:])
        ex.obs.append(ob)
    def mem_load(self, ex, st, p, size, ty):
        self.plain(ex, st, p, False)
        if self.field(p) == 'n' and not st.g['mine'] and not st.g['excl']: return ex.fresh_of(st, ty, 'racy')
        return None
    def mem_store(self, ex, st, p, size, ty, v): self.plain(ex, st, p, True); return False
    def atomic_load(self, ex, st, p, ty, order):
        if self.field(p) != 'o': raise Unsupported('atomic load')
        if st.g['mine'] or st.g['excl']: return [(st, st.mem['obj'][self.oo][1])]
        v = ex.fresh_of(st, ty, 'owner'); st.assume(v != self.SELF); return [(st, v)]
    def atomic_store(self, ex, st, p, ty, v, order):
        if self.field(p) != 'o': raise Unsupported('atomic store')
        if not st.g['excl']: ex.oblige(st, 'owner_ is stored only by the holder of the internal mutex', {self.prim}, z3.BoolVal(bool(st.g['mine'])))
        ex.oblige(st, 'owner_ is only ever set to the caller or to nobody', {self.prim}, z3.Or(ex.z(v, 64) == self.SELF, ex.z(v, 64) == 0))
        if st.g['mine'] or st.g['excl']: st.mem['obj'][self.oo] = (8, v)
        return [(st, None)]
    def chk(self, ex, st, p):
        if not (isinstance(p, Ptr) and p.r is self.obj and p.off == self.mo): raise Unsupported('unknown mutex')
    def take(self, st):
        st.g['mine'] = True; st.mem['obj'][self.no] = (8, 0); st.mem['obj'][self.oo] = (8, 0)
    def on_lock(self, ex, st, p):
        if self.m.kind == 'try': ex.oblige(st, 'try_lock does not block', {'C06'}, False)
        ex.oblige(st, 'blocks only while another thread owns the mutex', {'C05', self.prim}, z3.BoolVal(not st.g['mine']))
        if st.g['mine']: raise PathEnd('self deadlock')
        self.take(st); return [(st, 0)]
    def on_trylock(self, ex, st, p):
        if st.g['mine']: return [(st, 16)]
        s2 = st.clone(); self.take(st); st.trace.append('trylock=ok'); s2.trace.append('trylock=busy'); s2.g['busy'] = True
        return [(st, 0), (s2, 16)]
    def pre_lock(self, ex, st, p): self.chk(ex, st, p)
    def on_unlock(self, ex, st, p):
        self.chk(ex, st, p)
        ex.oblige(st, 'internal mutex unlocked only by its holder', {self.prim, 'C05'}, z3.BoolVal(bool(st.g['mine'])))
        if not st.g['mine']: raise PathEnd('bad unlock')
        c = st.mem['obj']
        ex.oblige(st, 'nesting count is zero when the mutex is given up', {self.prim}, ex.z(c[self.no][1], 64) == 0)
        ex.oblige(st, 'owner_ is cleared when the mutex is given up', {self.prim}, ex.z(c[self.oo][1], 64) == 0)
        st.g['mine'] = False
    def run_any(self, ex, m):
        self.m = m; st = St(); S = self.SELF; P = {self.prim}
        st.assume(S != 0)
        dep = z3.BitVec('dep', 64)
        mine = m.case == 'nested' or m.kind == 'unlock'
        st.g.update(mine=mine, excl=m.kind in ('ctor', 'dtor'), nows=[], busy=False)
        if m.kind == 'ctor': st.mem['obj'] = {}
        else: st.mem['obj'] = {self.no: (8, dep if mine else 0), self.oo: (8, S if mine else 0)}
        if mine: st.assume(z3.And(dep != 0, dep != BV(-1)))
        def end(ex, st, kind, val):
            o = kind
            if kind == 'ret' and m.kind == 'try':
                v = val if not is_sym(val) else conc(val)
                if v is None: raise Unsupported('symbolic result')
                o = 'true' if v else 'false'
            ex.outcomes[(m.name, o)] = ex.outcomes.get((m.name, o), 0) + 1
            if o not in ('ret', 'true', 'false'): ex.oblige(st, 'neither throws nor terminates', P, False); return
            c = st.mem['obj']; n = ex.z(c[self.no][1], 64) if self.no in c else None; ow = ex.z(c[self.oo][1], 64) if self.oo in c else None
            if m.kind == 'ctor':
                ex.oblige(st, 'starts free', P, z3.And(n == 0, ow == 0) if n is not None and ow is not None else z3.BoolVal(False)); return
            if m.kind == 'dtor': return
            if m.kind in ('lock', 'try') and o != 'false':
                want = dep + 1 if mine else BV(1)
                ex.oblige(st, 'owner holds the internal mutex after acquiring', P, z3.BoolVal(bool(st.g['mine'])))
                ex.oblige(st, 'one level is added', P, n == want); ex.oblige(st, 'owner_ names the owner', P, ow == S)
            elif o == 'false':
                ex.oblige(st, 'fails only while another thread owns it', {'C06'} | (P if mine else set()), z3.BoolVal(not mine and bool(st.g['busy'])))
                ex.oblige(st, 'a failed attempt leaves no trace', {'C06', self.prim}, z3.BoolVal(not st.g['mine']))
            elif m.kind == 'unlock':
                last = dep == 1
                if st.g['mine']: ex.oblige(st, 'last unlock gives the mutex up', P, z3.Not(last)); ex.oblige(st, 'one level is removed and ownership kept', P, z3.And(n == dep - 1, ow == S))
                else: ex.oblige(st, 'given up exactly at the last level', P, last)
        ex.run(m.name, m.fn, [Ptr(self.obj, 0)], st, end)
METHODS = [Method('m_ctor', 'ctor'), Method('m_dtor', 'dtor')] + [Method('m_' + k, 'lock' if k == 'lock' else 'try', case=c) for k in ('lock', 'try_lock') for c in ('fresh', 'nested')] + [Method('m_unlock', 'unlock')]
