"""fair (FIFO) mutexes: ticket based (mutex, recursive_mutex) and queue based (timed, recursive_timed, shared)"""
from theory import *
STS = z3.ArraySort(TID, z3.IntSort())
INT = z3.IntSort()
K64 = z3.BitVecSort(64)

class FairBase(Monitor):
    """own, st[t] (IDLE/X/WX/S/WS), dep, nS; arr[t]: arrival stamp of a waiting thread, seq: last stamp given"""
    rec = False; shared = False
    def ghost_fresh(self, ex, st, Go):
        S_ = self.SELF
        G = dict(own=z3.BitVec(fresh_name('own'), 64), st=z3.Const(fresh_name('st'), STS), arr=z3.Const(fresh_name('arr'), z3.ArraySort(TID, INT)), seq=z3.Int(fresh_name('seq')))
        if self.rec: G['dep'] = z3.BitVec(fresh_name('dep'), 64)
        if self.shared: G['nS'] = z3.BitVec(fresh_name('nS'), 64)
        self.ghost_more(ex, st, G)
        if Go is not None:
            st.assume(G['st'][S_] == Go['st'][S_]); st.assume((G['own'] == S_) == (Go['own'] == S_)); st.assume(G['seq'] >= Go['seq'])
            if self.rec: st.assume(z3.Implies(Go['own'] == S_, G['dep'] == Go['dep']))
            st.assume(G['arr'][S_] == Go['arr'][S_])
            self.ghost_keep(ex, st, G, Go)
        return G
    def ghost_more(self, ex, st, G): pass
    def ghost_keep(self, ex, st, G, Go): pass
    def init_ghost(self, ex, st, m):
        S_ = self.SELF; G = self.ghost_fresh(ex, st, None); st.g['G'] = G; me = G['st'][S_]
        st.assume((me == X) == (G['own'] == S_))
        if m.kind in ('lock', 'try'):
            if m.case == 'nested': st.assume(me == X); st.assume(z3.And(G['dep'] != 0, G['dep'] != BV(-1)))
            else: st.assume(me == IDLE)
        elif m.kind == 'unlock':
            st.assume(me == (S if m.kw.get('shared') else X))
            if self.rec: st.assume(G['dep'] != 0)
        elif m.kind == 'dtor':
            st.assume(G['own'] == 0); st.add_univ('T', lambda t: G['st'][t] == IDLE)
            if self.shared: st.assume(G['nS'] == 0)
    def setst(self, G, v):
        old = G['st'][self.SELF]
        if 'N' in G: G['N'] = G['N'] + z3.If(z3.IntVal(v) == IDLE, BV(0), BV(1)) - z3.If(old == IDLE, BV(0), BV(1))
        if self.shared: G['nS'] = G['nS'] + z3.If(z3.IntVal(v) == S, BV(1), BV(0)) - z3.If(old == S, BV(1), BV(0))
        G['st'] = z3.Store(G['st'], self.SELF, z3.IntVal(v)); return G
    def facts(self, F, G):
        if not self.shared: return []
        st = G['st']
        return [cl('number of threads', z3.ULT(G['nS'], BV(1 << 61))), fa('cardinality of readers', 'T', lambda t: z3.Implies(st[t] == S, G['nS'] != 0)),
                fa2('cardinality of readers (2)', 'T', lambda t, u: z3.Implies(z3.And(t != u, st[t] == S, st[u] == S), z3.UGE(G['nS'], BV(2))))]
    def waiting(self, G, t): return z3.Or(G['st'][t] == WX, G['st'][t] == WS) if self.shared else G['st'][t] == WX
    def fair_tag(self): return 'C08' if self.shared else 'C07'
    def excl_tag(self): return 'C03' if self.shared else ('C02' if self.rec else 'C01')
    def base_inv(self, F, G):
        st, own = G['st'], G['own']
        kinds = (IDLE, X, WX, S, WS) if self.shared else (IDLE, X, WX)
        cs = [fa('per-thread state', 'T', lambda t: z3.And((st[t] == X) == z3.And(own == t, t != 0), z3.Or(*[st[t] == k for k in kinds]), z3.Implies(t == 0, st[t] == IDLE)), {self.excl_tag()}),
              fa('arrival stamps lie in the past', 'T', lambda t: z3.Implies(self.waiting(G, t), z3.And(G['arr'][t] >= 1, G['arr'][t] <= G['seq'])), {self.fair_tag()}), cl('stamps', G['seq'] >= 0, {self.fair_tag()})]
        if self.rec: cs.append(cl('depth', (own == 0) == (G['dep'] == 0)))
        if self.shared: cs.append(cl('no reader while exclusively owned', z3.Or(own == 0, G['nS'] == 0), {'C03'}))
        return cs
    def self_proj(self, G):
        d = {'st': G['st'][self.SELF], 'own': G['own'] == self.SELF, 'arr': G['arr'][self.SELF]}
        if self.rec: d['dep'] = z3.If(G['own'] == self.SELF, G['dep'], BV(0))
        return d
    def wait_tags(self, m): return {'C05', self.fair_tag()} | ({'C02'} if m.case == 'nested' else set())
    def wake_tags(self, m): return {'C05'}
    def rep_tags(self, m, out): return {self.excl_tag(), self.fair_tag()} | ({'C06'} if out == 'false' else set())
    def arrive(self, ex, st, m, F0, G0, F1, G):
        """bookkeeping of a thread that goes to sleep for the first time"""
        G['seq'] = G['seq'] + 1; G['arr'] = z3.Store(G['arr'], self.SELF, G['seq'])
        return self.setst(G, WS if m.kw.get('shared') else WX)
    def ghost_wait(self, ex, st, m, F0, G0, F1, G):
        if not st.g.get('waited'): G = self.arrive(ex, st, m, F0, G0, F1, G)
        return G
    def nobody_waits(self, F, G): return z3.BoolVal(False)
    def denied_try(self, F, G, sh): raise NotImplementedError
    def released(self, ex, st, m, out, F0, G0, F1, G): return G     # hook: the caller left the set of waiters
    def commit(self, ex, st, m, out, F0, G0, F1, G, val):
        goals = []; S_ = self.SELF; E, Fr = {self.excl_tag()}, {self.fair_tag()}; own = G['own']; sh = bool(m.kw.get('shared'))
        if m.kind in ('lock', 'try') and out in ('ret', 'true'):
            if m.case == 'nested':
                goals.append(('acquires again only as the owner', E, own == S_)); G['dep'] = G['dep'] + 1; return G, goals
            goals.append(('acquires only while no thread owns it', E, own == 0))
            if self.shared and not sh: goals.append(('exclusive ownership only while no thread shares', E, lambda t: G0['st'][t] != S))
            waited = bool(st.g.get('waited'))
            def first(t):
                if sh and not waited: return z3.Not(z3.And(t != S_, G0['st'][t] == WX))
                other = z3.And(t != S_, self.waiting(G0, t))
                return z3.Implies(other, G0['arr'][t] > G0['arr'][S_]) if waited else z3.Not(other)
            if not sh or not waited: goals.append(('acquires only if no waiting thread arrived earlier' if not sh else 'a reader enters without waiting only if no writer waits', Fr, first))
            elif not self.phased: goals.append(('a reader never overtakes a writer that arrived earlier', Fr, lambda t: z3.Implies(G0['st'][t] == WX, G0['arr'][t] > G0['arr'][S_])))
            G = self.released(ex, st, m, out, F0, G0, F1, G)
            G = self.setst(G, S if sh else X)
            if not sh: G['own'] = S_
            if self.rec: G['dep'] = BV(1)
        elif m.kind == 'try' and out == 'false':
            goals.append(('fails only while the lock is not available to it', {'C06'} | Fr, self.denied_try(F0, G0, sh) if not m.case == 'nested' else z3.BoolVal(False)))
            G = self.released(ex, st, m, out, F0, G0, F1, G)
            G = self.setst(G, IDLE)
        elif m.kind == 'unlock' and out == 'ret':
            if self.rec:
                G['dep'] = z3.simplify(G['dep'] - 1); last = G['dep'] == 0
                G['own'] = z3.If(last, BV(0), own); G['st'] = z3.Store(G['st'], S_, z3.If(last, z3.IntVal(IDLE), z3.IntVal(X)))
                if 'N' in G: G['N'] = G['N'] - z3.If(last, BV(1), BV(0))
                G = self.unlocked(ex, st, m, F0, G0, F1, G, last, goals)
            else:
                if not sh: G['own'] = BV(0)
                G = self.setst(G, IDLE); G = self.unlocked(ex, st, m, F0, G0, F1, G, z3.BoolVal(True), goals)
        else: goals.append(('neither throws nor ends otherwise (%s)' % out, E, z3.BoolVal(False)))
        return G, goals
    def unlocked(self, ex, st, m, F0, G0, F1, G, last, goals): return G
    def end_nosection(self, ex, st, m, out, val):
        if m.kind == 'dtor': ex.oblige(st, 'destructor of a free mutex returns', {self.excl_tag()}, z3.BoolVal(out == 'ret')); return
        super().end_nosection(ex, st, m, out, val)
    def setup_state(self, ex, m):
        self.prim = self.excl_tag()
        st = super().setup_state(ex, m)
        if m.kind == 'dtor': self.assume_inv(ex, st, self.F(st), st.g['G']); st.g['exclusive'] = True
        return st
    def run_ctor(self, ex, m):
        self.prim = self.excl_tag(); super().run_ctor(ex, m)
    def ctor_ghost(self, ex, st, m):
        G = dict(own=BV(0), st=z3.K(TID, z3.IntVal(IDLE)), arr=z3.K(TID, z3.IntVal(0)), seq=z3.IntVal(0))
        if self.rec: G['dep'] = BV(0)
        if self.shared: G['nS'] = BV(0)
        return G

class FairTicket(FairBase):
    """tick[t]: ticket of a holder or waiter; who[k]: holder of the outstanding ticket k"""
    def __init__(self, mod, layout, rec=False):
        self.rec = rec; super().__init__(mod, layout)
    def ghost_more(self, ex, st, G):
        G['N'] = z3.BitVec(fresh_name('N'), 64)
        G['tick'] = z3.Const(fresh_name('tick'), z3.ArraySort(TID, K64)); G['who'] = z3.Const(fresh_name('who'), z3.ArraySort(K64, TID))
    def ghost_keep(self, ex, st, G, Go): st.assume(G['tick'][self.SELF] == Go['tick'][self.SELF])
    def self_proj(self, G): d = super().self_proj(G); d['tick'] = G['tick'][self.SELF]; return d
    def facts(self, F, G): return [cl('number of threads', z3.ULT(G['N'], BV(1 << 62))), fa('cardinality', 'T', lambda t: z3.Implies(G['st'][t] != IDLE, G['N'] != 0))]
    def inv(self, F, G):
        cs = self.base_inv(F, G); st, own, tick, who, arr = (G[k] for k in ('st', 'own', 'tick', 'who', 'arr')); c = F['curr_']; n = F['next_'] - c
        dist = lambda t: tick[t] - c
        cs += [cl('one outstanding ticket per holder or waiter', n == G['N']), fa('every holder or waiter has an outstanding ticket', 'T', lambda t: z3.Implies(st[t] != IDLE, z3.And(z3.ULT(dist(t), n), who[tick[t]] == t))),
               fa('every outstanding ticket belongs to a holder or waiter', 'K', lambda k: z3.Implies(z3.ULT(k - c, n), z3.And(st[who[k]] != IDLE, tick[who[k]] == k))),
               cl('the owner has the current ticket', z3.Implies(own != 0, tick[own] == c)),
               fa2('tickets are in arrival order', 'T', lambda t, u: z3.Implies(z3.And(st[t] == WX, st[u] == WX, arr[t] < arr[u]), z3.ULT(dist(t), dist(u))), {'C07'}),
               fa2('arrival stamps are distinct', 'T', lambda t, u: z3.Implies(z3.And(st[t] == WX, st[u] == WX, t != u), arr[t] != arr[u]), {'C07'}),
               fa2('lemma: an earlier waiter denies the mutex', 'T', lambda t, u: z3.Implies(z3.And(st[t] == WX, st[u] == WX, arr[u] < arr[t]), self.blocked(F, G, t)), {'C07'})]
        if self.rec: cs += [cl('owner_ is the owner', F['owner_'] == own), cl('ncount_ is the depth', F['ncount_'] == G['dep'])]
        return cs
    def blocked(self, F, G, t):
        u = G['who'][F['curr_']]
        return z3.Or(G['own'] != 0, z3.And(F['next_'] != F['curr_'], u != t, G['st'][u] == WX, G['arr'][u] < G['arr'][t]))
    def pool_terms(self, F, G): return [('T', G['own']), ('T', G['who'][F['curr_']]), ('K', F['curr_']), ('K', G['tick'][self.SELF]), ('K', F['next_'] - 1)]
    def skolem_hint(self, ex, st, b, sk, F, G):
        for x in sk: st.reg('K' if b == 'T' else 'T', G['tick'][x] if b == 'T' else G['who'][x])
    def take_ticket(self, G, F0, F1):
        """the ticket drawn in this section is the old value of next_"""
        G['tick'] = z3.Store(G['tick'], self.SELF, F0['next_']); G['who'] = z3.Store(G['who'], F0['next_'], self.SELF); return G
    def arrive(self, ex, st, m, F0, G0, F1, G): return super().arrive(ex, st, m, F0, G0, F1, self.take_ticket(G, F0, F1))
    def released(self, ex, st, m, out, F0, G0, F1, G):
        return self.take_ticket(G, F0, F1) if out != 'false' and not st.g.get('waited') else G
    def denied_try(self, F, G, sh):
        u = G['who'][F['curr_']]
        return z3.Or(G['own'] != 0, z3.And(F['next_'] != F['curr_'], u != self.SELF, G['st'][u] == WX))
    def ctor_ghost(self, ex, st, m):
        G = super().ctor_ghost(ex, st, m); G['N'] = BV(0); G['tick'] = z3.K(TID, BV(0)); G['who'] = z3.K(K64, BV(0)); return G

LB = z3.ArraySort(Loc, z3.BoolSort()); LI = z3.ArraySort(Loc, INT); LL = z3.ArraySort(Loc, Loc); LS = z3.ArraySort(Loc, z3.BitVecSort(64))

class FairList(FairBase):
    """intrusive circular list through queue_ (Q); locked_ (L) stands for the holders, every other element is the
    node of a waiting thread.  Heap: one array per node field.  Ghost: node[t], thr[l], inq[l], ord[l] (position)"""
    phased = False
    def __init__(self, mod, layout, rec=False, shared=False, phased=False):
        self.rec, self.shared, self.phased = rec, shared, phased
        super().__init__(mod, layout)
        self.qo, self.lo, self.nsz = layout['OFF_queue_'], layout['OFF_locked_'], layout['SZ_locked_']
        self.nfields = {layout['OFF_q_next'] - self.qo: 'next', layout['OFF_q_prev'] - self.qo: 'prev'}
        self.ssz = layout.get('SZ_q_status', 8)
        if shared: self.nfields[layout['OFF_q_status'] - self.qo] = 'status'
        self.Q, self.L = z3.Const('Q', Loc), z3.Const('L', Loc)
    # ---- heap ----
    def is_node_ty(self, ty): return ty[0] == 'named' and ty[1].endswith('::node')
    def on_alloca(self, ex, st, r, ty):
        if not self.is_node_ty(ty): return
        r.node = True; own = dict(st.g.get('nodes', {}))
        for k, o in own.items():
            if k != r.key: st.assume(o.loc != r.loc)
        own[r.key] = r; st.g['nodes'] = own
        st.assume(z3.And(r.loc != self.Q, r.loc != self.L, r.loc != NULL))
        if 'G' in st.g: st.assume(z3.Not(st.g['G']['inq'][r.loc]))
        st.reg('L', r.loc)
    def norm(self, p):
        if isinstance(p, SymPtr): return (p.t, p.off)
        if isinstance(p, Ptr) and p.r is self.obj:
            if self.qo <= p.off < self.qo + self.nsz: return (self.Q, p.off - self.qo)
            if self.lo <= p.off < self.lo + self.nsz: return (self.L, p.off - self.lo)
        if isinstance(p, Ptr) and p.r is not None and p.r.node: return (p.r.loc, p.off)
        return None
    def norm_ptr(self, ex, st, p): return self.norm(p)
    def fresh_heap(self, only=None):
        d = {}
        for f in self.nfields.values():
            if only is None or f in only: d[f] = z3.Const(fresh_name(f), LS if f == 'status' else LL)
        return d
    def H(self, st):
        if 'H' not in st.g: st.g['H'] = self.fresh_heap()
        return st.g['H']
    def shared_cells(self): return [c for c in super().shared_cells() if self.norm(Ptr(self.obj, c[0])) is None]
    def havoc(self, ex, st):
        super().havoc(ex, st); st.g['H'] = self.fresh_heap()
    def F(self, st): d = super().F(st); d.update(self.H(st)); return d
    def live(self, G, l): return z3.Or(l == self.Q, l == self.L, z3.And(l != NULL, self.waiting(G, G['thr'][l]), G['node'][G['thr'][l]] == l))
    def haccess(self, ex, st, p, w):
        if st.g.get('exclusive'): return
        own = isinstance(p, Ptr) and p.r is not self.obj
        priv = own and not st.g.get('waited')
        ok = bool(st.g.get('held')) or priv
        ob = Ob('list node %s under the internal lock' % ('written' if w else 'read'), frozenset(self.race_tags()), ex.method); ob.solver = 'syntactic'
        key = (ex.method, 'heap', w, ok, st.frames[-1].f.name, st.frames[-1].block, st.frames[-1].idx)
        if key not in self.seen_access:
            self.seen_access.add(key); ob.status = 'proved' if ok else 'refuted'; ex.obs.append(ob)
        if isinstance(p, SymPtr):
            G = st.g['G']; l = p.t
            g = z3.Or(self.live(G, l), *[l == r.loc for r in st.g.get('nodes', {}).values()])
            st.reg('T', G['thr'][l])
            ex.oblige(st, 'list node %s is storage of a call in progress' % ('written' if w else 'read'), {'C20'}, g)
    def field_at(self, ex, n, size):
        f = self.nfields.get(n[1])
        if f is None or (size != 8 and (f != 'status' or size != self.ssz)): raise Unsupported('node access')
        return f
    def mem_load(self, ex, st, p, size, ty):
        n = self.norm(p)
        if n is None or (isinstance(p, Ptr) and p.r is self.obj and size not in (8, self.ssz)): return super().mem_load(ex, st, p, size, ty)
        f = self.field_at(ex, n, size); self.haccess(ex, st, p, False)
        v = z3.simplify(z3.Select(self.H(st)[f], n[0]))
        if f == 'status':
            if size != 8: v = z3.simplify(z3.Extract(8*size - 1, 0, v))
            return conc(v) if conc(v) is not None else v
        st.reg('L', v)
        return SymPtr(v, 0)
    def mem_store(self, ex, st, p, size, ty, v):
        n = self.norm(p)
        if n is None: return super().mem_store(ex, st, p, size, ty, v)
        f = self.field_at(ex, n, size); self.haccess(ex, st, p, True)
        H = dict(self.H(st))
        if f == 'status': t = ex.z(v, 64) if size == 8 else z3.ZeroExt(64 - 8*size, ex.z(v, 8*size))
        else: t = NULL if (isinstance(v, int) and v == 0) else ex.ptr_term(st, v)
        H[f] = z3.Store(H[f], n[0], t); st.g['H'] = H
        return True
    def memcpy(self, ex, st, d, s, n):
        if self.norm(d) is None and self.norm(s) is None: return False
        if n % 8: raise Unsupported('memcpy of a partial node')
        vals = []
        for o in range(0, n, 8):
            dn = self.norm(ex.gep(st, d, o)) or self.norm(ex.gep(st, s, o)); f = self.nfields.get(dn[1])
            vals.append(ex.load(st, ex.gep(st, s, o), ('i', 64) if f == 'status' else ('ptr',)))
        for k, v in enumerate(vals):
            dd = ex.gep(st, d, 8*k); dn = self.norm(dd) or self.norm(ex.gep(st, s, 8*k))
            ex.store(st, dd, ('i', 64) if self.nfields.get(dn[1]) == 'status' else ('ptr',), v)
        return True
    def memset(self, ex, st, d, b, n):
        if self.norm(d) is None: return False
        if n % 8 or b != 0: raise Unsupported('memset of a node')
        for o in range(0, n, 8):
            dd = ex.gep(st, d, o); f = self.nfields.get(self.norm(dd)[1])
            ex.store(st, dd, ('i', 64) if f == 'status' else ('ptr',), 0 if f == 'status' else NULLP)
        return True
    # ---- ghost ----
    def ghost_more(self, ex, st, G):
        G['node'] = z3.Const(fresh_name('node'), z3.ArraySort(TID, Loc)); G['thr'] = z3.Const(fresh_name('thr'), z3.ArraySort(Loc, TID))
        G['inq'] = z3.Const(fresh_name('inq'), LB); G['ord'] = z3.Const(fresh_name('ord'), LI); G['hi'] = z3.Int(fresh_name('hi'))
        if self.shared: G['nf'] = z3.Const(fresh_name('nf'), Loc)
    def ghost_keep(self, ex, st, G, Go):
        st.assume(G['node'][self.SELF] == Go['node'][self.SELF])
        for r in st.g.get('nodes', {}).values():
            if not (st.g.get('waited') and r.key == st.g.get('mynode')): st.assume(z3.Not(G['inq'][r.loc]))
    def self_proj(self, G): d = super().self_proj(G); d['node'] = G['node'][self.SELF]; return d
    def arrive(self, ex, st, m, F0, G0, F1, G):
        G = super().arrive(ex, st, m, F0, G0, F1, G)
        nodes = list(st.g.get('nodes', {}).values())
        if len(nodes) != 1: raise Unsupported('%d queue nodes in a waiting call' % len(nodes))
        l = nodes[0].loc; st.g['mynode'] = nodes[0].key
        G['node'] = z3.Store(G['node'], self.SELF, l); G['thr'] = z3.Store(G['thr'], l, self.SELF); G['inq'] = z3.Store(G['inq'], l, z3.BoolVal(True))
        G['hi'] = G['hi'] + 1; G['ord'] = z3.Store(G['ord'], l, G['hi'])
        return self.renf(G)
    def refresh(self, G): return self.renf(G)
    def renf(self, G):
        if self.shared: G['nf'] = z3.Const(fresh_name('nf'), Loc)
        return G
    def released(self, ex, st, m, out, F0, G0, F1, G):
        if st.g.get('waited'): G['inq'] = z3.Store(G['inq'], G['node'][self.SELF], z3.BoolVal(False))
        if out != 'false': G['inq'] = z3.Store(G['inq'], self.L, z3.BoolVal(True))
        G['ord'] = z3.Store(G['ord'], self.L, z3.IntVal(0))
        return self.renf(G)
    def unlocked(self, ex, st, m, F0, G0, F1, G, last, goals):
        if self.shared and m.kw.get('shared'): last = G['nS'] == 0
        G['inq'] = z3.Store(G['inq'], self.L, z3.If(last, z3.BoolVal(False), G['inq'][self.L]))
        G = self.renf(G)
        if not self.shared: return G
        self.commit_hint(st, F1, G); self.assume_clauses(st, self.facts(F1, G))
        node, stt, L, Q = G['node'], G['st'], self.L, self.Q
        rdy = lambda t: F1['status'][node[t]] == 3
        if not m.kw.get('shared'):
            if self.phased:
                f = F0['next'][L]; st.reg('L', f); phase = z3.And(f != Q, F0['status'][f] == 1); o0 = G['ord']; B = G['hi'] + 2
                o1 = z3.Const(fresh_name('ord'), LI); s0 = F0['status']
                st.add_univ('L', lambda l: o1[l] == z3.If(z3.And(phase, l != L, s0[l] == 0), o0[l] + B, o0[l]), 'phase order')
                G['ord'] = o1; G['hi'] = z3.If(phase, G['hi'] + B, G['hi'])
                goals.append(('releasing admits every waiting reader when a reader is next, none when a writer is', {'C08'}, lambda t: z3.Implies(z3.And(t != self.SELF, stt[t] == WS), rdy(t) == phase)))
            else:
                u = z3.BitVec(fresh_name('skU'), 64); st.reg('T', u); st.reg('L', node[u])
                goals.append(('releasing admits only readers ahead of every waiting writer', {'C08'}, lambda t: z3.Implies(z3.And(stt[t] == WS, rdy(t), stt[u] == WX), G['arr'][t] < G['arr'][u])))
                nf = G['nf']; st.reg('L', nf); st.reg('T', G['thr'][nf])
                goals.append(('releasing admits every reader ahead of the first waiting writer', {'C08'}, lambda t: z3.Implies(z3.And(stt[t] == WS, z3.Not(rdy(t))), z3.And(stt[G['thr'][nf]] == WX, G['arr'][G['thr'][nf]] < G['arr'][t]))))
        return G
    def commit_hint(self, st, F, G):
        for b, t in self.pool_terms(F, G): st.reg(b, t)
    # ---- invariant ----
    def has(self, G): return z3.Or(G['own'] != 0, G['nS'] != 0) if self.shared else G['own'] != 0
    def struct(self, n, p, E, key, tags, pre=''):
        """E: the elements of the circular list through Q, in increasing order of key"""
        Q = self.Q; inE = lambda l: z3.Or(l == Q, E(l))
        return [fa(pre + 'links are mutually consistent', 'L', lambda l: z3.Implies(inE(l), z3.And(inE(n[l]), inE(p[l]), p[n[l]] == l, n[p[l]] == l)), tags),
                fa(pre + 'positions increase along the queue', 'L', lambda l: z3.Implies(E(l), z3.And(z3.Implies(n[l] != Q, key(l) < key(n[l])), z3.Implies(p[l] != Q, key(p[l]) < key(l)))), tags),
                fa2(pre + 'neighbours are adjacent in position', 'L', lambda l, m: z3.Implies(z3.And(E(l), E(m), key(l) < key(m)), z3.And(n[l] != Q, key(n[l]) <= key(m), p[m] != Q, key(l) <= key(p[m]))), tags),
                fa(pre + 'first and last element', 'L', lambda m: z3.Implies(E(m), z3.And(n[Q] != Q, key(n[Q]) <= key(m), p[Q] != Q, key(m) <= key(p[Q]))), tags),
                fa2(pre + 'positions are distinct', 'L', lambda l, m: z3.Implies(z3.And(E(l), E(m), l != m), key(l) != key(m)), tags)]
    def blocked(self, F, G, t):
        if self.shared:
            return z3.If(G['st'][t] == WS, F['status'][G['node'][t]] != 3, z3.Or(self.has(G), F['next'][self.Q] != G['node'][t]))
        u = G['thr'][F['next'][self.Q]]
        return z3.Or(G['own'] != 0, z3.And(F['next'][self.Q] != self.Q, u != t, G['st'][u] == WX, G['arr'][u] < G['arr'][t]))
    def facts(self, F, G):
        fs = super().facts(F, G)
        if self.shared:
            nf, s, E, o = G['nf'], F['status'], G['inq'], G['ord']
            nr = lambda l: z3.And(E[l], l != self.L, s[l] != 3)
            fs.append(fa('nf is the first waiting entry not admitted yet', 'L', lambda l: z3.Implies(nr(l), z3.And(nr(nf), o[nf] <= o[l]))))
        return fs
    def inv(self, F, G):
        fr, ex_ = self.fair_tag(), self.excl_tag(); T1 = {'C20', '~' + fr, '~' + ex_, '~C05'}
        n, p, st, own, node, thr, inq, o, arr = F['next'], F['prev'], G['st'], G['own'], G['node'], G['thr'], G['inq'], G['ord'], G['arr']
        Q, L, hi = self.Q, self.L, G['hi']; wt = lambda t: self.waiting(G, t)
        cs = self.base_inv(F, G)
        cs += [cl('the holder entry is queued exactly while the lock is held', z3.And(inq[L] == self.has(G), z3.Not(inq[Q]), z3.Not(inq[NULL])), {ex_, 'C20', '~' + fr})]
        cs += self.struct(n, p, lambda l: inq[l], lambda l: o[l], T1)
        cs += [fa('position bounds', 'L', lambda l: z3.Implies(inq[l], z3.And(o[l] <= hi, z3.If(l == L, o[l] == 0, o[l] >= 1))), T1), cl('bound', hi >= 0, T1),
               fa('every waiting thread has its own queue entry', 'T', lambda t: z3.Implies(wt(t), z3.And(inq[node[t]], thr[node[t]] == t, node[t] != L)), {'C20', '~C05', '~' + fr}),
               fa('every queue entry belongs to a waiting call', 'L', lambda l: z3.Implies(z3.And(inq[l], l != L), z3.And(wt(thr[l]), node[thr[l]] == l)), {'C20', '~C05', '~' + fr}),
               fa2('arrival stamps are distinct', 'T', lambda t, u: z3.Implies(z3.And(wt(t), wt(u), t != u), arr[t] != arr[u]), {'~' + fr})]
        pos = lambda t: o[node[t]]
        if not self.shared or not self.phased:
            cs.append(fa2('queue order is arrival order', 'T', lambda t, u: z3.Implies(z3.And(wt(t), wt(u)), (arr[t] < arr[u]) == (pos(t) < pos(u))), {fr}))
        else:
            cs.append(fa2('a writer stays behind everyone who arrived earlier', 'T', lambda t, u: z3.Implies(z3.And(st[t] == WX, wt(u), arr[u] < arr[t]), pos(u) < pos(t)), {fr}))
        if not self.shared:
            cs.append(fa2('lemma: an earlier waiter denies the mutex', 'T', lambda t, u: z3.Implies(z3.And(wt(t), wt(u), arr[u] < arr[t]), self.blocked(F, G, t)), {fr}))
        else: cs += self.shared_inv(F, G)
        if self.rec: cs += [cl('owner_ is the owner', F['owner_'] == own, {ex_}), cl('ncount_ is the depth', F['ncount_'] == G['dep'], {ex_})]
        return cs
    def shared_inv(self, F, G):
        s, L, Q, own, inq, o, thr, st, nf = F['status'], self.L, self.Q, G['own'], G['inq'], G['ord'], G['thr'], G['st'], G['nf']
        wn = lambda l: z3.And(inq[l], l != L)
        return [cl('the holder entry tells mode and number of holders', z3.And(z3.Implies(own != 0, s[L] == 6), z3.Implies(G['nS'] != 0, s[L] == ((G['nS'] << 2) | 3))), {'C03', '~C08', '~C05'}),
                fa('entry status', 'L', lambda l: z3.Implies(wn(l), z3.If(st[thr[l]] == WX, s[l] == 0, z3.Or(s[l] == 1, s[l] == 3))), {'C08', '~C03', '~C05'}),
                cl('queue head is no entry', s[Q] == 0, {'~C08'}),
                fa2('admitted readers are ahead of all others', 'L', lambda l, m: z3.Implies(z3.And(wn(l), wn(m), s[l] == 3, s[m] != 3), o[l] < o[m]), {'C08', '~C05'}),
                fa('no reader is admitted while a writer owns', 'L', lambda l: z3.Implies(z3.And(wn(l), own != 0), s[l] != 3), {'C03', 'C08'}),
                cl('the first entry not admitted is a writer, unless a writer owns', z3.Implies(z3.And(own == 0, wn(nf), s[nf] != 3), s[nf] == 0), {'C05', 'C08'})]
    def denied_try(self, F, G, sh):
        f = F['next'][self.Q]
        if sh: return z3.Or(G['own'] != 0, z3.And(G['inq'][G['nf']], G['nf'] != self.L, G['st'][G['thr'][G['nf']]] == WX))
        return z3.Or(self.has(G), z3.And(f != self.Q, G['thr'][f] != self.SELF, self.waiting(G, G['thr'][f])))
    def pool_terms(self, F, G):
        n, p, Q, L = F['next'], F['prev'], self.Q, self.L; me = G['node'][self.SELF]
        ls = [Q, L, me, n[Q], p[Q], n[me], p[me], n[n[Q]]] + ([G['nf']] if self.shared else [])
        return [('T', G['own']), ('T', G['thr'][n[Q]]), ('T', G['thr'][p[Q]])] + [('L', l) for l in ls] + ([('T', G['thr'][G['nf']])] if self.shared else [])
    def skolem_hint(self, ex, st, b, sk, F, G):
        for x in sk:
            if b == 'T': st.reg('L', G['node'][x])
            elif b == 'L':
                st.reg('T', G['thr'][x])
                for a in (F['next'], F['prev']): st.reg('L', z3.simplify(a[x]))
    def setup_state(self, ex, m):
        st = super().setup_state(ex, m)
        return st
    def init_ghost(self, ex, st, m):
        st.assume(z3.Distinct(self.Q, self.L, NULL)); st.reg('L', self.Q); st.reg('L', self.L)
        super().init_ghost(ex, st, m)
    def ctor_ghost(self, ex, st, m):
        G = super().ctor_ghost(ex, st, m); st.assume(z3.Distinct(self.Q, self.L, NULL))
        G['node'] = z3.K(TID, NULL); G['thr'] = z3.K(Loc, BV(0)); G['inq'] = z3.K(Loc, z3.BoolVal(False)); G['ord'] = z3.K(Loc, z3.IntVal(0)); G['hi'] = z3.IntVal(0)
        return self.renf(G)
    def acquire(self, ex, st, woke):
        # what was known about the previous critical section is dropped (weakening): another section starts from the invariant alone
        st.univ = []; st.inst = []; st.pool = {'T': [self.SELF], 'L': [self.Q, self.L]}
        super().acquire(ex, st, woke)
    # ---- loops over the queue ----
    def loop_invariant(self, ex, st, key, label):
        return 'widen' if st.g.get('held') else super().loop_invariant(ex, st, key, label)
    def cursor(self, places, vals):
        cs = [pl for pl in places if pl[0] != 'spec' and isinstance(vals.get(pl), (Ptr, SymPtr))]
        return cs
    def on_widen(self, ex, st, key, first, places):
        if key[0] != 'hdr': return
        cs = self.cursor(places, first)
        if len(cs) > 1 or any(pl[0] not in ('spec',) and pl not in cs for pl in places): raise Unsupported('loop shape')
        H0 = dict(self.H(st)); pl = cs[0] if cs else None
        p0 = ex.ptr_term(st, first[pl]) if pl else None
        w = ex.ptr_term(st, st.frames[pl[1]].regs[pl[2]]) if pl and pl[0] == 'reg' else None
        if pl and w is None: raise Unsupported('loop cursor')
        info = dict(H0=H0, p0=p0, pl=pl, G=dict(st.g['G']))
        st.g['$loop'] = dict(st.g.get('$loop', {})); st.g['$loop'][key] = info
        if pl is None: return
        others = [r for r in st.g.get('nodes', {}).values() if r.key != st.g.get('mynode')]
        info['tpl'] = 'phase' if self.phased and self.m.kind == 'unlock' and others else 'mark'
        if info['tpl'] == 'phase' and len(others) != 1: raise Unsupported('phase loop without a single end marker')
        info['s'] = others[0].loc if info['tpl'] == 'phase' else None
        self.prove_tpl(ex, st, info, H0, p0, 'on entry')
        st.reg('L', w); st.reg('T', info['G']['thr'][w])
        Hn = dict(H0); Hn.update(self.fresh_heap(None if info['tpl'] == 'phase' else ('status',))); st.g['H'] = Hn
        for l in (Hn['next'][w], Hn['prev'][w], Hn['prev'][self.Q]): st.reg('L', l)
        self.assume_clauses(st, self.tpl(info, Hn, w))
    def on_subsumed(self, ex, st, key, old, cur):
        if key[0] != 'hdr': return
        info = st.g['$loop'].get(key)
        if info is None: raise Unsupported('loop')
        H = self.H(st)
        if info['pl'] is None:
            if any(not val_eq(H[f], info['H0'][f]) for f in H): raise Unsupported('loop changes the queue without a cursor')
            return
        w = ex.ptr_term(st, cur[info['pl']])
        self.prove_tpl(ex, st, info, H, w, 'after each step')
    def prove_tpl(self, ex, st, info, H, w, where):
        TT = {'C08', '~C20', '~C05', '~C03'}
        if not ex.wanted(TT): return
        s2 = st.clone(); F = dict(H); sk = [z3.Const(fresh_name('skL'), Loc), z3.Const(fresh_name('skL'), Loc)]
        for x in sk + [w]: s2.reg('L', x)
        self.skolem_hint(ex, s2, 'L', sk + [w], F, info['G'])
        for l in (H['next'][self.Q], H['prev'][self.Q]): s2.reg('L', z3.simplify(l))
        if info['tpl'] == 'mark' and any(f != 'status' and not val_eq(H[f], info['H0'][f]) for f in H): raise Unsupported('marking loop relinks the queue')
        for name, sort, f, t in self.tpl(info, H, w):
            g = f if sort is None else f(*sk) if sort.endswith('2') else f(sk[0])
            r = ex.prove(s2, g)
            ob = Ob('loop invariant [%s] %s' % (name, where), frozenset(TT), ex.method); ob.solver = 'z3'
            ob.status = 'proved' if r is True else 'unknown'; ob.path = '; '.join(s2.trace[-20:]); ex.obs.append(ob)
            if r is not True:
                if r is False: ob.detail = ex.explain(s2, ex.last_solver.model())
                raise Unsupported('loop invariant template does not fit: ' + name)
    def tpl(self, info, H, w):
        G, Q, L, s0, s = info['G'], self.Q, self.L, info['H0']['status'], H['status']; o = G['ord']; inq = G['inq']
        wn = lambda l: z3.And(inq[l], l != L)
        if info['tpl'] == 'mark':
            p0 = info['p0']
            done = lambda l: z3.And(p0 != Q, o[l] >= o[p0], z3.Or(w == Q, o[l] < o[w]))
            return [cl('cursor is at an entry or at the end', z3.Or(w == Q, z3.And(wn(w), p0 != Q, o[w] >= o[p0]))),
                    fa('entries passed so far were waiting readers and are admitted', 'L', lambda l: z3.Implies(wn(l), z3.And(s[l] == z3.If(done(l), BV(3), s0[l]), z3.Implies(done(l), s0[l] == 1)))),
                    fa('nothing else is changed', 'L', lambda l: z3.Implies(z3.Not(wn(l)), s[l] == s0[l]))]
        e = info['s']; B = G['hi'] + 2
        E = lambda l: z3.Or(wn(l), l == e)
        oo = lambda l: z3.If(l == e, G['hi'] + 1, o[l])
        moved = lambda l: z3.And(l != e, s0[l] == 0, oo(l) < oo(w))
        key = lambda l: z3.If(moved(l), oo(l) + B, oo(l))
        return [cl('cursor is at an entry or at the end marker', E(w))] + self.struct(H['next'], H['prev'], E, key, None) + \
               [fa('readers passed so far are admitted', 'L', lambda l: z3.Implies(wn(l), s[l] == z3.If(z3.And(s0[l] == 1, oo(l) < oo(w)), BV(3), s0[l]))),
                fa('nothing else is changed', 'L', lambda l: z3.Implies(z3.Not(wn(l)), s[l] == s0[l]))]

def fair_methods(rec, timed, shared=False):
    from excl import timed_methods
    ms = [Method('m_ctor', 'ctor')]
    for case in ['', 'nested'] if rec else ['']:
        ms += [Method('m_lock', 'lock', case=case), Method('m_try_lock', 'try', case=case)]
        if timed: ms += timed_methods('try_lock', 'try', case=case)
    ms.append(Method('m_unlock', 'unlock'))
    if shared:
        ms += [Method('m_lock_shared', 'lock', shared=True), Method('m_try_lock_shared', 'try', shared=True), Method('m_unlock_shared', 'unlock', shared=True)]
        if timed: ms += timed_methods('try_lock_shared', 'try', shared=True)
    for m in ms:
        if m.fn.endswith(('_for_ns', '_until_system')) and timed: m.kw['thorough_only'] = True
        if timed or shared: m.kw['cost'] = 5 if m.kind == 'unlock' and not m.kw.get('shared') else 4 if m.timed else 3 if m.kind == 'lock' else 2
    return ms + [Method('m_dtor', 'dtor')]
