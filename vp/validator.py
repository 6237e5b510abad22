"""the deadlock detector: its table of owners and waiters, and the search for a closed chain.
Abstract table: pres[k] = mutex k is registered, O[k][t] / W[k][t] = how often t is listed as owner / waiter of k.
Well-foundedness: a rank exists that decreases from every owner of a mutex to every thread waiting for it (no cycle is ever admitted);
it makes the recursive search terminate and the fixpoint R ('a chain leads from t to an owner of the end mutex') unique."""
from theory import *
import irparse as ir
KEY = z3.BitVecSort(64); CNT = z3.ArraySort(TID, TID); TAB = z3.ArraySort(KEY, CNT); PRES = z3.ArraySort(KEY, z3.BoolSort())
ZERO = z3.K(TID, BV(0))
P = {'C11'}

class Validator(Spec):
    trusted = ('contracts of std::unordered_map and std::vector (abstract content; a range-for visits every element)', 'a static local is initialised once')
    assumptions = ('callers of the detector are the checked mutexes: they register a mutex before using it and never wait while listed as waiter (obligations of the checked units)',)
    def __init__(self, mod, lay):
        super().__init__(mod); self.lay = lay; self.SELF = z3.BitVec('self', 64); self.dropJ = set(); self.seen_access = set()
        um = [n for n in mod.globals if 'unordered_map' in mod.globals[n].split('=', 1)[1].split('zeroinit')[0] and 'external' not in mod.globals[n]]
        mx = [n for n in mod.globals if re.search(r'global (\{ )?%(union\.pthread_mutex_t|"class\.std::mutex")', mod.globals[n])]
        if len(um) != 1 or len(mx) != 1: raise Unsupported('global table not recognised')
        self.mapname, self.mtxname = um[0], mx[0]
    def private_region(self, ex, st, key): return not str(key).startswith('g:') and not str(key).startswith('ent:') and not str(key).startswith('cur:')
    def overflow_tags(self): return P
    memsafe_tags = overflow_tags
    def assert_tags(self, ex, st): return P
    def self_tid(self, st): return self.SELF
    def atomic_load(self, ex, st, p, ty, order): return [(st, ex.freshint(ty[1], 'guard'))]
    # ---- quantified facts, instantiated over pools K (mutexes) and T (threads) ----
    def U(self, st, sorts, fn): st.g['U'] = st.g['U'] + ((sorts, fn),)
    def inst(self, st, extra=()):
        s = st.clone()
        pools = {'K': list(st.pool.get('K', [])), 'T': list(st.pool.get('T', []))}
        for srt, t in extra: pools[srt].append(t)
        for sorts, fn in st.g['U']:
            import itertools
            for c in itertools.product(*[pools[x] for x in sorts]): s.assume_i(fn(*c))
        return s
    def ob(self, ex, st, name, goal, extra=()):
        return ex.oblige(self.inst(st, extra), name, P, goal)
    def holds(self, ex, st, goal, extra=()):
        return ex.prove(self.inst(st, extra), goal) is True
    # ---- lock ----
    def is_guard(self, p): return isinstance(p, Ptr) and p.r is not None and p.r.key == 'g:' + self.mtxname and p.off == 0
    def on_lock(self, ex, st, p):
        if not self.is_guard(p): raise Unsupported('unknown mutex')
        if st.g['nsect']: raise Unsupported('several critical sections in one operation')
        st.g['held'] = True; st.g['nsect'] = 1
        self.fresh_table(ex, st)
        for k in list(st.mem):
            if k.startswith('g:') and k not in ('g:' + self.mapname, 'g:' + self.mtxname): del st.mem[k]
        return [(st, 0)]
    def pre_lock(self, ex, st, p):
        if self.is_guard(p) and st.g['held']: ex.oblige(st, 'table guard is not already held', P, False); raise PathEnd('self deadlock')
    def on_unlock(self, ex, st, p):
        if not self.is_guard(p): raise Unsupported('unknown mutex')
        if not st.g['held']: ex.oblige(st, 'unlock of the table guard only when held', P, False); raise PathEnd('bad unlock')
        st.g['held'] = False
    def fresh_table(self, ex, st):
        st.g['pres'] = z3.Const(fresh_name('pres'), PRES); st.g['O'] = z3.Const(fresh_name('O'), TAB); st.g['W'] = z3.Const(fresh_name('W'), TAB); st.g['tv'] = fresh_name('tv')
        st.g['T0'] = (st.g['pres'], st.g['O'], st.g['W'])
        rank = z3.Function(fresh_name('rank'), TID, z3.IntSort()); B = z3.Int(fresh_name('B')); st.g['rank'] = (rank, B)
        pres, O, W = st.g['T0']
        self.U(st, 'KTT', lambda k, t, u: z3.Implies(z3.And(pres[k], O[k][t] != 0, W[k][u] != 0), rank(u) < rank(t)) if self.m.kind != 'search' else z3.Implies(z3.And(k != self.key, pres[k], O[k][t] != 0, W[k][u] != 0), rank(u) < rank(t)))
        self.U(st, 'T', lambda t: z3.And(rank(t) >= 0, rank(t) < B))
        self.U(st, 'KT', lambda k, t: z3.Implies(z3.Not(pres[k]), z3.And(O[k][t] == 0, W[k][t] == 0)))
        st.assume(B > 0)
        if self.m.kind not in ('ctor',): st.assume(pres[self.key])
        if self.m.kind in ('locked', 'enqueue'): self.U(st, 'K', lambda k: W[k][self.t] == 0)
        if self.m.kind == 'unlocked': st.assume(z3.ULE(O[self.key][self.t], BV(1)))
        if self.m.kind == 'dequeue': st.assume(z3.ULE(W[self.key][self.t], BV(1)))
        # R(t): some chain 't owns a mutex somebody waits for who owns ...' ends at an owner of the mutex asked for; cyc(t) is its definition
        R = z3.Function(fresh_name('R'), TID, z3.BoolSort()); wm = z3.Function(fresh_name('wm'), TID, KEY); ww = z3.Function(fresh_name('ww'), TID, TID)
        e = self.key; st.g['R'] = R
        self.U(st, 'KTT', lambda k, t, u: z3.Implies(z3.And(pres[k], O[k][t] != 0, z3.Or(k == e, z3.And(W[k][u] != 0, R(u)))), R(t)))
        self.U(st, 'T', lambda t: z3.Implies(R(t), z3.And(pres[wm(t)], O[wm(t)][t] != 0, z3.Or(wm(t) == e, z3.And(W[wm(t)][ww(t)] != 0, R(ww(t)))))))
        st.reg('K', wm(self.t)); st.reg('T', ww(self.t))
    def need(self, ex, st, what):
        key = (ex.method, what, st.g['held'], st.frames[-1].f.name, st.frames[-1].block, st.frames[-1].idx)
        if key in self.seen_access: return
        self.seen_access.add(key); ex.oblige(st, '%s happens under the table guard' % what, P, z3.BoolVal(bool(st.g['held'])))
    def mem_load(self, ex, st, p, size, ty):
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'global' and 'global_counter' in p.r.key:
            self.need(ex, st, 'reading the numbering')
            if p.r.key not in st.mem: return ex.freshint(8*size, 'ctr')
        if isinstance(p, Ptr) and p.r is not None and p.r.key.startswith('ent:'):
            k = st.g['ent'].get(p.r.key)
            self.need(ex, st, 'reading the table')
            if p.off == 0 and size == 8: return k
            if p.off == self.lay['OFF_mapped'] + self.lay['OFF_mid']: return ex.freshint(8*size, 'mid')
            raise Unsupported('representation of an entry is read')
        return None
    def mem_store(self, ex, st, p, size, ty, v):
        if isinstance(p, Ptr) and p.r is not None and p.r.key.startswith('ent:'):
            self.need(ex, st, 'writing the table')
            if p.off == self.lay['OFF_mapped'] + self.lay['OFF_mid']: return True
            raise Unsupported('representation of an entry is written')
        if isinstance(p, Ptr) and p.r is not None and p.r.kind == 'global': self.need(ex, st, 'writing the numbering')
        return False
    # ---- entries and vectors ----
    def ent(self, ex, st, k):
        key = 'ent:' + fresh_name('e'); r = Region(key, 'heap', 64); st.mem[key] = {}
        st.g['ent'] = dict(st.g['ent']); st.g['ent'][key] = k; st.reg('K', k)
        return Ptr(r, 0)
    def vkind(self, st, p):
        """('O'|'W', key term) for a vector inside the table, ('l', place) for a local one"""
        if isinstance(p, Ptr) and p.r is not None:
            k = st.g['ent'].get(p.r.key)
            if k is not None:
                o = p.off - self.lay['OFF_mapped']
                if o == self.lay['OFF_owners']: return ('O', k)
                if o == self.lay['OFF_waiters']: return ('W', k)
                raise Unsupported('vector in entry')
            if p.r.kind in ('stack', 'heap'): return ('l', (p.r.key, p.off))
        raise Unsupported('unknown vector %r' % (p,))
    def getv(self, ex, st, p):
        kind, x = self.vkind(st, p)
        if kind == 'l':
            v = st.g['vec'].get(x)
            if v is None: raise Unsupported('uninitialised vector')
            return v
        self.need(ex, st, 'reading the table'); return st.g[kind][x]
    def setv(self, ex, st, p, v):
        kind, x = self.vkind(st, p)
        if kind == 'l': st.g['vec'] = dict(st.g['vec']); st.g['vec'][x] = v; return
        self.need(ex, st, 'changing the table'); st.g[kind] = z3.Store(st.g[kind], x, v); st.g['tv'] = fresh_name('tv')
    def ismap(self, ex, st, p):
        if not (isinstance(p, Ptr) and p.r is not None and p.r.key == 'g:' + self.mapname and p.off == 0): raise Unsupported('unknown map')
    def common_contracts(self):
        super().common_contracts()
        C = self.contract; M = r'std::unordered_map<unsigned long, yamc::validator::deadlock::entry,.*>::'
        V = r'std::vector<std::thread::id, std::allocator<std::thread::id> ?>::'
        NI = r'__gnu_cxx::__normal_iterator<(std::thread::id|std::thread::id const)\*, std::vector<std::thread::id, std::allocator<std::thread::id> ?> ?>'
        def tid(ex, st, p): t = ex.z(ex.load(st, p, ('i', 64)), 64); st.reg('T', t); return t
        def key(ex, st, p): k = ex.z(ex.load(st, p, ('i', 64)), 64); st.reg('K', k); return k
        def index(ex, st, n, d, a, i):
            self.ismap(ex, st, a[0]); self.need(ex, st, 'reading the table'); k = key(ex, st, a[1])
            st.g['pres'] = z3.Store(st.g['pres'], k, z3.BoolVal(True))     # a missing entry is created empty (an absent key has empty lists by convention)
            e = self.ent(ex, st, k); return Ptr(e.r, self.lay['OFF_mapped'])
        def at(ex, st, n, d, a, i):
            self.ismap(ex, st, a[0]); self.need(ex, st, 'reading the table'); k = key(ex, st, a[1])
            self.ob(ex, st, 'the entry looked up exists', st.g['pres'][k])
            e = self.ent(ex, st, k); return Ptr(e.r, self.lay['OFF_mapped'])
        def erase(ex, st, n, d, a, i):
            self.ismap(ex, st, a[0]); self.need(ex, st, 'changing the table'); k = key(ex, st, a[1])
            for f, v in (('pres', z3.BoolVal(False)), ('O', ZERO), ('W', ZERO)): st.g[f] = z3.Store(st.g[f], k, v)
            st.g['tv'] = fresh_name('tv'); return ex.freshint(64, 'nerased')
        C(M + r'operator\[\]\(', index); C(M + r'at\(', at); C(M + r'erase\(unsigned long const&\)', erase)
        def it(which, mp):
            def h(ex, st, n, d, a, i):
                if mp: self.ismap(ex, st, a[0]); self.need(ex, st, 'reading the table'); return Opaque(('mit', st.g['tv'], which))
                self.getv(ex, st, a[0]); kind, x = self.vkind(st, a[0])
                return Opaque(('vit', (kind, a[0].r.key, a[0].off), st.g['tv'] if kind != 'l' else x, which))
            return h
        for nm, w in (('c?begin', 'begin'), ('c?end', 'end')): C(M + nm + r'\(\)', it(w, True)); C(V + nm + r'\(\)', it(w, False))
        C(M + r'(unordered_map|~unordered_map)\(', lambda ex, st, n, d, a, i: None)
        def mfind(ex, st, n, d, a, i):
            self.ismap(ex, st, a[0]); self.need(ex, st, 'reading the table'); return Opaque(('mit', st.g['tv'], ('find', key(ex, st, a[1]))))
        C(M + r'find\(unsigned long const&\)', mfind)
        def mcount(ex, st, n, d, a, i):
            self.ismap(ex, st, a[0]); self.need(ex, st, 'reading the table'); k = key(ex, st, a[1]); return z3.If(st.g['pres'][k], BV(1), BV(0))
        C(M + r'count\(unsigned long const&\)', mcount)
        def ldit(ex, st, p):
            v = ex.load(st, p, ('ptr',))
            if not (isinstance(v, Opaque) and v.tag[0] in ('mit', 'vit')): raise Unsupported('iterator')
            cur = st.g['tv'] if v.tag[0] == 'mit' or v.tag[1][0] != 'l' else v.tag[2]
            if (v.tag[1] if v.tag[0] == 'mit' else v.tag[2]) != cur: raise Unsupported('iterator used after a change')
            return v
        def vptr(st, x): return Ptr(Region(x[1], 'stack' if x[0] == 'l' else 'heap'), x[2])
        def compare(neg):
            def h(ex, st, n, d, a, i):
                x, y = ldit(ex, st, a[0]), ldit(ex, st, a[1])
                if x.tag[:-1] != y.tag[:-1]: raise Unsupported('iterators of different ranges')
                b, e = (x, y) if y.tag[-1] == 'end' else (y, x)
                if b.tag == e.tag: return not neg
                if e.tag[-1] != 'end': raise Unsupported('iterator comparison')
                k = b.tag[-1]
                if isinstance(k, tuple) and k[0] == 'find':
                    if x.tag[0] == 'mit': r = z3.Not(st.g['pres'][k[1]])
                    else: r = self.getv(ex, st, vptr(st, b.tag[1]))[k[1]] == 0
                    return ex.simpb(z3.Not(r) if neg else r)
                if k != 'begin': raise Unsupported('iterator comparison')
                stt = st.g['itst'].get(b.tag, ('fresh',))
                if stt[0] == 'at': return neg
                if stt[0] == 'done': return not neg
                return Outcomes([('ret', s, v) for s, v in self._ev(ex, st, i, lambda s: self.visit(ex, s, b.tag, neg))])
            return h
        CMP = r'(bool )?(__gnu_cxx::operator%s<(std::thread::id|std::thread::id const)\*|std::__detail::operator%s\(std::__detail::_Node_iterator_base<std::pair<unsigned long const, yamc::validator::deadlock::entry>)'
        C(CMP % ('==', '=='), compare(False)); C(CMP % ('!=', '!='), compare(True))
        MI = r'std::__detail::_Node_(const_)?iterator<std::pair<unsigned long const, yamc::validator::deadlock::entry>.*>::'
        def deref(ex, st, n, d, a, i):
            x = ldit(ex, st, a[0]); k = x.tag[-1]
            if isinstance(k, tuple) and k[0] == 'find':
                el = k[1]; self.ob(ex, st, 'dereferences an element that is there', st.g['pres'][el] if x.tag[0] == 'mit' else self.getv(ex, st, vptr(st, x.tag[1]))[el] != 0)
            else:
                stt = st.g['itst'].get(x.tag)
                if k != 'begin' or stt is None or stt[0] != 'at': raise Unsupported('dereference outside the loop body')
                el = stt[1]
            if x.tag[0] == 'mit': return self.ent(ex, st, el)
            rk = 'cur:' + fresh_name('c'); st.mem[rk] = {0: (8, el)}; return Ptr(Region(rk, 'heap', 8), 0)
        C(MI + r'operator(\*|->)\(\)', deref); C(NI + r'::operator(\*|->)\(\)', deref)
        def incr(ex, st, n, d, a, i):
            x = ldit(ex, st, a[0]); stt = st.g['itst'].get(x.tag)
            if x.tag[-1] != 'begin' or stt is None or stt[0] != 'at': raise Unsupported('increment outside the loop body')
            lk, el = stt[2], stt[1]
            if lk not in self.dropJ:
                w = z3.Const(fresh_name('skT'), TID); j = self.J(st, x.tag, el, w)
                if j is not None and not self.holds(ex, st, j, [('T', w)]):
                    self.dropJ.add(lk); raise DropCand()
                if j is not None:
                    o = Ob('loop invariant: an element passed over does not close the chain', frozenset(P), ex.method); o.status = 'proved'; o.solver = 'z3'; ex.obs.append(o)
            st.g['itst'] = dict(st.g['itst']); st.g['itst'][x.tag] = ('moved',)
            return a[0]
        C(MI + r'operator\+\+\(\)', incr); C(NI + r'::operator\+\+\(\)', incr)
        def full(ex, st, x, y):
            if not (isinstance(x, Opaque) and isinstance(y, Opaque) and x.tag[0] == y.tag[0] == 'vit' and x.tag[:-1] == y.tag[:-1] and x.tag[-1] == 'begin' and y.tag[-1] == 'end'): raise Unsupported('range')
            if x.tag[1][0] != 'l' and x.tag[2] != st.g['tv']: raise Unsupported('iterator used after a change')
            if st.g['itst'].get(x.tag, ('fresh',))[0] != 'fresh': raise Unsupported('iterator moved')
            return vptr(st, x.tag[1])
        def find(ex, st, n, d, a, i):
            full(ex, st, a[0], a[1]); return Opaque(a[0].tag[:-1] + (('find', tid(ex, st, a[2])),))
        def count(ex, st, n, d, a, i): return self.getv(ex, st, full(ex, st, a[0], a[1]))[tid(ex, st, a[2])]
        def remove(ex, st, n, d, a, i):
            p = full(ex, st, a[0], a[1]); t = tid(ex, st, a[2]); v = self.getv(ex, st, p)
            keep = z3.Store(v, t, BV(0)); self.setv(ex, st, p, z3.Const(fresh_name('junk'), CNT))
            kind, x = self.vkind(st, p)
            return Opaque(('vit', a[0].tag[1], st.g['tv'] if kind != 'l' else x, ('removed', keep)))
        C(NI + r' std::find<', find); C(r'.*std::count<' + NI, count); C(NI + r' std::remove<', remove)
        def erase2(ex, st, n, d, a, i):
            x, y = a[1], a[2]
            if not (isinstance(x, Opaque) and isinstance(y, Opaque) and y.tag[-1] == 'end' and x.tag[:-1] == y.tag[:-1] and x.tag[1][1:] == (a[0].r.key, a[0].off)): raise Unsupported('erase')
            k = x.tag[-1]
            if k == 'end': pass
            elif k[0] == 'removed': self.setv(ex, st, a[0], k[1])
            else: raise Unsupported('erase range')
            return Opaque(('vit', x.tag[1], st.g['tv'], 'end'))
        def erase1(ex, st, n, d, a, i):
            x = a[1]
            if not (isinstance(x, Opaque) and x.tag[1][1:] == (a[0].r.key, a[0].off) and isinstance(x.tag[-1], tuple) and x.tag[-1][0] == 'find'): raise Unsupported('erase')
            t = x.tag[-1][1]; v = self.getv(ex, st, a[0]); self.ob(ex, st, 'erases an element that is there', v[t] != 0); self.setv(ex, st, a[0], z3.Store(v, t, v[t] - 1))
            return Opaque(('vit', x.tag[1], st.g['tv'], ('other',)))
        C(V + r'erase\((?:(?!, __gnu_cxx).)*\)', erase1); C(V + r'erase\(.*, __gnu_cxx', erase2)
        def push(ex, st, n, d, a, i): t = tid(ex, st, a[1]); v = self.getv(ex, st, a[0]); self.setv(ex, st, a[0], z3.Store(v, t, v[t] + 1))
        C(V + r'(push_back|emplace_back)', push); C(r'.* ' + V + r'emplace_back', push)
        C(V + r'clear\(\)', lambda ex, st, n, d, a, i: self.setv(ex, st, a[0], ZERO))
        C(V + r'vector\(\)', lambda ex, st, n, d, a, i: self.setv(ex, st, a[0], ZERO))
        def empty(ex, st, n, d, a, i):
            v = self.getv(ex, st, a[0]); b = z3.Bool(fresh_name('empty')); w = z3.Const(fresh_name('el'), TID); st.reg('T', w)
            self.U(st, 'T', lambda t: z3.Implies(b, v[t] == 0)); st.assume(z3.Or(b, v[w] != 0)); return b
        C(V + r'empty\(\)', empty)
        def size(ex, st, n, d, a, i):
            v = self.getv(ex, st, a[0]); c = z3.BitVec(fresh_name('size'), 64); w = z3.Const(fresh_name('el'), TID); st.reg('T', w)
            self.U(st, 'T', lambda t: z3.ULE(v[t], c)); st.assume(z3.Or(c == 0, v[w] != 0)); return c
        C(V + r'size\(\)', size)
        def mvassign(ex, st, n, d, a, i):
            v = self.getv(ex, st, a[1]); self.setv(ex, st, a[0], v)
            if '&&' in d.split('operator=')[1]: self.setv(ex, st, a[1], ZERO)
            return a[0]
        C(V + r'operator=\(', mvassign)
        def mvctor(ex, st, n, d, a, i):
            v = self.getv(ex, st, a[1]); self.setv(ex, st, a[0], v)
            if '&&' in d: self.setv(ex, st, a[1], ZERO)
        C(V + r'vector\(std::vector<', mvctor)
        C(V + r'~vector\(\)', lambda ex, st, n, d, a, i: None)
        C(NI + r'::__normal_iterator<', lambda ex, st, n, d, a, i: ex.store(st, a[0], ('ptr',), ex.load(st, a[1], ('ptr',))))
        def search(ex, st, n, d, a, i):
            if not (isinstance(a[0], Ptr) and a[0].r is not None and a[0].r.key == 'g:' + self.mapname): raise Unsupported('search over another table')
            e, t = ex.z(a[1], 64), ex.z(a[2], 64); st.reg('T', t)
            rank, B = st.g['rank']; pres, O, W = st.g['pres'], st.g['O'], st.g['W']; p0, O0, W0 = st.g['T0']
            if self.m.kind == 'search':
                self.ob(ex, st, 'the recursive search asks about the same mutex', e == self.key)
                self.ob(ex, st, 'the recursive search descends along the waits-for order (termination)', rank(t) < rank(self.t))
            else:
                k = z3.Const(fresh_name('skK'), KEY); x = z3.Const(fresh_name('skT'), TID)
                self.ob(ex, st, 'the search asks about the mutex to be waited for', e == self.key)
                self.ob(ex, st, 'the search sees the owners and waiters as they are', z3.And(pres[k] == p0[k], O[k][x] == O0[k][x], z3.Or(k == self.key, W[k][x] == W0[k][x])), [('K', k), ('T', x)])
            self.need(ex, st, 'the search')
            return z3.simplify(st.g['R'](t))
        C(r'yamc::validator::deadlock::find_closepath\(', search)
    def J(self, st, tag, el, w):
        """what holds of a visited element that did not end the search; w: arbitrary thread"""
        if self.m.kind != 'search': return None
        R = st.g['R']; pres, O, W = st.g['pres'], st.g['O'], st.g['W']
        if tag[0] == 'mit': return z3.Not(z3.And(pres[el], O[el][self.t] != 0, z3.Or(el == self.key, z3.And(W[el][w] != 0, R(w)))))
        kind = tag[1][0]
        if kind == 'W': return z3.Not(R(el))
        if kind == 'O': return el != self.t
        return None
    def visit(self, ex, st, tag, neg):
        lk = (tag[0], tuple((f.f.name, f.block, f.idx) for f in st.frames))
        s = st.clone()
        # exit: every element has been visited
        st.g['itst'] = dict(st.g['itst']); st.g['itst'][tag] = ('done',)
        if lk not in self.dropJ and self.J(st, tag, self.SELF, self.SELF) is not None:
            s0 = st.clone()
            if tag[0] == 'mit': self.U(st, 'KT', lambda k, w: self.J(s0, tag, k, w))
            else:
                p = Ptr(Region(tag[1][1], 'heap'), tag[1][2]); v = self.getv(ex, st, p)
                self.U(st, 'T', lambda w: z3.Implies(v[w] != 0, self.J(s0, tag, w, w)))
        # one more element
        el = z3.Const(fresh_name('el'), TID)
        s.g['itst'] = dict(s.g['itst']); s.g['itst'][tag] = ('at', el, lk)
        if tag[0] == 'mit': s.assume(s.g['pres'][el]); s.reg('K', el)
        else: s.assume(self.getv(ex, s, Ptr(Region(tag[1][1], 'heap'), tag[1][2]))[el] != 0); s.reg('T', el)
        s.trace.append('loop body'); st.trace.append('loop done')
        return [(st, not neg), (s, neg)]
    def opaque_cmp(self, ex, st, pred, x, y):
        if isinstance(x, Opaque) and x.tag[0] in ('mit', 'vit') or isinstance(y, Opaque) and y.tag[0] in ('mit', 'vit'): raise Unsupported('raw iterator comparison')
        return super().opaque_cmp(ex, st, pred, x, y)
    # ---- driver ----
    def run_any(self, ex, m):
        self.m = m; st = St()
        self.key = z3.BitVec('mkey', 64); self.t = z3.BitVec('tid', 64)
        st.assume(self.SELF != 0); st.reg('K', self.key); st.reg('T', self.t)
        st.g.update(held=False, nsect=0, U=(), ent={}, vec={}, itst={}, tv='tv0')
        self.seen_access = set()
        fn = m.fn
        if m.kind == 'search':
            c = [n for n in self.mod.funcs if re.match(r'yamc::validator::deadlock::find_closepath\(', self.mod.dem.get(n, ''))]
            if len(c) != 1: raise Unsupported('search function not found')
            fn = c[0]; st.g['held'] = True; self.fresh_table(ex, st)
            f = self.mod.funcs[fn]
            if len(f.params) != 3: raise Unsupported('signature of the search')
            args = [Ptr(ex.global_region(self.mapname), 0), self.key, self.t]
        else:
            f = self.mod.funcs[fn]
            args = [self.key] + ([self.t] if len(f.params) > 1 else []) + ([z3.Bool('shared')] if len(f.params) > 2 else [])
        ex.run(m.name, fn, args, st, self.on_end)
    def on_end(self, ex, st, kind, val):
        m = self.m
        if ex.check(st, [], 5000) == z3.unsat: return
        out = kind
        if kind == 'ret' and m.kind in ('search', 'enqueue'):
            b = b2z(val)
            for c, o in ((b, 'true'), (z3.Not(b), 'false')):
                s = st.clone(); s.assume(c)
                if ex.check(s, [], 5000) != z3.unsat: self.end1(ex, s, o)
            return
        self.end1(ex, st, out)
    def end1(self, ex, st, out):
        m = self.m; ex.outcomes[(m.name, out)] = ex.outcomes.get((m.name, out), 0) + 1
        if out in ('throw', 'abort', 'terminate'): ex.oblige(st, 'the detector does not fail', P, False); return
        R = st.g.get('R')
        if m.kind == 'search':
            self.ob(ex, st, 'the search answers %s exactly when %s chain closes' % (out, 'a' if out == 'true' else 'no'), R(self.t) if out == 'true' else z3.Not(R(self.t))); return
        ex.oblige(st, 'the table guard is free when the operation ends', P, z3.BoolVal(not st.g['held']))
        if not st.g['nsect']: ex.oblige(st, 'the operation works on the table', P, False); return
        p0, O0, W0 = st.g['T0']; pres, O, W = st.g['pres'], st.g['O'], st.g['W']; rank, B = st.g['rank']; k, t = self.key, self.t
        ep, eO, eW = p0, O0, W0
        add = lambda A: z3.Store(A, k, z3.Store(A[k], t, A[k][t] + 1)); rem = lambda A: z3.Store(A, k, z3.Store(A[k], t, BV(0)))
        r1 = lambda x: rank(x); B1 = B
        if m.kind == 'ctor': ep, eO, eW = z3.Store(p0, k, z3.BoolVal(True)), z3.Store(O0, k, ZERO), z3.Store(W0, k, ZERO)
        elif m.kind == 'dtor': ep, eO, eW = z3.Store(p0, k, z3.BoolVal(False)), z3.Store(O0, k, ZERO), z3.Store(W0, k, ZERO)
        elif m.kind == 'locked': eO = add(O0); r1 = lambda x: z3.If(x == t, B, rank(x)); B1 = B + 1
        elif m.kind == 'unlocked': eO = rem(O0)
        elif m.kind == 'dequeue': eW = rem(W0)
        elif m.kind == 'enqueue':
            # tid already owns what the owners of mkey wait for  <=>  R(tid)
            self.ob(ex, st, 'a wait is refused exactly when it closes a cycle (%s)' % ('admitted' if out == 'true' else 'refused'), z3.Not(R(t)) if out == 'true' else R(t))
            if out == 'true': eW = add(W0); r1 = lambda x: rank(x) + z3.If(R(x), B, 0); B1 = 2*B
        ks = z3.Const(fresh_name('skK'), KEY); ts = z3.Const(fresh_name('skT'), TID); us = z3.Const(fresh_name('skT'), TID); X = [('K', ks), ('T', ts), ('T', us)]
        self.ob(ex, st, 'registration of mutexes is as specified (%s)' % out, pres[ks] == ep[ks], X)
        self.ob(ex, st, 'owners listed are as specified (%s)' % out, O[ks][ts] == eO[ks][ts], X)
        self.ob(ex, st, 'waiters listed are as specified (%s)' % out, W[ks][ts] == eW[ks][ts], X)
        self.ob(ex, st, 'no cycle of owners and waiters is ever in the table (%s)' % out, z3.And(z3.Implies(z3.And(pres[ks], O[ks][ts] != 0, W[ks][us] != 0), r1(us) < r1(ts)), r1(ts) >= 0, r1(ts) < B1), X)

METHODS = [Method('m_' + n, n) for n in ('ctor', 'dtor', 'locked', 'unlocked', 'enqueue', 'dequeue', 'search')]
