"""Common contracts (libstdc++ / pthread / C++ runtime) and the monitor theory."""
import re, z3
import irparse as ir
from symex import *

BV = lambda n, w=64: z3.BitVecVal(n, w)

ASSUMPTIONS = [
 'contracts of std::mutex/pthread_mutex (mutual exclusion, acquire/release ordering), std::condition_variable (spurious wake-ups allowed, a notified sleeper is woken), clocks (steady clock monotone) and the C++ exception runtime are assumed',
 'allocation never fails; thread ids are non-zero and distinct; client follows the documented preconditions except where the property is about misuse',
 'counters do not pass 2^64 tickets / recursion levels / phases per suspended call; now()+duration does not overflow (deadline equality is modulo 2^64)',
]
class Spec:
    trusted = (); assumptions = ()
    def run_any(self, ex, m):
        if m.kind == 'ctor': self.run_ctor(ex, m)
        else: self.run_method(ex, m)
    collect_smt = False; guard = False
    unroll = 3
    def __init__(self, mod):
        self.mod = mod; self._lk = {}
        self.table = []
        self.common_contracts()
    # ----- default hooks -----
    def norm_ptr(self, ex, st, p): return None
    def mem_load(self, ex, st, p, size, ty): return None
    def mem_store(self, ex, st, p, size, ty, v): return False
    def memcpy(self, ex, st, d, s, n): return False
    def memset(self, ex, st, d, b, n): return False
    def on_alloca(self, ex, st, r, ty): pass
    def private_region(self, ex, st, key): return not str(key).startswith('g:')
    def on_widen(self, ex, st, key, first, places): pass
    def on_subsumed(self, ex, st, key, old, cur): pass
    def loop_invariant(self, ex, st, key, label):
        return 'widen' if self.intloop(ex, st, label) else None
    def intloop(self, ex, st, label): return False
    def overflow_tags(self): return {'*'}
    def progress_tags(self, ex, st):
        t = {'C05', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C18', 'C19', 'C21', 'C22'}
        m = getattr(self, 'm', None)
        if m is not None and (m.kind == 'try' or getattr(m, 'timed', None)): t.add('C06')
        return t
    def memsafe_tags(self): return {'*'}
    def assert_tags(self, ex, st): return {'*'}
    def ptr_order(self, ex, st, pred, x, y): raise Unsupported('pointer order')
    def opaque_bin(self, ex, st, op, w, x, y): return Opaque((op, fresh_name('o')))
    def opaque_cmp(self, ex, st, pred, x, y): 
        if x == y: return pred in ('eq', 'ule', 'uge', 'sle', 'sge')
        return z3.Bool(fresh_name('ocmp'))
    def opaque_cast(self, ex, st, op, x, tty): return None
    def ptr2int(self, ex, st, p, w): return Opaque(('p2i', p))
    def int2ptr(self, ex, st, x): raise Unsupported('inttoptr')
    def sym_gep(self, ex, st, p, bt, idx): raise Unsupported('symbolic index')
    def fence(self, ex, st, order): pass
    def atomic_load(self, ex, st, p, ty, order): raise Unsupported('atomic load')
    def atomic_store(self, ex, st, p, ty, v, order): raise Unsupported('atomic store')
    def cmpxchg(self, ex, st, p, ty, c, n, so, fo, weak): raise Unsupported('cmpxchg')
    def atomicrmw(self, ex, st, op, p, ty, v, order): raise Unsupported('atomicrmw')
    def on_abort(self, ex, st, why): pass
    # ----- contract table -----
    def contract(self, rx, fn): self.table.append((re.compile(rx), fn))
    def lookup(self, name, dem):
        if name in self._lk: return self._lk[name]
        r = None
        for rx, fn in reversed(self.table):
            if rx.match(dem) or rx.match(name): r = fn; break
        self._lk[name] = r
        return r
    def common_contracts(self):
        C = self.contract
        nop = lambda ex, st, n, d, a, i: None
        C(r'pthread_self$', lambda ex, st, n, d, a, i: self.self_tid(st))
        C(r'pthread_mutex_lock$', lambda ex, st, n, d, a, i: Outcomes([('ret', s, v) for s, v in self._ev(ex, st, i, lambda s: self.on_lock(ex, s, a[0]), lambda s: self.pre_lock(ex, s, a[0]))]))
        C(r'pthread_mutex_trylock$', lambda ex, st, n, d, a, i: Outcomes([('ret', s, v) for s, v in self._ev(ex, st, i, lambda s: self.on_trylock(ex, s, a[0]), lambda s: self.pre_lock(ex, s, a[0]))]))
        C(r'pthread_mutex_unlock$', lambda ex, st, n, d, a, i: (self.on_unlock(ex, st, a[0]), 0)[1])
        C(r'sched_yield$', lambda ex, st, n, d, a, i: Outcomes([('ret', s, v) for s, v in self._ev(ex, st, i, lambda s: self.on_yield(ex, s))]))
        C(r'std::condition_variable::wait\(std::unique_lock<std::mutex>&\)', lambda ex, st, n, d, a, i: Outcomes([('ret', s, None) for s, v in self._ev(ex, st, i, lambda s: self.on_wait(ex, s, a[0], a[1], None), lambda s: self.pre_wait(ex, s, a[0], a[1], None))]))
        def wait_until(ex, st, n, d, a, i):
            dl = self.deadline_of(ex, st, d, a[2])
            return Outcomes([('ret', s, v) for s, v in self._ev(ex, st, i, lambda s: self.on_wait(ex, s, a[0], a[1], dl), lambda s: self.pre_wait(ex, s, a[0], a[1], dl))])
        C(r'std::cv_status std::condition_variable::wait_until<', wait_until)
        def wait_for(ex, st, n, d, a, i):
            m = re.search(r'duration<(\w+), std::ratio<(\d+)l?, (\d+)l?> ?>', d)
            cnt = ex.load(st, a[2], ('i', 64)); num, den = int(m.group(2)), int(m.group(3))
            f = 1000000000*num//den
            now = self.read_clock(ex, st, 'std::chrono::_V2::steady_clock')
            dl = ('std::chrono::_V2::steady_clock', z3.simplify(ex.z(now, 64) + ex.z(cnt, 64)*f))
            return Outcomes([('ret', s, v) for s, v in self._ev(ex, st, i, lambda s: self.on_wait(ex, s, a[0], a[1], dl), lambda s: self.pre_wait(ex, s, a[0], a[1], dl))])
        C(r'std::cv_status std::condition_variable::wait_for<', wait_for)
        C(r'std::condition_variable::notify_one\(\)', lambda ex, st, n, d, a, i: self.on_notify(ex, st, a[0], False))
        C(r'std::condition_variable::notify_all\(\)', lambda ex, st, n, d, a, i: self.on_notify(ex, st, a[0], True))
        C(r'std::condition_variable::~?condition_variable\(\)', nop)
        C(r'std::chrono::_V2::(steady|system)_clock::now\(\)', lambda ex, st, n, d, a, i: self.read_clock(ex, st, d.split('::now')[0]))
        # exceptions
        def alloc_exc(ex, st, n, d, a, i):
            k = 'exc:%d' % len(st.allocn); st.allocn[k] = 1
            r = Region(k, 'heap', a[0]); st.mem[k] = {}
            return Ptr(r, 0)
        C(r'__cxa_allocate_exception$', alloc_exc)
        C(r'__cxa_free_exception$', nop)
        def syserr(ex, st, n, d, a, i):
            st.g.setdefault('$excs', {})[a[0].r.key] = (a[1], a[2])
            return None
        C(r'std::system_error::system_error\(std::error_code, (char const\*|std::__cxx11::basic_string)', syserr)
        C(r'std::system_error::system_error\(std::error_code\)', syserr)
        def syserr2(ex, st, n, d, a, i):
            st.g.setdefault('$excs', {})[a[0].r.key] = (a[1], a[2]); return None
        C(r'std::system_error::system_error\(int, std::_V2::error_category const&', syserr2)
        C(r'std::system_error::~system_error\(\)', nop)
        def cxa_throw(ex, st, n, d, a, i):
            rec = st.g.get('$excs', {}).get(a[0].r.key)
            t = a[1].r.name
            e = Exc(a[0].r, t, rec[0] if rec else None, rec[1] if rec else None)
            return Outcomes([('throw', st, e)])
        C(r'__cxa_throw$', cxa_throw)
        def throw_se(ex, st, n, d, a, i):
            r = Region('exc:lib', 'heap', 32); st.mem.setdefault('exc:lib', {})
            return Outcomes([('throw', st, Exc(r, '_ZTISt12system_error', a[0], self.gencat(ex)))])
        C(r'std::__throw_system_error\(int\)', throw_se)
        def begin_catch(ex, st, n, d, a, i):
            st.exstack.append(st.unw); return a[0]
        C(r'__cxa_begin_catch$', begin_catch)
        def end_catch(ex, st, n, d, a, i):
            if st.exstack: st.exstack.pop()
        C(r'__cxa_end_catch$', end_catch)
        C(r'__cxa_rethrow$', lambda ex, st, n, d, a, i: Outcomes([('throw', st, st.exstack[-1])]))
        C(r'std::_V2::generic_category\(\)', lambda ex, st, n, d, a, i: self.gencat(ex))
        C(r'std::_V2::system_category\(\)', lambda ex, st, n, d, a, i: Ptr(ex.global_region('$system_category'), 0))
        C(r'std::terminate\(\)|__clang_call_terminate', lambda ex, st, n, d, a, i: Outcomes([('end', st, ('end', 'terminate', None))]))
        C(r'abort$', lambda ex, st, n, d, a, i: Outcomes([('end', st, ('end', 'abort', None))]))
        def assert_fail(ex, st, n, d, a, i):
            ex.oblige(st, 'assert in %s line %s' % (short(ex.m.dem.get(st.frames[-1].f.name, '')), a[2]), self.assert_tags(ex, st), z3.BoolVal(False))
            raise PathEnd('assert')
        C(r'__assert_fail$', assert_fail)
        C(r'.*std::basic_ostream<char, std::char_traits<char> >&? ?.*operator<<', lambda ex, st, n, d, a, i: a[0])
        C(r'.*std::basic_ostream<char, std::char_traits<char> >::operator<<', lambda ex, st, n, d, a, i: a[0])
        C(r'.*std::endl<char', lambda ex, st, n, d, a, i: a[0])
        C(r'.*std::flush<char', lambda ex, st, n, d, a, i: a[0])
        C(r'__cxa_guard_acquire$', lambda ex, st, n, d, a, i: 0)
        C(r'__cxa_guard_release$', nop)
        C(r'__cxa_atexit$', lambda ex, st, n, d, a, i: 0)
    def pre_lock(self, ex, st, p): pass
    def pre_wait(self, ex, st, cv, lk, dl): pass
    def cut_extra(self, st): return ()
    def cut_terms(self, st, kind): return {}
    def _ev(self, ex, st, ins, fn, pre=None):
        """event: pre() emits the obligations of every arrival, then the path is
        compared with earlier arrivals (cut), then fn() havocs the shared state"""
        st.events += 1
        if pre: pre(st)
        key = ex.cut_key(st, 'ev')
        if ex.do_cut(st, key): raise PathEnd('subsumed')
        return fn(st)
    def gencat(self, ex): return Ptr(ex.global_region('$generic_category'), 0)
    # ----- clock -----
    def read_clock(self, ex, st, clock):
        t = ex.freshint(64, 'now')
        for c, u, _ in st.g.get('nows', []):
            if c == clock: st.assume(t >= u)
        st.g.setdefault('nows', []).append((clock, t, st.g.get('nwaits', 0)))
        return t
    def deadline_of(self, ex, st, dem, ptr):
        m = re.search(r'time_point<((?:[^<>,]|<[^<>]*>)+), std::chrono::duration<(\w[\w ]*), std::ratio<(\d+)l?, (\d+)l?> ?> ?>', dem)
        if not m: raise Unsupported('wait_until instance ' + dem[:260])
        clock, rep, num, den = m.group(1), m.group(2), int(m.group(3)), int(m.group(4))
        w = {'long': 64, 'int': 32, 'short': 16, 'long long': 64}.get(rep)
        if w is None: raise Unsupported('wait_until rep ' + rep)
        v = ex.load(st, ptr, ('i', w))
        if w < 64: v = ex.castv(st, 'sext', ('i', w), v, ('i', 64))
        if (1000000000*num) % den: raise Unsupported('period')
        f = 1000000000*num//den
        v = ex.z(v, 64)
        return (clock, z3.simplify(v*f) if f != 1 else v)
    def self_tid(self, st): return z3.BitVec('self', 64)
    def on_lock(self, ex, st, p): raise Unsupported('mutex')
    def on_trylock(self, ex, st, p): raise Unsupported('mutex trylock')
    def on_unlock(self, ex, st, p): raise Unsupported('mutex unlock')
    def on_yield(self, ex, st): return [(st, 0)]
    def on_wait(self, ex, st, cv, lk, dl): raise Unsupported('wait')
    def on_notify(self, ex, st, cv, all_): raise Unsupported('notify')

def short(d):
    d = re.sub(r'\(.*', '', d); return d[-60:]

# clause constructors
def cl(name, f, tags=None): return (name, None, f, tags)
def fa(name, sort, fn, tags=None): return (name, sort, fn, tags)          # forall t
def fa2(name, sort, fn, tags=None): return (name, sort + '2', fn, tags)   # forall t,u

class Method:
    """contract of one public operation"""
    def __init__(self, fn, kind, **kw):
        self.fn = fn; self.kind = kind
        self.timed = kw.pop('timed', None)        # None | ('for', unit_ns) | ('until', clock, unit_ns)
        self.blocking = kw.pop('blocking', kind in ('lock', 'lock_shared', 'acquire', 'wait') or self.timed is not None)
        self.case = kw.pop('case', '')
        self.kw = kw
    @property
    def name(self): return self.fn + (':' + self.case if self.case else '')

IDLE, X, WX, S, WS = 0, 1, 2, 3, 4
TID = z3.BitVecSort(64)
PH['T'] = (z3.Const('$t0', TID), z3.Const('$t1', TID)); PH['L'] = (z3.Const('$l0', Loc), z3.Const('$l1', Loc))

class Monitor(Spec):
    """object protected by one std::mutex; see DESIGN.md 'monitor rule'"""
    cls = ''
    widths = {'phase_': 32, 'state_': 32}; signed = ('counter_', 'init_count_')
    fields = {}          # name -> (off, size, 'int'|'ptr')
    mtx_off = None; cv_offs = ()
    prim = 'C01'
    notify_one_used = False
    tid_sort = 'T'
    can_throw = False
    def __init__(self, mod, layout):
        super().__init__(mod)
        self.layout = layout
        self.SELF = z3.BitVec('self', 64)
        self.obj = Region('obj', 'obj', None, 'obj')
        self.notify_kinds = set()
        self.notify_one_used = '_ZNSt18condition_variable10notify_oneEv' in mod.decls
    # ---- to be provided ----
    def ghost_fresh(self, ex, st, G): raise NotImplementedError
    def inv(self, F, G): return []
    def facts(self, F, G): return []
    def refresh(self, G): return G     # ghost terms defined by `facts` from the current state get new names after every section
    def ghost_wait(self, ex, st, m, F0, G0, F1, G1): raise NotImplementedError
    def commit(self, ex, st, m, out, F0, G0, F1, G1): raise NotImplementedError
    def ghost_release(self, ex, st, m, F0, G0, F1, G1): return G1     # ghost effect of an intermediate release
    def waiting(self, G, t): return z3.BoolVal(False)
    def blocked(self, F, G, t): return z3.BoolVal(False)
    def init_ghost(self, ex, st, m): raise NotImplementedError
    def pool_terms(self, F, G): return []
    def wait_tags(self, m): return {'C05'}
    def wake_tags(self, m): return {'C05'}
    def held_tags(self, m): return {'C05'}
    def race_tags(self): return {'C04'}
    def try_tags(self, m): return {'C06'}
    def dl_tags(self, m): return {'C06'}
    def rep_tags(self, m, out): return {self.prim}
    def throw_tags(self, m): return {self.prim}
    def assert_tags(self, ex, st): return self.rep_tags(self.m, None)
    def memsafe_tags(self): return {self.prim}
    def gkeep(self, st): pass
    # ---- member variables the specification does not name: a candidate invariant 'it counts the threads inside a wait' ----
    aux = (); AUXMAX = 1 << 31
    def aux_cell(self, ex, st, off):
        s, v = st.mem['obj'][off]
        return s, (v if is_sym(v) else BV(int(v), 8*s))
    def aux_assume(self, ex, st, woke):
        if not self.aux: return
        n = z3.BitVec(fresh_name('sleepers'), 64)
        st.assume(z3.ULT(n, self.AUXMAX))
        if woke: st.assume(n != 0)
        for off in self.aux:
            s, v = self.aux_cell(ex, st, off); st.assume(v == z3.Extract(8*s - 1, 0, n))
        st.g['NW'] = n - 1 if woke else n           # without the calling thread
        self.aux_facts(st, st.g['G'])
    def aux_facts(self, st, G):
        if not self.aux or 'NW' not in st.g: return
        n = st.g['NW']; st.add_univ('T', lambda t: z3.Implies(z3.And(t != self.SELF, self.waiting(G, t)), n != 0), 'sleepers are counted')
    def wakes_all(self, ex, st, k):
        return ex.z(k, 64) >= (z3.BV2Int(st.g['NW']) if ex.intmode else st.g['NW']) if self.aux and 'NW' in st.g else z3.BoolVal(False)
    def aux_prove(self, ex, st, n, where):
        if not self.aux: return
        for off in self.aux:
            s, v = self.aux_cell(ex, st, off)
            r = ex.prove(st, v == z3.Extract(8*s - 1, 0, n))
            ob = Ob('added member +%d counts the threads inside a wait, %s' % (off, where), frozenset({'AUX'}), ex.method); ob.solver = 'z3'
            ob.status = 'proved' if r is True else 'unknown'; ex.obs.append(ob)
    # ---- field access ----
    def in_lock_storage(self, off, size=1):
        for o, s in [(self.mtx_off, 40)] + [(c, 48) for c in self.cv_offs]:
            if o is not None and o < off + size and off < o + s: return True
        return False
    def shared_cells(self):
        return [(o, s, t) for o, s, t in self.all_cells if not self.in_lock_storage(o, s)]
    def F(self, st):
        d = {}
        cells = st.mem['obj']
        for n, (off, size, kind) in self.fields.items():
            v = cells[off][1]
            if kind == 'int':
                if not is_sym(v): v = BV(int(v), 8*size)
                # a field narrower than the specification's view of it is seen by its value (counters are signed)
                w = self.widths.get(n, 64)
                if 8*size < w: v = (z3.SignExt if n in self.signed else z3.ZeroExt)(w - 8*size, v)
            d[n] = v
        return d
    def mem_load(self, ex, st, p, size, ty):
        if isinstance(p, Ptr) and p.r is self.obj: self.access(ex, st, p.off, size, False)
        return None
    def mem_store(self, ex, st, p, size, ty, v):
        if isinstance(p, Ptr) and p.r is self.obj: self.access(ex, st, p.off, size, True)
        return False
    def access(self, ex, st, off, size, w):
        if st.g.get('exclusive'): return
        ok = bool(st.g.get('held'))
        ob = Ob('%s of +%d under the internal lock' % ('write' if w else 'read', off), frozenset(self.race_tags()), ex.method)
        key = (ex.method, off, w, ok, st.frames[-1].f.name, st.frames[-1].block, st.frames[-1].idx)
        if key in self.seen_access: return
        self.seen_access.add(key)
        ob.status = 'proved' if ok else 'refuted'; ob.solver = 'syntactic'
        if not ok: ob.detail = '%s of shared field at offset %d without holding the internal mutex, in %s' % ('write' if w else 'read', off, short(ex.m.dem.get(st.frames[-1].f.name, '')))
        ex.obs.append(ob)
    def private_region(self, ex, st, key):
        return key != 'obj' and not str(key).startswith('g:')
    # ---- events ----
    def is_mtx(self, p): return isinstance(p, Ptr) and p.r is self.obj and p.off == self.mtx_off
    def is_cv(self, p): return isinstance(p, Ptr) and p.r is self.obj and p.off in self.cv_offs
    def other_lock(self, ex, st, p): raise Unsupported('unknown mutex %r' % (p,))
    def cut_extra(self, st):
        g = st.g
        return tuple((k, g.get(k)) for k in self.cut_flags)
    cut_flags = ('held', 'arrived', 'waited', 'exclusive')
    def cut_terms(self, st, kind): return {'self:' + k: v for k, v in self.self_proj(st.g['G']).items()}
    def self_proj(self, G): return {}
    def pre_lock(self, ex, st, p):
        if not self.is_mtx(p): return
        if st.g.get('held'):
            ex.oblige(st, 'internal lock not already held', self.held_tags(self.m), False); raise PathEnd('self deadlock')
        self.close_section(ex, st, None)
    def on_lock(self, ex, st, p):
        if not self.is_mtx(p): return self.other_lock(ex, st, p)
        self.acquire(ex, st, woke=False)
        return [(st, 0)]
    def on_trylock(self, ex, st, p):
        if not self.is_mtx(p): raise Unsupported('trylock')
        s2 = st.clone()
        r = self.on_lock(ex, st, p)
        return r + [(s2, 16)]
    def on_unlock(self, ex, st, p):
        if not self.is_mtx(p): return self.other_unlock(ex, st, p)
        if not st.g.get('held'):
            ex.oblige(st, 'unlock of the internal lock only when held', self.held_tags(self.m), False); raise PathEnd('bad unlock')
        st.g['held'] = False
        if self.aux and 'NW' in st.g: self.aux_prove(ex, st, st.g['NW'], 'at a release')
        st.g['pending'] = (st.g['F0'], st.g['G0'], self.F(st), dict(st.g['G']))
    def other_unlock(self, ex, st, p): raise Unsupported('unknown mutex')
    def havoc(self, ex, st):
        cells = {}
        for o, s, t in self.shared_cells():
            cells[o] = (s, ex.fresh_of(st, t, 'f%d' % o))
        st.mem['obj'] = cells
    def acquire(self, ex, st, woke):
        self.havoc(ex, st)
        G = self.ghost_fresh(ex, st, st.g.get('G'))
        st.g['G'] = G
        F = self.F(st)
        self.assume_inv(ex, st, F, G)
        self.aux_assume(ex, st, woke)
        st.g['held'] = True
        st.g['F0'] = F; st.g['G0'] = dict(G)
        st.g['woke'] = woke; st.g['nall'] = False; st.ctr['none'] = 0
        st.g['nsect'] = st.g.get('nsect', 0) + 1
        self.on_section(ex, st)
    def on_section(self, ex, st): pass
    def assume_clauses(self, st, cs):
        for name, sort, f, tags in cs:
            if sort is None: st.assume(b2z(f))
            elif sort.endswith('2'): st.add_univ2(sort[:-1], f, name)
            else: st.add_univ(sort, f, name)
    def assume_inv(self, ex, st, F, G):
        for sort, t in self.pool_terms(F, G): st.reg(sort, t)
        self.assume_clauses(st, self.facts(F, G))
        self.assume_clauses(st, self.inv(F, G))
    def prove_inv(self, ex, st, F, G, tags, where):
        s2 = st.clone()
        for sort, t in self.pool_terms(F, G): s2.reg(sort, t)
        sk = {}
        cs = self.inv(F, G)
        for name, sort, f, t in cs:
            if sort is None: continue
            b = sort[:-1] if sort.endswith('2') else sort
            if b not in sk:
                S = self.sort_of(b)
                sk[b] = [z3.Const(fresh_name('sk' + b), S), z3.Const(fresh_name('sk' + b), S)]
                for x in sk[b]: s2.reg(b, x)
                self.skolem_hint(ex, s2, b, sk[b], F, G)
        self.assume_facts(ex, st, s2, F, G)
        gs = []
        for name, sort, f, t in cs:
            tg = set(t) if t else set(tags)
            if sort is None: g = f
            elif sort.endswith('2'): g = f(*sk[sort[:-1]])
            else: g = f(sk[sort][0])
            gs.append(('invariant [%s] %s' % (name, where), tg, g))
        ex.oblige_all(s2, gs)
    def assume_facts(self, ex, st, s2, F, G):
        fs = self.facts(F, G)
        if not fs: return
        self.assume_clauses(s2, fs)
        # vacuity guard (thorough tier): the facts must not contradict a reachable state
        if self.guard and ex.check(s2, [], 5000) == z3.unsat and ex.check(st, [], 5000) != z3.unsat:
            ob = Ob('ghost facts are consistent with the reached state', frozenset({'*'}), ex.method); ob.status = 'unknown'; ob.solver = 'z3'; ex.obs.append(ob)
    def sort_of(self, b): return TID if b == 'T' else Loc if b == 'L' else z3.BitVecSort(64)
    def skolem_hint(self, ex, st, b, sk, F, G): pass
    def forall_oblige(self, ex, st, name, tags, fn, F=None, G=None):
        s2 = st.clone(); t = z3.Const(fresh_name('skT'), TID); s2.reg('T', t)
        self.skolem_hint(ex, s2, 'T', [t], F, G)
        return ex.oblige(s2, name, tags, fn(t))
    # ---- notification rule ----
    def wake_check(self, ex, st, F0, G0, F1, G1, where):
        m = self.m
        SELF = self.SELF
        if st.g['nall']:
            ob = Ob('wake-ups %s (notify_all in the section)' % where, frozenset(self.wake_tags(m)), ex.method); ob.status = 'proved'; ob.solver = 'syntactic'
            ex.obs.append(ob); return
        k = st.ctr['none']
        def goal(t):
            pre = z3.And(t != SELF, self.waiting(G0, t), self.waiting(G1, t), self.blocked(F0, G0, t))
            return z3.Implies(pre, self.blocked(F1, G1, t))
        s2 = st.clone()
        self.assume_clauses(s2, self.facts(F1, G1))
        self.aux_facts(s2, G1)
        if k == 0:
            self.forall_oblige(ex, s2, 'no sleeping thread becomes grantable without a wake-up, %s' % where, self.wake_tags(m), goal, F1, G1)
        else:
            g = self.notify_one_ok(F0, G0, F1, G1, k)
            self.notify_one_goal(ex, s2, F0, G0, F1, G1, k, goal, where)
        if st.g['woke'] and self.notify_one_used and k == 0:
            def g2(t): return z3.Implies(z3.And(t != SELF, self.waiting(G1, t), self.one_class(G1, t)), self.blocked(F1, G1, t))
            self.forall_oblige(ex, s2, 'a woken thread passes an unused wake-up on, %s' % where, self.wake_tags(m), g2, F1, G1)
    def one_class(self, G, t): return z3.BoolVal(True)
    def notify_one_ok(self, F0, G0, F1, G1, k): return z3.BoolVal(False)
    def notify_one_goal(self, ex, st, F0, G0, F1, G1, k, goal, where):
        ok = self.notify_one_ok(F0, G0, F1, G1, k)
        if self.aux and 'NW' in st.g: ok = z3.Or(ok, self.wakes_all(ex, st, k))
        self.forall_oblige(ex, st, 'notify_one suffices for the threads that became grantable, %s' % where, self.wake_tags(self.m), lambda t: z3.Or(ok, goal(t)), F1, G1)
    def close_section(self, ex, st, out):
        """finish the pending release as an intermediate one (out None) or as the commit"""
        p = st.g.get('pending')
        if p is None: return
        F0, G0, F1, G1 = p
        st.g['pending'] = None
        if out is None:
            G1 = self.ghost_release(ex, st, self.m, F0, G0, F1, self.refresh(dict(G1))); st.g['G'] = dict(G1)
            self.prove_inv(ex, st, F1, G1, self.rep_tags(self.m, None), 'at an intermediate release')
            self.wake_check(ex, st, F0, G0, F1, G1, 'at an intermediate release')
    def pre_wait(self, ex, st, cv, lk, dl):
        m = self.m
        if not self.is_cv(cv): raise Unsupported('unknown cv')
        owns = ex.load(st, ex.gep(st, lk, 8), ('i', 8)); mp = ex.load(st, lk, ('ptr',))
        ok = bool(st.g.get('held')) and self.is_mtx(mp)
        ex.oblige(st, 'waits with the internal lock held through its guard', self.held_tags(m), z3.And(z3.BoolVal(ok), ex.z(owns, 8) == 1) if is_sym(owns) else z3.BoolVal(ok and int(owns) & 1 == 1))
        if not ok: raise PathEnd('bad wait')
        if not m.blocking:
            ex.oblige(st, 'non-blocking operation never waits', self.try_tags(m), False); raise PathEnd('try blocks')
        if m.timed is None and dl is not None: pass
        if m.timed is not None:
            if dl is None:
                ex.oblige(st, 'timed operation waits only with its deadline', self.dl_tags(m), False)
            else:
                ex.oblige(st, 'deadline of the wait is the caller\'s deadline', self.dl_tags(m), self.deadline_ok(ex, st, m, dl))
        F0, G0, F1 = st.g['F0'], st.g['G0'], self.F(st)
        G1 = self.ghost_wait(ex, st, m, F0, G0, F1, self.refresh(dict(st.g['G'])))
        s2 = st.clone()
        for sort, t in self.pool_terms(F1, G1): s2.reg(sort, t)
        self.assume_clauses(s2, self.facts(F1, G1))
        ex.oblige(s2, 'sleeps only while the lock is denied to it', self.wait_tags(m), self.blocked(F1, G1, self.SELF))
        self.extra_wait(ex, s2, m, F0, G0, F1, G1)
        if self.aux: self.aux_prove(ex, st, st.g['NW'] + 1, 'when going to sleep')
        self.prove_inv(ex, st, F1, G1, self.rep_tags(m, 'wait'), 'when going to sleep')
        self.wake_check(ex, st, F0, G0, F1, G1, 'when going to sleep')
        st.g['G'] = G1; st.g['waited'] = True; st.g['nwaits'] = st.g.get('nwaits', 0) + 1
        ex.outcomes[(m.name, 'wait')] = ex.outcomes.get((m.name, 'wait'), 0) + 1
    def on_wait(self, ex, st, cv, lk, dl):
        self.acquire(ex, st, woke=True)
        if dl is None: return [(st, None)]
        s2 = st.clone()
        st.g['evid'] = True
        s2.trace.append('no_timeout'); st.trace.append('timeout')
        return [(st, ex.const(1, 32)), (s2, ex.const(0, 32))]
    def extra_wait(self, ex, st, m, F0, G0, F1, G1): pass
    def deadline_ok(self, ex, st, m, dl):
        clock, t = dl
        goals = []
        if m.timed[0] == 'for':
            for c, n, w in st.g.get('nows', []):
                if c == clock and w == 0: goals.append(t == z3.simplify(n + self.argd*m.timed[1]))
        else:
            if clock == m.timed[1]: goals.append(t == z3.simplify(self.argd*m.timed[2]))
        return z3.Or(*goals) if goals else z3.BoolVal(False)
    def on_notify(self, ex, st, cv, all_):
        if not self.is_cv(cv): raise Unsupported('unknown cv')
        if 'nall' not in st.g:
            return None
        self.notify_kinds.add(all_)
        if all_: st.g['nall'] = True
        else: st.ctr['none'] = ex.z(st.ctr['none'], 64) + 1 if is_sym(st.ctr['none']) else st.ctr['none'] + 1
        return None
    # ---- method driver ----
    def evidence_goal(self, ex, st, m):
        if st.g.get('evid'): return z3.BoolVal(True)
        gs = []
        for c, n, w in st.g.get('nows', []):
            for c0, n0, w0 in st.g.get('nows', []):
                if m.timed[0] == 'for' and c0 == c and w0 == 0: gs.append(n >= n0 + self.argd*m.timed[1])
            if m.timed[0] == 'until' and c == m.timed[1]: gs.append(n >= self.argd*m.timed[2])
        return z3.Or(*gs) if gs else z3.BoolVal(False)
    def on_end(self, ex, st, kind, val):
        m = self.m
        out = self.outcome(ex, st, m, kind, val)
        if isinstance(out, list):   # symbolic bool result: split
            for c, o in out:
                if not ex.feasible(st, c): continue
                s = st.clone(); s.assume(c); self._end(ex, s, m, o, val)
            return
        self._end(ex, st, m, out, val)
    def outcome(self, ex, st, m, kind, val):
        if kind == 'ret':
            if val is None or not m.kw.get('bool', val is not None and (isinstance(val, bool) or (is_sym(val) and z3.is_bool(val)))): return 'ret'
            if is_sym(val): return [(val, 'true'), (z3.Not(val), 'false')]
            return 'true' if val else 'false'
        return kind
    def _end(self, ex, st, m, out, val):
        if not self.feas_end(ex, st): return
        ex.outcomes[(m.name, out)] = ex.outcomes.get((m.name, out), 0) + 1
        if out in ('abort', 'terminate'):
            return self.end_abort(ex, st, m, out)
        if st.g.get('held'):
            ex.oblige(st, 'internal lock is free when the operation ends (%s)' % out, self.held_tags(m), False)
            st.g['pending'] = (st.g['F0'], st.g['G0'], self.F(st), dict(st.g['G']))
        else:
            ob = Ob('internal lock is free when the operation ends (%s)' % out, frozenset(self.held_tags(m)), ex.method); ob.status = 'proved'; ob.solver = 'syntactic'; ex.obs.append(ob)
        p = st.g.get('pending')
        if p is None:
            return self.end_nosection(ex, st, m, out, val)
        F0, G0, F1, G1 = p
        G1 = self.refresh(dict(G1))
        for sort, t in self.pool_terms(F1, G1): st.reg(sort, t)
        G2, goals = self.commit(ex, st, m, out, F0, G0, F1, dict(G1), val)
        s2 = st.clone()
        self.assume_clauses(s2, self.facts(F1, G1))
        for g in goals:
            name, tags, f = g[0], g[1], g[2]
            if callable(f): self.forall_oblige(ex, s2, name, tags, f, F1, G1)
            else: ex.oblige(s2, name, tags, f)
        if m.timed is not None and out == 'false':
            ex.oblige(s2, 'gives up only after its deadline was reported as passed', self.dl_tags(m), self.evidence_goal(ex, st, m))
        self.prove_inv(ex, st, F1, G2, self.rep_tags(m, out), 'on %s' % out)
        self.wake_check(ex, st, F0, G0, F1, G2, 'on %s' % out)
    def feas_end(self, ex, st): return ex.check(st, [], 5000) != z3.unsat
    def end_abort(self, ex, st, m, out):
        ex.oblige(st, 'does not abort', self.throw_tags(m), False)
    def end_nosection(self, ex, st, m, out, val):
        ex.oblige(st, 'operation takes the internal lock', {self.prim}, False)

    def setup_state(self, ex, m):
        st = St(); self.m = m
        st.assume(self.SELF != 0)
        st.reg('T', self.SELF)
        st.g.update(held=False, pending=None, nows=[], evid=False, nwaits=0)
        self.seen_access = set()
        self.init_ghost(ex, st, m)
        st.mem['obj'] = {}
        self.havoc(ex, st)
        return st
    def run_method(self, ex, m):
        st = self.setup_state(ex, m)
        f = self.mod.funcs[m.fn]
        args = self.make_args(ex, st, m, f)
        ex.run(m.name, m.fn, args, st, self.on_end)
    def make_args(self, ex, st, m, f):
        args = [Ptr(self.obj, 0)]
        for i, (ty, n, info) in enumerate(f.params[1:]):
            v = ex.fresh_of(st, ty, 'arg%d' % i)
            args.append(v)
            if i == 0: self.argd = v
            self.on_arg(ex, st, m, i, v)
        return args
    def on_arg(self, ex, st, m, i, v): pass
    # ---- constructor: establishes the invariant ----
    def run_ctor(self, ex, m, goalfn=None):
        st = St(); self.m = m; self.seen_access = set()
        st.assume(self.SELF != 0); st.reg('T', self.SELF)
        st.g.update(held=False, pending=None, nows=[], evid=False, exclusive=True)
        st.mem['obj'] = {}
        f = self.mod.funcs[m.fn]
        args = self.make_args(ex, st, m, f)
        def on_end(ex, st, kind, val):
            ex.outcomes[(m.name, kind)] = ex.outcomes.get((m.name, kind), 0) + 1
            if kind != 'ret':
                ex.oblige(st, 'constructor succeeds', self.rep_tags(m, 'ctor'), False); return
            for o, s, t in self.shared_cells():
                if o not in st.mem['obj']: st.mem['obj'][o] = (s, ex.fresh_of(st, t, 'ctor_uninit'))
            self.aux_prove(ex, st, BV(0, 64), 'established by the constructor')
            F = self.F(st); G = self.ctor_ghost(ex, st, m)
            self.prove_inv(ex, st, F, G, self.rep_tags(m, 'ctor'), 'established by the constructor')
        ex.run(m.name, m.fn, args, st, on_end)
    def ctor_ghost(self, ex, st, m): raise NotImplementedError
