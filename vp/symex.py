"""Symbolic executor over LLVM IR used as verification-condition generator.

Paths are enumerated per function; loops are cut at events (wait, atomic
access, external call) or at loop headers with invariants, never unrolled to a
bound silently: an unrolled loop marks the method 'bounded'.
"""
import re, z3
import irparse as ir

class Unsupported(Exception): pass
class Widen(Exception):
    def __init__(self, key, places): self.key, self.places = key, places
class DropCand(Exception): pass
class Retry(Exception):
    """places were widened at an event: the event is executed again from the state before it, so that its operands are read from the widened places"""
    def __init__(self, key, vals, pc, houdini): self.key, self.vals, self.pc, self.houdini = key, vals, pc, houdini

_cnt = [0]
def fresh_name(p='v'):
    _cnt[0] += 1
    return '%s!%d' % (p, _cnt[0])

Loc = z3.DeclareSort('Loc')
NULL = z3.Const('null', Loc)

def mask(n): return (1 << n) - 1

# ---------------- values -----------------
class Region:
    _n = 0
    def __init__(self, key, kind, size=None, name=None, ty=None):
        self.key = key; self.kind = kind; self.size = size; self.name = name or key; self.ty = ty
        self.node = False
        self._loc = None
    @property
    def loc(self):
        if self._loc is None: self._loc = z3.Const('@' + str(self.key), Loc)
        return self._loc
    def __repr__(self): return '<%s>' % (self.name,)

class Ptr:
    __slots__ = ('r', 'off')
    def __init__(self, r, off=0): self.r = r; self.off = off
    def __eq__(self, o): return isinstance(o, Ptr) and self.r is o.r and self.off == o.off
    def __hash__(self): return hash((id(self.r), self.off))
    def __repr__(self): return 'Ptr(%s,%s)' % (self.r, self.off)

class SymPtr:
    __slots__ = ('t', 'off')
    def __init__(self, t, off=0): self.t = t; self.off = off
    def __eq__(self, o): return isinstance(o, SymPtr) and self.off == o.off and z3.eq(self.t, o.t)
    def __hash__(self): return hash((self.t.hash(), self.off))
    def __repr__(self): return 'SymPtr(%s,%s)' % (self.t, self.off)

class FnPtr:
    def __init__(self, n): self.name = n
    def __eq__(self, o): return isinstance(o, FnPtr) and self.name == o.name
    def __hash__(self): return hash(self.name)
    def __repr__(self): return 'FnPtr(%s)' % self.name

class Opaque:
    """value of a kind the theory does not interpret (identity only)"""
    def __init__(self, tag): self.tag = tag
    def __repr__(self): return 'Opaque(%s)' % (self.tag,)
    def __eq__(self, o): return isinstance(o, Opaque) and self.tag == o.tag
    def __hash__(self): return hash(self.tag)

NULLP = Ptr(None, 0)

def is_sym(v): return isinstance(v, z3.ExprRef)
def is_ptr(v): return isinstance(v, (Ptr, SymPtr, FnPtr))

def val_eq(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(val_eq(x, y) for x, y in zip(a, b))
    if is_sym(a) and is_sym(b): return z3.eq(a, b) or z3.eq(z3.simplify(a), z3.simplify(b))
    if is_sym(a) or is_sym(b): 
        if is_sym(a) and isinstance(b, (int, bool)) or is_sym(b) and isinstance(a, (int, bool)):
            s, c = (a, b) if is_sym(a) else (b, a)
            return conc(s) == c and conc(s) is not None
        return False
    return type(a) == type(b) and a == b

def conc(v):
    """python constant of a z3 term if it simplifies to one"""
    v = z3.simplify(v)
    if z3.is_bv_value(v): return v.as_long()
    if z3.is_int_value(v): return v.as_long()
    if z3.is_true(v): return True
    if z3.is_false(v): return False
    return None

class Frame:
    __slots__ = ('f', 'block', 'idx', 'prev', 'regs', 'ins', 'allocas')
    def __init__(self, f): self.f = f; self.block = f.order[0]; self.idx = 0; self.prev = None; self.regs = {}; self.ins = None; self.allocas = 0
    def clone(self):
        g = Frame.__new__(Frame); g.f, g.block, g.idx, g.prev, g.ins, g.allocas = self.f, self.block, self.idx, self.prev, self.ins, self.allocas
        g.regs = dict(self.regs); return g

PH = {}
def templ(fn, sort, n):
    """a universally quantified clause is built once over place holders; its instances are substitutions"""
    ps = PH.get(sort)
    if ps is None: return fn
    body = fn(*ps[:n])
    if body is None: return fn
    if not is_sym(body): return lambda *a: body
    if n == 1: return lambda t: z3.substitute(body, (ps[0], t))
    return lambda t, u: z3.substitute(body, (ps[0], t), (ps[1], u))
class St:
    """path state"""
    def __init__(self):
        self.frames = []; self.mem = {}; self.pc = []; self.inst = []; self.univ = []; self.pool = {}
        self.cuts = {}; self.cutterms = {}; self.hdr = {}; self.events = 0; self.trace = []
        self.ctr = {}      # ghost counters (name -> value)
        self.g = {}        # theory-specific path data (values must be immutable or copied by clone hook)
        self.exc = None    # exception being thrown
        self.exstack = []  # caught exceptions
        self.unw = None
        self.allocn = {}
        self.widened = set(); self.evretry = None; self.nmem = 0; self.loopfp = {}
    def clone(self):
        s = St.__new__(St)
        s.frames = [f.clone() for f in self.frames]; s.mem = {k: dict(v) for k, v in self.mem.items()}
        s.pc = list(self.pc); s.inst = list(self.inst); s.univ = list(self.univ); s.pool = {k: list(v) for k, v in self.pool.items()}
        s.cuts = dict(self.cuts); s.cutterms = dict(self.cutterms); s.hdr = dict(self.hdr); s.events = self.events; s.trace = list(self.trace)
        s.ctr = dict(self.ctr)
        s.g = {k: (v.clone() if hasattr(v, 'clone') else (list(v) if isinstance(v, list) else (dict(v) if isinstance(v, dict) else v))) for k, v in self.g.items()}
        s.exc = self.exc; s.exstack = list(self.exstack); s.unw = self.unw; s.allocn = dict(self.allocn); s.widened = set(self.widened); s.evretry = self.evretry; s.nmem = self.nmem; s.loopfp = dict(self.loopfp)
        return s
    # ---- universals / pools ----
    def add_univ(self, sort, fn, name=''):
        """fn(t)->Bool for every t of the pool of `sort` (now and later)"""
        fn = templ(fn, sort, 1)
        self.univ.append((sort, fn, name))
        for t in self.pool.get(sort, []):
            r = fn(t)
            if r is not None: self.assume_i(r)
    def add_univ2(self, sort, fn, name=''):
        fn = templ(fn, sort, 2)
        self.univ.append((sort + '2', fn, name))
        ts = self.pool.get(sort, [])
        for a in ts:
            for b in ts:
                r = fn(a, b)
                if r is not None: self.assume_i(r)
    def reg(self, sort, t):
        ts = self.pool.setdefault(sort, [])
        if any(z3.eq(t, x) for x in ts): return
        ts.append(t)
        for s, fn, nm in self.univ:
            if s == sort:
                r = fn(t)
                if r is not None: self.assume_i(r)
            elif s == sort + '2':
                for u in ts:
                    r = fn(t, u)
                    if r is not None: self.assume_i(r)
                    if not (u is t):
                        r = fn(u, t)
                        if r is not None: self.assume_i(r)
    def assume_i(self, f):
        if f is True or z3.is_true(f): return
        self.inst.append(z3.BoolVal(False) if f is False else f)
    def assume(self, f):
        if f is True: return
        if f is False: f = z3.BoolVal(False)
        if z3.is_true(f): return
        self.pc.append(f)

class Exc:
    def __init__(self, region, tinfo, code=None, cat=None, what=None): self.region, self.tinfo, self.code, self.cat, self.what = region, tinfo, code, cat, what
    def __repr__(self): return 'Exc(%s,%s)' % (self.tinfo, self.code)

class Ob:
    """one proof obligation"""
    __slots__ = ('name','tags','method','status','time','solver','detail','path','smt')
    def __init__(self, name, tags, method): self.name, self.tags, self.method = name, tags, method; self.status = None; self.time = 0; self.solver = ''; self.detail = ''; self.path = ''; self.smt = None

def b2z(b):
    if isinstance(b, bool): return z3.BoolVal(b)
    if isinstance(b, int): return z3.BoolVal(bool(b))
    return b

class Executor:
    MAXPATHS = 4000
    def __init__(self, mod, spec, intmode=False, timeout=10000):
        self.m = mod; self.spec = spec; self.intmode = intmode; self.timeout = timeout
        self.obs = []; self.method = ''
        self.widen = {}; self.dropped = set(); self.widen_at = set()
        self.bounded = set()       # methods where something was only bounded
        self.fn_inlined = set(); self.fn_contract = {}; self.reads = set()     # offsets of the object that were read
        self.stats = dict(paths=0, queries=0, qtime=0.0, subsumed=0)
        self.globals = {}
        self.unsup = []
        self.outcomes = {}

    # ---------------- arithmetic -----------------
    def const(self, n, w):
        if w == 1: return bool(n & 1)
        if self.intmode:
            n &= mask(w)
            return n - (1 << w) if n >> (w-1) else n
        return n & mask(w)
    def z(self, v, w):
        """z3 term of an integer value"""
        if is_sym(v): return v
        if w == 1: return z3.BoolVal(bool(v))
        if self.intmode: return z3.IntVal(v)
        return z3.BitVecVal(v, w)
    def freshint(self, w, p='v'):
        if w == 1: return z3.Bool(fresh_name(p))
        if self.intmode:
            return z3.Int(fresh_name(p))
        return z3.BitVec(fresh_name(p), w)
    def fresh_of(self, st, ty, p='v'):
        k = ty[0]
        if k == 'i':
            x = self.freshint(ty[1], p)
            if self.intmode and ty[1] > 1: st.assume(z3.And(x >= -(1 << (ty[1]-1)), x < (1 << (ty[1]-1))))
            return x
        if k == 'ptr': return SymPtr(z3.Const(fresh_name(p), Loc), 0)
        if k == 'struct': return tuple(self.fresh_of(st, f, p) for f in ty[1])
        if k == 'named': return self.fresh_of(st, self.m.types[ty[1]], p)
        if k == 'arr': return tuple(self.fresh_of(st, ty[2], p) for _ in range(ty[1]))
        if k == 'fp': return Opaque(('fp', fresh_name('fp')))
        raise Unsupported('fresh %r' % (ty,))

    def wrap(self, x, w):
        """int mode: wrap python/z3 int to signed w bits"""
        if not is_sym(x):
            x &= mask(w); return x - (1 << w) if x >> (w-1) else x
        M = 1 << w; H = 1 << (w-1)
        return ((x + H) % M) - H

    def binop(self, st, op, w, x, y, flags):
        if isinstance(x, Opaque) or isinstance(y, Opaque):
            return self.spec.opaque_bin(self, st, op, w, x, y)
        if w == 1:
            x, y = (bool(x) if isinstance(x, int) else x), (bool(y) if isinstance(y, int) else y)
            if op == 'and':
                if x is False or y is False: return False
                if x is True: return y
                if y is True: return x
                return z3.And(x, y)
            if op == 'or':
                if x is True or y is True: return True
                if x is False: return y
                if y is False: return x
                return z3.Or(x, y)
            if op in ('xor', 'add', 'sub'):
                if not is_sym(x) and not is_sym(y): return x != y
                if x is False: return y
                if y is False: return x
                if x is True: return z3.Not(y)
                if y is True: return z3.Not(x)
                return z3.Xor(x, y)
            raise Unsupported('i1 ' + op)
        if self.intmode: return self.binop_int(st, op, w, x, y, flags)
        if not is_sym(x) and not is_sym(y):
            M = mask(w); sx = x - (1 << w) if x >> (w-1) else x; sy = y - (1 << w) if y >> (w-1) else y
            if op == 'add': return (x + y) & M
            if op == 'sub': return (x - y) & M
            if op == 'mul': return (x * y) & M
            if op == 'and': return x & y
            if op == 'or': return x | y
            if op == 'xor': return x ^ y
            if op == 'shl': return (x << y) & M if y < w else 0
            if op == 'lshr': return x >> y if y < w else 0
            if op == 'ashr': return (sx >> min(y, w-1)) & M
            if op == 'udiv' and y: return x // y
            if op == 'urem' and y: return x % y
            if op == 'sdiv' and y:
                q = abs(sx)//abs(sy); q = -q if (sx < 0) != (sy < 0) else q
                return q & M
            if op == 'srem' and y:
                r = abs(sx) % abs(sy); r = -r if sx < 0 else r
                return r & M
        X, Y = self.z(x, w), self.z(y, w)
        # light peepholes keep terms syntactically comparable
        if op == 'add':
            if not is_sym(y) and y == 0: return x
            if not is_sym(x) and x == 0: return y
            return z3.simplify(X + Y)
        if op == 'sub': return z3.simplify(X - Y)
        if op == 'mul': return z3.simplify(X * Y)
        if op == 'and': return z3.simplify(X & Y)
        if op == 'or': return z3.simplify(X | Y)
        if op == 'xor': return z3.simplify(X ^ Y)
        if op == 'shl': return z3.simplify(X << Y)
        if op == 'lshr': return z3.simplify(z3.LShR(X, Y))
        if op == 'ashr': return z3.simplify(X >> Y)
        if op == 'udiv': return z3.UDiv(X, Y)
        if op == 'urem': return z3.URem(X, Y)
        if op == 'sdiv': return X / Y
        if op == 'srem': return z3.SRem(X, Y)
        raise Unsupported('bin ' + op)

    def binop_int(self, st, op, w, x, y, flags):
        if not is_sym(x) and not is_sym(y):
            if op == 'add': return self.wrap(x + y, w)
            if op == 'sub': return self.wrap(x - y, w)
            if op == 'mul': return self.wrap(x * y, w)
            ux, uy = x & mask(w), y & mask(w)
            if op == 'and': return self.wrap(ux & uy, w)
            if op == 'or': return self.wrap(ux | uy, w)
            if op == 'xor': return self.wrap(ux ^ uy, w)
            if op == 'shl': return self.wrap(ux << uy, w)
            if op == 'lshr': return self.wrap(ux >> uy, w)
            if op == 'ashr': return x >> uy
            if op in ('sdiv', 'srem') and y:
                q = abs(x)//abs(y); q = -q if (x < 0) != (y < 0) else q
                return q if op == 'sdiv' else x - q*y
            if op == 'udiv' and uy: return self.wrap(ux // uy, w)
            if op == 'urem' and uy: return self.wrap(ux % uy, w)
        if op in ('add', 'sub', 'mul'):
            if op == 'mul' and is_sym(x) and is_sym(y): raise Unsupported('nonlinear mul')
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            r = z3.simplify(r)
            if 'nsw' in flags:
                H = 1 << (w-1)
                self.oblige(st, 'no signed overflow (%s)' % op, self.spec.overflow_tags(), z3.And(r >= -H, r < H))
                st.assume(z3.And(r >= -H, r < H))
                return r
            return self.wrap(r, w)
        if op in ('sdiv', 'srem') and not is_sym(y) and y > 0:
            key = (x.get_id(), y)
            tab = st.g.setdefault('$div', {})
            if key in tab: q, r, _ = tab[key]
            else:
                q = z3.Int(fresh_name('q')); r = z3.Int(fresh_name('r'))
                st.assume(z3.And(x == q*y + r, z3.Implies(x >= 0, z3.And(r >= 0, r < y)), z3.Implies(x < 0, z3.And(r <= 0, r > -y))))
                tab[key] = (q, r, x)
            return q if op == 'sdiv' else r
        if op == 'xor' and not is_sym(y) and y == -1: return z3.simplify(-x - 1)
        if op == 'and' and not is_sym(y) and y >= 0 and (y & (y+1)) == 0: return x % (y+1)
        raise Unsupported('int-mode %s' % op)

    def icmp(self, st, pred, ty, x, y):
        if ty[0] == 'ptr':
            r = self.ptr_eq(st, x, y)
            if pred == 'eq': return r
            if pred == 'ne': return (not r) if isinstance(r, bool) else z3.Not(r)
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r:
                a, b = x.off, y.off
                return {'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[pred]
            return self.spec.ptr_order(self, st, pred, x, y)
        if ty[0] != 'i': raise Unsupported('icmp %r' % (ty,))
        w = ty[1]
        if isinstance(x, Opaque) or isinstance(y, Opaque): return self.spec.opaque_cmp(self, st, pred, x, y)
        if w == 1:
            x, y = (bool(x) if isinstance(x, int) else x), (bool(y) if isinstance(y, int) else y)
            if pred in ('eq', 'ne'):
                if not is_sym(x) and not is_sym(y): return (x == y) == (pred == 'eq')
                X, Y = b2z(x), b2z(y); r = z3.simplify(X == Y)
                r = r if pred == 'eq' else z3.simplify(z3.Not(r))
                return self.simpb(r)
            raise Unsupported('icmp i1 ' + pred)
        if not is_sym(x) and not is_sym(y):
            if self.intmode: sx, sy, ux, uy = x, y, x & mask(w), y & mask(w)
            else:
                ux, uy = x, y; sx = x - (1 << w) if x >> (w-1) else x; sy = y - (1 << w) if y >> (w-1) else y
            return {'eq': ux == uy, 'ne': ux != uy, 'ult': ux < uy, 'ule': ux <= uy, 'ugt': ux > uy, 'uge': ux >= uy, 'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[pred]
        X, Y = self.z(x, w), self.z(y, w)
        if self.intmode:
            if pred[0] == 'u':
                u = lambda v: z3.If(v < 0, v + (1 << w), v)
                X, Y = u(X), u(Y); pred = 's' + pred[1:]
            r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'slt': lambda: X < Y, 'sle': lambda: X <= Y, 'sgt': lambda: X > Y, 'sge': lambda: X >= Y}[pred]()
        else:
            r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y),
                 'slt': lambda: X < Y, 'sle': lambda: X <= Y, 'sgt': lambda: X > Y, 'sge': lambda: X >= Y}[pred]()
        return self.simpb(r)

    def simpb(self, r):
        r = z3.simplify(r)
        if z3.is_true(r): return True
        if z3.is_false(r): return False
        return r

    # ---------------- pointers -----------------
    def ptr_term(self, st, p):
        """Loc term of a pointer with zero residual offset after normalisation"""
        if isinstance(p, SymPtr):
            if p.off == 0: return p.t
            raise Unsupported('term of interior symbolic pointer')
        if isinstance(p, Ptr):
            if p.r is None: return NULL
            n = self.spec.norm_ptr(self, st, p)
            if n is not None: return n[0] if n[1] == 0 else self.interior(n[0], n[1])
            if p.off == 0: return p.r.loc
            return self.interior(p.r.loc, p.off)
        raise Unsupported('ptr_term %r' % (p,))
    def interior(self, t, off):
        return z3.Const('%s+%d' % (t, off), Loc)
    def ptr_eq(self, st, x, y):
        if isinstance(x, Opaque) or isinstance(y, Opaque): return self.spec.opaque_cmp(self, st, 'eq', x, y)
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            return x == y
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.r is y.r: return x.off == y.off
            return False
        tx, ty_ = self.ptr_term(st, x), self.ptr_term(st, y)
        if z3.eq(tx, ty_): return True
        return self.simpb(tx == ty_)

    def gep(self, st, p, off):
        if off == 0: return p
        if isinstance(p, Ptr): return Ptr(p.r, p.off + off)
        if isinstance(p, SymPtr): return SymPtr(p.t, p.off + off)
        raise Unsupported('gep on %r' % (p,))

    # ---------------- memory -----------------
    def load(self, st, p, ty, atomic=None):
        size = self.m.sizeof(ty)
        rty = self.m.resolve(ty)
        if rty[0] in ('struct', 'arr'):
            if rty[0] == 'struct': return tuple(self.load(st, self.gep(st, p, self.m.field_off(rty, i)[0]), f) for i, f in enumerate(rty[1]))
            es = self.m.sizeof(rty[2]); return tuple(self.load(st, self.gep(st, p, i*es), rty[2]) for i in range(rty[1]))
        if isinstance(p, Ptr) and p.r is not None and p.r.key == 'obj' and isinstance(p.off, int): self.reads.add(p.off)
        r = self.spec.mem_load(self, st, p, size, rty)
        if r is not None: return self.coerce(st, r, rty)
        if isinstance(p, Ptr) and p.r is not None:
            return self.raw_load(st, p.r, p.off, size, rty)
        if isinstance(p, Ptr):
            self.oblige(st, 'null pointer read', self.spec.memsafe_tags(), z3.BoolVal(False)); raise PathEnd('null deref')
        raise Unsupported('load via %r' % (p,))
    def coerce(self, st, v, ty):
        if ty[0] == 'i' and ty[1] == 1 and is_sym(v) and not z3.is_bool(v): return self.simpb(z3.Extract(0, 0, v) == 1) if not self.intmode else self.simpb(v % 2 == 1)
        return v
    def raw_load(self, st, r, off, size, ty):
        cells = st.mem.get(r.key)
        if cells is None:
            cells = st.mem[r.key] = self.init_region(st, r)
        c = cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if ty[0] == 'ptr' and not is_ptr(v) and not isinstance(v, Opaque):
                if not is_sym(v) and v == 0: return NULLP
                if is_sym(v) and v.sort() == Loc: return SymPtr(v, 0)
                raise Unsupported('ptr load of int cell')
            if ty[0] == 'i' and is_ptr(v):
                if v == NULLP: return 0
                return self.spec.ptr2int(self, st, v, ty[1])
            return v
        # containing integer cell
        for o, (s, v) in cells.items():
            if o <= off and off + size <= o + s and ty[0] == 'i':
                if isinstance(v, (int, bool)) :
                    return self.const((int(v) & mask(8*s)) >> (8*(off-o)), ty[1])
                if is_sym(v) and not self.intmode and z3.is_bv(v):
                    return z3.simplify(z3.Extract(8*(off-o)+8*size-1, 8*(off-o), v))
        # compose of smaller constant cells
        if ty[0] in ('i', 'ptr'):
            acc = 0; o = off; ok = True
            while o < off + size:
                c = cells.get(o)
                if c is None or not isinstance(c[1], (int, bool)): ok = False; break
                acc |= (int(c[1]) & mask(8*c[0])) << (8*(o-off)); o += c[0]
            if ok and o == off + size:
                if ty[0] == 'ptr':
                    if acc == 0: return NULLP
                else: return self.const(acc, ty[1])
        if any(o < off+size and off < o+s for o, (s, v) in cells.items()):
            raise Unsupported('overlapping load at %s+%d size %d: %r' % (r, off, size, {k: v for k, v in cells.items() if k < off+size and off < k+v[0]}))
        v = self.fresh_of(st, ty, 'uninit_%s_%d' % (r.name, off))
        cells[off] = (size, v)
        return v
    def init_region(self, st, r):
        if r.kind == 'global':
            gi = ir.parse_global(self.m, r.ty) if r.ty in self.m.globals else None
            cells = {}
            if gi and gi[1] is not None: self.init_const(st, cells, 0, gi[0], gi[1])
            return cells
        return {}
    def init_const(self, st, cells, off, ty, v):
        ty = self.m.resolve(ty)
        if v[0] == 'zero':
            for o, s, t in self.m.flatten(ty, off): cells[o] = (s, NULLP if t[0] == 'ptr' else (False if t == ('i', 1) else 0))
        elif v[0] == 'agg':
            for i, (ety, ev) in enumerate(v[1]):
                o = self.m.field_off(ty, i)[0] if ty[0] == 'struct' else i*self.m.sizeof(ety)
                self.init_const(st, cells, off+o, ety, ev)
        elif v[0] == 'cstr': pass
        elif v[0] == 'undef': pass
        else: cells[off] = (self.m.sizeof(ty), self.value(st, None, ty, v))
    def store(self, st, p, ty, v, atomic=None):
        rty = self.m.resolve(ty)
        if rty[0] == 'struct':
            for i, f in enumerate(rty[1]): self.store(st, self.gep(st, p, self.m.field_off(rty, i)[0]), f, v[i])
            return
        if rty[0] == 'arr':
            es = self.m.sizeof(rty[2])
            for i in range(rty[1]): self.store(st, self.gep(st, p, i*es), rty[2], v[i])
            return
        size = self.m.sizeof(rty)
        if rty == ('i', 1):
            v = self.castv(st, 'zext', ('i', 1), v, ('i', 8))
        if self.spec.mem_store(self, st, p, size, rty, v): return
        if isinstance(p, Ptr) and p.r is not None:
            self.raw_store(st, p.r, p.off, size, v); return
        if isinstance(p, Ptr):
            self.oblige(st, 'null pointer write', self.spec.memsafe_tags(), z3.BoolVal(False)); raise PathEnd('null deref')
        raise Unsupported('store via %r' % (p,))
    def raw_store(self, st, r, off, size, v):
        cells = st.mem.get(r.key)
        if cells is None: cells = st.mem[r.key] = self.init_region(st, r)
        for o in [o for o, (s, _) in cells.items() if o < off+size and off < o+s]:
            s, ov = cells[o]
            if o == off and s == size: continue
            # split partially overwritten constant cells
            del cells[o]
            if isinstance(ov, (int, bool)):
                for b in range(o, o+s):
                    if b < off or b >= off+size: cells[b] = (1, (int(ov) >> (8*(b-o))) & 255)
        cells[off] = (size, v)
    def memcpy(self, st, d, s, n):
        if n == 0: return
        if self.spec.memcpy(self, st, d, s, n): return
        if not (isinstance(d, Ptr) and isinstance(s, Ptr) and d.r and s.r): raise Unsupported('memcpy')
        sc = st.mem.get(s.r.key)
        if sc is None: sc = st.mem[s.r.key] = self.init_region(st, s.r)
        src = [(o, sz, v) for o, (sz, v) in sc.items() if s.off <= o and o+sz <= s.off+n]
        dc = st.mem.get(d.r.key)
        if dc is None: dc = st.mem[d.r.key] = self.init_region(st, d.r)
        for o in [o for o, (sz, _) in dc.items() if d.off <= o < d.off+n]: del dc[o]
        for o, sz, v in src: dc[d.off + o - s.off] = (sz, v)
    def memset(self, st, d, b, n):
        if n == 0: return
        if not isinstance(d, Ptr) or d.r is None: raise Unsupported('memset')
        if is_sym(b): raise Unsupported('memset sym')
        if self.spec.memset(self, st, d, b, n): return
        dc = st.mem.get(d.r.key)
        if dc is None: dc = st.mem[d.r.key] = self.init_region(st, d.r)
        for o in [o for o, (sz, _) in dc.items() if o < d.off+n and d.off < o+sz]: del dc[o]
        o = d.off; end = d.off + n
        while o < end:
            sz = 8 if o % 8 == 0 and end - o >= 8 else 1
            val = int.from_bytes(bytes([b & 255])*sz, 'little')
            dc[o] = (sz, self.const(val, 8*sz)); o += sz

    # ---------------- operand evaluation -----------------
    def global_region(self, name):
        if name not in self.globals:
            self.globals[name] = Region('g:' + name, 'global', None, name, name)
        return self.globals[name]
    def value(self, st, fr, ty, v):
        k = v[0]
        if k == 'l':
            return fr.regs[v[1]]
        if k == 'int': return self.const(v[1], ty[1])
        if k == 'null': return NULLP
        if k == 'g':
            n = v[1]
            if n in self.m.funcs or n in self.m.decls: return FnPtr(n)
            return Ptr(self.global_region(n), 0)
        if k == 'undef':
            return self.fresh_of(st, self.m.resolve(ty), 'undef')
        if k == 'zero':
            rty = self.m.resolve(ty)
            if rty[0] == 'struct': return tuple(self.value(st, fr, f, v) for f in rty[1])
            if rty[0] == 'arr': return tuple(self.value(st, fr, rty[2], v) for _ in range(rty[1]))
            return NULLP if rty[0] == 'ptr' else self.const(0, rty[1])
        if k == 'agg': return tuple(self.value(st, fr, t, x) for t, x in v[1])
        if k == 'fp': return Opaque(('fp', v[1]))
        if k == 'ce':
            if v[1] == 'gep':
                base = self.value(st, fr, v[3][0][0], v[3][0][1])
                return self.gep(st, base, self.gep_off(st, fr, v[2], v[3][1:]))
            if v[1] == 'ptrtoint':
                return self.spec.ptr2int(self, st, self.value(st, fr, v[2], v[3]), v[4][1])
            if v[1] == 'inttoptr':
                x = self.value(st, fr, v[2], v[3])
                return NULLP if x == 0 else Opaque(('inttoptr', x))
            if v[1] == 'bitcast': return self.value(st, fr, v[2], v[3])
            if v[1] == 'bin': return self.binop(st, v[2], v[3][1], self.value(st, fr, v[3], v[4]), self.value(st, fr, v[3], v[5]), set())
        raise Unsupported('value %r' % (v,))
    def gep_off(self, st, fr, bt, idx):
        off = 0; ty = bt
        for i, (ity, iv) in enumerate(idx):
            n = self.value(st, fr, ity, iv)
            if is_sym(n):
                c = conc(n)
                if c is None:
                    raise SymIndex()
                n = c
            if not self.intmode and ity[1] <= 64 and n >> (ity[1]-1): n -= 1 << ity[1]
            if i == 0: off += n * self.m.sizeof(ty)
            else:
                r = self.m.resolve(ty)
                if r[0] == 'struct':
                    o, ty = self.m.field_off(r, n); off += o
                elif r[0] in ('arr', 'vec'):
                    ty = r[2]; off += n*self.m.sizeof(ty)
                else: raise Unsupported('gep into scalar')
        return off

    def castv(self, st, op, fty, x, tty):
        if op == 'bitcast' or op == 'addrspacecast': return x
        if op == 'ptrtoint': return self.spec.ptr2int(self, st, x, tty[1])
        if op == 'inttoptr':
            if isinstance(x, Opaque) and x.tag[0] == 'p2i': return x.tag[1]
            if not is_sym(x) and x == 0: return NULLP
            return self.spec.int2ptr(self, st, x)
        if op in ('fptosi','sitofp','uitofp','fptoui','fpext','fptrunc') or isinstance(x, Opaque):
            if isinstance(x, Opaque) and tty[0] == 'i': 
                r = self.spec.opaque_cast(self, st, op, x, tty)
                if r is not None: return r
            return Opaque((op, x, tty))
        fw, tw = fty[1], tty[1]
        if op == 'zext':
            if fw == 1:
                if not is_sym(x): return int(bool(x))
                return z3.If(x, self.z(1, tw), self.z(0, tw))
            if not is_sym(x): return self.const(x & mask(fw), tw)
            if self.intmode: return z3.If(x < 0, x + (1 << fw), x)
            return z3.simplify(z3.ZeroExt(tw-fw, x))
        if op == 'sext':
            if fw == 1:
                if not is_sym(x): return self.const(-1 if x else 0, tw)
                return z3.If(x, self.z(self.const(-1, tw), tw), self.z(0, tw))
            if not is_sym(x):
                if self.intmode: return x
                return self.const(x - (1 << fw) if x >> (fw-1) else x, tw)
            if self.intmode: return x
            return z3.simplify(z3.SignExt(tw-fw, x))
        if op == 'trunc':
            if tw == 1:
                if not is_sym(x): return bool(x & 1)
                if z3.is_bool(x): return x
                if self.intmode: return self.simpb(x % 2 == 1)
                return self.simpb(z3.Extract(0, 0, x) == 1)
            if not is_sym(x): return self.const(x, tw)
            if self.intmode: return self.wrap(x, tw)
            return z3.simplify(z3.Extract(tw-1, 0, x))
        raise Unsupported('cast ' + op)

    # ---------------- solver -----------------
    def check(self, st, extra=(), timeout=None):
        import time
        t0 = time.time()
        s = z3.Solver(); s.set('timeout', timeout or self.timeout)
        s.add(st.pc); s.add(st.inst)
        for f in extra: s.add(f)
        r = s.check()
        self.stats['queries'] += 1; self.stats['qtime'] += time.time() - t0
        self.last_solver = s
        return r
    def feasible(self, st, c):
        return self.check(st, [c], 5000) != z3.unsat
    def prove(self, st, goal, extra=()):
        """True / False(refuted) / None(unknown)"""
        r = self.check(st, list(extra) + [z3.Not(b2z(goal))])
        if r == z3.unsat: return True
        if r == z3.sat: return False
        return None
    want = None     # property whose obligations are to be discharged (None: all)
    def wanted(self, tags): return self.want is None or '*' in tags or self.want in tags or '~' + self.want in tags
    def oblige(self, st, name, tags, goal, extra=(), need=True):
        import time
        if st.evretry is not None or not self.wanted(tags): return True
        goal = b2z(goal)
        ob = Ob(name, frozenset(tags), self.method)
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g): ob.status = 'proved'; ob.solver = 'simplifier'
        else:
            r = self.prove(st, goal, extra)
            ob.status = {True: 'proved', False: 'refuted', None: 'unknown'}[r]
            ob.solver = 'z3'
            if self.spec.collect_smt:
                s = z3.Solver()
                s.add(st.pc); s.add(st.inst)
                for f in extra: s.add(f)
                s.add(z3.Not(goal)); ob.smt = s.to_smt2()
            if r is False:
                try: ob.detail = self.explain(st, self.last_solver.model())
                except Exception as e: ob.detail = 'model: %r' % (e,)
        ob.time = time.time() - t0
        if ob.status != 'proved': ob.path = '; '.join(st.trace[-40:])
        self.obs.append(ob)
        return ob.status == 'proved'
    def oblige_all(self, st, goals):
        """several obligations about one state: one query for their conjunction, single queries only where it is not valid"""
        import time
        if st.evretry is not None: return True
        todo = []
        for name, tags, g in goals:
            if not self.wanted(tags): continue
            g = b2z(g)
            if z3.is_true(z3.simplify(g)):
                ob = Ob(name, frozenset(tags), self.method); ob.status = 'proved'; ob.solver = 'simplifier'; self.obs.append(ob)
            else: todo.append((name, tags, g))
        if not todo: return True
        if len(todo) == 1 or self.spec.collect_smt: return all([self.oblige(st, n, t, g) for n, t, g in todo])
        t0 = time.time()
        r = self.check(st, [z3.Not(z3.And(*[g for _, _, g in todo]))], 4*self.timeout)
        dt = (time.time() - t0)/len(todo)
        if r == z3.unsat:
            for name, tags, g in todo:
                ob = Ob(name, frozenset(tags), self.method); ob.status = 'proved'; ob.solver = 'z3'; ob.time = dt; self.obs.append(ob)
            return True
        return all([self.oblige(st, n, t, g) for n, t, g in todo])
    def explain(self, st, model):
        out = []
        for d in model.decls():
            if d.arity() == 0 and not isinstance(model[d], z3.FuncInterp):
                n = d.name()
                if '!' in n or n in ('self',):
                    out.append('%s=%s' % (n, model[d]))
        return ', '.join(sorted(out)[:60])

    # ---------------- cuts -----------------
    def local_state(self, st, after_idx=True, at_header=None):
        """all live locals: dict place -> value"""
        d = {}
        for fi, fr in enumerate(st.frames):
            top = fi == len(st.frames) - 1
            if top and at_header is not None:
                ir.liveness(fr.f); live = set(fr.f.livein[at_header])
                for ins in fr.f.blocks[at_header]:
                    if ins.op == 'phi': live.add(ins.dst)
                    else: break
            else:
                ins = fr.f.blocks[fr.block][fr.idx]
                live = set(ir.live_after(fr.f, fr.block, fr.idx))
                if ins.dst is not None: live.discard(ins.dst)
                if top: live.update(ir.uses(ins))      # the operands of the event itself
            for r in live:
                if r in fr.regs: d[('reg', fi, r)] = fr.regs[r]
        for k, cells in st.mem.items():
            if not self.spec.private_region(self, st, k) and not (at_header is not None and k == 'obj'): continue
            for o, (s, v) in cells.items(): d[('mem', k, o, s)] = v
        for k, v in st.ctr.items(): d[('ctr', k)] = v
        return d
    def set_place(self, st, pl, v):
        if pl[0] == 'reg': st.frames[pl[1]].regs[pl[2]] = v
        elif pl[0] == 'mem': st.mem[pl[1]][pl[2]] = (pl[3], v)
        elif pl[0] == 'ctr': st.ctr[pl[1]] = v
    def fresh_like(self, st, v, p):
        if isinstance(v, bool) or (is_sym(v) and z3.is_bool(v)): return z3.Bool(fresh_name(p))
        if isinstance(v, int): return None
        if is_sym(v): return z3.Const(fresh_name(p), v.sort())
        if isinstance(v, Ptr) or isinstance(v, SymPtr):
            off = 0
            return SymPtr(z3.Const(fresh_name(p), Loc), off)
        if isinstance(v, tuple): return None
        return None
    def place_width(self, st, pl):
        if pl[0] == 'mem': return 8*pl[3]
        if pl[0] == 'reg':
            f = st.frames[pl[1]].f
            return self.reg_width(f, pl[2])
        return 64
    def reg_width(self, f, r):
        for ty, n, _ in f.params:
            if n == r: return ty[1] if ty[0] == 'i' else None
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.dst == r:
                    a = ins.a
                    t = a.get('tty') or a.get('rty') or a.get('ty')
                    if ins.op == 'icmp': return 1
                    return t[1] if t and t[0] == 'i' else None
        return None

    def cut_key(self, st, kind, at=None):
        return (kind, self.method, self.spec.cut_extra(st)) + tuple((f.f.name, f.block if at is None or f is not st.frames[-1] else at, f.idx if at is None or f is not st.frames[-1] else -1) for f in st.frames)

    def do_cut(self, st, key, at_header=None):
        """returns True if the path is subsumed (ends here)"""
        if st.evretry is not None and at_header is None:
            if st.evretry != key: raise Unsupported('event changes when it is repeated')
            st.evretry = None
            st.cuts[key] = self.local_state(st); st.cutterms[key] = self.spec.cut_terms(st, key[0])
            return False
        if key not in st.cuts:
            places = self.widen.get(key)
            if places:
                npc, vals = len(st.pc), {}
                cur = self.local_state(st, at_header=at_header)
                first = dict(cur)
                for pl in sorted(places, key=repr):
                    if pl not in cur and pl[0] != 'spec': continue
                    if pl[0] == 'spec': continue
                    v = cur[pl]
                    w = self.place_width(st, pl)
                    nv = self.fresh_like(st, v, 'w')
                    if isinstance(v, int) and not isinstance(v, bool) and w and w > 1:
                        nv = self.freshint(w, 'w')
                    elif isinstance(v, int) and w == 1: nv = z3.Bool(fresh_name('w'))
                    if nv is None: raise Unsupported('cannot widen %r = %r' % (pl, v))
                    if self.intmode and is_sym(nv) and z3.is_int(nv) and w: st.assume(z3.And(nv >= -(1 << (w-1)), nv < (1 << (w-1))))
                    self.set_place(st, pl, nv); vals[pl] = nv
                self.houdini_assume(st, key, first, places)
                self.spec.on_widen(self, st, key, first, places)
                if at_header is None: raise Retry(key, vals, st.pc[npc:], st.g.get('$houdini'))
            st.cuts[key] = self.local_state(st, at_header=at_header)
            st.cutterms[key] = self.spec.cut_terms(st, key[0])
            return False
        old = st.cuts[key]; cur = self.local_state(st, at_header=at_header)
        diff = set()
        for pl, v in old.items():
            if pl not in cur: continue
            if pl in self.widen.get(key, ()): continue
            if not val_eq(v, cur[pl]): diff.add(pl)
        for pl in cur:
            if pl not in old and pl[0] != 'mem':
                diff.add(pl)
        if diff:
            raise Widen(key, diff)
        new = self.spec.cut_terms(st, key[0])
        for n, t in st.cutterms[key].items():
            if self.prove(st, new[n] == t) is not True: raise Unsupported('ghost state %s differs between visits of a cut point' % n)
        self.houdini_check(st, key, cur)
        self.spec.on_subsumed(self, st, key, old, cur)
        self.stats['subsumed'] += 1
        return True

    # ---- candidate invariants for widened integer places (Houdini) ----
    def cands(self, key, places, first):
        out = []
        ints = [p for p in sorted(places, key=repr) if p in first and (isinstance(first[p], int) and not isinstance(first[p], bool) or (is_sym(first[p]) and not z3.is_bool(first[p]) and first[p].sort() != Loc))]
        for p in ints:
            for rel in ('>0', '>=0', '<=first', '>=first', '!=0', 'u<=first'):
                out.append(('b', p, rel))
        for i, p in enumerate(ints):
            for q in ints[i+1:]:
                for sg in (1, -1):
                    out.append(('aff', p, q, sg))
        for p in ints:                     # bounds by loop-invariant values
            for q in sorted(first, key=repr):
                if q[0] == 'reg' and q not in places and is_sym(first[q]) and not z3.is_bool(first[q]) and isinstance(first[q], (z3.BitVecRef, z3.ArithRef)):
                    out += [('le', p, q), ('lt', p, q), ('ge', p, q), ('gt', p, q)]
        return [c for c in out if (key, c) not in self.dropped]
    def cand_formula(self, st, c, first, cur):
        def zz(p, v):
            w = self.place_width(st, p) or 64
            return self.z(v, w), w
        if c[0] == 'b':
            v, w = zz(c[1], cur[c[1]]); f, _ = zz(c[1], first[c[1]])
            zero = self.z(0, w)
            rel = c[2]
            if rel == '>0': return v > zero
            if rel == '>=0': return v >= zero
            if rel == '!=0': return v != zero
            if rel == '<=first': return v <= f
            if rel == '>=first': return v >= f
            if rel == 'u<=first': return (z3.ULE(v, f) if not self.intmode else v <= f)
        if c[0] in ('le', 'ge', 'lt', 'gt'):
            v, wv = zz(c[1], cur[c[1]]); b, wb = zz(c[2], first[c[2]])
            if wv != wb or v.sort() != b.sort(): return None
            return v <= b if c[0] == 'le' else v >= b if c[0] == 'ge' else v < b if c[0] == 'lt' else v > b
        if c[0] == 'aff':
            a, wa = zz(c[1], cur[c[1]]); a0, _ = zz(c[1], first[c[1]]); b, wb = zz(c[2], cur[c[2]]); b0, _ = zz(c[2], first[c[2]])
            if wa != wb and not self.intmode: return None
            return a - a0 == (b - b0 if c[3] == 1 else b0 - b)
    def houdini_assume(self, st, key, first, places):
        cs = []
        # base case is checked against the un-widened first arrival
        base = self.cur_first_pc(st)
        cur = {}
        for pl in places:
            if pl[0] == 'reg': cur[pl] = st.frames[pl[1]].regs.get(pl[2])
            elif pl[0] == 'mem': cur[pl] = st.mem[pl[1]][pl[2]][1]
            elif pl[0] == 'ctr': cur[pl] = st.ctr[pl[1]]
        for c in self.cands(key, places, first):
            f0 = self.cand_formula(st, c, first, first)
            if f0 is None: self.dropped.add((key, c)); continue
            if self.prove(st, f0) is not True: self.dropped.add((key, c)); continue
            cs.append(c)
        for c in cs:
            f = self.cand_formula(st, c, first, cur)
            st.assume(f)
        st.g.setdefault('$houdini', {})[key] = (first, tuple(cs))
    def cur_first_pc(self, st): return None
    def houdini_check(self, st, key, cur):
        h = st.g.get('$houdini', {}).get(key)
        if not h: return
        first, cs = h; bad = False
        for c in cs:
            if (key, c) in self.dropped: bad = True; continue
            f = self.cand_formula(st, c, first, cur)
            if self.prove(st, f) is not True:
                self.dropped.add((key, c)); bad = True
        if bad: raise DropCand()

    # ---------------- running -----------------
    def run(self, method, fname, args, st0, on_end):
        """explore all paths of function fname; restarts on widening"""
        self.method = method
        for attempt in range(60):
            n_obs = len(self.obs); saved_out = dict(self.outcomes)
            try:
                self._explore(fname, args, st0.clone(), on_end)
                return
            except Widen as w:
                s = self.widen.setdefault(w.key, set())
                if w.places <= s: raise Unsupported('widening does not converge at %r' % (w.key,))
                s |= w.places
                if w.key[0] == 'ev': self.widen_at.add(w.key[-1])
                del self.obs[n_obs:]; self.outcomes = saved_out
            except DropCand:
                del self.obs[n_obs:]; self.outcomes = saved_out
        raise Unsupported('too many widening restarts')

    def _explore(self, fname, args, st, on_end):
        f = self.m.funcs[fname]; ir.ensure_parsed(f)
        fr = Frame(f)
        for (ty, n, info), v in zip(f.params, args): fr.regs[n] = v
        st.frames.append(fr)
        work = [st]; npaths = 0
        while work:
            s = work.pop()
            try:
                while True:
                    pre = None
                    if self.widen_at and (s.frames[-1].f.name, s.frames[-1].block, s.frames[-1].idx) in self.widen_at and s.evretry is None: pre = s.clone()
                    try: r = self.step(s)
                    except Retry as t:
                        if pre is None: raise Unsupported('widening inside an event')
                        s = pre; s.evretry = t.key
                        for pl, v in t.vals.items(): self.set_place(s, pl, v)
                        s.pc += t.pc
                        if t.houdini is not None: s.g['$houdini'] = dict(t.houdini)
                        continue
                    if r is None: continue
                    if r[0] == 'fork':
                        for x in r[1][1:]: work.append(x)
                        if not r[1]: break
                        s = r[1][0]; continue
                    if r[0] == 'forkend':
                        for x in r[2]:
                            npaths += 1; self.stats['paths'] += 1
                            on_end(self, x, x.g['$end'][1], x.g['$end'][2])
                        for x in r[1][1:]: work.append(x)
                        if not r[1]: break
                        s = r[1][0]; continue
                    if r[0] == 'end':
                        npaths += 1; self.stats['paths'] += 1
                        if npaths > self.MAXPATHS: raise Unsupported('too many paths')
                        on_end(self, s, r[1], r[2])
                        break
            except PathEnd as e:
                self.stats['paths'] += 1
                continue

    def fork(self, st, branches):
        """branches: list of (cond, fn(state)); returns ('fork', states)"""
        out = []
        for c, fn in branches:
            if c is False: continue
            if c is True:
                s = st.clone(); fn(s); out.append(s); continue
            if not self.feasible(st, c): continue
            s = st.clone(); s.assume(c); fn(s); out.append(s)
        return ('fork', out)

    def goto(self, st, label):
        fr = st.frames[-1]; prev = fr.block
        blk = fr.f.blocks[label]
        # phis in parallel
        vals = []; i = 0
        while i < len(blk) and blk[i].op == 'phi':
            ins = blk[i]
            for v, l in ins.a['inc']:
                if l == prev: vals.append((ins.dst, self.value(st, fr, ins.a['ty'], v))); break
            else: raise Unsupported('phi without edge')
            i += 1
        for d, v in vals: fr.regs[d] = v
        fr.prev = prev; fr.block = label; fr.idx = i
        if label in ir.loop_headers(fr.f):
            key = self.cut_key(st, 'hdr', label)
            self.check_progress(st, key, label)
            if key in self.widen:
                if self.do_cut(st, key, at_header=label): raise PathEnd('subsumed')
                return
            rec = st.hdr.get(key)
            if rec is None: st.hdr[key] = (st.events, len(st.pc), 0)
            else:
                ev, npc, n = rec
                if st.events != ev: st.hdr[key] = (st.events, len(st.pc), 0)     # loop contains an event cut
                elif len(st.pc) == npc and n < 64: st.hdr[key] = (ev, npc, n+1)   # concretely determined iteration
                else:
                    inv = self.spec.loop_invariant(self, st, key, label)
                    if inv == 'widen': raise Widen(key, {('spec', 'loop')})
                    if inv == 'unroll' or n >= 64: pass
                    k = n + 1
                    if k > self.spec.unroll:
                        self.bounded.add((self.method, 'loop %s in %s unrolled %d times' % (label, fr.f.name, k)))
                        raise PathEnd('unroll bound')
                    st.hdr[key] = (ev, len(st.pc), k)

    def check_progress(self, st, key, label):
        """a loop that comes back to its header having changed nothing, with no store and no call in between, never ends"""
        if any(p[0] != 'spec' for p in self.widen.get(key, ())): return
        fr = st.frames[-1]; ir.liveness(fr.f)
        live = set(fr.f.livein[label]) | {i.dst for i in fr.f.blocks[label] if i.op == 'phi'}
        fp = (st.nmem, {r: fr.regs[r] for r in live if r in fr.regs})
        old = st.loopfp.get(key); st.loopfp[key] = fp
        if old and old[0] == fp[0] and set(old[1]) == set(fp[1]) and all(val_eq(v, fp[1][r]) for r, v in old[1].items()):
            self.oblige(st, 'no loop repeats without ever changing anything (endless loop)', self.spec.progress_tags(self, st), False)
            raise PathEnd('diverges')

    def step(self, st):
        fr = st.frames[-1]
        ins = fr.f.blocks[fr.block][fr.idx]
        op = ins.op; a = ins.a
        if op == 'bin':
            if a['ty'][0] != 'i':
                fr.regs[ins.dst] = Opaque((a['op'], fresh_name('fp')))
            else:
                fr.regs[ins.dst] = self.binop(st, a['op'], a['ty'][1], self.value(st, fr, a['ty'], a['x']), self.value(st, fr, a['ty'], a['y']), a['flags'])
        elif op == 'icmp':
            fr.regs[ins.dst] = self.icmp(st, a['pred'], a['ty'], self.value(st, fr, a['ty'], a['x']), self.value(st, fr, a['ty'], a['y']))
        elif op == 'fcmp': fr.regs[ins.dst] = z3.Bool(fresh_name('fcmp'))
        elif op == 'cast':
            fr.regs[ins.dst] = self.castv(st, a['op'], a['fty'], self.value(st, fr, a['fty'], a['x']), a['tty'])
        elif op == 'alloca':
            key = 's:' + '/'.join('%s:%s:%s' % (f.f.name, f.block, f.idx) for f in st.frames) + ':' + str(ins.dst)
            r = Region(key, 'stack', self.m.sizeof(a['ty']), ins.dst, a['ty'])
            st.mem[key] = {}
            self.spec.on_alloca(self, st, r, a['ty'])
            fr.regs[ins.dst] = Ptr(r, 0)
        elif op == 'load':
            p = self.value(st, fr, ('ptr',), a['p'])
            if a['order'] is not None:
                return self.event(st, ins, lambda s: self.spec.atomic_load(self, s, p, a['ty'], a['order']))
            fr.regs[ins.dst] = self.load(st, p, a['ty'])
        elif op == 'store':
            st.nmem += 1
            p = self.value(st, fr, ('ptr',), a['p']); v = self.value(st, fr, a['ty'], a['v'])
            if a['order'] is not None:
                return self.event(st, ins, lambda s: self.spec.atomic_store(self, s, p, a['ty'], v, a['order']))
            self.store(st, p, a['ty'], v)
        elif op == 'gep':
            p = self.value(st, fr, ('ptr',), a['p'])
            try:
                fr.regs[ins.dst] = self.gep(st, p, self.gep_off(st, fr, a['bt'], a['idx']))
            except SymIndex:
                fr.regs[ins.dst] = self.spec.sym_gep(self, st, p, a['bt'], [self.value(st, fr, t, v) for t, v in a['idx']])
        elif op == 'select':
            c = self.value(st, fr, ('i', 1), a['c']); x = self.value(st, fr, a['ty'], a['x']); y = self.value(st, fr, a['ty'], a['y'])
            if not is_sym(c): fr.regs[ins.dst] = x if c else y
            elif val_eq(x, y): fr.regs[ins.dst] = x
            elif a['ty'] == ('i', 1):
                fr.regs[ins.dst] = self.simpb(z3.If(c, b2z(x), b2z(y)))
            else:
                # fork to keep values simple
                def setx(s): s.frames[-1].regs[ins.dst] = x; s.frames[-1].idx += 1
                def sety(s): s.frames[-1].regs[ins.dst] = y; s.frames[-1].idx += 1
                return self.fork(st, [(c, setx), (z3.Not(c), sety)])
        elif op == 'br':
            if a['c'] is None:
                self.goto(st, a['t']); return None
            c = self.value(st, fr, ('i', 1), a['c'])
            if isinstance(c, Opaque): c = z3.Bool(fresh_name('opq'))
            if not is_sym(c):
                self.goto(st, a['t'] if c else a['f']); return None
            if a['t'] == a['f']:
                self.goto(st, a['t']); return None
            n = len(st.pc)
            out = []
            for cond, lab in ((c, a['t']), (z3.Not(c), a['f'])):
                if not self.feasible(st, cond): continue
                s = st.clone(); s.assume(cond)
                out.append((s, lab))
            if len(out) == 1: out[0][0].pc = out[0][0].pc  # determined
            res = []
            for s, lab in out:
                if len(out) > 1: s.trace.append('%s:%s' % (fr.f.name[-24:], lab))
                try:
                    self.goto(s, lab); res.append(s)
                except PathEnd: self.stats['paths'] += 1
            return ('fork', res)
        elif op == 'switch':
            v = self.value(st, fr, a['ty'], a['v'])
            if not is_sym(v):
                for cv, l in a['cases']:
                    if self.value(st, fr, a['ty'], cv) == v: self.goto(st, l); return None
                self.goto(st, a['d']); return None
            res = []; neg = []
            for cv, l in a['cases']:
                c = v == self.z(self.value(st, fr, a['ty'], cv), a['ty'][1]); neg.append(z3.Not(c))
                if self.feasible(st, c):
                    s = st.clone(); s.assume(c)
                    try: self.goto(s, l); res.append(s)
                    except PathEnd: pass
            c = z3.And(*neg) if neg else z3.BoolVal(True)
            if self.feasible(st, c):
                s = st.clone(); s.assume(c)
                try: self.goto(s, a['d']); res.append(s)
                except PathEnd: pass
            return ('fork', res)
        elif op == 'ret':
            v = self.value(st, fr, a['ty'], a['v']) if a['v'] is not None else None
            return self.do_return(st, v)
        elif op == 'unreachable':
            raise PathEnd('unreachable')
        elif op == 'extractvalue':
            v = self.value(st, fr, a['ty'], a['v'])
            for i in a['idx']: v = v[i]
            fr.regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.value(st, fr, a['ty'], a['v']); e = self.value(st, fr, a['ety'], a['e'])
            def ins_(v, idx):
                l = list(v)
                l[idx[0]] = e if len(idx) == 1 else ins_(l[idx[0]], idx[1:])
                return tuple(l)
            fr.regs[ins.dst] = ins_(v, a['idx'])
        elif op == 'freeze': fr.regs[ins.dst] = self.value(st, fr, a['ty'], a['v'])
        elif op == 'fence':
            self.spec.fence(self, st, a['order'])
        elif op == 'cmpxchg':
            p = self.value(st, fr, ('ptr',), a['p']); c = self.value(st, fr, a['ty'], a['cmp']); n = self.value(st, fr, a['ty'], a['new'])
            return self.event(st, ins, lambda s: self.spec.cmpxchg(self, s, p, a['ty'], c, n, a['so'], a['fo'], a['weak']))
        elif op == 'atomicrmw':
            p = self.value(st, fr, ('ptr',), a['p']); v = self.value(st, fr, a['ty'], a['v'])
            return self.event(st, ins, lambda s: self.spec.atomicrmw(self, s, a['rop'], p, a['ty'], v, a['order']))
        elif op == 'call':
            return self.do_call(st, fr, ins)
        elif op == 'resume':
            v = self.value(st, fr, ('struct', (('ptr',), ('i', 32)), False), a['v'])
            e = st.unw
            return self.do_unwind(st, e)
        elif op == 'landingpad':
            e = st.unw
            sel = 0
            for k, cv in a['clauses']:
                if k == 'catch':
                    tv = self.value(st, fr, ('ptr',), cv)
                    if tv == NULLP or (isinstance(tv, Ptr) and self.catches(tv.r.name, e)):
                        sel = self.typeid(tv); break
                elif k == 'filter': raise Unsupported('filter')
            if sel == 0 and not a['cleanup']:
                st.frames.pop()
                return self.do_unwind(st, e)
            fr.regs[ins.dst] = (Ptr(e.region, 0), self.const(sel, 32))
        else:
            raise Unsupported('%s: %s' % (op, ins.text))
        st.frames[-1].idx += 1
        return None

    def typeid(self, tv):
        n = 'null' if tv == NULLP else tv.r.name
        t = self.__dict__.setdefault('_tids', {})
        if n not in t: t[n] = len(t) + 1
        return t[n]
    def catches(self, tname, e):
        anc = {'_ZTISt12system_error': ['_ZTISt12system_error', '_ZTISt13runtime_error', '_ZTISt9exception']}
        return tname == e.tinfo or tname in anc.get(e.tinfo, [])

    def do_return(self, st, v):
        st.frames.pop()
        if not st.frames: return ('end', 'ret', v)
        fr = st.frames[-1]; ins = fr.f.blocks[fr.block][fr.idx]
        if ins.dst is not None: fr.regs[ins.dst] = v
        self.after_call(st, ins)
        return None
    def after_call(self, st, ins):
        if ins.a.get('normal'): self.goto(st, ins.a['normal'])
        else: st.frames[-1].idx += 1

    def do_unwind(self, st, e):
        """unwind exception e from the current frame's instruction onwards"""
        st.unw = e
        while st.frames:
            fr = st.frames[-1]; ins = fr.f.blocks[fr.block][fr.idx]
            if ins.op == 'call' and ins.a['unwind']:
                if fr.f.nounwind: pass
                self.goto(st, ins.a['unwind']); return None
            if fr.f.nounwind:
                return ('end', 'terminate', e)
            st.frames.pop()
        return ('end', 'throw', e)

    def event(self, st, ins, fn):
        """event with havoc; fn(state)->list of (state, value)"""
        st.events += 1; st.nmem += 1
        key = self.cut_key(st, 'ev')
        if self.do_cut(st, key): raise PathEnd('subsumed')
        outs = fn(st)
        res = []
        for s, v in outs:
            if ins.dst is not None: s.frames[-1].regs[ins.dst] = v
            try:
                if ins.op == 'call': self.after_call(s, ins)
                else: s.frames[-1].idx += 1
                res.append(s)
            except PathEnd: self.stats['paths'] += 1
        return ('fork', res)

    def throw(self, st, e):
        return self.do_unwind(st, e)

    def do_call(self, st, fr, ins):
        a = ins.a
        c = a['callee']
        args = None
        if c[0] == 'g': name = c[1]
        else:
            fv = self.value(st, fr, ('ptr',), c)
            if not isinstance(fv, FnPtr): raise Unsupported('indirect call')
            name = fv.name
        if name.startswith('llvm.'):
            if not name.startswith(('llvm.lifetime', 'llvm.dbg')): st.nmem += 1
            return self.intrinsic(st, fr, ins, name)
        args = [self.value(st, fr, t, v) for t, v, _ in a['args']]
        dem = self.m.dem.get(name, name)
        h = self.spec.lookup(name, dem)
        if h is not None:
            st.nmem += 1
            self.fn_contract[dem] = self.fn_contract.get(dem, 0) + 1
            return self.apply(st, ins, h(self, st, name, dem, args, ins), ins)
        f = self.m.funcs.get(name)
        if f is None or not f.blocks:
            raise Unsupported('no contract for external %s' % dem)
        self.fn_inlined.add(name)
        ir.ensure_parsed(f)
        if len(st.frames) > 60: raise Unsupported('call depth')
        # byval handled as pointer (clang passes trivially-copyable large aggregates only)
        nf = Frame(f)
        for (ty, n, info), v in zip(f.params, args): nf.regs[n] = v
        st.frames.append(nf)
        return None

    def apply(self, st, ins, res, _):
        """res: value (simple) | Outcomes(list)"""
        if isinstance(res, Outcomes):
            out = []
            for kind, s, v in res.l:
                if kind == 'ret':
                    if ins.dst is not None: s.frames[-1].regs[ins.dst] = v
                    try:
                        self.after_call(s, ins); out.append(s)
                    except PathEnd: self.stats['paths'] += 1
                elif kind == 'throw':
                    r = self.do_unwind(s, v)
                    if r is None: out.append(s)
                    else: s.g['$end'] = r; s.frames = []; out.append(s)
                elif kind == 'end':
                    s.g['$end'] = v; s.frames = []; out.append(s)
            ends = [s for s in out if not s.frames]
            live = [s for s in out if s.frames]
            if ends:
                return ('forkend', live, ends)
            return ('fork', live)
        if ins.dst is not None: st.frames[-1].regs[ins.dst] = res
        self.after_call(st, ins)
        return None

    def intrinsic(self, st, fr, ins, name):
        a = ins.a
        def arg(i): t, v, _ = a['args'][i]; return self.value(st, fr, t, v)
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.prefetch')): pass
        elif name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            n = arg(2)
            if is_sym(n): raise Unsupported('symbolic memcpy')
            self.memcpy(st, arg(0), arg(1), n)
        elif name.startswith('llvm.memset'):
            n = arg(2)
            if is_sym(n): raise Unsupported('symbolic memset')
            self.memset(st, arg(0), arg(1), n)
        elif name.startswith('llvm.eh.typeid.for'):
            fr.regs[ins.dst] = self.const(self.typeid(arg(0)), 32)
        elif name.startswith('llvm.expect'):
            fr.regs[ins.dst] = arg(0)
        elif name.startswith('llvm.trap'):
            self.spec.on_abort(self, st, 'trap'); raise PathEnd('trap')
        elif re.match(r'llvm\.(umin|umax|smin|smax)', name):
            w = a['rty'][1]; x, y = arg(0), arg(1)
            X, Y = self.z(x, w), self.z(y, w); k = name.split('.')[1]
            if self.intmode:
                if k[0] == 'u': raise Unsupported(name)
                lt = X < Y
            else: lt = z3.ULT(X, Y) if k[0] == 'u' else X < Y
            fr.regs[ins.dst] = z3.simplify(z3.If(lt, X, Y) if k.endswith('min') else z3.If(lt, Y, X))
        elif re.match(r'llvm\.[us](add|sub|mul)\.with\.overflow', name):
            w = a['args'][0][0][1]; x, y = arg(0), arg(1); k = name.split('.')[1]
            if self.intmode: raise Unsupported(name)
            X, Y = self.z(x, w), self.z(y, w)
            o = {'uadd': lambda: (X+Y, z3.Not(z3.BVAddNoOverflow(X, Y, False))), 'sadd': lambda: (X+Y, z3.Or(z3.Not(z3.BVAddNoOverflow(X, Y, True)), z3.Not(z3.BVAddNoUnderflow(X, Y)))),
                 'usub': lambda: (X-Y, z3.ULT(X, Y))}.get(k)
            if o is None: raise Unsupported(name)
            r, ov = o(); fr.regs[ins.dst] = (z3.simplify(r), self.simpb(ov))
        elif name.startswith('llvm.abs'):
            w = a['rty'][1]; X = self.z(arg(0), w); fr.regs[ins.dst] = z3.simplify(z3.If(X < 0, -X, X))
        else: raise Unsupported(name)
        self.after_call(st, ins)
        return None

class SymIndex(Exception): pass
class PathEnd(Exception): pass
class Outcomes:
    def __init__(self, l): self.l = l
