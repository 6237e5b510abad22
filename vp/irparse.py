"""Parser for the textual LLVM-18 IR that clang/opt print (opaque pointers)."""
import re, subprocess

TOK = re.compile(r'''
   \s+
 | (?P<lname>%(?:"[^"]*"|[-\w.$]+))
 | (?P<gname>@(?:"[^"]*"|[-\w.$]+))
 | (?P<cstr>c"[^"]*")
 | (?P<str>"[^"]*")
 | (?P<meta>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[0-9A-Fa-fKLMH]+|-?\d+)
 | (?P<word>[A-Za-z_$][\w.$-]*)
 | (?P<dots>\.\.\.)
 | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)

class ParseError(Exception):
    pass

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == ';':
            break
        m = TOK.match(s, i)
        if not m:
            raise ParseError('tokenize: %r at %d in %r' % (s[i:i+20], i, s[:200]))
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out

# ---------- types ----------
# ('i',n) ('ptr',) ('void',) ('arr',n,T) ('struct',(T..),packed) ('named',name) ('fp',name) ('vec',n,T) ('label',) ('meta',) ('opaque',)
class Toks:
    def __init__(self, toks): self.t = toks; self.p = 0
    def peek(self, k=0): return self.t[self.p+k] if self.p+k < len(self.t) else ('eof', '')
    def next(self): r = self.peek(); self.p += 1; return r
    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] in ('punct','word','dots'): self.p += 1; return True
        return False
    def expect(self, v):
        if not self.accept(v): raise ParseError('expected %r got %r in %r' % (v, self.peek(), self.t[max(0,self.p-8):self.p+8]))
    def eof(self): return self.p >= len(self.t)

def unq(n):
    s = n[1:]
    return s[1:-1] if s.startswith('"') else s

PARAM_ATTRS = {'noundef','nonnull','zeroext','signext','noalias','nocapture','readonly','writeonly','readnone','returned','inreg','nofree','immarg','swiftself','swifterror','noreturn','inbounds','nest','allocalign','allocptr','dead_on_unwind','writable'}
PARAM_ATTRS_ARG = {'align','dereferenceable','dereferenceable_or_null','byval','sret','byref','inalloca','elementtype','preallocated','memory','range','initializes'}

def parse_type(t):
    k, v = t.next()
    if k == 'word':
        if re.fullmatch(r'i\d+', v): ty = ('i', int(v[1:]))
        elif v == 'ptr':
            ty = ('ptr',)
            if t.peek()[1] == 'addrspace':
                t.next(); t.expect('('); t.next(); t.expect(')')
        elif v == 'void': ty = ('void',)
        elif v in ('float','double','x86_fp80','half','fp128'): ty = ('fp', v)
        elif v == 'label': ty = ('label',)
        elif v == 'metadata': ty = ('meta',)
        elif v == 'token': ty = ('token',)
        elif v == 'opaque': ty = ('opaque',)
        else: raise ParseError('type %r' % v)
    elif k == 'lname': ty = ('named', unq(v))
    elif v == '[':
        n = int(t.next()[1]); t.expect('x'); e = parse_type(t); t.expect(']'); ty = ('arr', n, e)
    elif v == '{':
        fs = []
        while not t.accept('}'):
            fs.append(parse_type(t)); t.accept(',')
        ty = ('struct', tuple(fs), False)
    elif v == '<':
        if t.peek()[1] == '{':
            t.next(); fs = []
            while not t.accept('}'):
                fs.append(parse_type(t)); t.accept(',')
            t.expect('>'); ty = ('struct', tuple(fs), True)
        else:
            n = int(t.next()[1]); t.expect('x'); e = parse_type(t); t.expect('>'); ty = ('vec', n, e)
    else:
        raise ParseError('type tok %r' % (v,))
    # function type suffix
    while t.peek()[1] == '(' and t.peek()[0] == 'punct':
        # only if followed by types (used in call with explicit fn type)
        save = t.p
        try:
            t.next(); ps = []
            while not t.accept(')'):
                if t.accept('...'): continue
                ps.append(parse_type(t)); t.accept(',')
            ty = ('func', ty, tuple(ps))
        except ParseError:
            t.p = save
            break
    return ty

def skip_attrs(t, info=None):
    while True:
        k, v = t.peek()
        if k == 'word' and v in PARAM_ATTRS: t.next()
        elif k == 'word' and v in PARAM_ATTRS_ARG:
            t.next()
            if t.peek()[1] == '(':
                d = 0; buf = []
                while True:
                    kk, x = t.next(); buf.append((kk, x))
                    if x == '(' : d += 1
                    if x == ')' :
                        d -= 1
                        if d == 0: break
                if info is not None: info[v] = buf
            elif v == 'align': t.next()
        elif k == 'str':
            t.next()
            if t.accept('='): t.next()
        elif k == 'attr': t.next()
        else: return

# ---------- values ----------
# ('l',name) ('g',name) ('int',n) ('null',) ('undef',) ('zero',) ('agg',[ (ty,val).. ]) ('cstr',bytes) ('ce',op,...) ('fp',..)
def parse_value(t, ty):
    k, v = t.next()
    if k == 'lname': return ('l', unq(v))
    if k == 'gname': return ('g', unq(v))
    if k == 'num':
        if ty and ty[0] == 'fp': return ('fp', v)
        return ('int', int(v, 0))
    if k == 'cstr':
        s = v[2:-1]; b = bytearray(); i = 0
        while i < len(s):
            if s[i] == '\\':
                if s[i+1] == '\\': b.append(92); i += 2
                else: b.append(int(s[i+1:i+3], 16)); i += 3
            else: b.append(ord(s[i])); i += 1
        return ('cstr', bytes(b))
    if k == 'word':
        if v == 'null': return ('null',)
        if v in ('undef','poison'): return ('undef',)
        if v == 'none': return ('null',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'true': return ('int', 1)
        if v == 'false': return ('int', 0)
        if v == 'getelementptr':
            while t.peek()[1] in ('inbounds',): t.next()
            if t.peek()[1] == 'inrange':
                t.next(); t.expect('('); 
                while not t.accept(')'): t.next()
            t.expect('('); bt = parse_type(t); t.expect(',')
            ops = []
            while True:
                t.accept('inrange')
                oty = parse_type(t); ops.append((oty, parse_value(t, oty)))
                if not t.accept(','): break
            t.expect(')')
            return ('ce', 'gep', bt, ops)
        if v in ('bitcast','ptrtoint','inttoptr','trunc','zext','sext','addrspacecast'):
            t.expect('('); fty = parse_type(t); x = parse_value(t, fty); t.expect('to'); tty = parse_type(t); t.expect(')')
            return ('ce', v, fty, x, tty)
        if v in ('add','sub','mul','xor','and','or'):
            while t.peek()[1] in ('nuw','nsw'): t.next()
            t.expect('('); fty = parse_type(t); a = parse_value(t, fty); t.expect(','); f2 = parse_type(t); b = parse_value(t, f2); t.expect(')')
            return ('ce', 'bin', v, fty, a, b)
        if v in ('no_cfi','dso_local_equivalent'): return parse_value(t, ty)
        raise ParseError('value word %r' % v)
    if v in ('{','['):
        close = '}' if v == '{' else ']'
        xs = []
        while not t.accept(close):
            ety = parse_type(t); xs.append((ety, parse_value(t, ety))); t.accept(',')
        return ('agg', xs)
    if v == '<':
        xs = []
        if t.accept('{'):
            while not t.accept('}'):
                ety = parse_type(t); xs.append((ety, parse_value(t, ety))); t.accept(',')
            t.expect('>')
        else:
            while not t.accept('>'):
                ety = parse_type(t); xs.append((ety, parse_value(t, ety))); t.accept(',')
        return ('agg', xs)
    raise ParseError('value %r' % (v,))

class Instr:
    __slots__ = ('op','dst','a','line','text')
    def __init__(self, op, dst, a, text): self.op, self.dst, self.a, self.text = op, dst, a, text
    def __repr__(self): return self.text

class Func:
    def __init__(self, name, ret, params): self.name, self.ret, self.params = name, ret, params; self.blocks = {}; self.order = []; self.nounwind = False
    def __repr__(self): return 'Func(%s)' % self.name

class Module:
    def __init__(self): self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.dem = {}
    # --- layout ---
    def sizeof(self, ty):
        return self._sa(ty)[0]
    def alignof(self, ty):
        return self._sa(ty)[1]
    def _sa(self, ty):
        k = ty[0]
        if k == 'i':
            b = max(1, (ty[1]+7)//8)
            p = 1
            while p < b: p *= 2
            return (p, min(p, 16))
        if k == 'ptr': return (8, 8)
        if k == 'fp': return {'float':(4,4),'double':(8,8),'x86_fp80':(16,16),'half':(2,2),'fp128':(16,16)}[ty[1]]
        if k == 'arr':
            s, a = self._sa(ty[2]); return (s*ty[1], a)
        if k == 'named': return self._sa(self.types[ty[1]])
        if k == 'struct':
            off = 0; al = 1
            for f in ty[1]:
                s, a = self._sa(f)
                if ty[2]: a = 1
                off = (off + a - 1)//a*a + s; al = max(al, a)
            return ((off + al - 1)//al*al, al)
        if k == 'vec':
            s, a = self._sa(ty[2]); return (s*ty[1], s*ty[1])
        raise ParseError('sizeof %r' % (ty,))
    def resolve(self, ty):
        while ty[0] == 'named': ty = self.types[ty[1]]
        return ty
    def field_off(self, ty, i):
        ty = self.resolve(ty)
        assert ty[0] == 'struct'
        off = 0
        for j, f in enumerate(ty[1]):
            s, a = self._sa(f)
            if ty[2]: a = 1
            off = (off + a - 1)//a*a
            if j == i: return off, f
            off += s
        raise ParseError('field')
    def flatten(self, ty, base=0):
        """list of (off, size, scalar type)"""
        ty = self.resolve(ty)
        if ty[0] == 'struct':
            r = []
            for i, f in enumerate(ty[1]):
                o, ft = self.field_off(ty, i); r += self.flatten(ft, base+o)
            return r
        if ty[0] == 'arr':
            es = self.sizeof(ty[2]); r = []
            if ty[1] > 4096: raise ParseError('big array')
            for i in range(ty[1]): r += self.flatten(ty[2], base+i*es)
            return r
        return [(base, self.sizeof(ty), ty)]

FN_SKIP = {'dso_local','local_unnamed_addr','unnamed_addr','linkonce_odr','internal','private','weak_odr','external','hidden','weak','linkonce','available_externally','default','protected','fastcc','coldcc','noundef','nonnull','zeroext','signext','noalias','extern_weak','preemptable'}

def parse_args(t):
    """parse call arg list up to ')' (after '(')"""
    args = []
    while not t.accept(')'):
        if t.accept('...'): continue
        ty = parse_type(t)
        info = {}
        skip_attrs(t, info)
        if ty[0] == 'meta':
            # metadata operand: skip to , or )
            d = 0
            while True:
                k, v = t.peek()
                if d == 0 and v in (',', ')'): break
                if v == '(' or v == '{': d += 1
                if v == ')' or v == '}': d -= 1
                t.next()
            args.append((ty, ('null',), info)); t.accept(','); continue
        v = parse_value(t, ty)
        args.append((ty, v, info))
        t.accept(',')
    return args

BIN = {'add','sub','mul','sdiv','udiv','srem','urem','and','or','xor','shl','lshr','ashr','fadd','fsub','fmul','fdiv','frem'}
CAST = {'trunc','zext','sext','ptrtoint','inttoptr','bitcast','fptosi','sitofp','uitofp','fptoui','fpext','fptrunc','addrspacecast'}

def parse_instr(s):
    s = s.strip()
    t = Toks(tokenize(s))
    dst = None
    if t.peek()[0] == 'lname' and t.peek(1)[1] == '=':
        dst = unq(t.next()[1]); t.next()
    k, op = t.next()
    A = lambda **kw: Instr(opn, dst, kw, s)
    opn = op
    if op in ('tail','musttail','notail'): opn = op = t.next()[1]
    if op in BIN:
        flags = set()
        while t.peek()[1] in ('nuw','nsw','exact','disjoint','fast','nnan','ninf','nsz','arcp','contract','afn','reassoc'): flags.add(t.next()[1])
        ty = parse_type(t); a = parse_value(t, ty); t.expect(','); b = parse_value(t, ty)
        opn = 'bin'; return A(op=op, ty=ty, x=a, y=b, flags=flags)
    if op == 'icmp' or op == 'fcmp':
        while t.peek()[1] in ('fast','nnan','ninf','nsz','samesign'): t.next()
        pred = t.next()[1]; ty = parse_type(t); a = parse_value(t, ty); t.expect(','); b = parse_value(t, ty)
        return A(pred=pred, ty=ty, x=a, y=b)
    if op in CAST:
        while t.peek()[1] in ('nneg','nuw','nsw'): t.next()
        fty = parse_type(t); x = parse_value(t, fty); t.expect('to'); tty = parse_type(t)
        opn = 'cast'; return A(op=op, fty=fty, x=x, tty=tty)
    if op == 'alloca':
        t.accept('inalloca'); ty = parse_type(t); n = None
        if t.accept(',') and t.peek()[1] != 'align':
            nty = parse_type(t); n = parse_value(t, nty)
        return A(ty=ty, n=n)
    if op == 'load':
        atomic = t.accept('atomic'); vol = t.accept('volatile'); ty = parse_type(t); t.expect(','); pty = parse_type(t); p = parse_value(t, pty)
        order = None
        if atomic:
            if t.peek()[1] == 'syncscope': t.next(); t.expect('('); t.next(); t.expect(')')
            order = t.next()[1]
        return A(ty=ty, p=p, order=order)
    if op == 'store':
        atomic = t.accept('atomic'); vol = t.accept('volatile'); ty = parse_type(t); v = parse_value(t, ty); t.expect(','); pty = parse_type(t); p = parse_value(t, pty)
        order = None
        if atomic:
            if t.peek()[1] == 'syncscope': t.next(); t.expect('('); t.next(); t.expect(')')
            order = t.next()[1]
        return A(ty=ty, v=v, p=p, order=order)
    if op == 'fence':
        return A(order=t.next()[1])
    if op == 'cmpxchg':
        weak = t.accept('weak'); t.accept('volatile'); pty = parse_type(t); p = parse_value(t, pty); t.expect(','); ty = parse_type(t); c = parse_value(t, ty); t.expect(','); ty2 = parse_type(t); n = parse_value(t, ty2)
        so = t.next()[1]; fo = t.next()[1]
        return A(weak=weak, p=p, ty=ty, cmp=c, new=n, so=so, fo=fo)
    if op == 'atomicrmw':
        t.accept('volatile'); rop = t.next()[1]; pty = parse_type(t); p = parse_value(t, pty); t.expect(','); ty = parse_type(t); v = parse_value(t, ty); o = t.next()[1]
        return A(rop=rop, p=p, ty=ty, v=v, order=o)
    if op == 'getelementptr':
        while t.peek()[1] in ('inbounds','nuw','nusw'): t.next()
        bt = parse_type(t); t.expect(','); pty = parse_type(t); p = parse_value(t, pty); idx = []
        while t.accept(','):
            ity = parse_type(t); idx.append((ity, parse_value(t, ity)))
        opn = 'gep'; return A(bt=bt, p=p, idx=idx)
    if op == 'phi':
        while t.peek()[1] in ('fast','nnan'): t.next()
        ty = parse_type(t); inc = []
        while True:
            t.expect('['); v = parse_value(t, ty); t.expect(','); l = unq(t.next()[1]); t.expect(']'); inc.append((v, l))
            if not t.accept(',') : break
            if t.peek()[0] == 'meta': break
        return A(ty=ty, inc=inc)
    if op == 'select':
        while t.peek()[1] in ('fast','nnan','nsz'): t.next()
        cty = parse_type(t); c = parse_value(t, cty); t.expect(','); ty = parse_type(t); x = parse_value(t, ty); t.expect(','); ty2 = parse_type(t); y = parse_value(t, ty2)
        return A(c=c, ty=ty, x=x, y=y)
    if op == 'br':
        if t.peek()[1] == 'label':
            t.next(); return A(c=None, t=unq(t.next()[1]), f=None)
        ty = parse_type(t); c = parse_value(t, ty); t.expect(','); t.expect('label'); a = unq(t.next()[1]); t.expect(','); t.expect('label'); b = unq(t.next()[1])
        return A(c=c, t=a, f=b)
    if op == 'switch':
        ty = parse_type(t); v = parse_value(t, ty); t.expect(','); t.expect('label'); d = unq(t.next()[1]); t.expect('['); cs = []
        while not t.accept(']'):
            cty = parse_type(t); cv = parse_value(t, cty); t.expect(','); t.expect('label'); cs.append((cv, unq(t.next()[1])))
        return A(ty=ty, v=v, d=d, cases=cs)
    if op == 'ret':
        if t.peek()[1] == 'void': return A(ty=None, v=None)
        ty = parse_type(t); return A(ty=ty, v=parse_value(t, ty))
    if op == 'unreachable': return A()
    if op == 'resume':
        ty = parse_type(t); return A(v=parse_value(t, ty))
    if op == 'freeze':
        ty = parse_type(t); return A(ty=ty, v=parse_value(t, ty))
    if op == 'landingpad':
        ty = parse_type(t); cleanup = False; clauses = []
        while not t.eof():
            if t.accept('cleanup'): cleanup = True
            elif t.accept('catch'):
                cty = parse_type(t); clauses.append(('catch', parse_value(t, cty)))
            elif t.accept('filter'):
                cty = parse_type(t); clauses.append(('filter', parse_value(t, cty)))
            else: break
        return A(ty=ty, cleanup=cleanup, clauses=clauses)
    if op == 'extractvalue':
        ty = parse_type(t); v = parse_value(t, ty); idx = []
        while t.accept(','):
            if t.peek()[0] != 'num': break
            idx.append(int(t.next()[1]))
        return A(ty=ty, v=v, idx=idx)
    if op == 'insertvalue':
        ty = parse_type(t); v = parse_value(t, ty); t.expect(','); ety = parse_type(t); e = parse_value(t, ety); idx = []
        while t.accept(','):
            if t.peek()[0] != 'num': break
            idx.append(int(t.next()[1]))
        return A(ty=ty, v=v, ety=ety, e=e, idx=idx)
    if op in ('call', 'invoke'):
        while True:
            k, v = t.peek()
            if k == 'word' and (v in FN_SKIP or v in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc')): t.next()
            elif k == 'word' and v in PARAM_ATTRS | PARAM_ATTRS_ARG: skip_attrs(t)
            else: break
        rty = parse_type_call(t)
        if t.peek()[1] == 'asm':
            return Instr('asm', dst, dict(text=s), s)
        callee = parse_value(t, ('ptr',)); t.expect('(')
        args = parse_args(t)
        opn = 'call'
        nounwind = False
        kw = dict(rty=rty, callee=callee, args=args, normal=None, unwind=None)
        while not t.eof():
            k, v = t.next()
            if v == 'to': t.expect('label'); kw['normal'] = unq(t.next()[1])
            elif v == 'unwind': t.expect('label'); kw['unwind'] = unq(t.next()[1])
        return Instr('call', dst, kw, s)
    return Instr('unsupported', dst, dict(name=op), s)

def parse_type_call(t):
    """return type of a call; may be a full function type for varargs."""
    # parse base type without function suffix
    save = t.p
    ty = parse_type(t)
    if ty[0] == 'func': return ty[1]
    return ty

def parse_module(text):
    m = Module(); lines = text.split('\n'); i = 0; attrs = {}
    pend = []
    while i < len(lines):
        l = lines[i]
        if l.startswith('%') and ' = type ' in l:
            t = Toks(tokenize(l)); n = unq(t.next()[1]); t.expect('='); t.expect('type'); m.types[n] = parse_type(t)
        elif l.startswith('@'):
            pend.append(l)
        elif l.startswith('attributes #'):
            mm = re.match(r'attributes (#\d+) = \{(.*)\}', l); attrs[mm.group(1)] = mm.group(2)
        elif l.startswith('declare'):
            f, _, at = parse_fhead(l); m.decls[f.name] = f; f.attr = at
        elif l.startswith('define'):
            f, rest, at = parse_fhead(l); f.attr = at
            i += 1; cur = None; nextnum = None
            while lines[i] != '}':
                s = lines[i]
                if not s.strip() or s.lstrip().startswith(';'): i += 1; continue
                if not s.startswith(' '):
                    mm = re.match(r'("[^"]*"|[-\w.$]+):', s)
                    if not mm: raise ParseError('label %r' % s)
                    nm = mm.group(1)
                    if nm.startswith('"'): nm = nm[1:-1]
                    cur = []; f.blocks[nm] = cur; f.order.append(nm)
                else:
                    full = s
                    if re.match(r'\s*switch ', s) and ']' not in s:
                        while ']' not in lines[i]:
                            i += 1; full += ' ' + lines[i].split(';')[0]
                    # continuation lines (landingpad clauses, invoke to label)
                    while i+1 < len(lines) and lines[i+1].startswith('          '):
                        i += 1; full += ' ' + lines[i]
                    # strip metadata
                    full = re.sub(r',\s*!\w[\w.]*\s+![\w.]+', '', full)
                    full = re.sub(r',\s*!\w[\w.]*\s+!\{\}', '', full)
                    if cur is None:
                        cur = []; f.blocks['0'] = cur; f.order.append('0')
                    cur.append(full)
                i += 1
            m.funcs[f.name] = f
        i += 1
    for f in m.funcs.values():
        f.parsed = False
    for f in list(m.funcs.values()) + list(m.decls.values()):
        f.nounwind = any('nounwind' in attrs.get(a, '').split() for a in f.attr)
        f.noreturn = any('noreturn' in attrs.get(a, '').split() for a in f.attr)
    for l in pend:
        mm = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)', l)
        nm = mm.group(1)
        if nm.startswith('"'): nm = nm[1:-1]
        m.globals[nm] = l
    return m

def ensure_parsed(f):
    if f.parsed: return
    for b, ls in f.blocks.items():
        f.blocks[b] = [parse_instr(x) for x in ls]
    f.parsed = True

def parse_global(m, name):
    l = m.globals[name]
    rest = l.split(' = ', 1)[1]
    t = Toks(tokenize(re.sub(r',\s*!\w+\s+!\d+', '', rest)))
    const = False
    while True:
        k, v = t.peek()
        if k == 'word' and v in ('global', 'constant'):
            const = v == 'constant'; t.next(); break
        if k == 'word' and v == 'alias':
            return None
        if k == 'eof': return None
        t.next()
    ext = bool(re.search(r'= (?:[\w]+ )*external ', l))
    ty = parse_type(t)
    val = None
    if not ext and not t.eof() and t.peek()[1] != ',':
        val = parse_value(t, ty)
    return (ty, val, const)

def parse_fhead(l):
    at = re.findall(r'#\d+', l[l.rfind(')'):])
    l2 = re.sub(r' personality .*$', '', l)
    t = Toks(tokenize(l2.rstrip('{').rstrip()))
    t.next()
    while True:
        k, v = t.peek()
        if k == 'word' and v in FN_SKIP: t.next()
        elif k == 'word' and v in PARAM_ATTRS | PARAM_ATTRS_ARG: skip_attrs(t)
        else: break
    ret = parse_type(t)
    while t.peek()[0] != 'gname': t.next()
    name = unq(t.next()[1]); t.expect('(')
    params = []; idx = 0
    while not t.accept(')'):
        if t.accept('...'): continue
        ty = parse_type(t); info = {}
        skip_attrs(t, info)
        if t.peek()[0] == 'lname': pn = unq(t.next()[1])
        else: pn = str(idx)
        params.append((ty, pn, info)); idx += 1
        t.accept(',')
    return Func(name, ret, params), None, at

def demangle_all(m):
    names = list(m.funcs) + list(m.decls)
    out = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    m.dem = dict(zip(names, out))

# ---------- per-function analyses ----------
def uses(ins):
    r = []
    def v(x):
        if x is None: return
        if x[0] == 'l': r.append(x[1])
        elif x[0] == 'agg':
            for _, y in x[1]: v(y)
    a = ins.a
    for key in ('x','y','p','v','c','e','cmp','new','n'):
        if key in a and isinstance(a[key], tuple): v(a[key])
    if 'args' in a:
        for _, x, _ in a['args']: v(x)
        v(a['callee'])
    if 'idx' in a and ins.op == 'gep':
        for _, x in a['idx']: v(x)
    return r

def succs(ins):
    if ins.op == 'br': return [ins.a['t']] + ([ins.a['f']] if ins.a['f'] else [])
    if ins.op == 'switch': return [ins.a['d']] + [c[1] for c in ins.a['cases']]
    if ins.op == 'call' and ins.a['normal']: return [ins.a['normal'], ins.a['unwind']]
    return []

def liveness(f):
    """live-in sets per block (phi uses attributed to predecessor edges)"""
    if hasattr(f, 'livein'): return f.livein
    ensure_parsed(f)
    livein = {b: set() for b in f.order}; changed = True
    phiuse = {}
    for b in f.order:
        for ins in f.blocks[b]:
            if ins.op == 'phi':
                for val, l in ins.a['inc']:
                    if val[0] == 'l': phiuse.setdefault((l, b), set()).add(val[1])
    while changed:
        changed = False
        for b in reversed(f.order):
            live = set()
            for s in succs(f.blocks[b][-1]):
                live |= livein[s] | phiuse.get((b, s), set())
            for ins in reversed(f.blocks[b]):
                if ins.dst is not None: live.discard(ins.dst)
                if ins.op != 'phi': live.update(uses(ins))
            if live != livein[b]: livein[b] = live; changed = True
    f.livein = livein; f.phiuse = phiuse
    return livein

def live_after(f, block, idx):
    """registers live just after instruction idx of block"""
    liveness(f)
    key = (block, idx)
    if not hasattr(f, '_la'): f._la = {}
    if key in f._la: return f._la[key]
    ins = f.blocks[block]
    live = set()
    for s in succs(ins[-1]):
        live |= f.livein[s] | f.phiuse.get((block, s), set())
    for j in range(len(ins)-1, idx, -1):
        if ins[j].dst is not None: live.discard(ins[j].dst)
        if ins[j].op != 'phi': live.update(uses(ins[j]))
    if ins[idx].dst is not None: live.discard(ins[idx].dst)
    f._la[key] = live
    return live

def loop_headers(f):
    if hasattr(f, 'headers'): return f.headers
    ensure_parsed(f)
    # DFS back edges
    headers = set(); color = {}
    stack = [(f.order[0], iter(succs(f.blocks[f.order[0]][-1])))]
    color[f.order[0]] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if color.get(s, 0) == 0:
                color[s] = 1; stack.append((s, iter(succs(f.blocks[s][-1])))); break
            elif color[s] == 1: headers.add(s)
        else:
            color[b] = 2; stack.pop()
    f.headers = headers
    return headers
