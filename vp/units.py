"""Verification units: driver file + spec + methods; compilation of /repo headers to LLVM IR."""
import os, re, subprocess, tempfile, shutil, hashlib, sys, time
import irparse as ir
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
INC = os.path.join(REPO, 'include')

class Unmatched(Exception): pass

def compile_ir(driver, defs=(), std='c++11', extra=()):
    d = tempfile.mkdtemp(prefix='vpir')
    try:
        src = os.path.join(VERIF, 'drivers', driver)
        ll0 = os.path.join(d, 'a.ll'); ll = os.path.join(d, 'b.ll')
        cmd = ['clang++', '-std=' + std, '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-access-control', '-w',
               '-S', '-emit-llvm', '-I' + INC, '-I' + os.path.join(VERIF, 'drivers'), '-I' + os.path.join(VERIF, 'drivers', 'stubs')] + ['-D' + x for x in defs] + list(extra) + [src, '-o', ll0]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode: raise Unmatched('driver %s does not compile against the current headers:\n%s' % (driver, r.stderr[-3000:]))
        r = subprocess.run(['opt', '-S', '-passes=function(sroa,instsimplify,simplifycfg)', ll0, '-o', ll], capture_output=True, text=True)
        if r.returncode: raise Unmatched('opt failed: ' + r.stderr[-2000:])
        return open(ll).read()
    finally: shutil.rmtree(d, ignore_errors=True)

def load_module(text):
    m = ir.parse_module(text); ir.demangle_all(m); return m

def layout_of(m):
    lay = {}
    for n in m.globals:
        if n.startswith('OFF_') or n.startswith('SZ_'):
            g = ir.parse_global(m, n)
            if g and g[1] is not None: lay[n] = 0 if g[1][0] == 'zero' else g[1][1]
    return lay

UNNAMED = {'barrier': 1, 'shared_lock': 7, 'backoff::yield': 1, 'backoff::busy': 1}      # cells of the base tree that no specification names (completion function, padding)
def new_state(u, m):
    """offsets of member variables that the specification of the unit does not name (added to the class since it was written)"""
    g = ir.parse_global(m, 'OBJ_') if 'OBJ_' in m.globals else None
    if not g or g[0] is None: return set()
    lay = layout_of(m)
    cov = [(lay[k], lay[k] + lay['SZ_' + k[4:]]) for k in lay if k.startswith('OFF_') and 'SZ_' + k[4:] in lay]
    unc = {o for o, s, t in m.flatten(g[0], 0) if not any(a <= o and o + s <= b for a, b in cov)}
    return unc if len(unc) > UNNAMED.get(u.name, 0) else set()

class Unit:
    def __init__(self, name, driver, spec, methods, props, defs=(), fields=(), std='c++11', intmode=False, headers=(), **kw):
        self.name, self.driver, self.spec, self.methods, self.props, self.defs, self.fields, self.std, self.intmode = name, driver, spec, methods, set(props), tuple(defs), fields, std, intmode
        self.headers = headers; self.kw = kw
    def build(self):
        m = load_module(compile_ir(self.driver, self.defs, self.std))
        return m
    def make_spec(self, m):
        lay = layout_of(m)
        sp = self.spec(m, lay, **self.kw) if self.kw else self.spec(m, lay)
        if 'OBJ_' in m.globals:
            g = ir.parse_global(m, 'OBJ_')
            sp.objty = g[0] if g else None
            if sp.objty is not None: sp.all_cells = [(o, s, t) for o, s, t in m.flatten(sp.objty, 0)]
        fl = {}
        for f, kind in self.fields:
            if 'OFF_' + f not in lay: raise Unmatched('field ' + f)
            fl[f] = (lay['OFF_' + f], lay['SZ_' + f], kind)
        sp.fields = fl
        if hasattr(sp, 'aux') and sp.objty is not None:
            new = new_state(self, m); sp.aux = tuple(o for o, z, t in sp.all_cells if o in new and t[0] == 'i' and z in (1, 2, 4, 8))
        if 'OFF_mtx_' in lay: sp.mtx_off = lay['OFF_mtx_']
        if 'OFF_cv_' in lay: sp.cv_offs = (lay['OFF_cv_'],)
        return sp

def all_units():
    import registry
    return registry.UNITS
