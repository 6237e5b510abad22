"""developer runner: dev.py UNIT [METHOD] """
import sys, time, traceback
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import units, symex, theory
from symex import *
def run_one(u, m, mod=None, verbose=True):
    mod = mod or u.build()
    sp = u.make_spec(mod)
    ex = Executor(mod, sp, intmode=u.intmode)
    t0 = time.time()
    err = None
    try:
        sp.run_any(ex, m)
    except Unsupported as e: err = 'UNSUPPORTED %s' % e
    return ex, err, time.time() - t0
if __name__ == '__main__':
    tot = 0
    for u in units.all_units():
        if len(sys.argv) > 1 and sys.argv[1] not in u.name: continue
        print('==', u.name)
        try: mod = u.build()
        except units.Unmatched as e: print('UNMATCHED', e); continue
        for m in u.methods:
            if len(sys.argv) > 2 and sys.argv[2] not in m.name: continue
            ex, err, dt = run_one(u, m, mod)
            n = {}
            for o in ex.obs: n[o.status] = n.get(o.status, 0) + 1
            print('  %-40s %s paths=%d q=%d %.1fs out=%s %s %s' % (m.name, n, ex.stats['paths'], ex.stats['queries'], dt, {k[1]: v for k, v in ex.outcomes.items()}, err or '', ex.bounded or ''))
            seen = set()
            for o in ex.obs:
                if o.status != 'proved' and (o.name, o.status) not in seen:
                    seen.add((o.name, o.status)); print('      !!', o.status, o.name, sorted(o.tags), o.path[-400:], '|', o.detail[:400])
            if '-v' in sys.argv:
                for o in ex.obs: print('       ', o.status, o.name, sorted(o.tags), '%.2f' % o.time)
