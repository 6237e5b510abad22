#!/usr/bin/env python3-vt
"""Check one property: run.py C01 [--tier quick|thorough]"""
import sys, os, json, time, signal, traceback, multiprocessing as mp
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import units, symex, theory, registry
VERIF = os.path.dirname(HERE)
TASKS = []; MODS = {}; PROP = None

class Timeout(Exception): pass
def _alarm(*a): raise Timeout()

def compile_one(i):
    u = registry.UNITS[i]
    try: return i, units.compile_ir(u.driver, u.defs, u.std), None
    except units.Unmatched as e: return i, None, str(e)
    except Exception as e: return i, None, 'internal: %r' % (e,)

def run_indexed(k): return k, run_task(k)
def run_task(k):
    ui, mi, thorough, limit = TASKS[k]
    u = registry.UNITS[ui]; m = u.methods[mi]; mod = MODS[ui]
    t0 = time.time(); res = dict(unit=u.name, ui=ui, method=m.name, err=None, obs=[], outcomes={}, bounded=[], inlined=[], contracts=[], stats={})
    ex = None
    signal.signal(signal.SIGALRM, _alarm); signal.alarm(limit)
    try:
        sp = u.make_spec(mod); sp.collect_smt = sp.guard = thorough
        ex = symex.Executor(mod, sp, intmode=u.intmode, timeout=30000 if thorough else 15000)
        ex.want = PROP; sp.run_any(ex, m)
    except symex.Unsupported as e: res['err'] = 'unsupported: %s' % e
    except units.Unmatched as e: res['err'] = 'unmatched: %s' % e
    except Timeout: res['err'] = 'time limit'
    except Exception as e: res['err'] = 'internal: %s' % traceback.format_exc()[-1500:]
    finally: signal.alarm(0)
    if ex:
        if thorough: cross_check(ex)
        for o in ex.obs:
            res['obs'].append(dict(name=o.name, tags=sorted(o.tags), status=o.status, time=round(o.time, 4), solver=o.solver, detail=o.detail[:1500], path=o.path[-600:]))
        res['outcomes'] = sorted(str(k[1]) for k in ex.outcomes)
        res['bounded'] = sorted(str(b[1]) for b in ex.bounded)
        res['inlined'] = sorted(mod.dem.get(n, n) for n in ex.fn_inlined)
        res['contracts'] = sorted(ex.fn_contract)
        res['stats'] = dict(ex.stats)
        new = units.new_state(u, mod)
        if new: res['newstate'] = sorted(ex.reads & new); res['aux'] = not ex.spec.aux or set(ex.spec.aux) != new or any('AUX' in o.tags and o.status != 'proved' for o in ex.obs) or bool(res['err'])      # True: not explained
    res['wall'] = round(time.time() - t0, 2)
    return res

def cross_check(ex):
    """thorough tier: every solver-discharged obligation is also given to cvc5"""
    import subprocess, tempfile
    for o in ex.obs:
        if not o.smt or o.status != 'proved': continue
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(o.smt); fn = f.name
        try:
            r = subprocess.run(['cvc5', '--tlimit=20000', fn], capture_output=True, text=True)
            a = r.stdout.strip().split('\n')[-1] if r.stdout.strip() else ''
            if a == 'unsat': o.solver = 'z3+cvc5'
            elif a == 'sat': o.status = 'unknown'; o.detail = 'z3 and cvc5 disagree'
        except Exception: pass
        finally: os.unlink(fn)
        o.smt = None

def tags_match(o, prop, u):
    """'P': the obligation is part of property P; '~P': P's argument rests on it (its failure alone does not break P); '*': every property of the unit"""
    return prop in o['tags'] or '~' + prop in o['tags'] or ('*' in o['tags'] and prop in u.props)
def primary(o, prop, u): return prop in o['tags'] or ('*' in o['tags'] and prop in u.props)

def main():
    global PROP
    prop = PROP = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    thorough = tier == 'thorough'
    t0 = time.time()
    sel = [i for i, u in enumerate(registry.UNITS) if prop in u.props]
    ctx = mp.get_context('fork')
    failures = []    # (unit, method, why) where deduction did not decide
    with ctx.Pool(8) as p: comp = p.map(compile_one, sel, chunksize=1)
    for i, text, err in comp:
        u = registry.UNITS[i]
        if err: failures.append((u, None, 'unmatched: ' + err)); continue
        try: MODS[i] = units.load_module(text)
        except Exception as e: failures.append((u, None, 'ir: %r' % (e,)))
    for i in MODS:
        u = registry.UNITS[i]
        for mi, m in enumerate(u.methods):
            if m.fn and m.fn not in MODS[i].funcs: failures.append((u, m.name, 'method missing')); continue
            if m.kw.get('thorough_only') and not thorough: continue
            TASKS.append((i, mi, thorough, 600 if thorough else 240))
    order = sorted(range(len(TASKS)), key=lambda k: -registry.UNITS[TASKS[k][0]].methods[TASKS[k][1]].kw.get('cost', 1))
    results, done = [], set()
    with ctx.Pool(8, maxtasksperchild=20) as p:
        it = p.imap_unordered(run_indexed, order, chunksize=1); end = t0 + (9000 if thorough else 520)
        for _ in order:
            try: k, r = it.next(timeout=max(0.1, end - time.time()))
            except mp.TimeoutError: break
            done.add(k); results.append(r)
        p.terminate()
    results.sort(key=lambda r: (r['ui'], r['method']))
    for k in order:
        if k not in done: failures.append((registry.UNITS[TASKS[k][0]], registry.UNITS[TASKS[k][0]].methods[TASKS[k][1]].name, 'not reached within the time of the check'))
    if '--dump-outcomes' in sys.argv:      # tools/mkexpected.py
        json.dump([[r['unit'], r['method'], r['outcomes'], r['err']] for r in results], open(sys.argv[sys.argv.index('--dump-outcomes') + 1], 'w'))
    expected = load_expected()
    refuted, unknown, obs = [], [], []
    unexplained = {r['ui'] for r in results if r.get('aux')} | {i for i, u in enumerate(registry.UNITS) if any(f[0] is u for f in failures)}
    for r in results:
        u = registry.UNITS[r['ui']]
        if r['err']: failures.append((u, r['method'], r['err']))
        new = r.get('newstate') and r['ui'] in unexplained
        if new:      # the invariants say nothing about this state: a refutation may come from values it never has
            failures.append((u, r['method'], 'depends on member variables the contract does not describe (offsets %s)' % r['newstate']))
        for b in r['bounded']: failures.append((u, r['method'], 'bounded: ' + b))
        for o in r['obs']:
            if not tags_match(o, prop, u): continue
            o['unit'] = u.name; o['method'] = r['method']; o['u'] = u
            obs.append(o)
            if o['status'] == 'refuted' and primary(o, prop, u) and not new: refuted.append(o)
            elif o['status'] != 'proved': unknown.append(o)
        if not r['err']:
            exp = expected.get(u.name, {}).get(r['method'])
            if exp is not None:
                miss = [x for x in exp if x not in r['outcomes']]
                if miss: failures.append((u, r['method'], 'outcome never reached: ' + ','.join(miss)))
    violations, replayinfo = [], []
    import replay_if
    violations, replayinfo = replay_if.decide(prop, tier, seed, refuted, unknown, failures, sel, t0)
    write_evidence(prop, tier, seed, results, obs, refuted, unknown, failures, violations, replayinfo, sel, t0)
    for v in violations:
        print('VIOLATION property=%s replay=%s%s' % (prop, v['path'], '' if v.get('found') else ' no-failing-input-found'))
    und = len(unknown) + len(failures)
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided, %.1fs' % (prop, len(obs), sum(o['status'] == 'proved' for o in obs), len(refuted), und, time.time() - t0))
    for o in (refuted + unknown)[:12]: print('   %s: %s %s: %s' % (o['status'], o['unit'], o['method'], o['name']))
    for u, m, why in failures[:12]: print('   not decided deductively: %s %s: %s' % (u.name, m, why[:300]))
    sys.exit(1 if violations else 0)

def load_expected():
    try: return json.load(open(os.path.join(VERIF, 'vp', 'expected.json')))
    except Exception: return {}

def write_evidence(prop, tier, seed, results, obs, refuted, unknown, failures, violations, replayinfo, sel, t0):
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    contracts = sorted({c for r in results for c in r['contracts']})
    inl = sorted({c for r in results for c in r['inlined']})
    lib = [f for f in inl if 'yamc' in f.split('(')[0]]
    under = sorted({'%s::%s' % (r['unit'], r['method']) for r in results})
    bysolver = {}
    for o in obs:
        if o['status'] == 'proved': bysolver[o['solver']] = bysolver.get(o['solver'], 0) + 1
    und = sorted({(u.name, m or '*', why[:300]) for u, m, why in failures})
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 1), violations=len(violations),
        coverage=dict(obligations=len(obs), discharged=sum(o['status'] == 'proved' for o in obs), refuted=len(refuted), unknown=len(unknown),
            checker_cmd='python3-vt /verif/vp/run.py %s' % prop,
            trusted_base=['clang/opt 18 lowering of the real headers to LLVM IR', 'the IR parser and VC generator in /verif/vp (irparse.py, symex.py, theory.py)', 'z3', 'contracts of external functions: ' + '; '.join(x[:110] for x in contracts)] + sorted({t for i in sel for t in getattr(registry.UNITS[i].spec, 'trusted', ())}),
            discharged_by=bysolver, solver_time_s=round(sum(o['time'] for o in obs), 2),
            obligation_names=sorted({o['name'] for o in obs})[:200],
            functions_under_contract=under, library_functions_verified_inline=[x[:160] for x in lib], paths=sum(r['stats'].get('paths', 0) for r in results),
            solver_queries=sum(r['stats'].get('queries', 0) for r in results),
            not_decided_deductively=[dict(unit=a, method=b, why=c) for a, b, c in und], bounded_replay=replayinfo),
        assumptions=sorted({t for i in sel for t in getattr(registry.UNITS[i].spec, 'assumptions', ())} | set(theory.ASSUMPTIONS)))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__': main()
