"""Decision: which failed obligations are reported, and the replay of the real code that looks for a failing input.

refuted (a counterexample to an obligation of the property)  -> VIOLATION; replayed on the real code, marked no-failing-input-found when the replay has none
unknown / unsupported / unmatched (the verifier did not decide) -> the bounded replay alone decides: VIOLATION only with a failing input
"""
import os, re, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
import units, replay_map, registry
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(VERIF, 'replay')
TOTAL = 700          # a check gets 900 s
UNDECIDED = 500

def sh(cmd, timeout):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, start_new_session=True)
    try: o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, 9)
        except OSError: pass
        o, e = p.communicate(); return 124, o.decode('latin-1'), e.decode('latin-1')
    return p.returncode, o.decode('latin-1'), e.decode('latin-1')

def build(d, i, src, defs):
    exe = os.path.join(d, 'h%d' % i)
    base = ['clang++', '-std=c++14', '-g', '-w', '-fno-access-control', '-I' + units.INC, '-I' + REPLAY, '-I' + os.path.join(VERIF, 'drivers', 'stubs')] + list(defs)
    path = os.path.join(REPLAY, src)
    if src in replay_map.ENGINE:
        rc, o, e = sh(base + ['-O1', '-DNDEBUG', '-fsanitize=thread', '-c', path, '-o', exe + '.o'], 200)
        if rc == 0: rc, o, e = sh(['clang++', exe + '.o', os.path.join(d, 'engine.o'), '-o', exe, '-pthread'], 100)
    elif src == 'spinback.cpp':
        rc, o, e = sh(base + ['-O1', '-fsanitize=thread', '-c', path, '-o', exe + '.o'], 200)
        if rc == 0: rc, o, e = sh(['clang++', exe + '.o', '-o', exe, '-pthread'], 100)
    elif src == 'wrap.cpp': rc, o, e = sh(base + ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', path, '-o', exe, '-pthread'], 200)
    else: rc, o, e = sh(base + ["-O1"] + (["-DNDEBUG"] if src == "bulk.cpp" else []) + [path, '-o', exe, '-pthread', '-ldl'], 200)
    return (exe, '') if rc == 0 else (None, e[-600:])

def replay(prop, us, seed, budget, t_end, rounds=1):
    """runs the harnesses of the given units against the headers in the working tree; returns [(unit, configuration, outcome, text)]"""
    jobs, seen = [], set()
    for u in us:
        for src, defs in replay_map.config(u, prop):
            if (src, tuple(defs)) in seen: continue
            seen.add((src, tuple(defs))); jobs.append((u, src, defs))
    if not jobs: return []
    d = tempfile.mkdtemp(prefix='vprep')
    try:
        if any(s in replay_map.ENGINE for _, s, _ in jobs):
            sh(['clang++', '-std=c++17', '-O1', '-g', '-c', os.path.join(REPLAY, 'engine.cpp'), '-o', os.path.join(d, 'engine.o')], 200)
        with ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda k: build(d, k, jobs[k][1], jobs[k][2]), range(len(jobs))))
            n = max(1, sum(1 for b in built if b[0]))
            res = {}
            for rnd in range(rounds):
                left = t_end - time.time()
                if rnd and left < 40: break
                b = budget * (1, 3, 5)[min(rnd, 2)]; waves = (n + 7) // 8
                secs = max(2.0, min(b, max(20.0, left) * 0.8 / waves))
                stop = []
                def run(k):
                    u, src, defs = jobs[k]
                    if not built[k][0]: return u, src, 'does not build', built[k][1], 0
                    if stop: return u, src, 'not run', 'another configuration already failed', 0
                    if time.time() > t_end: return u, src, 'not run', 'time', 0
                    rc, o, e = sh([built[k][0], prop, '%.1f' % secs, str(seed + rnd)], secs * 2 + 60)
                    m = re.search(r'^FOUND$', o, re.M)
                    if m: stop.append(1); return u, src, 'failing input', o[m.end() + 1:], secs
                    if src == 'wrap.cpp' and rc != 0 and ('Sanitizer' in e or 'runtime error' in e): stop.append(1); return u, src, 'failing input', e[:4000], secs
                    return u, src, ('no failing input' if re.search(r'^NONE', o, re.M) else 'no answer (exit %s)' % rc), o[-200:], secs
                for k, r in enumerate(ex.map(run, range(len(jobs)))):
                    old = res.get(k)
                    if old is None or r[2] != 'not run': res[k] = r if old is None else r[:4] + (old[4] + r[4],)
                if stop: break
            return [res[k][:4] + (round(res[k][4], 1),) for k in range(len(jobs))]
    finally: shutil.rmtree(d, ignore_errors=True)

def decide(prop, tier, seed, refuted, unknown, failures, sel, t0):
    thorough = tier == 'thorough'
    why = {}
    for o in refuted + unknown: why.setdefault(o['unit'], []).append('%s of %s: %s [%s]' % (o['status'], o['method'], o['name'], o['path'][-300:]) + ('\n      counterexample: ' + o['detail'][:700] if o['status'] == 'refuted' and o['detail'] else ''))
    for u, m, w in failures: why.setdefault(u.name, []).append('not decided deductively: %s: %s' % (m or 'the unit', w[:500]))
    us = [u for u in registry.UNITS if u.name in why]
    cross = not us and thorough                       # thorough tier: a bounded cross-check of every unit, never counted as proof
    if cross: us = [registry.UNITS[i] for i in sel]
    if not us: return [], []
    first = {o['unit'] for o in refuted}
    us.sort(key=lambda u: u.name not in first)
    # with a refuted obligation the search for an input goes on in longer rounds; without one a single longer round is added
    res = replay(prop, us, seed, 60 if thorough else 30, t0 + (3000 if thorough else TOTAL if refuted else UNDECIDED), 1 if cross else 3 if refuted else 2)
    info = [dict(unit=u.name, harness='replay/' + src, bounded=True, seconds=s, outcome=r) for u, src, r, t, s in res]
    hits = [(u, src, t) for u, src, r, t, s in res if r == 'failing input']
    out = []
    if hits or refuted:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', 'replay_%s.txt' % prop)
        with open(p, 'w') as f:
            f.write('property %s\n\n' % prop)
            for n in sorted(why, key=lambda n: n not in first):
                for w in why[n][:20]: f.write('FAILED OBLIGATION  %s: %s\n' % (n, w))
            for u, src, t in hits: f.write('\nFAILING INPUT on the real code, %s (harness replay/%s %s, seed %s):\n%s\n' % (u.name, src, ' '.join(dict(replay_map.config(u, prop)).get(src, [])), seed, t[:20000]))
            if not hits: f.write('\nno failing input found within the bounded replay: %s\n' % ', '.join('%s: %s' % (u.name, r) for u, src, r, t, s in res))
        out.append(dict(path=p, found=bool(hits)))
    return out, info
