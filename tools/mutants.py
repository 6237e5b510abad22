#!/usr/bin/env python3-vt
"""developer tool: apply small source mutations to a scratch copy of /repo/include and show which obligations fail.
mutants.py FILE.json [filter]   FILE.json: list of {"f": header, "old": text, "new": text, "n": occurrence (default 0), "u": unit name filter, "m": method filter}"""
import sys, os, json, shutil, subprocess, tempfile
sys.path.insert(0, __import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)), '..', 'vp')); sys.setrecursionlimit(20000)
import multiprocessing as mp
def go(a):
    i, un, mn, repo = a
    import units, dev
    units.REPO = repo; units.INC = repo + '/include'
    u = [u for u in units.all_units() if u.name == un][0]; m = [m for m in u.methods if m.name == mn][0]
    try: ex, err, dt = dev.run_one(u, m)
    except units.Unmatched as e: return i, un, mn, [], 'UNMATCHED ' + str(e)[-300:], []
    except Exception as e: return i, un, mn, [], repr(e), []
    return i, un, mn, [(o.status, o.name, sorted(o.tags)) for o in ex.obs if o.status != 'proved'], err, sorted(map(str, ex.bounded))
if __name__ == '__main__':
    import units
    L = json.load(open(sys.argv[1])); tasks = []; tmp = tempfile.mkdtemp(prefix='mut')
    for i, x in enumerate(L):
        if len(sys.argv) > 2 and sys.argv[2] not in json.dumps(x): continue
        r = '%s/%d' % (tmp, i); shutil.copytree(os.environ.get('VP_REPO', '/repo') + '/include', r + '/include')
        p = r + '/include/' + x['f']; s = open(p).read()
        for e in x.get('edits') or [(x['old'], x['new'], x.get('n', 0))]:   # occurrence -1: all
            if len(e) > 2 and e[2] == -1: assert e[0] in s, e; s = s.replace(e[0], e[1]); continue
            k = -1
            for _ in range((e[2] if len(e) > 2 else 0) + 1): k = s.index(e[0], k + 1)
            s = s[:k] + e[1] + s[k + len(e[0]):]
        open(p, 'w').write(s)
        for u in units.all_units():
            if x['u'] in u.name:
                for m in u.methods:
                    if x.get('m', '') in m.name and not (m.kw.get('thorough_only')): tasks.append((i, u.name, m.name, r))
    res = {}
    with mp.Pool(8, maxtasksperchild=1) as p:
        for r in p.imap_unordered(go, tasks, chunksize=1): res.setdefault(r[0], []).append(r)
    for i in sorted(res):
        x = L[i]; print('== %d %s: %s' % (i, x['f'], x['id'] if 'id' in x else '%r -> %r' % (x['old'], x['new'])), flush=True)
        any_ = False
        for r in sorted(res[i]):
            if r[3] or r[4] or r[5]:
                any_ = True
                print('   ', r[1], r[2], (r[4] or '')[:200], r[5] or '')
                for o in r[3][:5]: print('        ', *o)
        if not any_: print('    SURVIVED')
    shutil.rmtree(tmp)
