#!/usr/bin/env python3-vt
"""writes vp/expected.json: the outcomes of every operation that the symbolic execution reaches on the current tree (vacuity guard of run.py).
Outcomes are the same for every property a unit belongs to; only those common to all of them are kept."""
import json, os, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'); out = {}
P = os.path.join(V, 'vp', 'expected.json')
if os.path.exists(P): os.unlink(P)
f = tempfile.mktemp()
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    r = subprocess.run(['python3-vt', os.path.join(V, 'vp', 'run.py'), p, '--dump-outcomes', f], capture_output=True, text=True)
    assert r.returncode == 0, r.stdout
    for u, m, o, e in json.load(open(f)):
        assert not e, (u, m, e)
        d = out.setdefault(u, {}); d[m] = sorted(set(o) & set(d.get(m, o)))
        if set(o) != set(d[m]): print('differs', p, u, m, o, d[m])
os.unlink(f); json.dump(out, open(P, 'w'), indent=0, sort_keys=True)
print(len(out), 'units,', sum(map(len, out.values())), 'methods')
