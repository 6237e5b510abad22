#!/usr/bin/env python3
"""developer tool: builds /verif/seeded/<id> from a spec file and confirms it in a scratch copy of /repo.
spec: python file defining SEEDS = [dict(id, prop, file, edits=[(old, new, nth)], demo=C++ text, flags='', needs, breaks)]"""
import sys, os, json, shutil, subprocess, tempfile
def sh(cmd, cwd, t=1200): return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = [a for a in sys.argv[2:] if a != '-n']
for s in ns['SEEDS']:
    if only and s['id'] not in only: continue
    D = '/verif/seeded/' + s['id']; os.makedirs(D, exist_ok=True)
    open(D + '/demo.cpp', 'w').write(s['demo'])
    shutil.copy('/tmp/sb/demo_util.hpp', D)
    for f, t in s.get('extra', {}).items(): os.makedirs(os.path.dirname(D + '/' + f), exist_ok=True); open(D + '/' + f, 'w').write(t)
    if 'interp.hpp' in s['demo']: shutil.copy('/tmp/sb/interp.hpp', D)
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run in the root of the repository; exit 0: behaves, non-zero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp) || exit 2
trap 'unlink "$tmp"' EXIT
%s -Iinclude -I"$here" %s "$here/demo.cpp" -o "$tmp" -pthread -ldl || exit 2
%stimeout -k 5 %d "$tmp"
''' % (s.get('cxx', 'g++ -std=c++14 -O1 -g'), s.get('flags', ''), s.get('pre', ''), s.get('timeout', 60)))
    W = tempfile.mkdtemp(prefix='seed'); R = W + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', R], check=True)
    p = R + '/include/' + s['file'] if 'file' in s else None
    ed = s['edits']
    for e in ed:
        f, old, new = (e[0], e[1], e[2]) if len(e) > 2 and isinstance(e[2], str) else (s['file'], e[0], e[1])
        nth = e[-1] if isinstance(e[-1], int) else 0
        q = R + '/include/' + f; t = open(q).read(); k = -1
        for _ in range(nth + 1): k = t.index(old, k + 1)
        open(q, 'w').write(t[:k] + new + t[k + len(old):])
    diff = sh('git diff', R).stdout; open(D + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(D + '/meta.json', 'w'), indent=1)
    bad = []
    base = '/repo'
    r0 = sh('bash %s/demo.sh' % D, base)
    if r0.returncode: bad.append('demo fails on the unchanged tree: ' + (r0.stdout + r0.stderr)[-400:])
    r1 = sh('bash %s/demo.sh' % D, R)
    if r1.returncode == 0 or r1.returncode == 2: bad.append('demo does not fail with the change: %d %s' % (r1.returncode, (r1.stdout + r1.stderr)[-600:]))
    # existing tests in the scratch copy
    if not bad and '-n' not in sys.argv:
        sh('git -C /repo apply %s/patch.diff' % D, '/')
        try:
            t = sh('bash /opt/vp/test.sh %s/out.json' % W, '/')
            try:
                o = json.load(open(W + '/out.json')); b = json.load(open('/opt/vp/BASELINE.json'))
                base_ids = set(b['pass'] if 'pass' in b else b.get('stable', b.get('passed', [])))
                failed = sorted(base_ids - set(o.get('passed', o.get('pass', []))))
                if failed: bad.append('tests fail: %d e.g. %s' % (len(failed), failed[:6]))
            except Exception as ex: bad.append('tests: %r %s' % (ex, t.stdout[-500:]))
        finally: sh('git -C /repo checkout -- .', '/')
    print(s['id'], 'OK' if not bad else 'BAD ' + '; '.join(bad), '|', r1.stdout.strip()[-150:], flush=True)
    shutil.rmtree(W)
