"""seedrun.py [ids...]: applies each planted bug in /verif/seeded to a scratch clone of /repo and runs its property's check there."""
import sys, os, subprocess, json, glob, time, shutil
R = '/tmp/seedrun_repo'
pats = sys.argv[1:]
for sd in sorted(glob.glob('/verif/seeded/*/')):
    i = os.path.basename(sd[:-1])
    if pats and not any(i.startswith(p) for p in pats): continue
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run('git clone -q /repo %s && cd %s && git apply %spatch.diff' % (R, R, sd), shell=True, check=True)
    prop = json.load(open(sd + 'meta.json'))['property']
    t = time.time()
    r = subprocess.run(['nice', '-n', '10', 'python3-vt', '/verif/vp/run.py', prop], capture_output=True, text=True, env=dict(os.environ, VP_REPO=R))
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print('%-45s %s rc=%d %4.0fs %s' % (i, prop, r.returncode, time.time() - t, v[0] if v else 'NOT CAUGHT'))
    for l in r.stdout.split('\n'):
        if l and not l.startswith('VIOLATION'): print('      ' + l[:220])
    sys.stdout.flush()
shutil.rmtree(R, ignore_errors=True)
