"""Applies every planted bug (or the given ids) to a scratch clone of /repo and runs the property's quick check on it."""
import json, os, subprocess, sys, time
R = '/tmp/seedchk'
subprocess.run('rm -rf /tmp/seedchk; git clone -q /repo ' + R, shell=True, check=True)
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
for i in ids:
    p = json.load(open('/verif/seeded/%s/meta.json' % i))['property']
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    subprocess.run(['git', '-C', R, 'apply', '/verif/seeded/%s/patch.diff' % i], check=True)
    t = time.time()
    r = subprocess.run(['timeout', '900', 'python3-vt', 'check.py', p, 'quick'], cwd='/verif', env=dict(os.environ, PSV_REPO=R, VERIF_SEED='1'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print(i, p, 'rc', r.returncode, '%.0fs' % (time.time() - t), (v or ['MISSED' if r.returncode == 0 else r.stdout[-300:]])[0], flush=True)
