"""Makes a planted bug: mkseed.py DEFS.py [id...]  (DEFS.py: S = [dict(id, prop, edits=[(file, old, new)], needs, breaks, prog, expect [, args, files, stdin, demo])]).
Confirms in a scratch copy that it builds, passes the tests, that the demo fails with it and passes without it."""
import os, shutil, subprocess, sys, json, runpy, re
WT = '/tmp/seedwt'
BASE = '9b7bedc'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def ready():
    if os.path.exists(WT):
        sh('git -C %s checkout -q -- . && git -C %s fetch -q /repo main && git -C %s reset -q --hard FETCH_HEAD' % (WT, WT, WT))
    else:
        sh('git clone -q /repo ' + WT)
    build()


def build():
    r = sh('cd %s && cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS=-Wno-error >/dev/null && ninja -C _build -j8' % WT, env=dict(os.environ, CC='gcc', CXX='g++'))
    return r.returncode == 0, r.stdout[-1500:]


DEMO = '''#!/bin/bash
# Runs prog.pseudo in a scratch directory and compares what it writes with expected.txt.
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/_build/PseudoEngine2
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here"/prog.pseudo "$d"/ || exit 2
cd "$d" || exit 2
%s > out.txt 2>&1%s
cat "$d"/out.txt%s | cmp - "$here"/expected.txt
'''


def main():
    defs = runpy.run_path(sys.argv[1])['S']
    want = sys.argv[2:]
    ready()
    for s in defs:
        if want and s['id'] not in want:
            continue
        sh('git -C %s checkout -q -- .' % WT)
        out = '/verif/seeded/' + s['id']
        tmp = '/tmp/seedtmp/' + s['id']
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(tmp + '/prog.pseudo', 'w', newline='').write(s['prog'])
        run = s.get('run', 'timeout 20 "$bin" %s prog.pseudo' % s.get('args', '') + (' < "$here"/input.txt' if 'stdin' in s else ' < /dev/null'))
        demo = s.get('demo') or DEMO % (run, '; echo "exit $?" >> out.txt' if s.get('exit') else '', s.get('post', ''))
        open(tmp + '/demo.sh', 'w').write(demo)
        if 'stdin' in s:
            open(tmp + '/input.txt', 'w').write(s['stdin'])
        open(tmp + '/expected.txt', 'w').write(s['expect'])
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(tmp + '/meta.json', 'w'), indent=1)
        build()
        r0 = sh('bash %s/demo.sh' % tmp, cwd=WT)
        ok = True
        for f, old, new in s['edits']:
            p = WT + '/src/' + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'BAD EDIT', f, t.count(old)); ok = False; break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        diff = sh('git -C %s diff' % WT).stdout
        # removed lines must be original ones
        for f in set(e[0] for e in s['edits']):
            d = sh('git -C %s diff -U0 -- src/%s' % (WT, f)).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', d, re.M):
                a, n = int(m[1]), int(m[2] or 1)
                if n == 0:
                    print(s['id'], 'note: pure insertion'); continue
                b = sh('git -C %s blame -s -L %d,+%d HEAD -- src/%s' % (WT, a, n, f)).stdout
                for l in b.splitlines():
                    if not l.startswith('^' + BASE):
                        print(s['id'], 'NOT ORIGINAL:', l)
        b, log = build()
        if not b:
            print(s['id'], 'BUILD FAILED', log); continue
        sh('rm -f %s/_build/new.txt %s/_build/random.dat' % (WT, WT))
        t = sh('ctest --test-dir _build -j8 --timeout 60', cwd=WT, stdin=subprocess.DEVNULL)
        base = json.load(open('/opt/vp/BASELINE.json'))
        tests = '100% tests passed' in t.stdout or t.stdout
        r1 = sh('bash %s/demo.sh' % tmp, cwd=WT)
        if tests is True and r0.returncode == 0 and r1.returncode != 0:
            os.makedirs(out, exist_ok=True)
            for f in os.listdir(tmp):
                shutil.copy(tmp + '/' + f, out)
            open(out + '/patch.diff', 'w').write(diff)
            print(s['id'], 'kept')
        else:
            print(s['id'], 'REJECTED demo clean', r0.returncode, r0.stdout[-300:], 'demo bug', r1.returncode, r1.stdout[-200:], 'tests', tests if tests is True else tests[-700:])
    sh('git -C %s checkout -q -- .' % WT)


main()
