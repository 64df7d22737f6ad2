#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]

Decides one property on /repo's current working tree: exit 0, or exit 1 and a line VIOLATION property=<id> replay=<path>.
1. psv.verify: the functions of the property under contract, executed symbolically over the LLVM IR of the working tree,
   every obligation decided by the solver (deductive, no bound).
2. psv.props.<id>: programs run through the interpreter built from the working tree (bounded; also the replay of 1.)."""
import os, sys, time, json, importlib, traceback, threading
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from psv import build, harness

QUICK_SECONDS = 20
THOROUGH_SECONDS = 480


def known(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    for l in open(p, encoding='utf8') if os.path.exists(p) else ():
        l = l.strip()
        if l.startswith('KNOWN-FINDING: property=%s ' % prop):
            out.append(l)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    mod = importlib.import_module('psv.props.' + prop.lower())
    try:
        from psv import verify
    except ImportError:
        verify = None
    ded = verify.start(prop, tier) if verify else None
    tasks = mod.tasks(tier)
    seconds = float(os.environ.get('PSV_SECONDS', QUICK_SECONDS if tier == 'quick' else THOROUGH_SECONDS))
    if ded:
        # the programs a failed obligation suggests are run first
        tasks = ded.tasks(tasks)
    stats, viol = harness.run_tasks(tasks, seconds, seed)
    for l in known(prop):
        print(l)
    lines = []
    if viol:
        viol.sort(key=lambda v: sum(len(b) for b in v[3].values()) + sum(len(s) for a, s in v[4]))
        path = harness.write_replay(prop, 0, viol[0])
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s: %s' % (viol[0][0], viol[0][1]))
    res = ded.result() if ded else None
    if res and res['failed']:
        path = verify.write_replay(prop, res, bool(viol))
        for f in res['failed'][:10]:
            print('failed obligation: ' + f['name'])
        if not viol:
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    cases = sum(s['cases'] for s in stats.values())
    cov = {
        'evaluations': cases,
        'distinct_nontrivial': sum(s['distinct'] for s in stats.values()),
        'rule': 'bounded layer: programs made by the tasks below (each case counts the programs, entries or statements it packs); distinct by program text, arguments and input (per worker process); non-trivial: the run printed something; programs the reference does not define are skipped and not counted',
        'samples': samples(tasks, seed),
        'bounded_tasks': {n: {k: v for k, v in s.items() if k in ('cases', 'skipped', 'complete', 'bound', 'exhaustive', 'build', 'inconclusive')} for n, s in stats.items()},
    }
    level = 'exploration'
    assumptions = ['clang++-18/g++ compile the working tree faithfully', 'the reference (psv/ref.py) states the documented behaviour', 'bounded tasks cover only what their bound says']
    if res:
        level = 'proof' if res['level'] == 'proof' else 'exploration'
        cov.update(res['coverage'])
        assumptions += res['assumptions']
    json.dump({'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
               'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + (len(res['failed']) if res else 0)}, open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
    tot = '' if not res else ', %d of %d obligations discharged (%d functions)' % (res['coverage']['discharged'], res['coverage']['obligations'], len(res['coverage']['functions']))
    print('%s %s: %d programs%s, %.0f s' % (prop, tier, cases, tot, time.time() - t0))
    for l in lines[:1]:
        print(l)
    return 1 if lines else 0


def samples(tasks, seed):
    import random
    out = []
    for t in tasks[:3]:
        try:
            rng = random.Random(seed)
            for i, it in enumerate(t.items(rng)):
                x = t.make(it, rng)
                if x:
                    c = x.case
                    out.append({'task': t.name, 'program': c.files.get('p.pseudo', b'').decode('latin1')[:1500], 'stdin': c.runs[0].stdin.decode('latin1')[:1500]})
                    break
                if i > 20:
                    break
        except Exception:
            pass
    return out


if __name__ == '__main__':
    sys.stdout.reconfigure(errors='backslashreplace')
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.exit(rc)
