"""Runs the deductive layer of a property: every function under contract for it, in parallel processes."""
import os, sys, json, time, pickle, importlib, pkgutil, resource, signal, traceback, shutil, tempfile
from . import build

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_WALL, THOROUGH_WALL = 330, 1500


def modules():
    from . import proofs
    return sorted(m.name for m in pkgutil.iter_modules(proofs.__path__) if m.name.startswith('p'))


def targets(prop):
    from .proofs import base
    for m in modules():
        importlib.import_module('psv.proofs.' + m)
    return [t for t in base.REGISTRY if prop in t.props]


def start(prop, tier):
    try:
        ts = targets(prop)
    except ImportError:
        traceback.print_exc()
        return None
    return Run(prop, tier, ts) if ts else None


class Run:
    def __init__(self, prop, tier, ts):
        self.prop, self.tier, self.ts = prop, tier, ts
        self.dir = tempfile.mkdtemp(prefix='ded-', dir=build.scratch())
        self.pid = os.fork()
        if self.pid == 0:
            rc = 1
            try:
                self.prepare()
                rc = 0
            except BaseException:
                open(self.dir + '/error', 'w').write(traceback.format_exc())
            finally:
                os._exit(rc)

    def tasks(self, tasks):
        return tasks

    def prepare(self):
        x = build.verify_inputs()
        pickle.dump(x, open(self.dir + '/inputs', 'wb'))

    def result(self):
        os.waitpid(self.pid, 0)
        reports = {}
        if os.path.exists(self.dir + '/error'):
            why = open(self.dir + '/error').read()
            print('deductive layer: no verification conditions could be generated\n' + why[-1500:])
        else:
            reports = self.verify()
        return self.summary(reports)

    def verify(self):
        from . import ir, world
        from .proofs import base
        path, dem, lay, consts = pickle.load(open(self.dir + '/inputs', 'rb'))
        mod = ir.Module(path)
        L = world.Layout(lay)
        base.names_of(mod, dem)
        end = time.time() + (QUICK_WALL if self.tier != 'thorough' else THOROUGH_WALL)
        todo = sorted(range(len(self.ts)), key=lambda i: -self.ts[i].budget)
        live, out = {}, {}
        n = max(1, build.JOBS)
        while todo or live:
            while todo and len(live) < n and time.time() < end:
                i = todo.pop(0)
                f = '%s/r%d' % (self.dir, i)
                pid = os.fork()
                if pid == 0:
                    try:
                        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                        sys.setrecursionlimit(20000)
                        json.dump(run(self.ts[i], mod, dem, L, consts, self.tier), open(f, 'w'))
                        os.rename(f, f + '.json')
                    except BaseException:
                        open(f + '.err', 'w').write(traceback.format_exc())
                    os._exit(0)
                live[pid] = (i, time.time(), f)
            if todo and time.time() >= end:
                todo = []
            for pid in list(live):
                i, t, f = live[pid]
                p, st = os.waitpid(pid, os.WNOHANG)
                if p:
                    del live[pid]
                    if os.path.exists(f + '.json'):
                        out[i] = json.load(open(f + '.json'))
                    else:
                        why = open(f + '.err').read()[-1200:] if os.path.exists(f + '.err') else 'ended by status %d' % st
                        out[i] = dict(name=self.ts[i].name, fn=self.ts[i].fn or self.ts[i].name, status='undecided', why=why, obligations={}, time=round(time.time() - t, 1))
                elif time.time() - t > 2.5 * self.ts[i].budget + 60 or time.time() > end + 60:
                    os.kill(pid, signal.SIGKILL)
            time.sleep(.02)
        return out

    def summary(self, reports):
        fns, failed, open_, bounded = [], [], [], []
        nob = ndis = 0
        solver = 0.0
        contracts, inlined = set(), set()
        for i, t in enumerate(self.ts):
            r = reports.get(i) or dict(name=t.name, fn=t.fn or t.name, status='undecided', why='not run within the time limit', obligations={})
            o = r['obligations']
            n = sum(x['n'] for x in o.values())
            d = sum(x['discharged'] for x in o.values())
            nob += n
            ndis += d
            solver += r.get('solver', 0)
            contracts |= set(r.get('contracts', ()))
            inlined |= set(r.get('inlined', ()))
            e = {'function': t.fn or t.name, 'obligations': n, 'discharged': d, 'paths': r.get('paths', 0), 'time_s': r.get('time', 0), 'status': 'proved' if r['status'] == 'ok' and n == d else 'not proved'}
            for k, x in o.items():
                if x['refuted']:
                    failed.append({'name': '%s: %s' % (t.name, k), 'function': t.fn or t.name, 'detail': x['detail'], 'how': 'unbounded'})
                elif x['undecided']:
                    open_.append('%s: %s (%s)' % (t.name, k, str(x['detail']).split('\n')[0][:120]))
            if r['status'] != 'ok':
                e['why'] = str(r.get('why'))[:300]
                open_.append('%s: %s' % (t.name, e['why']))
            b = r.get('bounded')
            if b:
                e['bounded'] = {'unrolling': b['unroll'], 'obligations': sum(x['n'] for x in b['obligations'].values()), 'discharged': sum(x['discharged'] for x in b['obligations'].values()), 'status': b['status']}
                bounded.append(t.name)
                for k, x in b['obligations'].items():
                    if x['refuted'] and not o.get(k, {}).get('refuted'):
                        failed.append({'name': '%s: %s' % (t.name, k), 'function': t.fn or t.name, 'detail': x['detail'], 'how': 'loops unrolled %d times' % b['unroll']})
            if t.note:
                e['note'] = t.note
            fns.append(e)
        proved = [f for f in fns if f['status'] == 'proved']
        cov = {'obligations': nob, 'discharged': ndis, 'functions': fns, 'functions_proved': len(proved), 'functions_under_contract': len(fns), 'not_proved': open_,
               'bounded_stand_ins': bounded, 'solver_s': round(solver, 1),
               'checker_cmd': 'python3-vt check.py %s %s   (psv/verify.py: verification conditions from the LLVM IR of /repo, decided by z3 5.3.2, cvc5 1.1.2 for the conditions z3 gives up on)' % (self.prop, self.tier),
               'verified_inline': sorted(inlined)[:400],
               'trusted_base': sorted('contract: ' + c for c in contracts)[:400] + ['clang 18 (C++ to LLVM IR, sroa and simplifycfg), the verification condition generator psv/exec.py, the library contracts psv/lib.py, the world model psv/world.py, z3, cvc5']}
        assumptions = ['objects reached from the arguments of a function under contract are well-formed instances of their declared class and do not overlap unless their type allows it',
                       'functions listed as contract: are used through their contract; those of the standard library are assumed, those of /repo are shown by their own target',
                       'integer arithmetic is machine arithmetic (two\'s complement, 64 bit), REAL is IEEE double with rounding to nearest; libm functions are uninterpreted',
                       'allocation does not fail; strings and vectors are shorter than 2^40']
        return {'failed': failed, 'coverage': cov, 'assumptions': assumptions, 'level': 'proof' if proved else 'exploration'}


# obligations that speak of ghost functions whose definition only the loop rule supplies: a bounded run does not refute them
PARAMS = {'another result', 'what is converted is an argument', 'to the variable of its argument'}
LOOSE = {'CallNode::evaluate': PARAMS, 'FunctionCallNode::evaluate': PARAMS, 'PSC::Array::init': None, 'BuiltinFnIsNum::run': None, 'PSC::String::dump': None}


def run(t, mod, dem, L, consts, tier):
    from .proofs import base
    r = base.run_target(t, mod, dem, L, consts)
    und = r['status'] != 'ok' or any(x['undecided'] for x in r['obligations'].values())
    if und and not any(x['refuted'] for x in r['obligations'].values()):
        k = t.bounded or 3
        b = base.run_target(t, mod, dem, L, consts, unroll=k)
        b['unroll'] = k
        for x, o in b['obligations'].items():
            if t.name in LOOSE and (LOOSE[t.name] is None or x in LOOSE[t.name]):
                o['undecided'] += o['refuted']
                o['refuted'] = 0
        r['bounded'] = {x: b[x] for x in ('unroll', 'status', 'obligations', 'paths', 'time')}
        r['bounded']['why'] = b.get('why')
    r.pop('trace', None)
    return r


def write_replay(prop, res, had_viol):
    d = os.path.join(HERE, 'evidence', 'replay', prop)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, 'obligations.txt')
    t = ['property %s: obligations the verifier refuted' % prop, '' if had_viol else 'no failing input was found by the bounded layer', '']
    for f in res['failed']:
        t += ['obligation: ' + f['name'], 'function:   ' + f['function'], 'how:        ' + f['how'], str(f['detail']), '']
    open(path, 'w').write('\n'.join(t))
    return path
