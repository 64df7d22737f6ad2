"""Replay / bounded layer: runs generated programs through the interpreter built from the working tree and compares
with the reference.  A task enumerates cheap items; make(item, rng) turns one into a Test (or None)."""
import os, re, sys, time, signal, json, random, shutil, traceback, multiprocessing as mp
from . import build, ref, lang
from .run import Case, Run, Worker

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUDGET = 'Execution budget exhausted'
FRAME = re.compile(r'^(.*), line (-?\d+), column (-?\d+)$')


class Test:
    __slots__ = ('case', 'check', 'n')

    def __init__(self, case, check, n=1):
        self.case, self.check, self.n = case, check, n


class Task:
    """items: function(rng) -> iterator; exhaustive tasks run completely, others until the time is used"""

    def __init__(self, name, items, make, exhaustive=True, kind='plain', weight=1.0, bound=''):
        self.name, self.items, self.make, self.exhaustive, self.kind, self.weight, self.bound = name, items, make, exhaustive, kind, weight, bound


def seeds(rng):
    while True:
        yield rng.getrandbits(48)


def frames_of(err):
    """traceback of the last runtime error in a stderr text"""
    i = err.rfind('Traceback:\n')
    if i < 0:
        return None
    fr = []
    for l in err[i + 11:].split('\n'):
        m = FRAME.match(l)
        if not m:
            break
        fr.append((m.group(1), int(m.group(2)), int(m.group(3))))
    return fr


def diag(err):
    if err.startswith('Runtime Error') or '\nRuntime Error' in err:
        return 'runtime'
    if err.startswith('Syntax Error') or '\nSyntax Error' in err:
        return 'syntax'
    if err.startswith('Error(pedantic)') or '\nError(pedantic)' in err:
        return 'pedantic'
    return None


def same_frames(got, want):
    return len(got) == len(want) and all(n == m and (l in k if isinstance(k, tuple) else l == k) for (n, l, c), (m, k) in zip(got, want))


def compare(o, res):
    """ref Out against a Res of a file run -> None or what differs"""
    out, err = res.out.decode('latin1'), res.err.decode('latin1')
    if res.crashed():
        return 'crash: ' + res.status()
    if res.kind == 2:
        return 'timeout'
    want = o.text()
    if BUDGET in err and o.kind is None:
        return 'does not terminate within the budget'
    if out != want:
        return 'output differs'
    if o.kind is None:
        if res.code != 0:
            return 'exit status %d, expected success' % res.code
        if err:
            return 'diagnostic printed by a program that succeeds'
        return None
    if res.code != 1:
        return 'exit status %d, expected 1 (%s)' % (res.code, o.why)
    if o.kind == 'pedantic':
        return None if diag(err) == 'pedantic' else 'no pedantic error'
    if diag(err) != 'runtime':
        return 'no runtime error (%s)' % o.why
    fr = frames_of(err)
    if fr is None or not same_frames(fr, o.frames):
        return 'traceback %r, expected %r' % (fr, o.frames)
    return None


def describe_expect(o):
    s = 'stdout:\n' + o.text() + '\n'
    s += 'ends: ' + ('exit 0' if o.kind is None else 'exit 1, %s error (%s) frames %r' % (o.kind, o.why, o.frames)) + '\n'
    return s


def test(block, stdin='', files=None, disk=None, text_out=True, args=('p.pseudo',), asan=False, printer=None, **kw):
    """Test of one program against the reference.  files: initial text files (also the reference's disk)."""
    src = lang.show(block, printer)
    d = dict(disk or {})
    d.update({k: v for k, v in (files or {}).items()})
    try:
        o = ref.run(block, d, stdin, **kw)
    except ref.Unknown:
        return None
    c = Case(src, files=files, runs=[Run(args=args, stdin=stdin)], dump=bool(d))

    def check(rs, fs):
        r = compare(o, rs[0])
        if r:
            return r, describe_expect(o)
        if text_out:
            for k, v in d.items():
                if isinstance(v, str):
                    got = fs.get(k)
                    if got is None or got.decode('latin1') != v:
                        return 'content of file %r' % k, 'expected %r' % v
                elif isinstance(v, list) and k not in fs:
                    return 'file %r missing' % k, ''
        return None
    return Test(c, check)


class Slow(BaseException):
    pass


def _slow(*a):
    raise Slow()


def _shard(k, n, tasks, seed, deadline, bins, q, stopflag):
    stats = {}
    ws = {}
    signal.signal(signal.SIGALRM, _slow)
    sys.setrecursionlimit(60000)
    try:
        viol = []
        total = sum(t.weight for t in tasks if not t.exhaustive) or 1
        order = [t for t in tasks if t.exhaustive] + [t for t in tasks if not t.exhaustive]

        def worker(kind):
            if kind not in ws:
                ws[kind] = Worker(bins[kind], os.path.join(build.scratch(), 'w_%s_%d' % (kind, k)))
            return ws[kind]
        for ti, t in enumerate(order):
            st = stats[t.name] = {'cases': 0, 'skipped': 0, 'complete': True, 'inconclusive': 0, 'distinct': 0}
            seen = set()
            rng = random.Random('%s/%s/%d' % (seed, t.name, k))
            items = t.items(random.Random('%s/%s' % (seed, t.name)) if t.exhaustive else rng)
            now = time.time()
            if t.exhaustive:
                end = deadline
            else:
                rest = sum(x.weight for x in order[ti:] if not x.exhaustive)
                end = now + max(0.0, deadline - now) * t.weight / rest
                st['complete'] = None
            t0 = time.time()
            for i, item in enumerate(items):
                if t.exhaustive and i % n != k:
                    continue
                if time.time() > end or stopflag.value >= 6:
                    if t.exhaustive:
                        st['complete'] = False
                    break
                try:
                    signal.alarm(20)
                    x = t.make(item, rng)
                except Slow:
                    x = None
                finally:
                    signal.alarm(0)
                if x is None:
                    st['skipped'] += 1
                    continue
                rs, fs = worker(t.kind).one(x.case)
                st['cases'] += x.n
                h = hash((x.case.files.get('p.pseudo'), tuple((y.args, y.stdin) for y in x.case.runs)))
                if h not in seen and any(y.out or y.err for y in rs):
                    st['distinct'] += x.n
                if len(seen) < 400000:
                    seen.add(h)
                r = x.check(rs, fs)
                if r and any(y.kind == 2 for y in rs):
                    for run in x.case.runs:
                        run.tmo = 20000
                    rs, fs = worker(t.kind).one(x.case)
                    r = x.check(rs, fs)
                    if r and any(y.kind == 2 for y in rs) and 'timeout' not in str(r):
                        r = None
                        st['inconclusive'] += 1
                if r:
                    why, exp = r if isinstance(r, tuple) else (r, '')
                    with stopflag.get_lock():
                        stopflag.value += 1
                    viol.append((t.name, why, exp, dict(x.case.files), [(y.args, y.stdin) for y in x.case.runs],
                                 [(y.status(), y.out, y.err) for y in rs], t.kind))
            st['t'] = time.time() - t0
        q.put((stats, viol, None))
    except BaseException:
        q.put((stats, [], traceback.format_exc()))
    for w in ws.values():
        w.close()


def run_tasks(tasks, seconds, seed=1, procs=None):
    """-> (stats per task, violations)"""
    kinds = sorted({t.kind for t in tasks})
    bins = {}
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        for kd, b in zip(kinds, ex.map(build.binary, kinds)):
            bins[kd] = b
    ref.ECHO = build.READLINE
    n = procs or build.JOBS
    deadline = time.time() + seconds
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    flag = ctx.Value('i', 0)
    ps = [ctx.Process(target=_shard, args=(k, n, tasks, seed, deadline, bins, q, flag)) for k in range(n)]
    for p in ps:
        p.start()
    stats, viol = {}, []
    for _ in ps:
        s, v, e = q.get()
        if e:
            raise RuntimeError('harness: ' + e)
        viol += v
        for name, d in s.items():
            a = stats.setdefault(name, {'cases': 0, 'skipped': 0, 'complete': d['complete'], 'inconclusive': 0, 'distinct': 0})
            a['cases'] += d['cases']
            a['t'] = max(a.get('t', 0), d.get('t', 0))
            a['skipped'] += d['skipped']
            a['distinct'] += d['distinct']
            a['inconclusive'] += d['inconclusive']
            if d['complete'] is False:
                a['complete'] = False
    for p in ps:
        p.join()
    for t in tasks:
        if t.name in stats:
            stats[t.name]['bound'] = t.bound
            stats[t.name]['exhaustive'] = t.exhaustive
            stats[t.name]['build'] = t.kind
    return stats, viol


def write_replay(prop, i, v):
    """a directory with the failing program and its files; replay.txt tells what was expected and what happened"""
    name, why, exp, files, runs, res, kind = v
    d = os.path.join(HERE, 'evidence', 'replay', prop, str(i))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for k, b in files.items():
        if '/' not in k and k not in ('.', '..'):
            open(os.path.join(d, k), 'wb').write(b)
    t = ['property %s, task %s (%s build)' % (prop, name, kind), 'violation: ' + why, '']
    for (args, stdin), (st, out, err) in zip(runs, res):
        t.append('run: PseudoEngine2 %s   (in this directory)' % ' '.join(args))
        if stdin:
            t.append('stdin: %r' % stdin)
        t += ['status: ' + st, 'stdout: %r' % out, 'stderr: %r' % err, '']
    t += ['expected:', exp]
    if 'p.pseudo' in files:
        t += ['program:', files['p.pseudo'].decode('latin1')]
    path = os.path.join(d, 'replay.txt')
    open(path, 'w').write('\n'.join(t))
    return path


MULTI = ('if', 'case', 'while', 'repeat', 'for', 'proc', 'func')


class Entry:
    """one REPL entry: a block of statements (normally one), or text that is a syntax error"""
    __slots__ = ('block', 'text', 'inputs')

    def __init__(self, block=None, text=None, inputs=()):
        self.block = [block] if isinstance(block, lang.S) else block
        self.text, self.inputs = text, list(inputs)


def ismulti(b):
    s = b[0]
    return s.k in MULTI or s.k == 'type' and hasattr(s, 'rec')


class Session:
    """expected behaviour of a REPL session, by the reference"""

    def __init__(self, disk=None, **kw):
        self.disk = disk if disk is not None else {}
        self.kw = kw
        self.r = ref.Ref(self.disk, [], repl=True, **kw)
        self.lines, self.out, self.kinds = [], [], []

    def add(self, e):
        """-> True: completed, False: failed"""
        r = self.r
        if e.block is None:
            ls = e.text.split('\n')
            self.prompts(ls)
            self.lines += ls
            self.out.append('\n')
            self.kinds.append(('syntax', None))
            return False
        l = lang.Layout()
        l.block(e.block)
        ls = l.lines + ([''] if ismulti(e.block) else [])
        self.prompts(ls)
        self.lines += ls + e.inputs
        r.lines, r.pos = e.inputs, 0
        r.o = ref.Out()
        try:
            ok = r.guarded(e.block)
        except RecursionError:
            raise ref.Unknown('recursion')
        if r.pos != len(e.inputs):
            raise ref.Unknown('inputs')
        self.out.append(r.o.text())
        if not ok:
            self.out.append('\n')
            self.kinds.append((r.o.kind, list(r.o.frames or [])))
        return ok

    def auto(self, block, pool):
        """like add, the entry reading as many lines of the pool as it needs"""
        b = [block] if isinstance(block, lang.S) else block
        r = self.r
        l = lang.Layout()
        l.block(b)
        ls = l.lines + ([''] if ismulti(b) else [])
        self.prompts(ls)
        r.lines, r.pos = list(pool), 0
        r.o = ref.Out()
        try:
            ok = r.guarded(b)
        except RecursionError:
            raise ref.Unknown('recursion')
        if r.pos >= len(pool):
            raise ref.Unknown('inputs')
        self.lines += ls + list(pool)[:r.pos]
        del pool[:r.pos]
        self.out.append(r.o.text())
        if not ok:
            self.out.append('\n')
            self.kinds.append((r.o.kind, list(r.o.frames or [])))
        return ok

    def plain(self, line, out=''):
        """an entry with fixed output and no effect"""
        self.prompts([line])
        self.lines.append(line)
        self.out.append(out)

    def runfile(self, name, block, pool=(), spaces=' ', text=None):
        """RUNFILE of a program stored in a file; it shares nothing with the session but the disk and the input"""
        line = 'RUNFILE' + spaces + name
        self.prompts([line])
        self.lines.append(line)
        self.out.append("==> Running file '%s'\n" % name)
        if block is None:
            if text is not None:
                self.out.append('\n')
                self.kinds.append(('syntax', None))
            self.out.append('\n==> Program exited with an error\n')
            return
        q = ref.Ref(self.disk, list(pool), **self.kw)
        try:
            ok = q.guarded(block)
        except RecursionError:
            raise ref.Unknown('recursion')
        if q.pos > len(pool) or q.pos == len(pool) and pool:
            raise ref.Unknown('inputs')
        q.finish()
        self.lines += list(pool)[:q.pos]
        self.out.append(q.o.text())
        if not ok:
            self.out.append('\n')
            self.kinds.append((q.o.kind, list(q.o.frames or [])))
        self.out.append('\n==> Program exited %s\n' % ('successfully' if ok else 'with an error'))

    def reject(self, b):
        """an entry rejected before anything executes (pedantic)"""
        l = lang.Layout()
        l.block([b])
        ls = l.lines + ([''] if ismulti([b]) else [])
        self.prompts(ls)
        self.lines += ls
        self.out.append('\n')
        self.kinds.append(('pedantic', None))
        return False

    def prompts(self, ls):
        for i, x in enumerate(ls):
            self.out.append(('> ' if i == 0 else '. ') + x + '\n')

    def test(self, files=None, args=(), text_out=True, end=True):
        self.r.finish()
        stdin = '\n'.join(self.lines + (['EXIT'] if end else [])) + '\n'
        want = ''.join(self.out) + ('> EXIT\n' if end else '> ')
        kinds = list(self.kinds)
        d = {k: v for k, v in self.disk.items() if isinstance(v, str)} if text_out else {}
        exp = 'stdout after the greeting:\n%s\nerrors: %r\n' % (want, kinds)

        def check(rs, fs):
            r = rs[0]
            if r.crashed():
                return 'crash: ' + r.status(), exp
            if r.kind == 2:
                return 'timeout', exp
            if r.code != 0:
                return 'session ends with status %d' % r.code, exp
            out = r.out.decode('latin1')
            i = out.find("to quit\n")
            if i < 0:
                return 'no greeting', exp
            if out[i + 8:] != want:
                return 'output differs', exp
            x = errs(r.err.decode('latin1'))
            if [k for k, f in x] != [k for k, f in kinds]:
                return 'errors %r, expected %r' % ([k for k, f in x], [k for k, f in kinds]), exp
            for (k, f), (k2, f2) in zip(x, kinds):
                if k == 'runtime' and not same_frames(f, f2):
                    return 'traceback %r, expected %r' % (f, f2), exp
            for k, v in d.items():
                got = fs.get(k)
                if got is None or got.decode('latin1') != v:
                    return 'content of file %r' % k, exp + 'expected %r' % v
            return None
        return Test(Case(None, files=files, runs=[Run(args=args, stdin=stdin)], dump=bool(d)), check)


HEAD = re.compile(r'^(Runtime Error|Syntax Error|Error\(pedantic\))', re.M)


def errs(err):
    """diagnostics of a stderr text in order: (kind, frames)"""
    pos = [m.start() for m in HEAD.finditer(err)] + [len(err)]
    out = []
    for a, b in zip(pos, pos[1:]):
        t = err[a:b]
        out.append((diag(t), frames_of(t)))
    return out


def multi(blocks, files=None, disk=None, stdins=None, **kw):
    """programs run one after another in one directory, each from a fresh interpreter"""
    d = dict(disk or {})
    d.update(files or {})
    outs, runs = [], []
    first = None
    for i, b in enumerate(blocks):
        src = lang.show(b)
        si = stdins[i] if stdins else ''
        try:
            outs.append(ref.run(b, d, si, **kw))
        except ref.Unknown:
            return None
        if first is None:
            first = src
            runs.append(Run(stdin=si))
        else:
            runs.append(Run(stdin=si, ops=[(2, 'p.pseudo', src)]))
    c = Case(first, files=files, runs=runs, dump=bool(d))

    def check(rs, fs):
        for i, (o, r) in enumerate(zip(outs, rs)):
            x = compare(o, r)
            if x:
                return 'run %d: %s' % (i + 1, x), 'programs:\n' + '\n----\n'.join(lang.show(b) for b in blocks) + '\n' + describe_expect(o)
        for k, v in d.items():
            if isinstance(v, str):
                got = fs.get(k)
                if got is None or got.decode('latin1') != v:
                    return 'content of file %r' % k, 'expected %r, found %r' % (v, got)
            elif isinstance(v, list) and k not in fs:
                return 'file %r missing' % k, ''
        return None
    return Test(c, check, len(blocks))


def sessions(ss, files=None):
    """REPL sessions (sharing one disk) run one after another in one directory"""
    ts = [s.test(files, text_out=i == len(ss) - 1) for i, s in enumerate(ss)]
    c = Case(None, files=files, runs=[t.case.runs[0] for t in ts], dump=ts[-1].case.dump)

    def check(rs, fs):
        for i, (t, r) in enumerate(zip(ts, rs)):
            x = t.check([r], fs)
            if x:
                return 'session %d: %s' % (i + 1, x[0]), x[1]
        return None
    return Test(c, check, len(ss))
