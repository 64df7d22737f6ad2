"""Runs pseudocode programs through the fork server."""
import os, struct, subprocess, threading, queue, itertools
from . import build

TIMEOUT = 4000


class Run:
    __slots__ = ('args', 'stdin', 'ops', 'tmo')

    def __init__(self, args=('p.pseudo',), stdin=b'', ops=(), tmo=None):
        self.args = args; self.stdin = stdin if isinstance(stdin, bytes) else stdin.encode('latin1'); self.ops = ops; self.tmo = tmo or TIMEOUT


class Case:
    """files: initial files of the scratch directory; runs: interpreter runs sharing it; dump: return the files afterwards"""
    __slots__ = ('files', 'runs', 'dump', 'tag')

    def __init__(self, prog=None, files=None, runs=None, dump=False, tag=None, stdin=b'', args=None):
        self.files = dict(files or {})
        if prog is not None:
            self.files['p.pseudo'] = prog
        self.files = {k: (v if isinstance(v, bytes) else v.encode('latin1')) for k, v in self.files.items()}
        self.runs = list(runs) if runs is not None else [Run(args or ('p.pseudo',), stdin)]
        self.dump = dump
        self.tag = tag

    def encode(self):
        o = [struct.pack('<I', len(self.files))]
        s = lambda b: o.append(struct.pack('<I', len(b)) + b)
        for k, v in self.files.items():
            s(k.encode('latin1')); s(v)
        o.append(struct.pack('<I', len(self.runs)))
        for r in self.runs:
            o.append(struct.pack('<II', r.tmo, len(r.args)))
            for a in r.args:
                s(a.encode('latin1'))
            s(r.stdin)
            o.append(struct.pack('<I', len(r.ops)))
            for op in r.ops:
                o.append(struct.pack('<I', op[0])); s(op[1].encode('latin1'))
                b = op[2] if len(op) > 2 else b''
                s(b if isinstance(b, bytes) else b.encode('latin1'))
        o.append(struct.pack('<I', 1 if self.dump else 0))
        return b''.join(o)


class Res:
    """kind 0 exit / 1 signal / 2 timeout"""
    __slots__ = ('kind', 'code', 'out', 'err')

    def __init__(self, kind, code, out, err):
        self.kind, self.code, self.out, self.err = kind, code, out, err

    def status(self):
        return ('exit %d' % self.code, 'signal %d' % self.code, 'timeout')[self.kind]

    def crashed(self):
        return self.kind == 1 or (self.kind == 0 and self.code not in (0, 1))

    def __repr__(self):
        return '<%s out=%r err=%r>' % (self.status(), self.out[:400], self.err[:400])


class Worker:
    def __init__(self, binary, d):
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o755)
        asan = 'asan' in binary
        env = dict(os.environ, PSV_DIR=d, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1:max_allocation_size_mb=2048:allow_user_poisoning=1',
                   UBSAN_OPTIONS='exitcode=98:print_stacktrace=1', LC_ALL='C.UTF-8', TZ='UTC', COLUMNS='30000', LINES='50', TERM='dumb', INPUTRC='/dev/null')
        env['PSV_STACK'] = str((2048 if asan else 512) << 20)
        if not asan:
            env['PSV_AS'] = str(3 << 30)
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd=d, stderr=subprocess.DEVNULL)

    def _rd(self, n):
        b = self.p.stdout.read(n)
        if len(b) != n:
            raise RuntimeError('fork server died')
        return b

    def _u(self):
        return struct.unpack('<I', self._rd(4))[0]

    def _s(self):
        return self._rd(self._u())

    def one(self, c):
        self.p.stdin.write(c.encode()); self.p.stdin.flush()
        rs = []
        for _ in c.runs:
            k, code = self._u(), self._u()
            rs.append(Res(k, code, self._s(), self._s()))
        files = {}
        for _ in range(self._u()):
            n = self._s().decode('latin1'); files[n] = self._s()
        return rs, files

    def close(self):
        try:
            self.p.stdin.close()
        except Exception:
            pass
        self.p.kill(); self.p.wait()


class Pool:
    def __init__(self, kind='plain', n=None):
        self.kind = kind
        self.bin = build.binary(kind)
        self.n = n or build.JOBS
        self.count = 0
        self.ws = [Worker(self.bin, os.path.join(build.scratch(), 'w_%s_%d' % (kind, i))) for i in range(self.n)]

    def run(self, cases, stop=None):
        """yields (case, [Res], files) in completion order; `stop()` true ends early"""
        it = iter(cases); lock = threading.Lock(); q = queue.Queue(maxsize=4096); dead = threading.Event()

        def loop(w):
            try:
                while not dead.is_set():
                    with lock:
                        cs = list(itertools.islice(it, 8))
                    if not cs:
                        break
                    for c in cs:
                        if dead.is_set():
                            break
                        rs, fs = w.one(c)
                        q.put((c, rs, fs))
            except BaseException as e:
                q.put(e)
            q.put(None)
        ts = [threading.Thread(target=loop, args=(w,), daemon=True) for w in self.ws]
        for t in ts:
            t.start()
        left = len(ts)
        while left:
            x = q.get()
            if x is None:
                left -= 1; continue
            if isinstance(x, BaseException):
                dead.set(); raise x
            self.count += 1
            yield x
            if stop and stop():
                dead.set()
                # drain
                while left:
                    y = q.get()
                    if y is None:
                        left -= 1
                break
        for t in ts:
            t.join()

    def one(self, case):
        self.count += 1
        return self.ws[0].one(case)

    def close(self):
        for w in self.ws:
            w.close()
