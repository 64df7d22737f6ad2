"""A random file is a stable, 1-based sequence of independent records."""
from .common import *

F = 'r.dat'
ALPHA = ['s0', 's1', 's2', 's3', 'put', 'get', 'reopen', 'process']


class Hist:
    def __init__(self):
        self.disk = {}
        self.ss = []
        self.n = 0
        self.start()

    def start(self):
        for s in self.ss[-1:]:
            s.r.finish()
        s = Session(self.disk)
        self.ss.append(s)
        for x in (declare('x', 'INTEGER'), declare('y', 'STRING'), openfile(F, 'RANDOM')):
            s.add(Entry(x))

    def do(self, op):
        s = self.ss[-1]
        if op == 'process':
            self.start()
        elif op == 'reopen':
            s.add(Entry(closefile(F)))
            s.add(Entry(openfile(F, 'RANDOM')))
        elif op == 'put':
            self.n += 1
            s.add(Entry(assign('x', I(self.n))))
            s.add(Entry(putrec(F, 'x')))
        elif op == 'puts':
            self.n += 1
            s.add(Entry(assign('y', ('str', ['', 'a', '\n', ' x ', '#', 'r%d' % self.n][self.n % 6]))))
            s.add(Entry(putrec(F, 'y')))
        elif op == 'get':
            s.add(Entry(assign('x', I(-1))))
            s.add(Entry(getrec(F, 'x')))
            s.add(Entry(expr(V('x'))))
        elif op == 'gets':
            s.add(Entry(assign('y', ('str', '?'))))
            s.add(Entry(getrec(F, 'y')))
            s.add(Entry(expr(V('y'))))
        else:
            s.add(Entry(seek(F, I(int(op[1:])))))

    def final(self, proc=True, k=6, what=('x',)):
        if proc:
            self.start()
        s = self.ss[-1]
        for i in range(1, k):
            s.add(Entry(seek(F, I(i))))
            for w in what:
                s.add(Entry(assign(w, I(-1) if w == 'x' else ('str', '?'))))
                s.add(Entry(getrec(F, w)))
                s.add(Entry(expr(V(w))))

    def test(self):
        return sessions(self.ss)


def hist_items(depth):
    def items(rng):
        for n in range(1, depth + 1):
            yield from itertools.product(ALPHA[1:] if n == depth and depth > 4 else ALPHA, repeat=n)
    return items


def hist_make(it, rng):
    if it[-1] in ('process', 'reopen') and len(it) > 1 and it[-2] in ('process', 'reopen'):
        return None
    h = Hist()
    for op in it:
        h.do(op)
    h.final(k=len(it) + 3)
    return h.test()


def small(k):
    """histories of a file that starts with k records"""
    def items(rng):
        for a in ALPHA[1:] + ['s%d' % (k + 1), 's%d' % (k + 2), 's%d' % k]:
            for b in ALPHA[1:] + ['s%d' % (k + 1)]:
                for c in ('put', 'get'):
                    for d in ('put', 'get', 'reopen', 's%d' % k):
                        yield k, (a, b, c, d)
    return items


def small_make(it, rng):
    k, ops = it
    h = Hist()
    for i in range(k):
        h.do('s%d' % (i + 1))
        h.do('put')
    if rng.random() < .5:
        h.do('reopen')
    for op in ops:
        h.do(op)
    h.final(proc=rng.random() < .7, k=k + 5)
    return h.test()


def rand_make(seed, rng):
    r = random.Random(seed)
    h = Hist()
    n = 0
    for _ in range(r.randint(4, 40)):
        x = r.random()
        if x < .35:
            h.do('s%d' % r.choice([1, 2, 3, 5, 8, n, n + 1, n + 2, max(n - 1, 1)]))
        elif x < .6:
            h.do(r.choice(['put', 'put', 'puts']))
            n += 1
        elif x < .85:
            h.do(r.choice(['get', 'get', 'gets']))
        elif x < .95:
            h.do('reopen')
        else:
            h.do('process')
        n = len(h.ss[-1].r.g.files[F].recs)
    h.final(proc=r.random() < .7, k=n + 3, what=('x', 'y'))
    return h.test()


def seeks(rng):
    for k in range(0, 6):
        for a in list(range(-2, 9)) + [(1 << 31), (1 << 32) + 1, (1 << 63) - 1, -(1 << 63), (1 << 32)]:
            yield k, a


def seek_make(it, rng):
    k, a = it
    h = Hist()
    for i in range(k):
        h.do('s%d' % (i + 1))
        h.do('put')
    s = h.ss[-1]
    s.add(Entry(seek(F, 1)))
    s.add(Entry(seek(F, I(a))))
    h.do('get')
    h.do('put')
    h.do('get')
    h.final(k=k + 4)
    return h.test()


def two(seed, rng):
    """two files used in turn; one value type per file, strings with awkward content"""
    r = random.Random(seed)
    disk = {}
    ss = []

    def start():
        if ss:
            ss[-1].r.finish()
        s = Session(disk)
        ss.append(s)
        for x in (declare('x', 'STRING'), declare('y', 'REAL'), openfile('a.dat', 'RANDOM'), openfile('b.dat', 'RANDOM')):
            s.add(Entry(x))
    start()
    for i in range(r.randint(5, 30)):
        s = ss[-1]
        f, v = r.choice([('a.dat', 'x'), ('b.dat', 'y')])
        k = len(s.r.g.files[f].recs) if f in s.r.g.files else 0
        x = r.random()
        if x < .35:
            s.add(Entry(seek(f, I(r.randint(1, k + 2)))))
        elif x < .6:
            s.add(Entry(assign(v, ('str', ''.join(r.choice('a #\n1') for _ in range(r.randint(0, 6)))) if v == 'x' else ('real', '%d.5' % i))))
            s.add(Entry(putrec(f, v)))
        elif x < .85:
            s.add(Entry(getrec(f, v)))
            s.add(Entry(expr(V(v))))
        elif x < .93:
            s.add(Entry(closefile(f)))
            s.add(Entry(openfile(f, 'RANDOM')))
        else:
            start()
    start()
    s = ss[-1]
    for f, v in (('a.dat', 'x'), ('b.dat', 'y')):
        for i in range(1, len(s.r.g.files[f].recs) + 2):
            s.add(Entry(seek(f, I(i))))
            s.add(Entry(getrec(f, v)))
            s.add(Entry(expr(V(v))))
    return sessions(ss)


def tasks(tier):
    T = Task
    d = 4 if tier == 'quick' else 6
    return [T('all histories', hist_items(d), hist_make, bound='every history of up to %d operations out of %s, the file then read by a new process' % (d, ALPHA)),
            T('files with records', lambda rng: itertools.chain.from_iterable(small(k)(rng) for k in range(0, 6)), small_make, bound='files of 0..5 records, every history of 4 operations out of a set'),
            T('addresses', seeks, seek_make, bound='files of 0..5 records, SEEK -2..8 and extreme addresses'),
            T('random histories', seeds, rand_make, False, weight=2, bound='up to 40 operations'),
            T('two files', seeds, two, False, weight=1, bound='up to 30 operations on two files')]
