from .common import *


class RG:
    """random record types: up to 3 levels, scalar fields of every type, array fields, arrays of records"""

    def __init__(self, r):
        self.r = r
        self.defs = []
        self.types = {}
        self.types['Col'] = ('enum', ['Red', 'Green', 'Blue'])
        self.pre = [deftype('Col', enum=['Red', 'Green', 'Blue'])]
        self.n = 0
        self.seq = 0

    def rec(self, level):
        r = self.r
        fs, d = [], []
        for i in range(r.randint(1, 4)):
            k = r.random()
            if level > 0 and (k < 0.35 or i == 0):
                t = self.rec(level - 1) if r.random() < .7 or not [x for x in self.types if self.types[x][0] == 'rec' and self.types[x][2] <= level - 1] else r.choice([x for x in self.types if self.types[x][0] == 'rec' and self.types[x][2] <= level - 1])
            else:
                t = r.choice(PRIM + ['Col'])
            f = 'f%d' % i
            if r.random() < .35:
                b = [(r.randint(-1, 1), r.randint(1, 2)) for _ in range(1 + (r.random() < .25))]
                fs.append((f, t, b))
                d.append(declarr(f, b, t))
            else:
                fs.append((f, t, None))
                d.append(declare(f, t))
        self.n += 1
        nm = 'R%d' % self.n
        self.types[nm] = ('rec', fs, level)
        self.pre.append(deftype(nm, rec=d))
        return nm

    def leaves(self, lv, t):
        k = self.types.get(t)
        if k is None or k[0] == 'enum':
            yield lv, t
            return
        for f, ft, b in k[1]:
            x = ('fld', lv, f)
            if b:
                for c in itertools.product(*[range(l, u + 1) for l, u in b]):
                    for y in self.leaves(('idx', x, [I(i) for i in c]), ft):
                        yield y
            else:
                for y in self.leaves(x, ft):
                    yield y

    def records(self, lv, t):
        """sub-records"""
        k = self.types.get(t)
        if k is None or k[0] == 'enum':
            return
        yield lv, t
        for f, ft, b in k[1]:
            x = ('fld', lv, f)
            if b:
                x = ('idx', x, [I(self.r.randint(l, u)) for l, u in b])
            for y in self.records(x, ft):
                yield y

    def val(self, t):
        self.seq += 1
        i = self.seq
        if t == 'INTEGER':
            return I(i)
        if t == 'REAL':
            return ('real', '%d.25' % i)
        if t == 'BOOLEAN':
            return ('bool', i % 2 == 0)
        if t == 'CHAR':
            return ('char', chr(65 + i % 26))
        if t == 'STRING':
            return ('str', 'v%d' % i)
        if t == 'DATE':
            return ('date', 1 + i % 28, 1 + i % 12, 2000 + i % 30)
        return V(('Red', 'Green', 'Blue')[i % 3])

    def fill(self, lv, t, part=1.0):
        return [assign(x, self.val(y)) for x, y in self.leaves(lv, t) if self.r.random() < part]

    def dump(self, lv, t):
        l = [('var', x) for x, y in self.leaves(lv, t)]
        return [show_all(l[i:i + 12]) for i in range(0, len(l), 12)]


CH = ('assign', 'byval', 'byvalf', 'result', 'resultlocal', 'array', 'elem', 'fieldfield', 'self', 'nested', 'byref', 'const', 'resultglobal', 'deref')


def copies(n):
    def items(rng):
        for i in range(n):
            for ch in CH:
                yield rng.getrandbits(40), ch
    return items


def copy_make(it, rng):
    seed, ch = it
    r = random.Random(seed)
    g = RG(r)
    T = g.rec(r.choice([0, 1, 1, 2]))
    s, d = ('id', 's'), ('id', 'd')
    if len(list(g.leaves(s, T))) > 60:
        return None
    D = lambda lv: g.dump(lv, T)
    b = g.pre + [declare('s', T), declare('d', T)] + D(s) + g.fill(s, T) + g.fill(d, T, .4)
    part = lambda lv: g.fill(lv, T, .5)
    if ch == 'assign':
        b += [assign(d, ('var', s))] + D(d) + part(s) + D(s) + D(d) + part(d) + D(s) + D(d)
    elif ch == 'self':
        b += [assign(s, ('var', s))] + D(s)
    elif ch == 'byval':
        b += [proc('p', [('BYVAL', 'v', T)], D(('id', 'v')) + part(('id', 'v')) + D(('id', 'v')) + D(s) + part(s) + D(('id', 'v'))), call('p', [('var', s)])] + D(s)
    elif ch == 'byref':
        b += [proc('p', [('BYREF', 'v', T)], D(('id', 'v')) + part(('id', 'v')) + D(s) + [assign(d, V('v'))] + part(('id', 'v')) + D(d)), call('p', [('var', s)])] + D(s)
    elif ch == 'byvalf':
        b += [func('p', [(None, 'v', T)], 'INTEGER', part(('id', 'v')) + D(('id', 'v')) + D(s) + [ret(I(1))]), output(('fn', 'p', [('var', s)]))] + D(s)
    elif ch == 'result':
        b += [func('p', [(None, 'v', T)], T, part(('id', 'v')) + [ret(V('v'))]), assign(d, ('fn', 'p', [('var', s)]))] + D(d) + D(s) + part(d) + D(s) + D(d) + [assign(s, ('fn', 'p', [('fn', 'p', [V('d')])]))] + D(s) + D(d)
    elif ch == 'resultlocal':
        b += [func('p', [], T, [declare('l', T)] + g.fill(('id', 'l'), T) + [ret(V('l'))]), assign(d, ('fn', 'p', [])), assign(s, ('fn', 'p', []))] + D(d) + D(s) + part(d) + D(s) + D(d)
    elif ch == 'resultglobal':
        b += [func('p', [], T, [ret(V('s'))]), assign(d, ('fn', 'p', []))] + part(s) + D(d) + D(s) + part(d) + D(s)
    elif ch == 'array':
        b += [declarr('a', [(1, 2)], T), declarr('z', [(1, 2)], T), assign(('idx', ('id', 'a'), [I(1)]), V('s')), assign('z', V('a'))] + part(('idx', ('id', 'a'), [I(1)])) + D(('idx', ('id', 'z'), [I(1)])) + part(('idx', ('id', 'z'), [I(1)])) + D(('idx', ('id', 'a'), [I(1)])) + D(s) + D(('idx', ('id', 'z'), [I(2)]))
    elif ch == 'elem':
        b += [declarr('a', [(1, 3)], T), assign(('idx', ('id', 'a'), [I(2)]), V('s')), assign(('idx', ('id', 'a'), [I(3)]), ('var', ('idx', ('id', 'a'), [I(2)])))] + part(('idx', ('id', 'a'), [I(2)])) + D(('idx', ('id', 'a'), [I(3)])) + D(s) + D(('idx', ('id', 'a'), [I(1)]))
    elif ch == 'const':
        b += [assign('n', V('s'))] + part(s) + D(('id', 'n')) + part(('id', 'n')) + D(s)
    elif ch == 'deref':
        b += [deftype('PR', ptr=T), declare('q', 'PR'), ptrassign('q', 's'), assign(d, ('var', ('deref', ('id', 'q'))))] + part(s) + D(d) + D(('deref', ('id', 'q'))) + part(('deref', ('id', 'q'))) + D(s) + D(d) + [assign(('deref', ('id', 'q')), V('d'))] + part(d) + D(s)
    else:
        subs = [x for x in g.records(s, T)][1:]
        if not subs:
            return None
        x, U = r.choice(subs)
        y = r.choice([z for z, W in g.records(d, T) if W == U] or [None])
        if ch == 'fieldfield':
            if y is None:
                return None
            b += [assign(y, ('var', x))] + D(d) + part(s) + D(d) + D(s) + part(d) + D(s)
        else:
            b += [declare('u', U), assign('u', ('var', x))] + g.fill(x, U, .5) + g.dump(('id', 'u'), U) + g.fill(('id', 'u'), U, .5) + D(s) + [assign(x, V('u'))] + g.fill(('id', 'u'), U, .5) + D(s)
    return test(b)


def fields(rng):
    for t in PRIM + ['Col', 'Rec', 'PI']:
        for s in KINDS:
            yield t, s


def fields_make(it, rng):
    """each field holds values of its declared type only; undeclared fields are errors; defaults"""
    t, s_ = it
    s = Session()
    f = ('fld', ('id', 'h'), 'f')
    for x in WORLD_TYPES() + value(s_) + [deftype('H', rec=[declare('f', t), declarr('g', [(1, 2)], t), declare('x', 'INTEGER')]), declare('h', 'H')]:
        s.add(Entry(x))
    src = V('src' + s_)
    if t != 'PI':
        s.add(Entry(show_all(dump(t, f))))
    for lv in (f, ('idx', ('fld', ('id', 'h'), 'g'), [I(2)]), ('fld', ('id', 'h'), 'x'), ('fld', ('id', 'h'), 'nosuch'), ('fld', ('id', 'h'), 'src' + s_), ('idx', ('fld', ('id', 'h'), 'g'), [I(3)]), ('fld', ('fld', ('id', 'h'), 'x'), 'y'), ('fld', ('id', 'h'), 'g')):
        s.add(Entry(assign(lv, src)))
        if t != 'PI' or t == s_:
            s.add(Entry(show_all(dump(t, f))))
        s.add(Entry(output(('var', lv))))
    s.add(Entry(output(('var', ('fld', ('id', 'h'), 'x')))))
    s.add(Entry(expr(V('h'))))
    return s.test()


def misc(rng):
    R = ('id', 'r')
    yield [deftype('R', rec=[declare('x', 'INTEGER')]), declare('r', 'R'), declare('x', 'INTEGER'), output(('var', ('fld', R, 'zz')))]
    yield [deftype('R', rec=[declare('x', 'INTEGER')]), declare('r', 'R'), declare('zz', 'INTEGER'), assign(('fld', R, 'zz'), I(1)), outs('never')]
    yield [deftype('R', rec=[declare('x', 'INTEGER')]), declare('r', 'R'), declarr('zz', [(1, 2)], 'INTEGER'), assign(('idx', ('fld', R, 'zz'), [I(1)]), I(1)), outs('never')]
    yield [deftype('R', rec=[declare('x', 'INTEGER'), declare('y', 'R')]), outs('d'), declare('r', 'R'), outs('never')]
    yield [deftype('A', rec=[declare('x', 'INTEGER')]), deftype('Bb', rec=[declare('x', 'INTEGER')]), declare('r', 'A'), declare('q', 'Bb'), assign('r', V('q')), outs('never')]
    yield [deftype('A', rec=[declare('x', 'INTEGER')]), proc('p', [], [deftype('L', rec=[declare('a', 'A'), declarr('b', [(1, 2)], 'A')]), declare('r', 'L'), assign(('fld', ('fld', R, 'a'), 'x'), I(1)), declare('q', 'L'), assign('q', V('r')), assign(('fld', ('fld', R, 'a'), 'x'), I(2)),
           show_all([('var', ('fld', ('fld', ('id', 'q'), 'a'), 'x')), ('var', ('fld', ('fld', R, 'a'), 'x'))])]), call('p'), call('p')]
    yield [deftype('A', rec=[declare('x', 'INTEGER')]), declare('r', 'A'), output(V('r'))]
    yield [deftype('A', rec=[declare('x', 'INTEGER')]), declare('r', 'A'), output(B('=', V('r'), V('r')))]


def tasks(tier):
    T = Task
    n = 400 if tier == 'thorough' else 60
    return [T('record copies', copies(n), copy_make, bound='%d generated record types, %d copy channels' % (n, len(CH))),
            T('record copies (sanitizers)', copies(n // 6), copy_make, kind='asan', bound='generated record types'),
            T('fields', fields, fields_make, bound='every pair of field type and value type'),
            T('special records', misc, lambda b, rng: test(b), kind='asan', bound='fixed list'),
            T('random record copies', lambda rng: ((s, CH[s % len(CH)]) for s in seeds(rng)), copy_make, False, weight=2, bound='random record types'),
            rand_task('random programs with records', 2, types=4, arrays=1, procs=3, funcs=3, err=0.015, prims=['INTEGER', 'STRING']),
            rand_task('random programs with records (sanitizers)', 1, kind='asan', types=4, arrays=1, procs=3, funcs=3, err=0.015, prims=['INTEGER', 'STRING'])]
