from .common import *
from .c04 import setv

B1 = [(l, u) for l in range(-3, 5) for u in range(l, 5)]


def cellval(T, i):
    if T == 'INTEGER':
        return I(100 + i)
    if T == 'REAL':
        return B('+', I(i), ('real', '0.5'))
    if T == 'BOOLEAN':
        return ('bool', i % 2 == 1)
    if T == 'CHAR':
        return ('char', chr(33 + i % 6 if chr(33 + i % 6) not in '\'"' else 65))
    if T == 'STRING':
        return ('str', 's%d' % i)
    if T == 'DATE':
        return ('date', 1 + i % 28, 1 + i // 28 % 12, 2000)
    return V(('Red', 'Green', 'Blue')[i % 3])


def arrays(nd, per=None):
    def items(rng):
        for b in itertools.product(B1, repeat=nd):
            if per and rng.random() > per:
                continue
            yield b
    return items


def cells(b):
    return itertools.product(*[range(l, u + 1) for l, u in b])


def probe_make(b, rng):
    """total map: defaults, a distinct value per cell, read back in another order, one write, all others unchanged; every
    tuple one step outside the bounds is rejected without effect (a REPL session, so that it goes on after a rejection)"""
    T = 'INTEGER'
    s = Session(steps=60000)
    s.add(Entry(declarr('a', b, T)))
    cs = list(cells(b))
    ix = lambda c: ('idx', ('id', 'a'), [I(x) for x in c])
    # loops written in the language keep the session short
    vs = ['i', 'j', 'k'][:len(b)]

    def loops(body):
        for v, (l, u) in reversed(list(zip(vs, b))):
            body = [for_(v, I(l), I(u), body)]
        return body[0]
    at = ('idx', ('id', 'a'), [V(v) for v in vs])
    s.add(Entry(declare(['i', 'j', 'k', 'n', 'bad'], 'INTEGER')))
    s.add(Entry(loops([if_([(B('<>', ('var', at), I(0)), [assign('bad', B('+', V('bad'), I(1)))])])])))
    s.add(Entry(output(V('bad'))))
    s.add(Entry(loops([assign('n', B('+', V('n'), I(1))), assign(at, V('n'))])))
    full = len(cs) <= 40
    for c in (cs if full else rng.sample(cs, 30)):
        s.add(Entry(output(('var', ix(c)))))
    box = [c for c in itertools.product(*[range(l - 1, u + 2) for l, u in b])]
    out = [c for c in box if c not in set(cs)]
    for c in (out if len(out) <= 60 else rng.sample(out, 60)):
        s.add(Entry(assign(ix(c), I(-9)) if rng.random() < .6 else output(('var', ix(c)))))
    w = rng.choice(cs)
    s.add(Entry(assign(ix(w), I(-1))))
    # sum and weighted sum of all cells see every other cell
    s.add(Entry(declare(['sum', 'ws'], 'INTEGER')))
    s.add(Entry(assign('n', I(0))))
    s.add(Entry(loops([assign('n', B('+', V('n'), I(1))), assign('sum', B('+', V('sum'), ('var', at))), assign('ws', B('+', V('ws'), B('*', B('*', V('n'), V('n')), ('var', at))))])))
    s.add(Entry(output(V('sum'), ('str', ' '), V('ws'))))
    s.add(Entry(output(('var', ix(w)))))
    # far outside: products of sizes that overflow
    for k in range(3):
        c = list(w)
        c[rng.randrange(len(c))] = rng.choice([1 << 32, (1 << 63) - 1, -(1 << 63) + 1, 1 << 62, -(1 << 32), 4294967296 + w[0]])
        s.add(Entry(output(('var', ix(c)))))
    t = s.test()
    t.n = len(cs) + len(out)
    return t


ET = PRIM + ['Col', 'Rec', 'PI']


def types_items(rng):
    for T in ET:
        for b in ([(0, 3)], [(-1, 1), (2, 3)], [(1, 2), (0, 1), (-1, 0)]):
            for k in range(4):
                yield T, b, k


def types_make(it, rng):
    """all element types; whole-array assignment is deep and independent"""
    T, b, k = it
    pre = WORLD_TYPES() + [declare('tg1', 'INTEGER'), declare('tg2', 'INTEGER'), assign('tg1', I(1)), assign('tg2', I(2)), declarr('a', b, T), declarr('z', b, T)]
    cs = list(cells(b))
    ix = lambda n, c: ('idx', ('id', n), [I(x) for x in c])

    def put(n, c, i):
        if T == 'Rec':
            return [assign(('fld', ix(n, c), 'x'), I(i)), assign(('idx', ('fld', ix(n, c), 'a'), [I(2)]), I(i * 3))]
        if T == 'PI':
            return [ptrassign(ix(n, c), ('tg1', 'tg2')[i % 2])]
        return [assign(ix(n, c), cellval(T, i))]
    D = lambda n: [show_all(dump(T, ix(n, c))) for c in cs]
    b2 = pre + ([] if T == 'PI' else D('a'))
    for i, c in enumerate(cs):
        b2 += put('a', c, i)
    if T == 'PI':
        for i, c in enumerate(cs):
            b2 += put('z', c, i + 1)
    b2 += D('a') + [assign('z', V('a'))] + D('z')
    w = rng.choice(cs)
    b2 += put('a', w, 41) + D('a') + D('z')
    w = rng.choice(cs)
    b2 += put('z', w, 52) + D('a') + D('z')
    if k == 1:
        b2 += [assign('a', V('a'))] + D('a')
    if k == 2:
        b2 += [proc('p', [('BYREF', 'e', T), ('BYVAL', 'v', T)], setv(T, ('id', 'e'), 1) + [show_all(dump(T, ('id', 'v')))]), call('p', [('var', ix('a', w)), ('var', ix('a', w))])] + D('a') + D('z')
    if k == 3:
        b2 += [proc('p', [], [declarr('l', b, T), assign('l', V('a'))] + ([] if T == 'PI' else setv(T, ix('l', w), 1)) + D('l') + D('a') + [assign('z', V('l'))]), call('p')] + D('z')
    return test(b2)


def shapes(rng):
    bs = [[(1, 3)], [(0, 2)], [(1, 2)], [(1, 4)], [(1, 3), (1, 1)], [(1, 1), (1, 3)], [(2, 4)], [(1, 2), (1, 2)], [(-1, 1)]]
    for a in bs:
        for b in bs:
            for T in (('INTEGER', 'INTEGER'), ('INTEGER', 'REAL'), ('REAL', 'INTEGER'), ('CHAR', 'STRING'), ('Rec', 'Rec'), ('Rec', 'Rec2'), ('Col', 'Shp')):
                yield a, b, T


def shapes_make(it, rng):
    """whole-array assignment needs the same element type and the same bounds; a rejected one changes nothing"""
    a, b, (T, U) = it
    s = Session()
    for x in WORLD_TYPES() + [declarr('a', a, T), declarr('b', b, U)]:
        s.add(Entry(x))
    ix = lambda n, c: ('idx', ('id', n), [I(x) for x in c])
    for n, bb, TT in (('a', a, T), ('b', b, U)):
        for i, c in enumerate(cells(bb)):
            v = cellval(TT, i + (50 if n == 'b' else 0)) if TT != 'Shp' and TT not in ('Rec', 'Rec2') else None
            if v is not None:
                s.add(Entry(assign(ix(n, c), v)))
    s.add(Entry(assign('a', V('b'))))
    for n, bb, TT in (('a', a, T), ('b', b, U)):
        s.add(Entry(show_all(sum([dump(TT, ix(n, c)) for c in cells(bb)], []))))
    for c in list(cells(a))[:1]:
        if T not in ('Rec', 'Shp', 'Col'):
            s.add(Entry(assign(ix('a', c), cellval(T, 7))))
    for n, bb, TT in (('a', a, T), ('b', b, U)):
        s.add(Entry(show_all(sum([dump(TT, ix(n, c)) for c in cells(bb)], []))))
    return s.test()


def idx_items(rng):
    for i in range(len(operands())):
        for f in range(6):
            yield i, f


def idx_make(it, rng):
    """every kind of index; wrong numbers of indices; arrays used without index and the reverse"""
    i, f = it
    name, pre, e = operands()[i]
    b = WORLD_TYPES() + pre + [declarr('q', [(0, 5)], 'INTEGER'), declarr('m', [(0, 5), (0, 5)], 'INTEGER'), outs('s')]
    X = lambda n, *x: ('idx', ('id', n), list(x))
    if f == 0:
        b += [assign(X('q', e), I(1)), output(('var', X('q', e)))]
    elif f == 1:
        b += [assign(X('m', I(1), e), I(1)), output(('var', X('m', e, I(1))))]
    elif f == 2:
        b += [output(('var', X('q', e, I(1))))]
    elif f == 3:
        b += [assign(X('m', e), I(1))]
    elif f == 4:
        b += [declarr('d', [(I(0), e)], 'INTEGER'), output(('var', X('d', I(1)))), assign(X('d', e), I(3)), output(('var', X('d', e)))]
    else:
        b += [declarr('d', [(e, I(3))], 'INTEGER'), assign(X('d', e), I(3)), output(('var', X('d', e)))]
    return test(b + [outs('end')])


def misc(rng):
    X = lambda n, *x: ('idx', ('id', n), [I(v) if isinstance(v, int) else v for v in x])
    yield [declarr('a', [(1, 2)], 'INTEGER'), assign('a', I(3)), outs('e')]
    yield [declarr('a', [(1, 2)], 'INTEGER'), output(V('a'))]
    yield [declarr('a', [(1, 2)], 'INTEGER'), declarr('a', [(1, 2)], 'INTEGER')]
    yield [declare('x', 'INTEGER'), assign(X('x', 1), I(3))]
    yield [declare('x', 'INTEGER'), output(('var', X('x', 1)))]
    yield [declare('x', 'INTEGER'), declarr('a', [(1, 2)], 'INTEGER'), assign('x', V('a'))]
    for l, u in ((3, 1), (2, 1), (0, -1), (1, 1), (-5, -5)):
        yield [declarr('a', [(l, u)], 'INTEGER'), outs('d'), assign(X('a', l), I(1)), output(('var', X('a', u)))]
        yield [declarr('a', [(1, 2), (l, u)], 'INTEGER'), outs('d'), assign(X('a', 1, l), I(1)), output(('var', X('a', 1, u)))]
    for l, u in ((1, 1 << 40), (-(1 << 62), 1 << 62), (0, (1 << 63) - 1), (-(1 << 63), (1 << 63) - 1)):
        yield [outs('d'), declarr('a', [(l, u)], 'INTEGER'), outs('never')]
    for l in ((1 << 62), (1 << 63) - 4, -(1 << 63), -(1 << 63) + 7):
        yield [declarr('a', [(l, l + 3)], 'INTEGER'), assign(X('a', l + 2), I(7)), output(('var', X('a', l + 2))), output(('var', X('a', l + 1))), output(('var', X('a', l + 3))), output(('var', X('a', 0)))]
    yield [outs('d'), declarr('a', [(1, 1 << 32), (1, 1 << 32)], 'INTEGER'), outs('never')]
    yield [outs('d'), declarr('a', [(1, 1 << 21), (1, 1 << 21), (1, 1 << 22)], 'INTEGER'), outs('never')]
    yield [declarr(['a', 'b'], [(1, 2)], 'INTEGER'), assign(X('a', 1), I(1)), assign(X('b', 1), I(2)), output(('var', X('a', 1)), ('var', X('b', 1)))]
    yield [deftype('R', rec=[declarr('g', [(1, 2), (1, 2)], 'INTEGER')]), declarr('a', [(1, 2)], 'R'), assign(('idx', ('fld', X('a', 2), 'g'), [I(1), I(2)]), I(5)),
           show_all([('var', ('idx', ('fld', X('a', i), 'g'), [I(j), I(k)])) for i in (1, 2) for j in (1, 2) for k in (1, 2)])]
    yield [deftype('R', rec=[declarr('g', [(1, 2)], 'INTEGER')]), declare('r', 'R'), declare('s', 'R'), declarr('a', [(1, 2)], 'INTEGER'), assign(X('a', 1), I(4)), assign(('fld', ('id', 'r'), 'g'), V('a')), output(('var', ('idx', ('fld', ('id', 'r'), 'g'), [I(1)]))),
           assign('a', ('var', ('fld', ('id', 's'), 'g'))), output(('var', X('a', 1)), ('var', ('idx', ('fld', ('id', 'r'), 'g'), [I(1)])))]
    # the index expression changes the array or the variable it reads
    yield [declarr('a', [(1, 3)], 'INTEGER'), assign(X('a', 1), I(2)), assign(X('a', 2), I(3)), assign(X('a', ('var', X('a', ('var', X('a', 1))))), I(9)), show_all([('var', X('a', i)) for i in (1, 2, 3)])]


def tasks(tier):
    T = Task
    deep = tier == 'thorough'
    return [T('1 dimension', arrays(1), probe_make, bound='all bounds in [-3,4]'),
            T('1 dimension (sanitizers)', arrays(1), probe_make, kind='asan', bound='all bounds in [-3,4]'),
            T('2 dimensions', arrays(2, None if deep else 0.6), probe_make, bound='bounds in [-3,4]' + ('' if deep else ', 60 % of them')),
            T('3 dimensions', arrays(3, 0.3 if deep else 0.02), probe_make, bound='bounds in [-3,4], a sample'),
            T('3 dimensions (sanitizers)', arrays(3, 0.02 if deep else 0.003), probe_make, kind='asan', bound='bounds in [-3,4], a sample'),
            T('element types', types_items, types_make, kind='asan', bound='every element type, three shapes, four uses'),
            T('whole-array assignment', shapes, shapes_make, bound='every pair of 9 shapes and 7 type pairs'),
            T('indices', idx_items, idx_make, kind='asan', bound='every operand kind as index and bound'),
            T('special arrays', misc, lambda b, rng: test(b), kind='asan', bound='fixed list'),
            rand_task('random arrays', 2, arrays=3, types=1, err=0.02),
            rand_task('random arrays (sanitizers)', 1, kind='asan', arrays=3, types=1, err=0.02)]
