from .common import *
from .c04 import channel, setv

KS = PRIM + ['Col', 'Shp', 'PI', 'PS', 'Rec', 'Rec2', 'Nest']
CH = ('var', 'elem', 'field', 'deref', 'byval', 'byvalf', 'byref', 'return', 'array', 'elemelem', 'fieldrec')


def pairs(rng):
    for T in KS:
        for S_ in KS:
            for ch in CH:
                for k in (0, 1):
                    yield T, S_, ch, k


def setup():
    return WORLD_TYPES() + [declare('tg1', 'INTEGER'), declare('tg2', 'INTEGER'), declare('tg3', 'STRING'), assign('tg1', I(1)), assign('tg2', I(2)), assign('tg3', ('str', 't3'))]


def seta(T, lv):
    if T == 'PS':
        return [ptrassign(lv, 'tg3')]
    if T == 'Shp':
        return [assign(lv, V('Cube'))]
    return setv('Rec' if T == 'Rec2' else T, lv, 1)


def pairs_make(it, rng):
    """the store in the REPL, where the target is seen before and after"""
    T, S_, ch, k = it
    s = Session()
    for x in setup():
        s.add(Entry(x))
    for x in value(S_, k):
        s.add(Entry(x))
    src = V('src' + S_)
    if ch in ('var', 'elem', 'field', 'deref'):
        d, lv = channel(T, ch, 'm')
        for x in d + seta(T, lv):
            s.add(Entry(x))
        s.add(Entry(show_all(dump(T, lv))))
        s.add(Entry(assign(lv, src)))
        s.add(Entry(show_all(dump(T, lv))))
    elif ch in ('elemelem', 'fieldrec'):
        # the source is an element / field as well
        d, lv = channel(T, 'elem', 'm')
        d2, lv2 = channel(S_, 'elem' if ch == 'elemelem' else 'field', 'n')
        for x in d + seta(T, lv) + d2 + ([assign(lv2, src)]):
            s.add(Entry(x))
        s.add(Entry(assign(lv, ('var', lv2))))
        s.add(Entry(show_all(dump(T, lv))))
        s.add(Entry(show_all(dump(S_, lv2))))
    elif ch == 'array':
        for x in [declarr('m', [(1, 2)], T)] + seta(T, ('idx', ('id', 'm'), [I(2)])) + [declarr('n', [(1, 2)], S_), assign(('idx', ('id', 'n'), [I(2)]), src)] + seta(S_, ('idx', ('id', 'n'), [I(1)])):
            s.add(Entry(x))
        s.add(Entry(assign('m', V('n'))))
        s.add(Entry(show_all(dump(T, ('idx', ('id', 'm'), [I(2)])))))
    elif ch in ('byval', 'byref'):
        s.add(Entry(proc('w', [('BYREF' if ch == 'byref' else 'BYVAL', 'p', T)], [show_all(dump(T, ('id', 'p')))] + seta(T, ('id', 'p')) + [show_all(dump(T, ('id', 'p')))])))
        s.add(Entry(call('w', [src])))
        s.add(Entry(show_all(dump(S_, ('id', 'src' + S_)))))
    elif ch == 'byvalf':
        s.add(Entry(func('w', [(None, 'p', T)], 'INTEGER', [show_all(dump(T, ('id', 'p'))), ret(I(1))])))
        s.add(Entry(output(('fn', 'w', [src]))))
        s.add(Entry(show_all(dump(S_, ('id', 'src' + S_)))))
    else:
        d, lv = channel(T, 'var', 'm')
        for x in d + seta(T, lv):
            s.add(Entry(x))
        s.add(Entry(func('w', [], T, [ret(src)])))
        s.add(Entry(assign(lv, ('fn', 'w', []))))
        s.add(Entry(show_all(dump(T, lv))))
    return s.test()


def conv_items(rng):
    for T in PRIM:
        for i, e in enumerate(VALS):
            yield T, i


VALS = [I(0), I(5), I((1 << 53) + 1), I(-7), ('real', '2.0'), ('real', '2.5'), ('real', '0.0'), ('bool', True), ('char', 'a'), ('char', '5'), ('str', ''), ('str', 'a'), ('str', 'ab'), ('str', '5'), ('str', 'TRUE'),
        ('date', 1, 2, 2003), B('/', I(4), I(2)), B('&', ('str', 'x'), ('str', '')), V('Green'), B('+', V('Red'), I(2)), ('fn', 'LEFT', [('str', 'abc'), I(1)]), ('fn', 'CHR', [I(65)]), V('srcPI'), V('srcRec')]


def conv_make(it, rng):
    """implicit conversions by value: one-character strings and the like"""
    T, i = it
    s = Session()
    for x in setup() + value('PI') + value('Rec') + [declare('m', T), assign('m', LIT[T]), proc('w', [(None, 'p', T)], [output(V('p'))]), func('f', [(None, 'k', 'INTEGER')], T, [ret(VALS[i])])]:
        s.add(Entry(x))
    for x in [assign('m', VALS[i]), output(V('m')), expr(V('m')), call('w', [VALS[i]]), output(('fn', 'f', [I(1)])), assign('m', ('fn', 'f', [I(1)])), expr(V('m'))]:
        try:
            s.add(Entry(x))
        except ref.Unknown:
            return None
    return s.test()


def first_items(rng):
    for i in range(len(VALS)):
        for j in range(len(VALS)):
            yield i, j


def first_make(it, rng):
    """the type received at the first assignment is kept"""
    i, j = it
    s = Session()
    for x in setup() + value('PI') + value('Rec') + [assign('n', VALS[i]), expr(V('n')), assign('n', VALS[j]), expr(V('n')), assign('n', VALS[i])]:
        try:
            s.add(Entry(x))
        except ref.Unknown:
            return None
    return s.test()


LINES = ['', '5', '-5', 'abc', '5.5', '.5', '5.', 'TRUE', 'FALSE', 'true', 'a', ' ', ' 5', '9223372036854775807', '0', '007', '1/2/2003', '-', '1.2.3', 'xyz 12', '12x', '-2.5', 'T']


def input_items(rng):
    for T in KS + ['new', 'const', 'array', 'undefpath']:
        for ch in ('var', 'elem', 'field', 'deref'):
            for i in range(len(LINES)):
                yield T, ch, i


def input_make(it, rng):
    T, ch, i = it
    if T in ('new', 'const', 'array', 'undefpath'):
        if ch != 'var':
            return None
        b = {'new': [input_('nv'), output(V('nv')), input_('nv'), output(V('nv')), assign('nv', I(5))], 'const': [const('c', I(5)), input_('c')], 'array': [declarr('a', [(1, 2)], 'INTEGER'), input_('a')],
             'undefpath': [input_(('fld', ('id', 'zz'), 'x'))]}[T]
        return test(setup() + b, stdin=LINES[i] + '\nsecond\n')
    d, lv = channel(T, ch, 'm')
    return test(setup() + d + seta(T, lv) + [input_(lv), show_all(dump(T, lv)), input_(lv), show_all(dump(T, lv))], stdin=LINES[i] + '\n' + rng.choice(LINES) + '\n')


def tasks(tier):
    T = Task
    return [T('type pairs', pairs, pairs_make, bound='every (target, source) type pair through %d channels' % len(CH)),
            T('conversions by value', conv_items, conv_make, bound='%d values into every scalar type' % len(VALS)),
            T('first assignment', first_items, first_make, bound='every ordered pair of values'),
            T('INPUT', input_items, input_make, bound='%d lines into every type and channel' % len(LINES)),
            rand_task('random stores', 2, err=0.06, types=1, ptrs=0.3, inputs=0.5, stdin=lambda r: ''.join(r.choice(LINES) + '\n' for _ in range(12))),
            rand_task('random stores, scalars', 1, err=0.08, types=0, inputs=0.5, stdin=lambda r: ''.join(r.choice(LINES) + '\n' for _ in range(12)))]
