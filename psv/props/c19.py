"""Enumerated values."""
from .common import *
from .c17 import fn

NAMES = ['A', 'Bb', 'C_c', 'D4', 'eE', 'F', 'Gg', 'Hh']


def cyc_items(rng):
    for n in range(1, 9):
        for i in range(n):
            for how in ('var', 'name'):
                yield n, i, how


KS = list(range(-40, 41)) + [-(1 << 63), -(1 << 63) + 1, (1 << 63) - 1, (1 << 63) - 2, 1 << 31, -(1 << 31), (1 << 32), -(1 << 32), 10 ** 12 + 7, -(10 ** 12 + 7)]


def cyc_make(it, rng):
    n, i, how = it
    b = [deftype('E', enum=NAMES[:n]), declare('v', 'E'), assign('v', V(NAMES[i])), output(V('v'))]
    e = V('v') if how == 'var' else V(NAMES[i])
    for k in KS:
        b.append(output(B('+', e, I(k)), ('str', ' '), B('-', e, I(k))))
    for k in range(-9, 10):
        b.append(output(B('+', I(k), e)))
    b += [assign('w', B('+', e, I(1))), output(V('w')), assign('v', B('-', B('-', e, I(n)), I(2 * n - 1))), output(V('v'), B('=', V('v'), V('w')))]
    b.append(for_('j', I(1), I(3 * n), [assign('v', B('+', V('v'), I(1))), output(V('v'))]))
    b.append(for_('j', I(1), I(3 * n), [assign('v', B('-', V('v'), I(1))), output(V('v'))]))
    return test(b, steps=3000)


def cmp_items(rng):
    for n in range(1, 9):
        yield n


def cmp_make(n, rng):
    b = [deftype('E', enum=NAMES[:n]), declare('v', 'E'), declare('w', 'E')]
    for x in NAMES[:n]:
        b.append(assign('v', V(x)))
        for y in NAMES[:n]:
            b += [output(B('=', V(x), V(y)), B('<>', V(x), V(y)), B('=', V('v'), V(y)), B('<>', V(y), V('v'))), assign('w', V(y)), output(B('=', V('v'), V('w')), V('w'), V('v'))]
            b.append(case('v', [('eq', V(y), [outs('hit')]), ('other', [outs('miss')])]))
    return test(b, steps=5000)


SRC = KINDS + ['undef', 'name other', 'name own', 'expr other', 'cast']


def cross_items(rng):
    for place in PLACES:
        for s in SRC:
            for how in ('file', 'repl'):
                yield place, s, how


def src(s):
    if s in KINDS:
        return value(s), V('src' + s)
    return {'undef': ([], V('nosuch')), 'name other': ([], V('Cube')), 'name own': ([], V('Green')), 'expr other': ([], B('+', V('Disc'), I(1))), 'cast': ([], ('cast', 'INTEGER', ('str', '1')))}[s]


DSTV = ('id', 'dst')
PLACES = {
    'assign': lambda e: ([declare('dst', 'Col'), assign('dst', V('Blue'))], assign('dst', e), [V('dst')]),
    'element': lambda e: ([declarr('da', [(1, 3)], 'Col'), assign(('idx', ('id', 'da'), [I(2)]), V('Blue'))], assign(('idx', ('id', 'da'), [I(2)]), e), [('var', ('idx', ('id', 'da'), [I(k)])) for k in (1, 2, 3)]),
    'field': lambda e: ([declare('dn', 'Nest'), assign(('fld', ('id', 'dn'), 'c'), V('Blue'))], assign(('fld', ('id', 'dn'), 'c'), e), [('var', ('fld', ('id', 'dn'), 'c'))]),
    'byval': lambda e: ([proc('pv', [('BYVAL', 'q', 'Col')], [output(V('q'))])], call('pv', [e]), []),
    'byref': lambda e: ([proc('pr', [('BYREF', 'q', 'Col')], [output(V('q')), assign('q', B('+', V('q'), I(1)))])], call('pr', [e]), []),
    'return': lambda e: ([func('fr', [], 'Col', [ret(e)])], output(fn('fr')), []),
    'array': lambda e: ([declarr('da', [(1, 2)], 'Col'), declarr('db', [(1, 2)], 'Shp')], assign('da', V('db')), [('var', ('idx', ('id', 'da'), [I(1)]))]),
    'pointer': lambda e: ([deftype('PC', ptr='Col'), declare('dst', 'Col'), declare('pc', 'PC'), ptrassign('pc', 'dst')], assign(('deref', ('id', 'pc')), e), [V('dst')]),
    'ptrtype': lambda e: ([deftype('PC', ptr='Col'), declare('pc', 'PC'), declare('sh', 'Shp')], ptrassign('pc', 'sh'), []),
    'equal': lambda e: ([declare('dst', 'Col')], output(B('=', V('dst'), e), B('<>', e, V('dst'))), [V('dst')]),
    'less': lambda e: ([declare('dst', 'Col')], output(B('<', V('dst'), e)), [V('dst')]),
    'plus': lambda e: ([declare('dst', 'Col')], assign('dst', B('+', V('Red'), e)), [V('dst')]),
    'minus': lambda e: ([declare('dst', 'Col')], assign('dst', B('-', V('Red'), e)), [V('dst')]),
    'times': lambda e: ([declare('dst', 'Col')], output(B('*', V('Red'), e)), [V('dst')]),
    'concat': lambda e: ([declare('dst', 'Col')], output(B('&', V('Red'), e)), [V('dst')]),
    'case': lambda e: ([declare('dst', 'Col')], case('dst', [('eq', e, [outs('eq')]), ('other', [outs('other')])]), []),
    'for': lambda e: ([declare('dst', 'Col'), assign('dst', V('Blue'))], for_('dst', I(1), I(2), []), [V('dst')]),
    'input': lambda e: ([declare('dst', 'Col'), assign('dst', V('Blue'))], input_('dst'), [V('dst')]),
    'redefine': lambda e: ([], deftype('Col', enum=['Xx', 'Yy']), [V('Green')]),
}


def cross_make(it, rng):
    place, s, how = it
    pre, e = src(s)
    p, att, show = PLACES[place](e)
    b = WORLD_TYPES() + pre + p
    if how == 'file':
        return test(b + [outs('before'), att, outs('after')] + [output(x) for x in show], stdin='Green\n')
    ss = Session({})
    try:
        for x in b + [att] + [output(x) for x in show]:
            ss.add(Entry(x, inputs=['Green'] if x is att and place == 'input' else ()))
        for x in show:
            ss.add(Entry(expr(x)))
    except ref.Unknown:
        return None
    return ss.test()


# every operator between an enumerated value and a value of every kind, in both orders: only + and - of an INTEGER and comparisons within the type give a value
OPS = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '<=', '>', '>=', 'AND', 'OR']


def op_items(rng):
    for op in OPS:
        for s in SRC:
            for flip in (False, True):
                for how in ('var', 'name'):
                    yield op, s, flip, how


def op_make(it, rng):
    op, s, flip, how = it
    pre, e = src(s)
    v = V('dst') if how == 'var' else V('Blue')
    return test(WORLD_TYPES() + pre + [declare('dst', 'Col'), assign('dst', V('Blue')), outs('before'), output(B(op, e, v) if flip else B(op, v, e)), outs('after'), output(V('dst'))])


def local_items(rng):
    for k in range(12):
        yield k


def local_make(k, rng):
    """types of procedures, of the same name or with the same element names"""
    g = deftype('E', enum=['Red', 'Green', 'Blue'])
    l = deftype(['E', 'F'][k % 2], enum=[['Green', 'Red'], ['Up', 'Down', 'Green', 'Red'], ['Solo']][k % 3])
    T = ['E', 'F'][k % 2]
    body = [l, declare('v', T), output(V('v')), assign('v', B('+', V('v'), I(1))), output(V('v'))]
    if 'Green' in l.enum:
        body += [assign('v', V('Green')), output(V('v'), B('+', V('Green'), I(1)))]
    p = proc('p', [], body)
    b = [g, declare('w', 'E'), assign('w', V('Blue')), p] if k < 6 else [p, g, declare('w', 'E'), assign('w', V('Blue'))]
    b += [call('p'), output(V('w'), B('+', V('w'), I(1))), call('p'), assign('w', V('Green')), output(V('w'), B('+', V('Green'), I(2)))]
    return test(b)


def rand_make(seed, rng):
    r = random.Random(seed)
    ns = [r.randint(1, 8) for _ in range(2)]
    t1 = ['P%d' % i for i in range(ns[0])]
    t2 = ['Q%d' % i for i in range(ns[1])]
    b = [deftype('E', enum=t1), deftype('F', enum=t2), declare(['e1', 'e2'], 'E'), declare(['f1'], 'F'), declarr('ae', [(0, 2)], 'E'), declare('k', 'INTEGER'),
         deftype('R', rec=[declare('x', 'E'), declare('y', 'F')]), declare('r', 'R'), func('nx', [('BYVAL', 'z', 'E'), ('BYVAL', 'n', 'INTEGER')], 'E', [ret(B('+', V('z'), V('n')))])]
    E = [('id', 'e1'), ('id', 'e2'), ('idx', ('id', 'ae'), [I(1)]), ('fld', ('id', 'r'), 'x')]
    Fv = [('id', 'f1'), ('fld', ('id', 'r'), 'y')]
    for _ in range(r.randint(5, 25)):
        L, nm = (E, t1) if r.random() < .6 else (Fv, t2)
        x = r.random()
        a, c = r.choice(L), r.choice(L)
        k = I(r.choice([r.randint(-30, 30), r.choice(BIG)]))
        if x < .2:
            b.append(assign(a, V(r.choice(nm))))
        elif x < .5:
            b.append(assign(a, B(r.choice('+-'), ('var', c), k)))
        elif x < .6:
            b.append(output(B(r.choice(['=', '<>']), ('var', a), r.choice([('var', c), V(r.choice(nm))]))))
        elif x < .7 and L is E:
            b.append(assign(a, fn('nx', ('var', c), k)))
        elif x < .8:
            b.append(for_('i', I(1), I(r.randint(1, 12)), [assign(a, B(r.choice('+-'), ('var', a), V('i')))]))
        elif x < .83:
            b.append(assign(a, ('var', r.choice(Fv if L is E else E))))
        elif x < .9:
            b.append(openfile('e.dat', 'RANDOM'))
            b += [assign('e1', V(r.choice(t1))), putrec('e.dat', 'e1'), seek('e.dat', 1), getrec('e.dat', 'e2'), closefile('e.dat')]
        b.append(output(*[y for l in E + Fv for y in (('var', l), ('str', ' '))]))
    return test(b, steps=3000)


def tasks(tier):
    T = Task
    return [T('cyclic arithmetic', cyc_items, cyc_make, bound='types of 1..8 names, every value, every k in -40..40 and extreme integers'),
            T('equality', cmp_items, cmp_make, bound='all pairs of types of 1..8 names'),
            T('stores', cross_items, cross_make, bound='%d places x %d kinds of source, file and REPL' % (len(PLACES), len(SRC))),
            T('stores (sanitizers)', cross_items, cross_make, kind='asan', bound='as above'),
            T('local types', local_items, local_make, bound='12 programs'),
            T('operator table', op_items, op_make, bound='15 operators x kinds of operand x both orders'),
            T('random programs on enumerated values', seeds, rand_make, False, weight=2, bound='up to 25 statements over two types'),
            rand_task('random programs', 1, types=3, local_types=.6, err=.02)]
