from .common import *

CH = ('var', 'elem', 'field', 'deref', 'elemfield')


def channel(T, ch, n):
    """(declarations, lvalue of type T)"""
    if ch == 'var':
        return [declare(n, T)], ('id', n)
    if ch == 'elem':
        return [declarr(n, [(0, 2)], T)], ('idx', ('id', n), [I(1)])
    if ch == 'field':
        return [deftype('R' + n, rec=[declare('a', 'INTEGER'), declare('f', T)]), declare(n, 'R' + n)], ('fld', ('id', n), 'f')
    if ch == 'elemfield':
        return [deftype('R' + n, rec=[declare('a', 'INTEGER'), declarr('g', [(1, 2)], T)]), declarr(n, [(1, 2)], 'R' + n)], ('idx', ('fld', ('idx', ('id', n), [I(2)]), 'g'), [I(2)])
    return [deftype('Q' + n, ptr=T), declare(n + 't', T), declare(n, 'Q' + n), ptrassign(n, n + 't')], ('deref', ('id', n))


MT = PRIM + ['Col', 'Rec', 'Nest', 'PI']


def setv(T, lv, k):
    """statements giving lv a value"""
    if T in LIT:
        return [assign(lv, (LIT, LIT2)[k][T])]
    if T == 'Col':
        return [assign(lv, V(('Green', 'Blue')[k]))]
    if T == 'PI':
        return [ptrassign(lv, ('tg1', 'tg2')[k])]
    if T == 'Rec':
        return [assign(('fld', lv, 'x'), I(10 + k)), assign(('fld', lv, 's'), ('str', 'z%d' % k)), assign(('idx', ('fld', lv, 'a'), [I(1 + k)]), I(20 + k))]
    return setv('Rec', ('fld', lv, 'r'), k) + [assign(('fld', lv, 'c'), V(('Green', 'Blue')[k]))]


def bind_items(rng):
    for T in MT:
        for mode in ('BYVAL', 'BYREF', None):
            for ch in CH:
                for shape in ('proc', 'func', 'chain', 'chainval', 'two', 'rec'):
                    yield T, mode, ch, shape


def bind_make(it, rng):
    T, mode, ch, shape = it
    d, lv = channel(T, ch, 'm')
    pre = WORLD_TYPES() + [declare('tg1', 'INTEGER'), declare('tg2', 'INTEGER'), assign('tg1', I(1)), assign('tg2', I(2))] + d + setv(T, lv, 0)
    D = lambda l: show_all(dump(T, l))
    p = ('id', 'p')
    body = [D(p)] + setv(T, p, 1) + [D(p), D(lv)]
    if shape == 'proc':
        b = [proc('w', [(mode, 'p', T)], body), call('w', [('var', lv)])]
    elif shape == 'func':
        b = [func('w', [(mode, 'p', T)], 'INTEGER', body + [ret(I(5))]), output(('fn', 'w', [('var', lv)]))]
    elif shape == 'chain':
        b = [proc('w2', [('BYREF', 'q', T)], [D(('id', 'q'))] + setv(T, ('id', 'q'), 1) + [D(lv)]), proc('w', [(mode, 'p', T)], [D(p), call('w2', [V('p')]), D(p), D(lv)]), call('w', [('var', lv)])]
    elif shape == 'chainval':
        b = [proc('w2', [('BYVAL', 'q', T)], [D(('id', 'q'))] + setv(T, ('id', 'q'), 1) + [D(('id', 'q')), D(lv)]), proc('w', [(mode, 'p', T)], [D(p), call('w2', [V('p')]), D(p), D(lv)]), call('w', [('var', lv)])]
    elif shape == 'two':
        # the same storage twice
        b = [proc('w', [(mode, 'p', T), ('BYREF' if mode != 'BYREF' else 'BYVAL', 'q', T)], setv(T, p, 1) + [D(p), D(('id', 'q'))] + setv(T, ('id', 'q'), 0) + [D(p), D(('id', 'q'))]), call('w', [('var', lv), ('var', lv)])]
    else:
        b = [proc('w', [(mode, 'p', T), ('BYVAL', 'n', 'INTEGER')], [if_([(B('>', V('n'), I(0)), [call('w', [V('p'), B('-', V('n'), I(1))])])]), D(p)] + setv(T, p, 1) + [D(p)]), call('w', [('var', lv), I(2)])]
    return test(pre + b + [D(lv)])


def modes(rng):
    """every list of up to 4 passing modes, with and without shared types"""
    for n in range(1, 5):
        for ms in itertools.product((None, 'BYREF', 'BYVAL'), repeat=n):
            for grp in range(1 << (n - 1)):
                yield ms, grp


def modes_make(it, rng):
    ms, grp = it
    n = len(ms)
    ts = ['INTEGER', 'STRING', 'INTEGER', 'BOOLEAN']
    ps, types = [], [None] * n
    t = None
    for i in reversed(range(n)):
        share = i < n - 1 and grp >> i & 1 and ms[i + 1] is None
        types[i] = types[i + 1] if share else ts[i]
        ps.insert(0, (ms[i], 'p%d' % i, None if share else ts[i]))
    pre = []
    for i in range(n):
        pre += [declare('m%d' % i, types[i]), assign('m%d' % i, LIT[types[i]])]
    body = [show_all([V('p%d' % i) for i in range(n)])] + [assign('p%d' % i, LIT2[types[i]]) for i in range(n)] + [show_all([V('m%d' % i) for i in range(n)])]
    isf = rng.random() < .5
    args = [V('m%d' % i) for i in range(n)]
    b = [func('w', ps, 'INTEGER', body + [ret(I(1))]), output(('fn', 'w', args))] if isf else [proc('w', ps, body), call('w', args)]
    return test(pre + b + [show_all([V('m%d' % i) for i in range(n)])])


def argerr(rng):
    ops = range(len(operands()))
    for o in ops:
        for T in MT:
            for mode in ('BYVAL', 'BYREF'):
                for f in (0, 1):
                    yield o, T, mode, f


def argerr_make(it, rng):
    o, T, mode, f = it
    name, pre, e = operands()[o]
    D = [outs('in')]
    b = WORLD_TYPES() + pre + [outs('start')]
    if f:
        b += [func('w', [(mode, 'p', T)], 'INTEGER', D + [ret(I(1))]), output(('fn', 'w', [e]))]
    else:
        b += [proc('w', [(mode, 'p', T)], D), call('w', [e])]
    return test(b + [outs('end')])


def rets(rng):
    for o in range(len(operands())):
        for T in MT:
            yield o, T


def rets_make(it, rng):
    o, T = it
    name, pre, e = operands()[o]
    return test(WORLD_TYPES() + pre + [declare('r', T), func('w', [], T, [outs('in'), ret(e), outs('never')]), assign('r', ('fn', 'w', [])), show_all(dump(T, ('id', 'r'))), outs('end')])


def counts(rng):
    for n in range(0, 4):
        for m in range(0, 5):
            for f in (0, 1):
                yield n, m, f


def counts_make(it, rng):
    n, m, f = it
    ps = [(None, 'p%d' % i, 'INTEGER') for i in range(n)]
    a = [I(i) for i in range(m)]
    if f:
        b = [func('w', ps, 'INTEGER', [outs('in'), ret(I(1))]), output(('fn', 'w', a))]
    else:
        b = [proc('w', ps, [outs('in')]), call('w', a)]
    return test(b + [outs('end')])


def special(rng):
    i, s = I, ('str', 'local')
    R = lambda *b: list(b)
    yield [proc('p', [], [ret(I(1))]), outs('a'), call('p'), outs('b')]
    yield [outs('a'), ret(I(1)), outs('b')]
    yield [func('f', [], 'INTEGER', [outs('in')]), output(('fn', 'f', [])), outs('b')]
    yield [func('f', [(None, 'b', 'BOOLEAN')], 'INTEGER', [if_([(V('b'), [ret(I(1))])]), outs('x')]), output(('fn', 'f', [('bool', True)])), output(('fn', 'f', [('bool', False)]))]
    yield [func('f', [], 'INTEGER', [while_(('bool', True), [for_('i', I(1), I(3), [if_([(B('=', V('i'), I(2)), [ret(V('i'))])]), output(V('i'))])]), outs('never')]), output(('fn', 'f', []))]
    yield [call('nope'), outs('b')]
    yield [output(('fn', 'nope', [])), outs('b')]
    yield [proc('p', [], [outs('1')]), proc('p', [], [outs('2')]), call('p')]
    # locals
    yield [proc('p', [], [declare('l', 'INTEGER'), assign('l', B('+', V('l'), I(1))), output(V('l'))]), call('p'), call('p'), output(V('l'))]
    yield [proc('q', [], [output(V('l'))]), proc('p', [], [declare('l', 'INTEGER'), assign('l', I(5)), call('q')]), call('p')]
    yield [proc('q', [], [assign('l', I(9)), output(V('l'))]), proc('p', [], [declare('l', 'INTEGER'), assign('l', I(5)), call('q'), output(V('l'))]), call('p'), output(V('l'))]
    yield [assign('g', I(1)), proc('p', [], [output(V('g')), declare('g', 'STRING'), output(V('g')), assign('g', s), output(V('g'))]), call('p'), output(V('g')), call('p')]
    yield [assign('g', I(1)), proc('p', [(None, 'n', 'INTEGER')], [if_([(B('=', B('MOD', V('n'), I(2)), I(0)), [declare('g', 'INTEGER')])]), assign('g', B('+', V('g'), V('n'))), output(V('g')),
           if_([(B('>', V('n'), I(0)), [call('p', [B('-', V('n'), I(1))])])]), output(V('g'))]), call('p', [I(4)]), output(V('g'))]
    yield [declarr('g', [(1, 2)], 'INTEGER'), proc('p', [], [assign(('idx', ('id', 'g'), [I(1)]), I(1)), declarr('g', [(1, 2)], 'INTEGER'), assign(('idx', ('id', 'g'), [I(1)]), I(2)), output(('var', ('idx', ('id', 'g'), [I(1)])))]),
           call('p'), output(('var', ('idx', ('id', 'g'), [I(1)]))), call('p'), output(('var', ('idx', ('id', 'g'), [I(1)])))]
    yield [const('g', I(3)), proc('p', [], [declare('g', 'INTEGER'), assign('g', I(4)), output(V('g'))]), call('p'), output(V('g'))]
    yield [proc('p', [], [const('k', I(3)), output(V('k'))]), call('p'), call('p'), output(V('k'))]
    # a function evaluated in an argument of the same function, results kept apart
    yield [func('f', [(None, 'n', 'INTEGER')], 'INTEGER', [declare('l', 'INTEGER'), assign('l', V('n')), if_([(B('<', V('n'), I(2)), [ret(V('n'))])]), ret(B('+', B('+', ('fn', 'f', [B('-', V('n'), I(1))]), ('fn', 'f', [B('-', V('n'), I(2))])), B('-', V('l'), V('n'))))]),
           output(('fn', 'f', [('fn', 'f', [I(6)])])), for_('i', I(0), I(8), [output(('fn', 'f', [V('i')]))])]
    for d in (1, 10, 50, 200):
        yield [func('f', [(None, 'n', 'INTEGER')], 'INTEGER', [assign('l', V('n')), if_([(B('=', V('n'), I(0)), [ret(I(0))])]), assign('r', ('fn', 'f', [B('-', V('n'), I(1))])), ret(B('+', B('+', V('r'), I(1)), B('-', V('l'), V('n'))))]), output(('fn', 'f', [I(d)]))]
        yield [proc('e', [(None, 'n', 'INTEGER'), ('BYREF', 'c', 'INTEGER')], [assign('c', B('+', V('c'), I(1))), if_([(B('>', V('n'), I(0)), [call('o', [B('-', V('n'), I(1)), V('c')])])])]),
               proc('o', [(None, 'n', 'INTEGER'), ('BYREF', 'd', 'INTEGER')], [assign('d', B('+', V('d'), I(10))), if_([(B('>', V('n'), I(0)), [call('e', [B('-', V('n'), I(1)), V('d')])])])]), assign('x', I(0)), call('e', [I(d), V('x')]), output(V('x'))]
    # one call site, many activations at recycled addresses
    yield [proc('a', [(None, 'n', 'INTEGER')], [declare('v', 'INTEGER'), assign('v', V('n')), output(V('v')), assign('v', B('*', V('v'), I(2))), output(V('v'))]),
           proc('b', [(None, 'v', 'STRING')], [output(V('v'))]), proc('c', [], [output(V('v'))]), assign('v', I(100)),
           for_('i', I(1), I(6), [call('a', [V('i')]), call('b', [('str', 'z')]), call('c'), assign('v', B('+', V('v'), I(1)))])]
    yield [assign('v', I(7)), proc('w', [(None, 'd', 'BOOLEAN')], [if_([(V('d'), [declare('v', 'INTEGER'), assign('v', I(1))])]), output(V('v')), assign('v', B('+', V('v'), I(1))), output(V('v'))]),
           for_('i', I(1), I(4), [call('w', [('bool', True)]), call('w', [('bool', False)])]), output(V('v'))]
    # BYREF of one element while the index changes
    yield [declarr('a', [(1, 3)], 'INTEGER'), assign('k', I(1)), proc('w', [('BYREF', 'p', 'INTEGER')], [assign('k', I(3)), assign('p', I(5)), output(V('p'))]), call('w', [('var', ('idx', ('id', 'a'), [V('k')]))]),
           show_all([('var', ('idx', ('id', 'a'), [I(j)])) for j in (1, 2, 3)])]
    # argument evaluation happens once and in the caller
    yield [declarr('a', [(1, 3)], 'INTEGER'), assign('cnt', I(0)), func('nx', [], 'INTEGER', [assign('cnt', B('+', V('cnt'), I(1))), ret(V('cnt'))]), proc('w', [('BYREF', 'p', 'INTEGER'), ('BYVAL', 'q', 'INTEGER')], [assign('p', V('q'))]),
           call('w', [('var', ('idx', ('id', 'a'), [('fn', 'nx', [])])), ('fn', 'nx', [])]), show_all([('var', ('idx', ('id', 'a'), [I(j)])) for j in (1, 2, 3)] + [V('cnt')])]
    yield [assign('x', I(1)), proc('w', [(None, 'x', 'INTEGER'), (None, 'y', 'INTEGER')], [output(V('x'), V('y'))]), call('w', [B('+', V('x'), I(1)), V('x')]), output(V('x'))]
    # RETURN converts to the declared type
    yield [func('f', [], 'REAL', [ret(I(2))]), func('g', [], 'STRING', [ret(('char', 'c'))]), func('h', [], 'CHAR', [ret(('str', 'd'))]), output(('fn', 'f', []), ('fn', 'g', []), ('fn', 'h', []))]
    yield [deftype('R', rec=[declare('x', 'INTEGER')]), declare('gr', 'R'), func('f', [], 'R', [assign(('fld', ('id', 'gr'), 'x'), I(1)), ret(V('gr'))]), declare('r', 'R'), assign('r', ('fn', 'f', [])), assign(('fld', ('id', 'gr'), 'x'), I(2)), output(('var', ('fld', ('id', 'r'), 'x')))]


def tasks(tier):
    T = Task
    return [T('parameter binding', bind_items, bind_make, bound='every type, mode, argument channel and call shape'),
            T('passing modes', modes, modes_make, bound='every list of up to 4 modes, types shared or not'),
            T('arguments', argerr, argerr_make, bound='every operand kind for every parameter type and mode'),
            T('results', rets, rets_make, bound='every operand kind returned from every result type'),
            T('argument counts', counts, counts_make, bound='0..3 parameters, 0..4 arguments'),
            T('scopes', special, lambda b, rng: test(b), bound='fixed list'),
            rand_task('random calls', 3, procs=4, funcs=4, types=1, ptrs=0.2, recursion=2, shadow=0.5, err=0.015),
            rand_task('random calls, scalars', 2, procs=5, funcs=5, types=0, recursion=2, shadow=0.6, err=0.005, arrays=0.3)]
