from .common import *
from .c04 import channel, setv

TT = PRIM + ['Col', 'Rec', 'PI']
CHS = ('var', 'elem', 'field', 'elemfield', 'deref')


def alias_items(rng):
    for T in TT:
        for ch in CHS:
            for how in ('direct', 'copy', 'param', 'byref', 'result', 'field', 'elem', 'global'):
                for where in ('global', 'local', 'parval', 'parref'):
                    yield T, ch, how, where


def alias_make(it, rng):
    T, ch, how, where = it
    d, lv = channel(T, ch, 'm')
    defs = [s for s in d if s.k == 'type']
    d = [s for s in d if s.k != 'type']
    P = ('deref', ('id', 'p'))
    D = lambda l: show_all(dump(T, l))
    glob = WORLD_TYPES() + defs + [declare('tg1', 'INTEGER'), declare('tg2', 'INTEGER'), assign('tg1', I(1)), assign('tg2', I(2)), deftype('PT', ptr=T), declare('gp', 'PT'), deftype('RP', rec=[declare('p', 'PT'), declare('k', 'INTEGER')])]
    if where in ('parval', 'parref'):
        if ch != 'var':
            return None
        lv = ('id', 'm')
        body = []
        d = []
    else:
        body = list(d)
    body += setv(T, lv, 0) + [declare('p', 'PT'), ptrassign('p', lv)]
    Q = P
    if how == 'copy':
        body += [declare('q', 'PT'), assign('q', V('p'))]
        Q = ('deref', ('id', 'q'))
    elif how == 'field':
        body += [declare('rp', 'RP'), assign(('fld', ('id', 'rp'), 'p'), V('p'))]
        Q = ('deref', ('fld', ('id', 'rp'), 'p'))
    elif how == 'elem':
        body += [declarr('ap', [(1, 2)], 'PT'), assign(('idx', ('id', 'ap'), [I(2)]), V('p'))]
        Q = ('deref', ('idx', ('id', 'ap'), [I(2)]))
    elif how == 'global':
        body += [assign('gp', V('p'))]
        Q = ('deref', ('id', 'gp'))
    elif how == 'result':
        glob += [func('idp', [(None, 'x', 'PT')], 'PT', [ret(V('x'))])]
        body += [declare('q', 'PT'), assign('q', ('fn', 'idp', [V('p')]))]
        Q = ('deref', ('id', 'q'))
    body += [D(Q)] + setv(T, lv, 1) + [D(Q)]
    if how in ('param', 'byref'):
        glob += [proc('ww', [('BYREF' if how == 'byref' else 'BYVAL', 'x', 'PT')], [D(('deref', ('id', 'x')))] + setv(T, ('deref', ('id', 'x')), 0) + [D(('deref', ('id', 'x')))])]
        body += [call('ww', [V('p')]), D(lv)]
    body += setv(T, Q, 0) + [D(lv), D(P)] + setv(T, P, 1) + [D(lv), D(Q)]
    if where == 'global':
        return test(glob + body)
    if where == 'local':
        return test(glob + [proc('go', [], body), call('go'), call('go')])
    mode = 'BYVAL' if where == 'parval' else 'BYREF'
    return test(glob + [declare('arg', T), proc('go', [(mode, 'm', T)], body), call('go', [V('arg')]), D(('id', 'arg')), call('go', [V('arg')]), D(('id', 'arg'))])


USES = ('read', 'write', 'input', 'byref', 'byval', 'field', 'repoint', 'echo', 'copy')


def dead_items(rng):
    for T in ('INTEGER', 'STRING', 'Rec', 'REAL', 'Col'):
        for tgt in ('local', 'parval', 'elem', 'field', 'parref', 'never', 'loopvar', 'localarr', 'deep'):
            for via in ('global', 'result', 'byref', 'array', 'record'):
                for reuse in (0, 1, 2, 3):
                    for use in USES:
                        yield T, tgt, via, reuse, use


def dead_make(it, rng):
    T, tgt, via, reuse, use = it
    glob = WORLD_TYPES() + [declare('tg1', 'INTEGER'), declare('tg2', 'INTEGER'), deftype('PT', ptr=T), declare('gp', 'PT'), declarr('ga', [(1, 2)], 'PT'), deftype('RP', rec=[declare('p', 'PT')]), declare('gr', 'RP'), declare('arg', T)] + setv(T, ('id', 'arg'), 0)
    if tgt == 'loopvar' and T != 'INTEGER':
        return None
    store = {'global': ('id', 'gp'), 'array': ('idx', ('id', 'ga'), [I(1)]), 'record': ('fld', ('id', 'gr'), 'p'), 'byref': ('id', 'bp'), 'result': ('id', 'lp')}[via]
    params, args = [], []
    body = []
    lv = ('id', 'm')
    if tgt == 'parval':
        params.append(('BYVAL', 'm', T))
        args.append(V('arg'))
    elif tgt == 'parref':
        params.append(('BYREF', 'm', T))
        args.append(V('arg'))
    elif tgt == 'elem' or tgt == 'localarr':
        body += [declarr('m', [(1, 2)], T)]
        lv = ('idx', ('id', 'm'), [I(2)])
    elif tgt == 'field':
        glob += [deftype('HH', rec=[declare('f', T)])]
        body += [declare('m', 'HH')]
        lv = ('fld', ('id', 'm'), 'f')
    elif tgt == 'loopvar':
        body += [for_('m', I(1), I(2), [outs('.')])]
    elif tgt in ('local', 'deep'):
        body += [declare('m', T)]
    if via == 'byref':
        params.append(('BYREF', 'bp', 'PT'))
        args.append(V('gp'))
    if via == 'result':
        body += [declare('lp', 'PT')]
    if tgt != 'never':
        body += (setv(T, lv, 1) if tgt not in ('parref',) else []) + [ptrassign(store, lv), show_all(dump(T, ('deref', store)))]
    if tgt == 'deep':
        body += [if_([(B('>', V('n'), I(0)), [call('mk', [B('-', V('n'), I(1))] + ([V('bp')] if via == 'byref' else []))])])] if via != 'result' else []
        params.insert(0, (None, 'n', 'INTEGER'))
        args.insert(0, I(2))
    if via == 'result':
        mk = [func('mk', params, 'PT', body + [ret(V('lp'))]), assign('gp', ('fn', 'mk', args))]
    else:
        mk = [proc('mk', params, body), call('mk', args)]
    Q = {'array': ('idx', ('id', 'ga'), [I(1)]), 'record': ('fld', ('id', 'gr'), 'p')}.get(via, ('id', 'gp'))
    X = ('deref', Q)
    b = glob + mk
    # calls of the same shape reuse the freed memory
    sib = [proc('sib', [(None, 'y', T)], [declare('m', T), declare('m2', T), assign('m', V('y')), declarr('m3', [(1, 2)], T)])]
    if reuse == 1:
        b += sib + [call('sib', [V('arg')])]
    elif reuse == 2 and via != 'result':
        # the same procedure again, this time leaving the pointer alone: a live activation at the dead one's address
        b += [proc('other', [(None, 'n', 'INTEGER')], [declare('m', T)] + setv(T, ('id', 'm'), 0) + [outs('in')] + ([output(('var', X)) if T != 'Rec' else show_all(dump(T, X))]) + [show_all(dump(T, ('id', 'm')))]), call('other', [I(1)])]
    elif reuse == 3:
        b += sib + [proc('dp', [(None, 'n', 'INTEGER')], [declare('m', T), if_([(B('>', V('n'), I(0)), [call('dp', [B('-', V('n'), I(1))])], )], [call('sib', [V('arg')])])]), call('dp', [I(3)])]
    if use == 'read':
        b += [show_all(dump(T, X))]
    elif use == 'write':
        b += setv(T, X, 0) + [outs('written')]
    elif use == 'input':
        b += [input_(X), outs('written')]
    elif use == 'byref':
        b += [proc('pr', [('BYREF', 'z', T)], [outs('in')]), call('pr', [('var', X)])]
    elif use == 'byval':
        b += [proc('pr', [('BYVAL', 'z', T)], [outs('in')]), call('pr', [('var', X)])]
    elif use == 'field':
        b += [declare('o', T), assign('o', ('var', X))]
    elif use == 'repoint':
        b += [declare('q', 'PT'), ptrassign('q', X)]
    elif use == 'copy':
        b += [declare('q', 'PT'), assign('q', ('var', Q)), outs('copied'), ptrassign(Q, 'arg'), show_all(dump(T, X)), show_all(dump(T, ('deref', ('id', 'q'))))]
    else:
        b += [ptrassign(Q, 'arg')] + [show_all(dump(T, X))] + setv(T, X, 1) + [show_all(dump(T, ('id', 'arg')))]
    return test(b + [outs('end')], stdin='5\n')


def types_items(rng):
    for a in KINDS:
        for b in KINDS:
            for f in range(5):
                yield a, b, f


def types_make(it, rng):
    """taking a pointer is checked against the declared target type"""
    a, b, f = it
    pre = WORLD_TYPES() + [deftype('PT', ptr=a), declare('p', 'PT'), outs('s')]
    X = {0: ('id', 'm'), 1: ('idx', ('id', 'm'), [I(1)]), 2: ('fld', ('id', 'm'), 'f'), 3: ('id', 'm'), 4: ('id', 'm')}[f]
    if f == 0:
        pre += [declare('m', b)]
    elif f == 1:
        pre += [declarr('m', [(1, 2)], b)]
    elif f == 2:
        pre += [deftype('H', rec=[declare('f', b)]), declare('m', 'H')]
    elif f == 3:
        pre += [declarr('m', [(1, 2)], b)]
    else:
        # a pointer of another pointer type
        pre += [deftype('PU', ptr=b), declare('o', b), declare('m', 'PU'), ptrassign('m', 'o'), assign('p', V('m')), outs('same'), show_all(dump(b, ('deref', ('id', 'p'))))]
        return test(pre + [outs('end')]) if b not in ('PI', 'PS') else None
    return test(pre + [ptrassign('p', X), outs('taken')] + ([show_all(dump(a, ('deref', ('id', 'p'))))] if a not in ('PI', 'PS') else []) + [outs('end')])


def misc(rng):
    p, x = ('id', 'p'), ('id', 'x')
    yield [deftype('P', ptr='INTEGER'), declare('p', 'P'), output(('var', ('deref', p)))]
    yield [deftype('P', ptr='INTEGER'), declare('p', 'P'), assign(('deref', p), I(1))]
    yield [deftype('P', ptr='INTEGER'), declare('p', 'P'), ptrassign('p', 'nosuch')]
    yield [deftype('P', ptr='INTEGER'), declare('x', 'INTEGER'), ptrassign('x', 'x')]
    yield [declare('x', 'INTEGER'), output(('var', ('deref', x)))]
    yield [deftype('P', ptr='NOPE')]
    # the target keeps its identity when its own array / record is assigned as a whole
    yield [deftype('P', ptr='INTEGER'), declare('p', 'P'), declarr('a', [(1, 2)], 'INTEGER'), declarr('b', [(1, 2)], 'INTEGER'), assign(('idx', ('id', 'b'), [I(1)]), I(7)), ptrassign('p', ('idx', ('id', 'a'), [I(1)])), assign('a', V('b')), output(('var', ('deref', p))), assign(('deref', p), I(8)),
           output(('var', ('idx', ('id', 'a'), [I(1)])), ('var', ('idx', ('id', 'b'), [I(1)])))]
    yield [deftype('R', rec=[declare('f', 'INTEGER'), declarr('g', [(1, 2)], 'INTEGER')]), deftype('P', ptr='INTEGER'), declare('p', 'P'), declare('q', 'P'), declare('r', 'R'), declare('s', 'R'), assign(('fld', ('id', 's'), 'f'), I(7)), assign(('idx', ('fld', ('id', 's'), 'g'), [I(2)]), I(3)),
           ptrassign('p', ('fld', ('id', 'r'), 'f')), ptrassign('q', ('idx', ('fld', ('id', 'r'), 'g'), [I(2)])), assign('r', V('s')), output(('var', ('deref', p)), ('var', ('deref', ('id', 'q')))), assign(('deref', p), I(8)), assign(('deref', ('id', 'q')), I(9)),
           output(('var', ('fld', ('id', 'r'), 'f')), ('var', ('fld', ('id', 's'), 'f')), ('var', ('idx', ('fld', ('id', 'r'), 'g'), [I(2)])), ('var', ('idx', ('fld', ('id', 's'), 'g'), [I(2)])))]
    # linked structures
    yield [deftype('P', ptr='INTEGER'), deftype('PP', ptr='P'), declare('x', 'INTEGER'), declare('p', 'P'), declare('q', 'PP'), ptrassign('p', 'x'), ptrassign('q', 'p'), assign(('deref', ('deref', ('id', 'q'))), I(4)), output(V('x')), declare('y', 'INTEGER'), ptrassign(('deref', ('id', 'q')), 'y'),
           assign(('deref', p), I(5)), output(V('x'), V('y'))]
    # a pointer taken in an activation that is still running, used in callees at every depth
    yield [deftype('P', ptr='INTEGER'), declare('g', 'P'), proc('down', [(None, 'n', 'INTEGER')], [declare('l', 'INTEGER'), assign('l', V('n')), if_([(B('=', V('n'), I(4)), [ptrassign('g', 'l')])]), assign(('deref', ('id', 'g')), B('+', ('var', ('deref', ('id', 'g'))), I(1))), output(V('l'), ('str', ' '), ('var', ('deref', ('id', 'g')))),
           if_([(B('>', V('n'), I(0)), [call('down', [B('-', V('n'), I(1))])])]), output(V('l'))]), call('down', [I(4)]), output(('var', ('deref', ('id', 'g'))))]


def tasks(tier):
    T = Task
    deep = tier == 'thorough'

    def sample(items, frac):
        return lambda rng: (x for x in items(rng) if rng.random() < frac)
    return [T('aliasing', alias_items, alias_make, bound='every target type, kind, copy channel and home of the target'),
            T('dead pointers', dead_items, dead_make, bound='5 types, 9 targets, 5 channels, 4 kinds of reuse, 9 uses'),
            T('dead pointers (sanitizers)', dead_items if deep else sample(dead_items, .5), dead_make, kind='asan', bound='the same' + ('' if deep else ', half of them')),
            T('aliasing (sanitizers)', sample(alias_items, .3), alias_make, kind='asan', bound='the same, 30 %'),
            T('pointer types', types_items, types_make, bound='every pair of types, 5 forms'),
            T('special pointers', misc, lambda b, rng: test(b), kind='asan', bound='fixed list'),
            rand_task('random pointer programs', 2, types=3, ptrs=2, procs=3, funcs=3, prims=['INTEGER', 'STRING'], err=0.01, recursion=2),
            rand_task('random pointer programs (sanitizers)', 1.5, kind='asan', types=3, ptrs=2, procs=3, funcs=3, prims=['INTEGER', 'STRING'], err=0.01, recursion=2)]
