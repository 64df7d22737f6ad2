from .common import *


def cube(rng):
    for a in range(-4, 6):
        for b in range(-4, 6):
            yield a, b


def cube_make(it, rng):
    a, b = it
    out = []
    for st in (None, 1, 2, 3, 4, -1, -2, -3, -4):
        if st is None or rng.random() < 0.5:
            body = [output(V('i'), ('str', ' '))]
        else:
            body = [output(V('i'), ('str', ' ')), assign('n', B('+', V('n'), I(1)))]
        out += [assign('n', I(0)), for_('i', I(a), I(b), body, None if st is None else I(st)), output(('str', 'end '), V('i'), ('str', ' '), V('n'))]
    return test(out)


def modbounds(rng):
    """start, stop and step are evaluated once"""
    for a in (-1, 0, 2):
        for b in (0, 3, 4):
            for st in (1, 2, -1):
                for da, db, ds in itertools.product((-1, 0, 2), repeat=3):
                    yield a, b, st, da, db, ds


def modbounds_make(it, rng):
    a, b, st, da, db, ds = it
    pre = [assign('a', I(a)), assign('b', I(b)), assign('s', I(st)),
           func('tr', [(None, 'n', 'INTEGER')], 'INTEGER', [output(('str', 'eval '), V('n')), ret(V('n'))])]
    body = [output(V('i'), ('str', ' '), V('a'), ('str', ' '), V('b'), ('str', ' '), V('s')), assign('a', B('+', V('a'), I(da))), assign('b', B('+', V('b'), I(db))), assign('s', B('+', V('s'), I(ds)))]
    w = rng.choice([V, lambda n: ('fn', 'tr', [V(n)])])
    return test(pre + [for_('i', w('a'), w('b'), body, w('s')), output(V('i'))], steps=3000)


def loop(kind, v, n, body):
    """loop of the given kind running the body for v = 1..n"""
    if kind == 'for':
        return [for_(v, I(1), I(n), body)]
    if kind == 'down':
        return [for_(v, I(n), I(1), body, I(-1))]
    if kind == 'while':
        return [assign(v, I(0)), while_(B('<', V(v), I(n)), [assign(v, B('+', V(v), I(1)))] + body)]
    return [assign(v, I(0)), repeat([assign(v, B('+', V(v), I(1)))] + body, B('>=', V(v), I(n)))]


LOOPS = ('for', 'down', 'while', 'repeat')


def brk_items(rng):
    for a in LOOPS:
        for b in LOOPS:
            for pos in range(5):
                for what in (brk, cont):
                    for wrapk in ('if', 'else', 'case', 'plain', 'ifin'):
                        yield a, b, pos, what, wrapk


def brk_make(it, rng):
    a, b, pos, what, wrapk = it
    v = 'j' if pos in (2, 3) else 'i'
    at = rng.randint(1, 3)
    if wrapk == 'if':
        w = [if_([(B('=', V(v), I(at)), [outs('hit'), what()])])]
    elif wrapk == 'else':
        w = [if_([(B('<>', V(v), I(at)), [outs('pass')])], [what(), outs('never')])]
    elif wrapk == 'case':
        w = [case(v, [('eq', I(at), [outs('hit'), what(), outs('never')]), ('other', [outs('other')])])]
    elif wrapk == 'ifin':
        w = [if_([(B('=', V(v), I(at)), [if_([(('bool', True), [what()])]), outs('never')])])]
    else:
        w = [what()]
    tr = lambda t: output(('str', t), V('i'))
    trj = lambda t: output(('str', t), V('i'), ('str', ','), V('j'))
    inner = [trj('a')] + (w if pos == 2 else []) + [trj('b')] + (w if pos == 3 else [])
    body = [tr('x')] + (w if pos == 0 else []) + loop(b, 'j', 3, inner) + [trj('y')] + (w if pos == 1 else []) + [tr('z')]
    return test([assign('j', I(0))] + loop(a, 'i', 3, body) + (w if pos == 4 else []) + [trj('end')])


def three(seed, rng):
    r = random.Random(seed)
    ks = [r.choice(LOOPS) for _ in range(3)]
    vs = ['i', 'j', 'k']
    out = [assign('j', I(0)), assign('k', I(0))]

    def stop(d):
        v = vs[r.randint(0, d)]
        w = r.choice([brk, cont])()
        return if_([(B(r.choice(['=', '>', '<>']), V(v), I(r.randint(1, 3))), [outs('!'), w])])

    def mk(d):
        t = output(*[V(v) for v in vs[:d + 1]])
        b = [t]
        if r.random() < .5:
            b.append(stop(d))
        if d < 2:
            b += loop(ks[d + 1], vs[d + 1], r.randint(1, 3), mk(d + 1))
        if r.random() < .5:
            b.append(stop(d))
        b.append(outs('.'))
        return b
    return test(out + loop(ks[0], 'i', 3, mk(0)) + [output(V('i'), V('j'), V('k'))])


def if_items(rng):
    for n in range(1, 5):
        for els in (0, 1):
            for p in itertools.product((0, 1), repeat=n):
                yield p, els


def if_make(it, rng):
    p, els = it
    t = func('t', [(None, 'n', 'INTEGER'), (None, 'b', 'BOOLEAN')], 'BOOLEAN', [output(('str', 'c'), V('n')), ret(V('b'))])
    a = if_([(('fn', 't', [I(i), ('bool', bool(x))]), [outs('branch %d' % i)]) for i, x in enumerate(p)], [outs('else')] if els else None)
    vs = [assign('b%d' % i, ('bool', bool(x))) for i, x in enumerate(p)]
    # branches changing the variables later conditions read
    b = if_([(V('b%d' % i), [outs('v%d' % i)] + [assign('b%d' % j, ('bool', True)) for j in range(len(p))]) for i in range(len(p))], [outs('else')] if els else None)
    return test([t, a, outs('after')] + vs + [b, outs('end')])


SEL = {'INTEGER': [I(-1), I(0), I(1), I(2), I(5)], 'REAL': [('real', '0.5'), ('real', '1.0'), ('real', '2.0'), ('neg', ('real', '1.5'))],
       'CHAR': [('char', 'a'), ('char', 'c'), ('char', 'Z')], 'STRING': [('str', ''), ('str', 'a'), ('str', 'ab')], 'BOOLEAN': [('bool', True), ('bool', False)],
       'DATE': [('date', 1, 1, 2000), ('date', 31, 12, 1999), ('date', 15, 6, 2021)]}


def case_items(rng):
    for T in SEL:
        for v in range(len(SEL[T])):
            for k in range(60):
                yield T, v, k


def case_make(it, rng):
    T, v, k = it
    cl = []
    mix = {'INTEGER': SEL['INTEGER'] + SEL['REAL'] + [B('+', I(1), I(1))], 'REAL': SEL['REAL'] + SEL['INTEGER']}
    pool = mix.get(T, SEL[T] + ([SEL['STRING'][1]] if rng.random() < .2 else []))
    for i in range(rng.randint(1, 5)):
        if T in ('INTEGER', 'REAL', 'CHAR', 'DATE') and rng.random() < .5:
            cl.append(('rng', rng.choice(pool), rng.choice(pool), [outs('range %d' % i), assign('s', SEL[T][0])]))
        else:
            cl.append(('eq', rng.choice(pool), [outs('clause %d' % i), assign('s', SEL[T][-1])]))
    if rng.random() < .6:
        cl.append(('other', [outs('otherwise')]))
    b = [declare('s', T), assign('s', SEL[T][v]), case('s', cl), outs('end')]
    if rng.random() < .3:
        b = [for_('q', I(1), I(3), b[2:])]
        b = [declare('s', T), assign('s', SEL[T][v])] + b
    return test(b)


def ranges(rng):
    for lo in range(-3, 4):
        for hi in range(-3, 4):
            yield lo, hi


def ranges_make(it, rng):
    """inclusive ranges at and around both ends; also big integers that a double cannot tell apart"""
    lo, hi = it
    out = [declare('s', 'INTEGER'), declare('r', 'REAL')]
    for x in range(-4, 5):
        out += [assign('s', I(x)), case('s', [('rng', I(lo), I(hi), [outs('in %d' % x)]), ('other', [outs('out %d' % x)])])]
        out += [assign('r', B('+', I(x), ('real', '0.5'))), case('r', [('rng', I(lo), I(hi), [outs('rin')]), ('other', [outs('rout')])])]
    m = (1 << 53) + 2 * lo
    for x in range(m - 2, m + 3):
        out += [assign('s', I(x)), case('s', [('eq', I(m), [outs('eq')]), ('rng', I(m), I(m + abs(hi)), [outs('in')]), ('other', [outs('out')])])]
    for c in 'abcdefg':
        out += [assign('c', ('char', c)), case('c', [('rng', ('char', chr(100 + lo)), ('char', chr(100 + hi)), [outs('in')]), ('other', [outs('out')])])]
    return test(out)


def conds(rng):
    for i in range(len(operands())):
        for w in ('if', 'elseif', 'while', 'repeat', 'late', 'from', 'to', 'step', 'iter'):
            yield i, w


def conds_make(it, rng):
    i, w = it
    name, pre, e = operands()[i]
    b = WORLD_TYPES() + pre + [outs('start')]
    if w == 'if':
        b += [if_([(e, [outs('then')])], [outs('else')])]
    elif w == 'elseif':
        b += [if_([(('bool', False), [outs('then')]), (e, [outs('second')])], [outs('else')])]
    elif w == 'while':
        b += [while_(e, [outs('body'), brk()])]
    elif w == 'repeat':
        b += [assign('n', I(0)), repeat([assign('n', B('+', V('n'), I(1))), outs('body'), if_([(B('>', V('n'), I(2)), [brk()])])], e)]
    elif w == 'late':
        b += [if_([(('bool', True), [outs('then')]), (e, [outs('second')])])]
    elif w == 'from':
        b += [for_('i', e, I(5), [output(V('i'))])]
    elif w == 'to':
        b += [for_('i', I(1), e, [output(V('i')), if_([(B('>', V('i'), I(3)), [brk()])])])]
    elif w == 'step':
        b += [for_('i', I(1), I(5), [output(V('i'))], e)]
    else:
        if e[0] != 'var' or e[1][0] != 'id':
            return None
        b += [for_(e[1][1], I(1), I(2), [outs('body')])]
    return test(b + [outs('end')])


def wr(rng):
    for n in range(0, 5):
        for m in range(0, 5):
            yield n, m


def wr_make(it, rng):
    n, m = it
    inc = lambda v: assign(v, B('+', V(v), I(1)))
    return test([assign('i', I(0)), while_(B('<', V('i'), I(n)), [output(V('i')), inc('i')], False), output(V('i')),
                 assign('j', I(0)), repeat([output(V('j')), inc('j')], B('>=', V('j'), I(m))), output(V('j')),
                 func('f', [], 'BOOLEAN', [outs('test'), assign('k', B('+', V('k'), I(1))), ret(B('<', V('k'), I(m)))]),
                 ] + [assign('k', I(0)), while_(B('<', V('k'), I(n)), [outs('w'), inc('k')]), assign('g', ('bool', n > m)), repeat([outs('r'), assign('g', ('not', V('g')))], V('g'))])


def tasks(tier):
    T = Task
    return [T('FOR iteration cube', cube, cube_make, bound='start, stop in [-4,5], every step in [-4,4] and none'),
            T('FOR bounds evaluated once', modbounds, modbounds_make, bound='729 combinations of bounds and their changes in the body'),
            T('BREAK / CONTINUE', brk_items, brk_make, bound='every pair of loop kinds, 5 positions, 5 wrappings'),
            T('IF chains', if_items, if_make, bound='all truth patterns of up to 4 conditions'),
            T('CASE clauses', case_items, case_make, bound='every selector type, 60 clause lists per value'),
            T('CASE ranges', ranges, ranges_make, bound='bounds in [-3,3], selectors around them'),
            T('conditions', conds, conds_make, bound='every operand kind in every header'),
            T('WHILE / REPEAT', wr, wr_make, bound='0..4 iterations'),
            T('three loops', seeds, three, False, weight=1, bound='random nests of three loops with BREAK and CONTINUE'),
            rand_task('random control flow', 2, types=0, procs=1, funcs=1, loops=2.5, cases=2, brk=0.4, depth=4, err=0.01)]
