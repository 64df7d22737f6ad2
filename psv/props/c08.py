from .common import *

CL = [I(5), I(-5), I(0), I((1 << 63) - 1), ('real', '2.5'), ('neg', ('real', '2.5')), ('bool', True), ('bool', False), ('char', 'q'), ('str', 'text'), ('str', 'a'), ('str', '')]
TY = ['INTEGER', 'INTEGER', 'INTEGER', 'INTEGER', 'REAL', 'REAL', 'BOOLEAN', 'BOOLEAN', 'CHAR', 'STRING', 'STRING', 'STRING']


def forms(T, lit):
    """every statement form that can write to the variable named 'c': list of (name, statements before, attempt, stdin)"""
    alt = LIT2[T]
    same = lit
    c = ('id', 'c')
    f = []
    for nm, e in (('other', alt), ('same', same), ('int', I(9)), ('char', ('char', 'z')), ('str', ('str', 'zz')), ('self', V('c'))):
        f.append(('assign ' + nm, [], assign('c', e), ()))
    f.append(('assign array', [declarr('arr', [(1, 2)], T)], assign('c', V('arr')), ()))
    f.append(('pointer assign', [declare('o', T)], ptrassign('c', 'o'), ()))
    f.append(('FOR', [], for_('c', I(1), I(3), [outs('body')]), ()))
    f.append(('FOR empty', [], for_('c', I(3), I(1), [outs('body')]), ()))
    f.append(('INPUT', [], input_('c'), ()))
    f.append(('READFILE', [openfile('t.txt', 'READ')], readfile('t.txt', 'c'), ()))
    f.append(('GETRECORD', [openfile('r.dat', 'RANDOM'), assign('o', alt), putrec('r.dat', 'o'), seek('r.dat', I(1))], getrec('r.dat', 'c'), ()))
    f.append(('BYREF', [proc('w', [('BYREF', 'p', T)], [outs('in'), assign('p', alt), outs('written')])], call('w', [V('c')]), ()))
    f.append(('BYREF function', [func('w', [('BYREF', 'p', T)], 'INTEGER', [outs('in'), assign('p', alt), ret(I(1))])], output(('fn', 'w', [V('c')])), ()))
    f.append(('BYREF chain', [proc('w2', [('BYREF', 'q', T)], [assign('q', alt)]), proc('w', [('BYREF', 'p', T)], [outs('in'), call('w2', [V('p')])])], call('w', [V('c')]), ()))
    f.append(('BYREF input', [proc('w', [('BYREF', 'p', T)], [outs('in'), input_('p')])], call('w', [V('c')]), ()))
    f.append(('BYREF get', [openfile('r.dat', 'RANDOM'), assign('o', alt), putrec('r.dat', 'o'), seek('r.dat', I(1)), proc('w', [('BYREF', 'p', T)], [outs('in'), getrec('r.dat', 'p')])], call('w', [V('c')]), ()))
    if T == 'INTEGER':
        f.append(('BYREF for', [proc('w', [('BYREF', 'p', T)], [outs('in'), for_('p', I(1), I(3), [outs('body')])])], call('w', [V('c')]), ()))
    if T == 'STRING':
        f.append(('BYREF readfile', [openfile('t.txt', 'READ'), proc('w', [('BYREF', 'p', T)], [outs('in'), readfile('t.txt', 'p')])], call('w', [V('c')]), ()))
    f.append(('pointer', [deftype('PT', ptr=T), declare('p', 'PT'), ptrassign('p', 'c')], assign(('deref', ('id', 'p')), alt), ()))
    f.append(('pointer input', [deftype('PT', ptr=T), declare('p', 'PT'), ptrassign('p', 'c')], input_(('deref', ('id', 'p'))), ()))
    f.append(('pointer BYREF', [deftype('PT', ptr=T), declare('p', 'PT'), ptrassign('p', 'c'), proc('w', [('BYREF', 'q', T)], [assign('q', alt)])], call('w', [('var', ('deref', ('id', 'p')))]), ()))
    f.append(('pointer in BYREF', [deftype('PT', ptr=T), declare('p', 'PT'), proc('w', [('BYREF', 'q', T)], [ptrassign('p', 'q'), assign(('deref', ('id', 'p')), alt)])], call('w', [V('c')]), ()))
    f.append(('DECLARE', [], declare('c', T), ()))
    f.append(('CONSTANT', [], const('c', alt), ()))
    f.append(('element', [], assign(('idx', c, [I(1)]), alt), ()))
    f.append(('field', [], assign(('fld', c, 'x'), alt), ()))
    f.append(('deref', [], assign(('deref', c), alt), ()))
    f.append(('BYVAL', [proc('w', [('BYVAL', 'p', T)], [assign('p', alt), output(V('p'))])], call('w', [V('c')]), ()))
    f.append(('DECLARE local', [proc('w', [], [declare('c', T), assign('c', alt), output(V('c'))])], call('w'), ()))
    f.append(('in procedure', [proc('w', [], [outs('in'), assign('c', alt)])], call('w'), ()))
    f.append(('FOR in procedure', [proc('w', [], [outs('in'), for_('c', I(1), I(2), [outs('body')])])], call('w'), ()))
    f.append(('INPUT in procedure', [proc('w', [], [outs('in'), input_('c')])], call('w'), ()))
    f.append(('read through copy', [assign('v', V('c')), assign('v', alt)], assign('v', V('c')), ()))
    return f


N = max(len(forms(T, e)) for T, e in zip(TY, CL))


def items(rng):
    for i in range(len(CL)):
        for j in range(N):
            for how in ('file', 'repl', 'local', 'replmulti'):
                yield i, j, how


def make(it, rng):
    i, j, how = it
    fs = forms(TY[i], CL[i])
    if j >= len(fs):
        return None
    name, pre, attempt, _ = fs[j]
    files = {'t.txt': 'line one\nline two\n'}
    d = const('c', CL[i])
    if how == 'file':
        return test([d, output(V('c'))] + pre + [outs('before'), attempt, outs('after'), output(V('c'))], stdin='77\n88\n', files=files)
    if how == 'local':
        if any(s.k in ('proc', 'func', 'type', 'open') for s in pre):
            pre1, pre2 = [s for s in pre if s.k in ('proc', 'func', 'type', 'open', 'put', 'seek')], [s for s in pre if s.k not in ('proc', 'func', 'type', 'open', 'put', 'seek')]
            if any(s.k == 'put' for s in pre):
                return None
        else:
            pre1, pre2 = [], pre
        return test(pre1 + [proc('loc', [], [d, output(V('c'))] + pre2 + [outs('before'), attempt, outs('after'), output(V('c'))]), call('loc')], stdin='77\n88\n', files=files)
    s = Session(dict(files))
    for x in [d] + pre:
        s.add(Entry(x))
    tries = 2 if how == 'replmulti' else 1
    for _ in range(tries):
        try:
            # an INPUT into a constant is refused before a line is read; elsewhere (a copy) it takes one
            s.add(Entry(attempt))
        except ref.Unknown:
            return None
        s.add(Entry(output(V('c'))))
        s.add(Entry(expr(V('c'))))
    if rng.random() < .5:
        s.add(Entry(assign('c', LIT2[TY[i]])))
        s.add(Entry(expr(V('c'))))
    return s.test(files)


def thread(seed, rng):
    """constants passed through random programs: they are read back after every statement"""
    r = random.Random(seed)
    g = gen.G(r, consts=6, err=0.01, procs=3, funcs=2, types=1, ptrs=0.4, inputs=0.2, size=14)
    b = g.program()
    cs = [s.name for s in b if s.k == 'const']
    out = []
    have = []
    for s in b:
        out.append(s)
        if s.k == 'const':
            have.append(s.name)
        elif have and s.k in ('call', 'assign', 'for', 'input', 'ptrassign') and r.random() < .5:
            out.append(output(V(r.choice(have))))
    for c in have:
        out.append(output(V(c)))
    return test(out, stdin='1\n2\nx\n3.5\nTRUE\n')


def writes(seed, rng):
    """random chains of attempts on constants and on variables of the same type around them"""
    r = random.Random(seed)
    s = Session({'t.txt': 'l1\nl2\nl3\n'})
    T = r.choice(['INTEGER', 'STRING', 'REAL', 'CHAR', 'BOOLEAN'])
    i = r.choice([k for k in range(len(TY)) if TY[k] == T])
    try:
        s.add(Entry(const('c', CL[i])))
        s.add(Entry(declare('v', T)))
        for _ in range(r.randint(3, 8)):
            name, pre, att, _ = r.choice(forms(T, CL[i]))
            for x in pre + [att]:
                s.add(Entry(x))
            s.add(Entry(output(V('c'))))
            if r.random() < .4:
                s.add(Entry(assign('v', V('c'))))
                s.add(Entry(assign('v', LIT2[T])))
    except ref.Unknown:
        return None
    return s.test({'t.txt': 'l1\nl2\nl3\n'})


def tasks(tier):
    T = Task
    return [T('write attempts', items, make, bound='%d constants, up to %d statement forms, file / REPL / procedure' % (len(CL), N)),
            T('chains of attempts', seeds, writes, False, weight=1, bound='random sequences of attempts'),
            T('threaded constants', seeds, thread, False, weight=2, bound='random programs')]
