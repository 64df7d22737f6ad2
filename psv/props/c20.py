"""--pedantic only rejects."""
from .common import *
from .. import harness
from .c10 import SMALL, FIX

WORD = {'break': 'BREAK', 'continue': 'CONTINUE', 'elseif': 'ELSE IF', 'cast': 'cast'}


def static(x):
    """constructs recognised before anything executes, in program order"""
    out = []

    def walk(y):
        if isinstance(y, S):
            if y.k in ('break', 'continue'):
                out.append(y.k)
            if y.k == 'if' and len(y.conds) > 1:
                out.append('elseif')
            for k, v in y.__dict__.items():
                if k not in ('line', 'endline', 'ps', 'rt'):
                    walk(v)
        elif isinstance(y, tuple):
            if y and y[0] == 'cast':
                out.append('cast')
            for z in y:
                walk(z)
        elif isinstance(y, list):
            for z in y:
                walk(z)
    walk(x)
    return out


def both(b, stdin='', files=None, opts=('-p', '--pedantic'), normal=True):
    """the program with and without the option, each against the reference; without constructs the runs must be equal byte for byte"""
    src = lang.show(b)
    files = dict(files or {})
    st = static(b)
    d0, d1 = dict(files), dict(files)
    try:
        o0 = ref.run(b, d0, stdin)
        if st:
            o1 = ref.Out()
            o1.kind, o1.why = 'pedantic', 'constructs %r' % st
            o1.out = ['\n']
        else:
            o1 = ref.run(b, d1, stdin, pedantic=True)
    except ref.Unknown:
        return None
    clean = [(0, f) for f in NAMES if f not in files] + [(2, k, v) for k, v in files.items()]
    # the runs may leave files; the reference of each run starts from the same ones
    runs = []
    kinds = []
    for a in opts:
        runs.append(Run(args=(a, 'p.pseudo'), stdin=stdin, ops=clean))
        kinds.append(o1)
    if normal:
        runs.append(Run(stdin=stdin, ops=clean))
        kinds.append(o0)
    c = Case(src, files=files, runs=runs, dump=True)

    def check(rs, fs):
        for i, (o, r) in enumerate(zip(kinds, rs)):
            x = harness.compare(o, r)
            who = 'with %s: ' % opts[i] if i < len(opts) else 'without the option: '
            if x:
                return who + x, harness.describe_expect(o)
            if o.kind == 'pedantic':
                e = r.err.decode('latin1')
                if e.count('Error') != 1:
                    return who + 'not exactly one diagnostic', ''
                if st and not any(WORD[k].lower() in e.lower() for k in st):
                    return who + 'the diagnostic names none of %r' % st, ''
                if not st and not any(w in e.lower() for w in ('undeclared', 'undefined', 'not declared', 'not defined')):
                    return who + 'the diagnostic does not name an undeclared variable', ''
        if normal and o1.kind != 'pedantic':
            a = rs[-1]
            for i in range(len(opts)):
                if (rs[i].out, rs[i].err, rs[i].code) != (a.out, a.err, a.code):
                    return 'the option changes what an accepted program does', ''
        return None
    return Test(c, check, len(runs))


NAMES = ['a.txt', 'b.txt', 'r.dat', 'new.txt', 'random.dat', 'out.txt', 'c.txt', 'f.txt', 'g.dat', 't.txt']
CASTS = [('cast', T, e) for T, e in (('INTEGER', ('str', '4')), ('INTEGER', ('real', '2.5')), ('REAL', I(2)), ('STRING', I(5)), ('BOOLEAN', I(1)), ('CHAR', I(65)), ('STRING', ('cast', 'INTEGER', ('str', '3'))), ('STRING', ('str', 'q')))]


def constructs(k):
    """(name, statements before, statements) - each uses exactly one construct"""
    v = 'zz%d' % k
    T = ('bool', True)
    Fa = ('bool', False)
    L = [('break', [while_(T, [brk()])]), ('break dead', [if_([(Fa, [while_(T, [brk()])])])]), ('break bare', [if_([(Fa, [brk()])])]), ('continue', [declare(v, 'INTEGER'), for_(v, I(1), I(2), [cont()])]), ('continue dead', [while_(Fa, [cont()])]),
         ('break repeat', [repeat([brk()], T)]), ('elseif', [if_([(Fa, [outs('x')]), (T, [outs('y')])])]), ('elseif else', [if_([(T, [outs('x')]), (Fa, [outs('y')])], [outs('z')])]), ('elseif 3', [if_([(Fa, []), (Fa, []), (T, [outs('q')])])])]
    for i, c in enumerate(CASTS):
        L.append(('cast %d' % i, [output(c)]))
    c = CASTS[0]
    L += [('cast in condition', [if_([(B('=', c, I(4)), [outs('y')])])]), ('cast dead', [if_([(Fa, [output(c)])])]), ('cast in loop', [while_(B('<', c, I(0)), [])]), ('cast index', [declarr(v, [(1, 5)], 'INTEGER'), output(('var', ('idx', ('id', v), [c])))]),
          ('cast bound', [declarr(v, [(1, c)], 'INTEGER')]), ('cast arg', [output(('fn', 'CHR', [B('+', c, I(60))]))]), ('cast for', [declare(v, 'INTEGER'), for_(v, c, I(5), [outs('f')])]), ('cast step', [declare(v, 'INTEGER'), for_(v, I(1), I(5), [outs('f')], step=c)]),
          ('cast case', [declare(v, 'INTEGER'), case(v, [('eq', c, [outs('4')]), ('other', [outs('o')])])]), ('cast neg', [output(('neg', c))]), ('cast not', [output(('not', ('cast', 'BOOLEAN', I(0))))]), ('cast concat', [output(B('&', ('str', 'a'), ('cast', 'STRING', I(1))))]),
          ('cast file', [openfile('c.txt', 'WRITE'), writefile('c.txt', c), closefile('c.txt')]), ('cast assign', [declare(v, 'INTEGER'), assign(v, c)]), ('cast until', [repeat([outs('r')], B('=', c, I(4)))])]
    L += [('assign', [assign(v, I(5))]), ('assign string', [assign(v, ('str', 's'))]), ('assign self', [assign(v, B('+', V(v), I(1)))]), ('assign dead', [if_([(Fa, [assign(v, I(5))])])]), ('assign in branch', [if_([(T, [assign(v, I(5))])])]),
          ('assign in loop', [while_(T, [outs('l'), assign(v, I(1)), output(V('undefinedname'))])]), ('input', [input_(v)]), ('input dead', [if_([(Fa, [input_(v)])])]), ('assign in case', [declare(v, 'INTEGER'), case(v, [('eq', I(0), [assign(v + 'b', I(1))]), ('other', [outs('o')])])]),
          ('assign enum', [deftype('T' + v, enum=['E' + v]), assign(v, V('E' + v))]), ('assign in repeat', [repeat([outs('r'), assign(v, I(1))], T)]), ('declared', [declare(v, 'INTEGER'), assign(v, I(1)), input_(v)]), ('readfile', [openfile('t.txt', 'READ'), readfile('t.txt', v), assign(v, ('str', 'x')), closefile('t.txt')]),
          ('for', [for_(v, I(1), I(2), [outs('i')]), assign(v, I(7))]), ('constant', [const(v, I(3)), output(V(v))])]
    return L


NC = len(constructs(0))
BASE = [
    [outs('a')],
    [declare('x', 'INTEGER'), assign('x', I(3)), while_(B('>', V('x'), I(0)), [output(V('x')), assign('x', B('-', V('x'), I(1)))]), outs('done')],
    [declare('s', 'STRING'), proc('p', [('BYVAL', 'n', 'INTEGER')], [declare('k', 'INTEGER'), assign('k', V('n')), output(V('k'))]), call('p', [I(2)]), openfile('a.txt', 'WRITE'), writefile('a.txt', ('str', 'l')), closefile('a.txt'), func('f', [], 'INTEGER', [ret(I(4))]), output(('fn', 'f', []))],
]


def places(b, depth=0):
    """every block of a program, with the number of positions in it"""
    yield b
    for s in b:
        for k in ('body', 'els'):
            if isinstance(getattr(s, k, None), list):
                yield from places(getattr(s, k))
        if s.k == 'if':
            for c in s.conds:
                yield from places(c[1])


def ins_items(rng):
    import copy
    for i, base in enumerate(BASE):
        bl = list(places(base))
        for j, blk in enumerate(bl):
            for p in range(len(blk) + 1):
                for c in range(NC):
                    yield i, j, p, c


def ins_make(it, rng):
    import copy
    i, j, p, c = it
    b = copy.deepcopy(BASE[i])
    bl = list(places(b))
    bl[j][p:p] = copy.deepcopy(constructs(7)[c][1])
    return both(b, stdin='11\n12\n', files={'t.txt': 'tl\n'})


def rnd(seed, rng, accepted):
    import copy
    r = random.Random(seed)
    g = gen.G(r, pedantic=True, files=.4, rand_files=.3, ptrs=.4, inputs=.4, types=1.2, err=r.choice([0, .02, .06]))
    b = g.program()
    if not accepted:
        bl = list(places(b))
        for _ in range(r.choice([1, 1, 1, 2])):
            blk = r.choice(bl)
            p = r.randint(0, len(blk))
            if any(s.k == 'return' for s in blk[:p]):
                p = 0
            blk[p:p] = copy.deepcopy(r.choice(constructs(r.randint(900, 999)))[1])
    return both(b, stdin='5\nabc\nTRUE\n1.5\n\n7\n', files=dict(FIX, **{'t.txt': 'tl\n'}))


def free_make(seed, rng):
    r = random.Random(seed)
    g = gen.G(r, files=.3, ptrs=.3, inputs=.5, undeclared=r.choice([0, .1, .4]), casts=r.choice([0, 0, 1]), elseif=r.choice([0, 0, 1]), brk=r.choice([0, 0, .15]), err=r.choice([0, .03]))
    b = g.program()
    return both(b, stdin='5\nabc\nTRUE\n1.5\n\n7\n', files=dict(FIX), opts=(r.choice(['-p', '--pedantic']),))


def repl_make(seed, rng):
    """a pedantic REPL session: rejected entries leave the rest alone"""
    r = random.Random(seed)
    s = Session({'t.txt': 'tl\n'}, pedantic=True)
    from copy import deepcopy
    g = gen.G(r, pedantic=True, inputs=0, size=8, procs=1, funcs=1)
    b = g.program()
    try:
        for x in b:
            if r.random() < .4:
                for y in deepcopy(constructs(r.randint(900, 999))[r.randrange(NC)][1]):
                    st_ = static([y])
                    inp = ['77'] if y.k == 'input' and s.r.lookup(s.r.g, y.lv[1]) is not None else []
                    if st_:
                        s.reject(y)
                    elif y.k == 'if' and 'input' in repr([z.k for z in y.conds[0][1]]):
                        s.add(Entry(y))
                    else:
                        s.add(Entry(y, inputs=inp))
            s.add(Entry(x))
    except ref.Unknown:
        return None
    return s.test({'t.txt': 'tl\n'}, args=(r.choice(['-p', '--pedantic']),))


def small_items(rng):
    for i in range(len(SMALL)):
        for o in ('-p', '--pedantic'):
            yield i, o


DYN = set()


def small_make(it, rng):
    """fixed programs written as text: same behaviour, or a pedantic error and a prefix of the output"""
    i, o = it
    src = SMALL[i] + '\n'
    c = Case(src, files=FIX, runs=[Run(stdin='5\n6\n'), Run(args=(o, 'p.pseudo'), stdin='5\n6\n', ops=[(0, 'b.txt'), (0, 'r.dat')])])

    def check(rs, fs):
        a, b = rs
        if 'Error(pedantic)' in b.err.decode('latin1'):
            x = b.out.decode('latin1')
            x = x[:-1] if x.endswith('\n') else x
            if not a.out.decode('latin1').startswith(x):
                return 'output before the pedantic error differs', ''
            if not any(k in SMALL[i] for k in ('BREAK', 'CONTINUE', 'ELSE IF', 'INTEGER(', '<-', 'INPUT', 'READ')):
                return 'rejected without a reason', ''
            return None if b.code == 1 else 'exit status'
        if any(k in SMALL[i] for k in ('BREAK', 'CONTINUE', 'ELSE IF', 'INTEGER(')) and 'Syntax Error' not in b.err.decode('latin1'):
            return 'accepted', ''
        return None if (a.out, a.err, a.code) == (b.out, b.err, b.code) else ('differs', '')
    return Test(c, check, 2)


def tasks(tier):
    T = Task
    return [T('one construct at every place', ins_items, ins_make, bound='%d constructs at every position of %d programs, -p and --pedantic' % (NC, len(BASE))),
            T('small programs', small_items, small_make, bound='%d programs' % len(SMALL)),
            T('accepted programs', seeds, lambda s, r: rnd(s, r, True), False, weight=2, bound='random programs without the constructs: byte for byte equal'),
            T('rejected programs', seeds, lambda s, r: rnd(s, r, False), False, weight=2, bound='random programs with one or two constructs inserted'),
            T('free programs', seeds, free_make, False, weight=1, bound='random programs of the whole language'),
            T('pedantic sessions', seeds, repl_make, False, weight=1, bound='random REPL sessions')]
