"""The REPL runs programs like file mode and survives failing entries."""
from .common import *
from .. import harness
from .c11 import BAD, faults, PRE
import itertools

HELP = 'Visit https://github.com/SingularityT3/PseudoEngine2 for syntax, examples and more info\nUse `RUNFILE <filename>` to run programs stored in files\n'
SYN = [b for b in BAD if not b.startswith(('IF', 'CASE', 'WHILE', 'REPEAT', 'FOR', 'PROCEDURE', 'FUNCTION', 'TYPE'))] + [
    'IF TRUE\n    OUTPUT 1\nENDIF\n', 'IF TRUE THEN\n    nope <-\nENDIF\n', 'WHILE TRUE DO\n', 'FOR i <- 1 TO 3\n    OUTPUT i\n', 'PROCEDURE xx(\nENDPROCEDURE\n', 'FUNCTION ff() RETURNS\n    RETURN 1\nENDFUNCTION\n',
    'TYPE Tbad\n    DECLARE q INTEGER\nENDTYPE\n', 'TYPE Tbad = (Aa, )', 'CASE OF zz\n    1 OUTPUT 1\nENDCASE\n', 'REPEAT\n    zz <- 1\n', 'ENDIF', 'NEXT', 'ENDWHILE', 'ELSE', 'TYPE Tbad2 = ^', 'PROCEDURE oo\n    PROCEDURE ii\n    ENDPROCEDURE\nENDPROCEDURE\n',
    'IF TRUE THEN\n    PROCEDURE ii\n    ENDPROCEDURE\nENDIF\n']
FILES = {'t.txt': 'first\nsecond\n'}


def single_fail(r, names):
    """failing entries that must have no effect at all"""
    n = r.choice(names) if names else 'q'
    k = r.randint(0, 13)
    if k == 0:
        return assign(n, V('nosuch'))
    if k == 1:
        return assign(n, B('DIV', I(1), I(0)))
    if k == 2:
        return declare(n, 'INTEGER')
    if k == 3:
        return declare('new%d' % r.randint(0, 3), 'NoType')
    if k == 4:
        return const(n, I(3))
    if k == 5:
        return const('newc%d' % r.randint(0, 3), V('nosuch')) if False else closefile('never.txt')
    if k == 6:
        return openfile('missing.txt', 'READ')
    if k == 7:
        return readfile('t.txt' if r.random() < .5 else 'never.txt', n)
    if k == 8:
        return writefile('t.txt' if r.random() < .5 else 'never.txt', I(1))
    if k == 9:
        return assign(('idx', ('id', n), [I(99)]), I(1))
    if k == 10:
        return assign(('fld', ('id', n), 'nofield'), I(1))
    if k == 11:
        return assign('newv%d' % r.randint(0, 3), B('+', I(1), ('bool', True)))
    if k == 12:
        return seek('t.txt', 1)
    return declarr('newa%d' % r.randint(0, 3), [(1, I(0))], 'INTEGER')


def add(s, b, pool):
    return s.auto(b, pool)


def pool():
    return ['5', 'abc', 'TRUE', '1.5', 'x', '7', '3', '', '2', '1'] * 12


def prog_make(seed, rng):
    """a random program entered statement by statement, with failing entries between, then echoes"""
    r = random.Random(seed)
    g = gen.G(r, err=r.choice([0, .05, .15]), files=.3, rand_files=.3, ptrs=.3, inputs=r.choice([0, .3]), size=10)
    b = g.program()
    s = Session(dict(FILES), pedantic=False)
    pl = pool()
    rate = r.choice([0, .2, .5])
    names = [e.name for e in g.glob.values()]
    try:
        for x in b:
            while r.random() < rate:
                k = r.random()
                if k < .4:
                    s.add(Entry(text=r.choice(SYN)))
                elif k < .8:
                    s.add(Entry(single_fail(r, names)))
                elif k < .85:
                    s.plain('?', HELP)
                elif k < .9:
                    s.plain('')
                else:
                    pre, f = r.choice(faults())
                    if f.k in ('type', 'declare', 'while', 'for', 'repeat') or pre:
                        continue
                    s.auto(f, pl)
            s.auto(x, pl)
        for e in list(g.glob.values())[:8]:
            if not e.bounds:
                s.add(Entry(expr(V(e.name))))
    except ref.Unknown:
        return None
    return s.test(FILES, end=r.random() < .8)


def exprs(x):
    if isinstance(x, S):
        return x.k == 'expr' or any(exprs(v) for k, v in x.__dict__.items() if isinstance(v, (list, tuple)))
    return isinstance(x, (list, tuple)) and any(exprs(y) for y in x)


def both_make(seed, rng):
    """file mode against the REPL, both run: the text of OUTPUT and the files are the same"""
    r = random.Random(seed)
    g = gen.G(r, err=0, files=.4, rand_files=.3, ptrs=.3, inputs=0, size=10)
    b = g.program()
    src = lang.show(b)
    if exprs(b):
        return None
    try:
        o = ref.run(b, dict(FILES))
    except ref.Unknown:
        return None
    s = Session(dict(FILES))
    for x in b:
        l = lang.Layout()
        l.block([x])
        s.lines += l.lines + ([''] if harness.ismulti([x]) else [])
    stdin = '\n'.join(s.lines + ['EXIT']) + '\n'
    c = Case(src, files=FILES, runs=[Run(), Run(args=(), stdin=stdin, ops=[(2, k, v) for k, v in FILES.items()])], dump=True)

    def check(rs, fs):
        x, y = rs
        if x.crashed() or y.crashed() or x.kind == 2 or y.kind == 2:
            return None
        if x.code != 0:
            return None
        out = y.out.decode('latin1')
        i = out.find('to quit\n')
        keep = [l for l in out[i + 8:].split('\n')]
        # prompts echo the typed lines; the rest is the output
        q = list(s.lines + ['EXIT'])
        res = []
        for l in keep:
            if q and l in ('> ' + q[0], '. ' + q[0]):
                q.pop(0)
            else:
                res.append(l)
        a = x.out.decode('latin1').rstrip('\n')
        b2 = '\n'.join(res).rstrip('\n')
        if a != b2:
            return 'the REPL prints something else than file mode', 'file mode: %r\nREPL: %r' % (a, b2)
        return None
    return Test(c, check, 2)


# ---- short histories over a fixed alphabet
def alphabet():
    return [declare('x', 'INTEGER'), assign('x', I(1)), assign('x', ('str', 'ab')), assign('x', B('+', V('x'), I(1))), assign('y', V('x')), const('x', I(2)), output(V('x')), expr(V('x')),
            proc('p', [], [output(V('x')), assign('x', I(5)), assign('z', V('nosuch'))]), call('p'), func('f', [('BYREF', 'a', 'INTEGER')], 'INTEGER', [assign('a', B('+', V('a'), I(10))), ret(V('a'))]), output(('fn', 'f', [V('x')])),
            'x <-', 'IF TRUE THEN\n    x <- 9\n', deftype('T', rec=[declare('n', 'INTEGER')]), declare('x', 'T'), assign(('fld', ('id', 'x'), 'n'), I(4)), declarr('x', [(1, 2)], 'INTEGER'), assign(('idx', ('id', 'x'), [I(2)]), I(6)),
            openfile('o.txt', 'WRITE'), writefile('o.txt', V('x')), closefile('o.txt'), if_([(('bool', True), [assign('x', I(7)), brk()])]), expr(('str', 'q'))]


def hist_items(k):
    def items(rng):
        n = len(alphabet())
        for t in itertools.product(range(n), repeat=k):
            yield t
    return items


def hist_make(t, rng):
    A = alphabet()
    s = Session({})
    try:
        for i in t:
            s.add(Entry(text=A[i]) if isinstance(A[i], str) else Entry(A[i]))
        s.add(Entry(expr(V('x'))))
        s.add(Entry(output(V('y'))))
    except ref.Unknown:
        return None
    return s.test({})


def rhist_make(seed, rng):
    r = random.Random(seed)
    A = alphabet() + [ptrassign('q', 'x'), deftype('P', ptr='INTEGER'), declare('q', 'P'), expr(V(('deref', ('id', 'q')))), assign(('deref', ('id', 'q')), I(8)), deftype('E', enum=['Aa', 'Bb']), declare('e', 'E'), assign('e', V('Bb')), expr(V('e')), expr(V('q')),
                      openfile('o.txt', 'READ'), readfile('o.txt', 'x'), openfile('o.txt', 'APPEND'), output(('fn', 'EOF', [('str', 'o.txt')])), for_('x', I(1), I(3), [output(V('x'))]), assign('x', V('y')), assign('s', ('str', 'u')),
                      declare(['x', 'w'], 'INTEGER'), expr(('date', 3, 4, 2005)), expr(('char', 'c')), expr(('bool', True)), expr(('real', '2.5')), expr(I(-4)), expr(B('/', I(1), I(0))), ptrassign('q', 'nosuch')]
    s = Session({})
    try:
        for _ in range(r.randint(5, 14)):
            x = A[r.randrange(len(A))]
            if r.random() < .1:
                x = r.choice(SYN)
            s.add(Entry(text=x) if isinstance(x, str) else Entry(x))
        for n in ('x', 'y', 'q', 'e', 's', 'w'):
            s.add(Entry(expr(V(n))))
    except ref.Unknown:
        return None
    return s.test({})


# ---- every failing single statement, after a setup with one thing of every kind; the rest of the session is unchanged
def setup():
    b = WORLD_TYPES()
    for t in KINDS:
        b += value(t)
    b += [declarr('arr', [(1, 2)], 'INTEGER'), assign(('idx', ('id', 'arr'), [I(1)]), I(3)), const('cc', I(12)), proc('pp', [], [outs('pp')]), func('ff', [], 'INTEGER', [ret(I(4))]), openfile('t.txt', 'READ'), openfile('w.txt', 'WRITE'), openfile('r.dat', 'RANDOM'),
          writefile('w.txt', ('str', 'one')), putrec('r.dat', 'srcINTEGER')]
    return b


def rest():
    b = []
    for t in KINDS:
        b.append(show_all(dump(t, ('id', 'src' + t))))
        if t in ('INTEGER', 'REAL', 'STRING'):
            b.append(expr(V('src' + t)))
    b += [output(('var', ('idx', ('id', 'arr'), [I(1)]))), output(V('cc')), call('pp'), output(('fn', 'ff', [])), readfile('t.txt', 'line1'), output(V('line1'), ('fn', 'EOF', [('str', 't.txt')])), writefile('w.txt', ('str', 'two')), closefile('w.txt'),
          seek('r.dat', 1), getrec('r.dat', 'srcINTEGER'), output(V('srcINTEGER')), closefile('r.dat'), closefile('t.txt'), declare('fresh', 'INTEGER'), output(V('fresh'))]
    return b


def fails():
    o = [assign('src' + t, e) for t in KINDS for e in (LIT['INTEGER'], LIT['STRING'], LIT['BOOLEAN'], LIT['DATE'], V('Cube'), V('Green'), V('nosuch'), V('srcNest'), V('srcRec2'), B('DIV', I(1), I(0)))]
    o += [assign('fresh', V('nosuch')), assign('fresh', B('+', I(1), ('bool', True))), assign('fresh', B('MOD', I(1), I(0)))]
    o += [declare(n, t) for n in ('srcINTEGER', 'cc', 'arr', 'srcRec', 'fresh') for t in ('INTEGER', 'Rec', 'NoType', 'Col')]
    o += [const(n, e) for n in ('srcINTEGER', 'cc', 'arr') for e in (I(1), ('str', 'u'), ('bool', True))]
    o += [assign('cc', I(1)), assign('arr', I(1)), assign(('idx', ('id', 'arr'), [I(0)]), I(1)), assign(('idx', ('id', 'arr'), [I(1)]), ('str', 'qq')), assign(('idx', ('id', 'arr'), [I(1), I(1)]), I(1)), assign(('idx', ('id', 'arr'), [('real', '1.0')]), I(1)),
          assign(('fld', ('id', 'srcRec'), 'x'), ('str', 'qq')), assign(('fld', ('id', 'srcRec'), 'nof'), I(1)), assign(('deref', ('id', 'srcINTEGER')), I(1)), assign(('deref', ('id', 'srcPI')), ('str', 'qq')), ptrassign('srcPI', 'srcSTRING'), ptrassign('srcPS', 'nosuch'), ptrassign('srcINTEGER', 'srcINTEGER')]
    o += [openfile('missing.txt', 'READ'), openfile('missing.txt', 'APPEND'), openfile('t.txt', 'READ'), openfile('t.txt', 'WRITE'), openfile('w.txt', 'WRITE'), openfile('w.txt', 'RANDOM'), openfile('nodir/x', 'WRITE'), closefile('missing.txt'), readfile('w.txt', 'srcSTRING'), readfile('missing.txt', 'fresh'), readfile('r.dat', 'fresh'),
          readfile('t.txt', 'cc'), readfile('t.txt', 'srcINTEGER'), writefile('t.txt', I(1)), writefile('missing.txt', I(1)), writefile('r.dat', I(1)), writefile('w.txt', V('nosuch')), seek('w.txt', 1), seek('r.dat', 0), seek('r.dat', 5), seek('r.dat', ('str', 'a')), getrec('w.txt', 'srcINTEGER'), getrec('r.dat', 'srcSTRING'), getrec('r.dat', 'cc'),
          putrec('w.txt', 'srcINTEGER'), putrec('r.dat', 'nosuch'), putrec('missing.txt', 'srcINTEGER'), closefile(I(5)), openfile(I(5), 'READ')]
    return o


def fail_items(rng):
    for i in range(len(fails()) + len(SYN)):
        for reps in (1, 2):
            yield i, reps


def fail_make(it, rng):
    i, reps = it
    fs = fails()
    s = Session(dict(FILES))
    try:
        for x in setup():
            s.add(Entry(x))
        for _ in range(reps):
            if i < len(fs):
                s.add(Entry(fs[i]))
            else:
                s.add(Entry(text=SYN[i - len(fs)]))
        for x in rest():
            s.add(Entry(x))
    except ref.Unknown:
        return None
    return s.test(FILES)


# ---- RUNFILE
def run_make(seed, rng):
    r = random.Random(seed)
    s = Session(dict(FILES), pedantic=False)
    progs = {}
    pl = pool()
    try:
        g0 = gen.G(r, err=.05, size=6, ptrs=.2)
        b0 = g0.program()
        cut = r.randint(0, len(b0))
        for x in b0[:cut]:
            s.auto(x, pl)
        for k in range(r.randint(1, 3)):
            n = 'prog%d.pseudo' % k
            x = r.random()
            if x < .1:
                s.runfile('nofile.pseudo', None)
            elif x < .25:
                t = 'OUTPUT "no"\n' + r.choice(SYN) + '\nOUTPUT 1\n'
                progs[n] = t
                s.runfile(n, None, text=t)
            else:
                g = gen.G(r, err=r.choice([0, .2]), size=8, files=.3, inputs=r.choice([0, .3]))
                b = g.program()
                progs[n] = lang.show(b)
                s.runfile(n, b, pl, spaces=r.choice([' ', ' ']))
                # lines the program read are taken from the session's input
                used = [i for i, _ in enumerate(pl)]
            if r.random() < .3:
                s.add(Entry(text=r.choice(SYN)))
        for x in b0[cut:]:
            s.auto(x, list(pool()))
    except ref.Unknown:
        return None
    return s.test(dict(FILES, **progs))


def echo_items(rng):
    for t in KINDS:
        for k in (0, 1):
            yield t, k


def echo_make(it, rng):
    """the documented echo of every kind of value"""
    t, k = it
    s = Session({})
    try:
        for x in WORLD_TYPES() + value(t, k):
            s.add(Entry(x))
        s.add(Entry(expr(V('src' + t))))
        for e in dump(t, ('id', 'src' + t)):
            s.add(Entry(expr(e)))
        if t in LIT:
            s.add(Entry(expr((LIT, LIT2)[k][t])))
        if t in ('INTEGER', 'REAL'):
            s.add(Entry(expr(B('+', V('src' + t), I(1)))))
            s.add(Entry(expr(B('&', V('src' + t), I(1)))))
            s.add(Entry(expr(('neg', V('src' + t)))))
        s.add(Entry(output(V('src' + t))))
    except ref.Unknown:
        return None
    return s.test({})


def tasks(tier):
    T = Task
    k = 3 if tier == 'quick' else 4
    return [T('echo', echo_items, echo_make, bound='a bare expression of every kind of value'),
            T('failing entries', fail_items, fail_make, bound='%d failing entries in a session with one thing of every kind' % (len(fails()) + len(SYN))),
            T('short histories', hist_items(k), hist_make, bound='every history of %d entries over an alphabet of %d' % (k, len(alphabet()))),
            T('histories', seeds, rhist_make, False, weight=1, bound='random histories of up to 14 entries over 49 kinds'),
            T('programs as entries', seeds, prog_make, False, weight=1.5, bound='random programs entered statement by statement, with failing entries between'),
            T('file mode and REPL', seeds, both_make, False, weight=.7, bound='random programs, both modes run'),
            T('RUNFILE', seeds, run_make, False, weight=.7, bound='random programs run from a session')]
