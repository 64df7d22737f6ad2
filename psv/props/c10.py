from .common import *
from . import text
import re

POS = re.compile(r'(line )(-?\d+)(,? column )(-?\d+)')
FILES = ['a.txt', 'b.txt', 'r.dat', 'new.txt', 'random.dat', 'out.txt', 'copy.txt']
STDIN = '5\nabc\nTRUE\n1.5\nx\n\n7\n3\n2\n1\n'


def norm(err, where, n):
    """diagnostics with every line number mapped, columns dropped"""
    last = max(where) if where else 0
    added = (where[last] - last) if where else 0

    def f(m):
        l = int(m.group(2))
        if l in where:
            k = str(where[l])
        elif l > last:
            k = 'END'
        else:
            k = str(l)
        return m.group(1) + k
    return POS.sub(f, err)


def pair(lines, r, how, crlf=False, files=None, stdin=STDIN):
    """the program and a layout of it"""
    x = text.relayout(lines, r, how)
    if x is None:
        return None
    new, where = x
    a = '\n'.join(lines) + '\n'
    b = ('\r\n' if crlf else '\n').join(new) + ('\r\n' if crlf else '\n')
    files = dict(files or {})
    ops = [(0, f) for f in FILES if f not in files] + [(2, k, v) for k, v in files.items()] + [(2, 'p.pseudo', b)]
    c = Case(a, files=files, runs=[Run(stdin=stdin), Run(stdin=stdin, ops=ops)])

    def second(t):
        last = max(where.values()) if where else 0
        n2 = norm(t, {v: v for v in where.values()}, len(new))
        return re.sub(r'line (-?\d+)', lambda m: 'line END' if int(m.group(1)) > last else m.group(0), n2)

    def n_of(o1, o2):
        # warnings about ignored comparisons name positions
        return True if norm(o1, where, len(lines)) == second(o2) else None

    def check(rs, fs):
        x, y = rs
        exp = 'the same behaviour for\n%s\n' % b
        if x.kind == 2 and y.kind == 2:
            return None
        if x.crashed():
            return None if y.crashed() else ('crash only in the first layout', exp)
        if (x.kind, x.code) != (y.kind, y.code):
            return 'status %s, other layout %s' % (x.status(), y.status()), exp
        if x.out != y.out:
            o1, o2 = x.out.decode('latin1'), y.out.decode('latin1')
            if 'Warning' not in o1 or n_of(o1, o2) is None:
                return 'output depends on the layout', exp
        e1, e2 = x.err.decode('latin1'), y.err.decode('latin1')
        n1 = norm(e1, where, len(lines))
        n2 = second(e2)
        if n1 != n2:
            return 'diagnostic depends on the layout', exp + 'diagnostics: %r\nmapped: %r\nother layout: %r' % (e1, n1, n2)
        return None
    return Test(c, check, 2)


HOWS = [dict(indent=1), dict(space=.6), dict(space=1), dict(blank=.3), dict(trail=1), dict(trail=.4), dict(indent=.7, space=.4, blank=.3, trail=.3)]


def mutate(lines, r):
    """an erroneous variant: a token deleted, doubled or exchanged"""
    lines = list(lines)
    for _ in range(8):
        i = r.randrange(len(lines))
        t = text.tokens(lines[i])
        if t and t[0]:
            toks = [x for _, x in t[0]]
            k = r.randrange(len(toks))
            m = r.randint(0, 3)
            if m == 0:
                del toks[k]
            elif m == 1:
                toks.insert(k, toks[k])
            elif m == 2:
                j = r.randrange(len(toks))
                toks[k], toks[j] = toks[j], toks[k]
            else:
                toks[k] = r.choice(['ENDIF', 'x', '5', '"s"', '(', ')', '<-', 'THEN', 'NEXT', ':', ',', '.', '^'])
            # adjacency must not create other tokens
            lines[i] = ' '.join(toks)
            return lines
    return lines


def corpus_items(rng):
    for i in range(len(text.corpus())):
        for h in range(len(HOWS)):
            for crlf in (False, True):
                for k in range(3):
                    yield i, h, crlf, k


def corpus_make(it, rng):
    i, h, crlf, k = it
    name, src = text.corpus()[i]
    lines = src.split('\n')
    if lines[-1] == '':
        lines.pop()
    if k == 2:
        lines = mutate(lines, rng)
    files = {f: t for f, t in FIX.items()}
    return pair(lines, rng, HOWS[h], crlf, files)


FIX = {'a.txt': 'one\ntwo\n'}
SMALL = [
    'OUTPUT 1', 'x <- 5\nOUTPUT x', 'DECLARE a : INTEGER\na <- 3\nOUTPUT a * 2', 'IF TRUE THEN\n    OUTPUT "y"\nELSE\n    OUTPUT "n"\nENDIF', 'IF FALSE THEN\n    OUTPUT "y"\nELSE IF 1 = 1 THEN\n    OUTPUT "m"\nENDIF',
    'x <- 2\nCASE OF x\n    1 : OUTPUT "a"\n    2 : OUTPUT "b"\n        OUTPUT "b2"\n    3 TO 5 : OUTPUT "c"\n    OTHERWISE : OUTPUT "o"\nENDCASE\nOUTPUT "e"',
    'x <- 9\nCASE OF x\n    1 :\n        OUTPUT "a"\n    OTHERWISE :\n        OUTPUT "o"\nENDCASE', 'FOR i <- 1 TO 3\n    OUTPUT i\nNEXT i', 'FOR i <- 1 TO 5 STEP 2\n    OUTPUT i\nNEXT', 'WHILE FALSE DO\n    OUTPUT 1\nENDWHILE\nOUTPUT 2', 'x <- 0\nREPEAT\n    x <- x + 1\nUNTIL x > 3\nOUTPUT x',
    'PROCEDURE p(a : INTEGER, BYREF b : INTEGER)\n    b <- a\nENDPROCEDURE\ny <- 0\nCALL p(3, y)\nOUTPUT y', 'PROCEDURE q\n    OUTPUT "q"\nENDPROCEDURE\nCALL q\nCALL q()', 'FUNCTION f(n : INTEGER) RETURNS INTEGER\n    RETURN n * 2\nENDFUNCTION\nOUTPUT f(4)',
    'TYPE R\n    DECLARE x : INTEGER\n    DECLARE a : ARRAY[1:2] OF STRING\nENDTYPE\nDECLARE r : R\nr.x <- 3\nr.a[2] <- "t"\nOUTPUT r.x, r.a[2]', 'TYPE E = (A, B, C)\nDECLARE e : E\ne <- B\nOUTPUT e + 1', 'TYPE P = ^INTEGER\nDECLARE p : P\nv <- 5\np <- ^v\np^ <- 6\nOUTPUT v',
    'DECLARE m : ARRAY[1:2, 0:1] OF INTEGER\nm[1, 0] <- 4\nOUTPUT m[1, 0], m[2, 1]', 'CONSTANT c = -3\nOUTPUT c, -c', 'd <- 1/2/2003\nOUTPUT d, DAY(d)', 'OUTPUT 8 / 2, 8 DIV 2, DIV(8, 2), MOD(7, 2)', 'OUTPUT "a//b", \'/\', "c"', 'OUTPUT "a" & "b", 1 <> 2, 1 <= 2, 3 >= 4, NOT TRUE AND FALSE',
    'OPENFILE "a.txt" FOR READ\nREADFILE "a.txt", l\nOUTPUT l, EOF("a.txt")\nCLOSEFILE "a.txt"', 'OPENFILE "b.txt" FOR WRITE\nWRITEFILE "b.txt", "x" & 1\nCLOSEFILE "b.txt"\nOUTPUT "w"', 'OPENFILE "r.dat" FOR RANDOM\nz <- 4\nPUTRECORD "r.dat", z\nSEEK "r.dat", 1\nGETRECORD "r.dat", z\nCLOSEFILE "r.dat"\nOUTPUT z',
    'INPUT n\nOUTPUT n & "!"', 'READ n\nPRINT n', 'OUTPUT INTEGER("4") + 1, STRING(5), REAL(2), BOOLEAN(1), CHAR(65)', 'OUTPUT LEFT("abc", 2), MID("abc", 2, 1), RIGHT("abc", 1)', 'x <- 1\nx <- y\nOUTPUT 5', 'OUTPUT 1\nOUTPUT 1 DIV 0\nOUTPUT 2', 'PROCEDURE p\n    OUTPUT z\nENDPROCEDURE\nCALL p',
    'x = 5\nOUTPUT 1', 'IF 5 THEN\n    OUTPUT 1\nENDIF', 'FOR i <- 1 TO 3\n    IF i = 2 THEN\n        BREAK\n    ENDIF\n    IF i = 1 THEN\n        CONTINUE\n    ENDIF\nNEXT\nOUTPUT i',
    # erroneous
    'OUTPUT', 'OUTPUT 1\nx <-\nOUTPUT 2', 'IF TRUE\n    OUTPUT 1\nENDIF', 'OUTPUT (1\nOUTPUT 2', 'ENDIF', 'FOR i <- 1\nNEXT', 'WHILE TRUE DO\n    OUTPUT 1', 'PROCEDURE\nENDPROCEDURE', 'DECLARE x INTEGER', 'TYPE T = (A, B', 'OUTPUT 1 2', 'x <- 5 y <- 6', 'CASE OF x\n    OTHERWISE : OUTPUT 1\n    1 : OUTPUT 2\nENDCASE',
]


def single_items(rng):
    """one trailing comment / blank line / comment line at every place of the small programs"""
    for i, s in enumerate(SMALL):
        n = s.count('\n') + 1
        for l in range(n):
            for c in range(len(text.COMMENTS)):
                yield i, l, c, 'trail'
        for l in range(n + 1):
            for c in (0, 2, 5, 9, 14):
                yield i, l, c, 'line'
            yield i, l, 0, 'blank'
            yield i, l, 1, 'blank'


class Fixed:
    """a layout given in advance"""


def fixed(lines, new, where, crlf=False):
    old = text.relayout
    try:
        text.relayout = lambda *a: (new, where)
        return pair(lines, None, {}, crlf, FIX)
    finally:
        text.relayout = old


def single_make(it, rng):
    i, l, c, k = it
    lines = SMALL[i].split('\n')
    new = list(lines)
    where = {j + 1: j + 1 for j in range(len(lines))}
    if k == 'trail':
        new[l] += (' ' if c % 2 else '') + '//' + text.COMMENTS[c]
    else:
        new.insert(l, '//' + text.COMMENTS[c] if k == 'line' else ' ' * (4 * c))
        where = {j + 1: j + 1 + (j >= l) for j in range(len(lines))}
    return fixed(lines, new, where, rng.random() < .3)


def gap_items(rng):
    """whitespace inserted at each single token boundary of the small programs"""
    for i, s in enumerate(SMALL):
        for l, line in enumerate(s.split('\n')):
            t = text.tokens(line)
            for j in range(len(t[0]) + 1):
                for w in (' ', '\t', '  \t '):
                    yield i, l, j, w


def gap_make(it, rng):
    i, l, j, w = it
    lines = SMALL[i].split('\n')
    toks = text.tokens(lines[l])[0]
    s = ''
    for k, (g, t) in enumerate(toks):
        if k == j and not (t == '(' and k and toks[k - 1][1] in text.IOKW and not g):
            g = g + w if rng.random() < .5 or not g else w
        s += g + t
    if j == len(toks):
        s += w
    new = list(lines)
    new[l] = s
    return fixed(lines, new, {k + 1: k + 1 for k in range(len(lines))})


def rand_make(seed, rng):
    r = random.Random(seed)
    g = gen.G(r, err=r.choice([0, .03, .1]), files=.4, rand_files=.3, ptrs=.3, inputs=.3, size=10)
    b = g.program()
    try:
        o = ref.run(b, dict(FIX), STDIN, steps=4000) if lang.show(b) else None
    except ref.Unknown:
        return None
    lines = lang.show(b).split('\n')[:-1]
    if r.random() < .35:
        lines = mutate(lines, r)
    return pair(lines, r, r.choice(HOWS), r.random() < .3, FIX)


def tasks(tier):
    T = Task
    return [T('repository programs', corpus_items, corpus_make, bound='every test and example program, every transformation, LF and CRLF, and erroneous variants'),
            T('single comments and blank lines', single_items, single_make, bound='every line of %d small programs, %d comment texts' % (len(SMALL), len(text.COMMENTS))),
            T('single gaps', gap_items, gap_make, bound='every token boundary of the small programs'),
            T('random programs', seeds, rand_make, False, weight=1, bound='random programs and erroneous variants, random layouts')]
