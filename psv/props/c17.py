"""String, character, conversion and numeric built-ins."""
from .common import *
from .c13 import sx, rnd_real


def batch(es, per=120):
    """many expressions, one REPL entry each"""
    def items(rng):
        yield from chunks(es(rng), per)
    return items


def batch_make(es, rng):
    s = Session({})
    try:
        for e in es:
            try:
                s.add(Entry(expr(e)))
            except ref.Unknown:
                s.lines.pop()
                s.out.pop()
    except ref.Unknown:
        return None
    t = s.test()
    t.n = len(es)
    return t


def fn(n, *a):
    return ('fn', n, list(a))


def st(s):
    return sx(s)


def substrings(rng):
    ext = [-(1 << 63), -(1 << 32), -2, (1 << 31), (1 << 32), (1 << 32) + 1, (1 << 63) - 1]
    for n in range(0, 5):
        for t in itertools.product('aB \xe9'[:3 if n > 2 else 4], repeat=n):
            s = ''.join(t)
            yield fn('LENGTH', st(s))
            for i in range(-1, n + 3):
                yield fn('LEFT', st(s), I(i))
                yield fn('RIGHT', st(s), I(i))
                for k in range(-1, n + 2):
                    yield fn('MID', st(s), I(i), I(k))
    for s in ('', 'a', 'abc', 'x' * 50):
        for i in ext:
            yield fn('LEFT', st(s), I(i))
            yield fn('RIGHT', st(s), I(i))
            for k in ext + [0, 1, 3]:
                yield fn('MID', st(s), I(i), I(k))
                yield fn('MID', st(s), I(k), I(i))


def chars(rng):
    for n in range(256):
        c = fn('CHR', I(n))
        yield fn('ASC', c)
        yield c
        for f in ('UCASE', 'LCASE'):
            yield fn('ASC', fn(f, c))
        for f in ('TO_UPPER', 'TO_LOWER'):
            yield fn(f, B('&', ('str', 'a'), c))
            yield fn('LENGTH', fn(f, B('&', c, ('str', 'Zz9'))))
        yield B('=', fn('CHR', fn('ASC', c)), c)
        yield fn('ASC', fn('LEFT', B('&', c, ('str', 'q')), I(1)))
        yield fn('ASC', fn('RIGHT', B('&', ('str', 'q'), c), I(1)))
        yield fn('LENGTH', B('&', c, c))
    for n in range(32, 127):
        yield fn('ASC', ('char', chr(n)))
        yield fn('UCASE', ('char', chr(n)))
        yield fn('LCASE', ('char', chr(n)))
        yield fn('TO_UPPER', ('char', chr(n)))
        yield fn('LENGTH', ('char', chr(n)))


def numerals(rng):
    for n in range(0, 6):
        for t in itertools.product('059.', repeat=n):
            s = ''.join(t)
            e = ('str', s)
            if ref.is_numeral(s):
                yield fn('IS_NUM', e)
                yield fn('STR_TO_NUM', e)
                yield ('cast', 'REAL', e)
                if '.' not in s:
                    yield ('cast', 'INTEGER', e)
            elif s not in ('', '.'):
                yield fn('IS_NUM', e)
    for s in ('00012', '9223372036854775807', '1.5', '.5', '5.', '0.1', '123456789.987654', '0000000000000000001', '3.14159265358979', '1' * 30, '0.' + '0' * 30 + '1', '007', '12.50', '4503599627370497.5', '9007199254740993'):
        yield fn('IS_NUM', ('str', s))
        yield fn('STR_TO_NUM', ('str', s))
        yield B('=', fn('STR_TO_NUM', ('str', s)), R(float(s)))
        yield ('cast', 'REAL', ('str', s))
        if '.' not in s:
            yield ('cast', 'INTEGER', ('str', s))
    for s in ('', 'abc', '12x', 'x12', '1.2.3', '..', '1..2', '.', '1,5', 'one', '5 5', '12 ', '1_000', '#', '--5', '+-3', '5-', '5+3', '1/2', '$5', 'TRUE', '12a4', '1.2x', 'x', 'zz', '5%', '1:2', '(5)', '=5', 'o', '1o', 'O0', 'l', '12\n', '1\t2', 'q1.5', '1.5q', '\0', '5\0', '5\0\0', '3\x001'):
        if '.' not in s or s.count('.') < 2:
            pass
        yield fn('STR_TO_NUM', st(s))
        yield ('cast', 'REAL', st(s))
        yield ('cast', 'INTEGER', st(s))


def tostr(rng):
    for i in range(-30, 31):
        for d in ('0', '5', '25', '125', '1', '000001', '999999', '100000', '010101'):
            x = float('%d.%s' % (abs(i), d)) * (1 if i >= 0 else -1)
            yield fn('NUM_TO_STR', R(x))
            yield B('=', fn('STR_TO_NUM', fn('NUM_TO_STR', R(x))), R(x))
    for x in (1e5, 123456.654321, 99999999.999999, 1234567.0, 1e9, 0.5, 1e6, 1e-6, 1e12, 1e15, 123456789012.0, 8388608.5):
        for y in (x, -x):
            yield fn('NUM_TO_STR', R(y))
            yield B('=', fn('STR_TO_NUM', fn('NUM_TO_STR', R(y))), R(y))
    for n in (0, 1, -1, 10, 100, 1000000, 2147483647, -2147483648, 20, 300):
        yield fn('NUM_TO_STR', I(n))


def ints(rng):
    for i in range(-20, 21):
        for d in ('0', '5', '25', '999999', '000001', '1'):
            x = float('%d.%s' % (abs(i), d)) * (1 if i >= 0 else -1)
            yield fn('INT', R(x))
        yield fn('INT', I(i))
    for x in (2.0 ** 31, 2.0 ** 31 + .5, -2.0 ** 31 - .5, 2.0 ** 32 + .25, 2.0 ** 52 + .5, -2.0 ** 52 - .5, 2.0 ** 53, 2.0 ** 62, -2.0 ** 62, 1e18, 0.9999999999999999, -0.0000000000000001, 4503599627370495.5, -4503599627370495.5, 1e15 + .5):
        yield fn('INT', R(x))


WRONG = [I(1), ('real', '1.5'), ('bool', True), ('char', 'c'), ('str', 'ss'), ('date', 1, 2, 2003), V('nosuch')]


def wrong(rng):
    """argument types and counts"""
    base = {'STRING': ('str', 'abcd'), 'INTEGER': I(2), 'CHAR': ('char', 'k'), 'REAL': ('real', '2.5'), 'DATE': ('date', 3, 4, 2005)}
    for n in ('LENGTH', 'LEFT', 'RIGHT', 'MID', 'TO_UPPER', 'TO_LOWER', 'UCASE', 'LCASE', 'NUM_TO_STR', 'STR_TO_NUM', 'IS_NUM', 'ASC', 'CHR', 'INT', 'DAY', 'MONTH', 'YEAR', 'DAYINDEX', 'SETDATE', 'SQRT', 'POW'):
        sig = ref.SIG[n]
        good = [base[t] for t in sig]
        yield ('fn', n, good)
        yield ('fn', n, good + [I(1)])
        yield ('fn', n, good[:-1])
        yield ('fn', n, [])
        for i in range(len(sig)):
            for w in WRONG:
                yield ('fn', n, good[:i] + [w] + good[i + 1:])


def nested(seed, rng):
    """random nested calls on random strings; algebraic laws"""
    r = random.Random(seed)
    es = []
    for _ in range(60):
        s = ''.join(r.choice('aZ 9.\n"\\#\0\xff') for _ in range(r.randint(0, 12)))
        i, n = r.randint(-1, len(s) + 2), r.randint(-1, len(s) + 2)
        e = st(s)
        es += [fn('LEFT', e, I(i)), fn('RIGHT', e, I(i)), fn('MID', e, I(i), I(n))]
        k = r.randint(0, len(s))
        es.append(B('=', B('&', fn('LEFT', e, I(k)), fn('RIGHT', e, B('-', fn('LENGTH', e), I(k)))), e))
        es.append(fn('MID', fn('TO_UPPER', e), I(i), fn('INT', ('real', '%d.75' % max(n, 0)))))
        x = round(r.uniform(-1, 1) * 10 ** r.randint(0, 8), r.randint(0, 6))
        es.append(B('=', fn('STR_TO_NUM', fn('NUM_TO_STR', R(x))), R(x)))
        es.append(fn('NUM_TO_STR', R(x)))
        y = r.uniform(-1, 1) * 10 ** r.randint(0, 15)
        es.append(fn('INT', R(y)))
        d = ''.join(r.choice('0123456789') for _ in range(r.randint(1, 17)))
        p = r.randint(0, len(d))
        es += [fn('STR_TO_NUM', ('str', d[:p] + '.' + d[p:])), B('=', fn('STR_TO_NUM', ('str', d[:p] + '.' + d[p:])), R(float(d[:p] + '.' + d[p:]))), ('cast', 'INTEGER', ('str', d)), fn('IS_NUM', ('str', d[:p] + '.' + d[p:])), ('cast', 'REAL', ('str', d))]
    return batch_make(es, rng)


def vals(seed, rng):
    """the same through variables, in a file"""
    r = random.Random(seed)
    s = ''.join(r.choice('abXY 09.') for _ in range(r.randint(0, 20)))
    b = [declare('s', 'STRING'), declare('t', 'STRING'), declare('c', 'CHAR'), declare('i', 'INTEGER'), assign('s', ('str', s)), for_('i', I(0), fn('LENGTH', V('s')), [
        output(fn('LEFT', V('s'), V('i')), ('str', '|'), fn('RIGHT', V('s'), V('i')))])]
    if s:
        b.append(for_('i', I(1), fn('LENGTH', V('s')), [assign('c', fn('MID', V('s'), V('i'), I(1))), assign('t', B('&', fn('UCASE', V('c')), V('t'))), output(fn('ASC', V('c')), ('str', ' '), fn('MID', V('s'), V('i'), B('+', B('-', fn('LENGTH', V('s')), V('i')), I(1))))]))
    b += [output(V('t'), ('str', ' '), fn('LENGTH', V('t')), fn('TO_LOWER', V('t')))]
    e = r.choice([fn('LEFT', V('s'), B('+', fn('LENGTH', V('s')), I(1))), fn('MID', V('s'), I(0), I(1)), fn('MID', V('s'), I(1), B('+', fn('LENGTH', V('s')), I(1))), fn('RIGHT', V('s'), I(-1)), fn('MID', V('s'), B('+', fn('LENGTH', V('s')), I(1)), I(0))])
    b.append(output(('str', 'x'), e))
    return test(b)


def rands(rng):
    for x in list(range(0, 12)) + [20, 31, 100, 255, 256, 1000, 32767, 32768, 65536, 10 ** 6, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, 1 << 32, 10 ** 12, 1 << 53, 1 << 60, (1 << 62), (1 << 63) - 1]:
        for k in range(4):
            yield x, k


def rand_make(it, rng):
    x, k = it
    n = 1500
    p = 'ok <- TRUE\nDECLARE r : REAL\nFOR i <- 1 TO %d\n    r <- RAND(%d)\n    IF r < 0 OR r > %d THEN\n        ok <- FALSE\n        OUTPUT r\n    ENDIF\nNEXT\nOUTPUT ok\n' % (n, x, x)

    def check(rs, fs):
        if rs[0].kind or rs[0].code or rs[0].out != b'TRUE\n':
            return '0 <= RAND(%d) <= %d fails' % (x, x), 'TRUE'
        return None
    return Test(Case(p, runs=[Run(ops=[(8, str(k * 7919 + x % 1000))])]), check, n)


def tasks(tier):
    T = Task
    k = 'plain'
    L = [('substrings', substrings, 'every string of up to 4 characters over {a,B,blank,e9} x positions and lengths -1..n+2, extreme arguments'), ('characters', chars, 'all 256 character codes'),
         ('numerals', numerals, 'every string of up to 5 characters over {0,5,9,.}, and texts that are no numerals'), ('number to text', tostr, '540 decimal values'), ('INT', ints, 'values around integers'), ('arguments', wrong, 'every built-in with wrong types and counts')]
    ts = [T(n, batch(f), batch_make, bound=b) for n, f, b in L]
    ts += [T(n + ' (sanitizers)', batch(f, 400), batch_make, kind='asan', bound=b) for n, f, b in L if n in ('substrings', 'arguments')]
    return ts + [T('RAND', rands, rand_make, bound='1500 draws for each of 31 arguments, 4 processes'),
                 T('random calls', seeds, nested, False, weight=2, bound='60 random strings and numbers per session'),
                 T('random calls in programs', seeds, vals, False, weight=1, bound='random strings of up to 20 characters')]
