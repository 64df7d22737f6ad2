"""DATE values."""
from .common import *
from .c17 import batch, batch_make, fn

YEARS = [0, 1, 4, 100, 400, 1600, 1899, 1900, 1996, 1999, 2000, 2004, 2023, 2024, 2100, 9999, 32767]


def literals(rng):
    """d/m/y and SETDATE(d,m,y) over a grid containing every day of the years and everything just outside"""
    for y in YEARS:
        for m in range(0, 14):
            for d in (range(0, 33) if y in (1900, 2000, 2023, 2024) else (0, 1, 2, 15, 27, 28, 29, 30, 31, 32)):
                yield ('date', d, m, y)
                yield fn('SETDATE', I(d), I(m), I(y))


def parts(rng):
    for y in YEARS:
        for m in range(1, 13):
            for d in (1, 2, 28, 29, 30, 31):
                if not ref.valid_date(d, m, y):
                    continue
                for e in (('date', d, m, y), fn('SETDATE', I(d), I(m), I(y))):
                    for f in ('DAY', 'MONTH', 'YEAR') + (('DAYINDEX',) if y > 0 else ()):
                        yield fn(f, e)


def extremes(rng):
    ext = [-(1 << 63), -(1 << 32), -32769, -32768, -65536, -256, -1, 0, 255, 256, 257, 258, 32767, 32768, 65535, 65536, 65537, 67561, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 63) - 1]
    for x in ext:
        if x > 31 or x < 1:
            yield fn('SETDATE', I(x), I(1), I(2000))
        if x > 12 or x < 1:
            yield fn('SETDATE', I(1), I(x), I(2000))
        if x > 32767 or x < -32767:
            yield fn('SETDATE', I(1), I(1), I(x))
        yield fn('SETDATE', I(x), I(x), I(x)) if x < 1 or x > 31 else fn('SETDATE', I(0), I(x), I(x))
    for k in (1, 2, 3, 4):
        yield fn('SETDATE', I(256 * k + 1), I(1), I(2000))
        yield fn('SETDATE', I(1), I(256 * k + 1), I(2000))
        yield fn('SETDATE', I(1), I(1), I(65536 * k + 2000))
        yield fn('SETDATE', I((1 << 32) * k + 1), I(1), I(2000))
        yield fn('SETDATE', I(1), I((1 << 32) * k + 1), I(2000))
        yield fn('SETDATE', I(1), I(1), I((1 << 32) * k + 2000))
    for t in ('256/1/2000', '257/1/2000', '1/257/2000', '1/256/2000', '1/1/65536', '1/1/67536', '1/1/99999', '4294967297/1/2000', '1/4294967297/2000', '1/1/4294969296', '18446744073709551617/1/2000', '1/1/18446744073709551617', '0/0/0', '1/1/32768', '32/1/2000', '01/02/2003', '001/002/02003', '29/02/2023', '29/2/1900', '29/2/2000', '31/4/2001', '30/2/2024', '31/11/2020', '99999999999999999999/1/1'):
        d, m, y = [int(x) for x in t.split('/')]
        yield ('date', t.split('/')[0], t.split('/')[1], t.split('/')[2])


def days(rng):
    """every day index: each year 1..9999 around its month ends"""
    for y in range(1, 10000):
        for d, m in ((1, 1), (28, 2), (29, 2), (1, 3), (31, 12)):
            if ref.valid_date(d, m, y):
                yield d, m, y


def day_items(rng):
    yield from chunks(days(rng), 250)


def day_make(ds, rng):
    b = []
    for d, m, y in ds:
        e = ('date', d, m, y)
        b.append(output(e, ('str', ' '), fn('DAYINDEX', e)))
    t = test(b)
    if t:
        t.n = len(ds)
    return t


def run_items(rng):
    for y in (1, 1899, 1900, 1999, 2000, 2023, 2024, 2099, 2100):
        yield y


def run_make(y, rng):
    """every day of a year"""
    b = []
    for m in range(1, 13):
        for d in range(1, 32):
            if ref.valid_date(d, m, y):
                e = fn('SETDATE', I(d), I(m), I(y)) if d % 2 else ('date', d, m, y)
                b += [assign('d', e), output(V('d'), ('str', ' '), fn('DAYINDEX', V('d')), fn('DAY', V('d')), ('str', '.'), fn('MONTH', V('d')), ('str', '.'), fn('YEAR', V('d')))]
    t = test(b)
    t.n = len(b) // 2
    return t


PTS = [(1, 1, 1), (31, 12, 1999), (1, 1, 2000), (2, 1, 2000), (31, 1, 2000), (1, 2, 2000), (28, 2, 2000), (29, 2, 2000), (1, 3, 2000), (30, 11, 2000), (31, 12, 2000), (1, 1, 2001), (31, 1, 2001), (15, 6, 2001), (16, 5, 2001), (31, 12, 2001), (1, 12, 2001), (12, 1, 2001), (28, 2, 2100), (1, 1, 32767),
       (31, 12, 9999), (5, 5, 255), (5, 5, 256), (1, 1, 0)]
CMP = ['=', '<>', '<', '<=', '>', '>=']


def cmps(rng):
    for a in PTS:
        for b in PTS:
            for op in CMP:
                yield B(op, ('date',) + a, ('date',) + b)
    neg = [(1, 1, -1), (31, 12, -1), (1, 3, -400), (15, 8, -32767), (2, 1, -1), (1, 1, 0), (1, 1, 1), (31, 12, 32767)]
    for a in neg:
        for b in neg:
            for op in CMP:
                yield B(op, fn('SETDATE', *map(I, a)), fn('SETDATE', *map(I, b)))
    for op in CMP:
        for o in (I(5), ('str', '1/1/2000'), ('real', '2.0'), ('bool', True), ('char', 'a')):
            yield B(op, ('date', 1, 1, 2000), o)
            yield B(op, o, ('date', 1, 1, 2000))
    for op in ('+', '-', '*', '/', 'DIV', 'MOD', 'AND', 'OR'):
        yield B(op, ('date', 1, 1, 2000), ('date', 1, 1, 1999))
        yield B(op, ('date', 1, 1, 2000), I(1))
    yield ('neg', ('date', 1, 1, 2000))
    yield ('not', ('date', 1, 1, 2000))


def rnd_date(r, valid=True):
    while True:
        t = (r.randint(1, 31), r.randint(1, 12), r.choice([r.randint(1, 9999), r.randint(1990, 2030), r.randint(1, 32767), 2000]))
        if ref.valid_date(*t) or not valid:
            return t


def nxt(t, r):
    d, m, y = t
    k = r.randint(0, 3)
    c = (d + r.choice([-1, 1]), m, y) if k == 0 else (d, m + r.choice([-1, 1]), y) if k == 1 else (d, m, y + r.choice([-1, 1])) if k == 2 else t
    return c if ref.valid_date(*c) and c[2] > 0 else t


def rand_make(seed, rng):
    r = random.Random(seed)
    es = []
    for _ in range(60):
        a = rnd_date(r)
        b = nxt(a, r) if r.random() < .6 else rnd_date(r)
        op = r.choice(CMP)
        es += [B(op, ('date',) + a, fn('SETDATE', *map(I, b))), B(op, ('date',) + b, ('date',) + a), fn('DAYINDEX', ('date',) + a), ('date',) + a, fn('DAYINDEX', fn('SETDATE', *map(I, b)))]
        c = rnd_date(r, False)
        es += [('date',) + c, fn('SETDATE', *map(I, c)), fn('YEAR', ('date',) + b), fn('MONTH', ('date',) + b), fn('DAY', ('date',) + b)]
        es.append(B('&', ('date',) + a, ('str', '!')))
    return batch_make(es, rng)


def flow(seed, rng):
    """dates through variables, arrays, records, parameters, files and CASE"""
    r = random.Random(seed)
    ds = [rnd_date(r) for _ in range(4)]
    ds.append(nxt(ds[0], r))
    D = [('date',) + d for d in ds]
    b = [declarr('a', [(1, 5)], 'DATE'), deftype('R', rec=[declare('d', 'DATE'), declare('n', 'INTEGER')]), declare('r', 'R'), func('latest', [('BYVAL', 'x', 'DATE'), ('BYVAL', 'y', 'DATE')], 'DATE', [if_([(B('>', V('x'), V('y')), [ret(V('x'))])]), ret(V('y'))]),
         proc('set', [('BYREF', 'q', 'DATE'), ('BYVAL', 'w', 'DATE')], [assign('q', V('w'))])]
    for i in range(5):
        b.append(assign(('idx', ('id', 'a'), [I(i + 1)]), D[i]))
    el = lambda e: ('var', ('idx', ('id', 'a'), [e]))
    # sort
    b.append(for_('i', I(1), I(4), [for_('j', I(1), B('-', I(5), V('i')), [if_([(B('>', el(V('j')), el(B('+', V('j'), I(1)))), [assign('t', el(V('j'))), assign(('idx', ('id', 'a'), [V('j')]), el(B('+', V('j'), I(1)))), assign(('idx', ('id', 'a'), [B('+', V('j'), I(1))]), V('t'))])])])]))
    b.append(for_('i', I(1), I(5), [output(el(V('i')), ('str', ' '), fn('DAYINDEX', el(V('i'))))]))
    b += [assign(('fld', ('id', 'r'), 'd'), fn('latest', D[0], D[1])), output(('var', ('fld', ('id', 'r'), 'd'))), assign('x', D[2]), call('set', [V('x'), D[3]]), output(V('x'))]
    lo, hi = sorted(ds[1:3], key=lambda d: d[::-1])
    b.append(case('x', [('eq', D[3], [outs('same')]), ('rng', ('date',) + lo, ('date',) + hi, [outs('between')]), ('other', [outs('other')])]))
    b.append(assign('y', D[4]))
    b.append(case('y', [('rng', ('date',) + lo, ('date',) + hi, [outs('between')]), ('eq', D[0], [outs('same')]), ('other', [outs('other')])]))
    b += [openfile('d.txt', 'WRITE'), writefile('d.txt', V('x')), closefile('d.txt'), openfile('r.dat', 'RANDOM'), putrec('r.dat', 'x'), assign('z', D[0]), seek('r.dat', 1), getrec('r.dat', 'z'), output(V('z'), B('=', V('z'), V('x')))]
    return test(b, files={'d.txt': ''})


def tasks(tier):
    T = Task
    return [T('validity', batch(literals), batch_make, bound='days 0..32, months 0..13, %d years; literal and SETDATE' % len(YEARS)),
            T('components', batch(parts), batch_make, bound='month ends of %d years' % len(YEARS)),
            T('out of range', batch(extremes), batch_make, bound='extreme components, values congruent modulo 2^8, 2^16, 2^32'),
            T('day of the week', day_items, day_make, bound='5 days of every year 1..9999'),
            T('whole years', run_items, run_make, bound='every day of 9 years'),
            T('comparisons', batch(cmps), batch_make, bound='all pairs of %d dates, all operators; other types' % len(PTS)),
            T('random dates', seeds, rand_make, False, weight=2, bound='random dates and near misses'),
            T('dates in programs', seeds, flow, False, weight=1, bound='sorting, records, parameters, files, CASE')]
