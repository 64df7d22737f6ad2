"""Records written to a random file read back exactly."""
from .common import *
import struct, math

SPECIAL = ['', ' ', '  ', 'a', 'a b', '\n', '\n\n', '#', '\n#', '#\n', 'a\nb', 'a\n\nb', 'a\n', '\na', 'x\n#y', '##', '\r', '\r\n', 'a\rb', '\t', '"', "'", '\\', '\\n', '0', '12', '5 abc', ' 5', 'STRING 3 abc',
           'INTEGER 5', '\0', 'a\0b', '\0\0', '\xff', '\xff\xfe', '\x1a', '\x80', 'TRUE', '1/2/2003', ' \n ', '\n \n', ' #', '# ', '3 ab', '\n#\n#\n', 'x' * 200, 'ab\n' * 30, ''.join(map(chr, range(256)))]


def sx(s):
    """expression for any string of bytes"""
    parts, run = [], ''
    for ch in s:
        if 32 <= ord(ch) < 127 or ch in '\n\t':
            run += ch
        else:
            if run:
                parts.append(('str', run))
                run = ''
            parts.append(('fn', 'CHR', [I(ord(ch))]))
    if run or not parts:
        parts.append(('str', run))
    if len(parts) == 1 and parts[0][0] == 'fn':
        return B('&', ('str', ''), parts[0])
    e = parts[0]
    for p in parts[1:]:
        e = B('&', e, p)
    return e


REALS = [1.0, -1.0, 0.1, -0.1, 1 / 3, 2 / 3, math.pi, 123456.789, 1e15, 1e16, 123456789012345680.0, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 1e22, 1e100, 1.7976931348623157e308, 2.2250738585072014e-308, 2.225073858507202e-308, 1e-5, 1e-10, 5e-324 * 2 ** 60,
         0.1 + 0.2, 1.1, 2.5, 1e-300, 4.35, 0.30000000000000004, 9007199254740993.0, 1.0000000000000002, 0.9999999999999999, -123.456e-30]


def rexpr(x):
    return R(x)


def rnd_real(r):
    while True:
        x = struct.unpack('<d', struct.pack('<Q', r.getrandbits(64)))[0]
        if math.isfinite(x) and abs(x) >= 2.2250738585072014e-308 and abs(x) < 1e200 and abs(x) > 1e-150:
            return x


def values(rng):
    for n in range(256):
        yield 'CHAR', ('fn', 'CHR', [I(n)])
    for n in BIG:
        yield 'INTEGER', I(n)
    for s in SPECIAL:
        yield 'STRING', sx(s)
    for x in REALS:
        yield 'REAL', rexpr(x)
        yield 'REAL', rexpr(-x)
    for b in (True, False):
        yield 'BOOLEAN', ('bool', b)
    for d in ((1, 1, 1), (29, 2, 2024), (31, 12, 9999), (1, 1, 1999), (15, 8, 32767), (28, 2, 1900), (31, 1, 0)):
        yield 'DATE', ('date',) + d
    for i in range(5):
        yield 'Col', V(['Red', 'Green', 'Blue', 'Cyan', 'Grey'][i])


TYPES = [deftype('Col', enum=['Red', 'Green', 'Blue', 'Cyan', 'Grey'])]
HOW = ['session', 'reopen', 'process', 'array', 'record', 'second']


def single_items(rng):
    for i, v in enumerate(values(rng)):
        for h in HOW:
            yield v, h


def shows(T, e, lv):
    o = [output(('str', '['), V(lv) if isinstance(lv, str) else ('var', lv), ('str', ']'))]
    if T == 'CHAR':
        o.append(output(('fn', 'ASC', [V(lv) if isinstance(lv, str) else ('var', lv)])))
    if T != 'Col':
        o.append(output(B('=', V(lv) if isinstance(lv, str) else ('var', lv), e)))
    if T == 'STRING':
        o.append(output(('fn', 'LENGTH', [V(lv) if isinstance(lv, str) else ('var', lv)])))
    return o


def single_make(it, rng):
    (T, e), how = it
    F = 'r.dat'
    other = {'INTEGER': I(4), 'REAL': ('real', '7.5'), 'BOOLEAN': ('bool', True), 'CHAR': ('char', 'Z'), 'STRING': ('str', 'old'), 'DATE': ('date', 2, 3, 2004), 'Col': V('Cyan')}[T]
    pre = TYPES + [declare('x', T), assign('x', e)]
    rd = [declare('y', T), assign('y', other), seek(F, 1), getrec(F, 'y')]
    if how == 'session':
        return test(pre + [openfile(F, 'RANDOM'), putrec(F, 'x')] + rd + shows(T, e, 'y') + shows(T, e, 'x') + [closefile(F)])
    if how == 'reopen':
        return test(pre + [openfile(F, 'RANDOM'), putrec(F, 'x'), closefile(F), openfile(F, 'RANDOM')] + rd + shows(T, e, 'y') + [closefile(F)])
    if how == 'process':
        return multi([pre + [openfile(F, 'RANDOM'), putrec(F, 'x')], TYPES + [openfile(F, 'RANDOM')] + rd + shows(T, e, 'y')])
    if how == 'second':
        # between two other records
        b = pre + [declare('z', T), assign('z', other), openfile(F, 'RANDOM'), putrec(F, 'z'), seek(F, 2), putrec(F, 'x'), seek(F, 3), putrec(F, 'z'), closefile(F)]
        c = TYPES + [declare('y', T), openfile(F, 'RANDOM')]
        for k in (2, 1, 3, 2):
            c += [seek(F, k), getrec(F, 'y'), output(V('y'), ('str', ';'))]
        c += shows(T, e, 'y') + [seek(F, 4), getrec(F, 'y')]
        return multi([b, c])
    if how == 'array':
        b = TYPES + [declarr('a', [(0, 2)], T), assign(('idx', ('id', 'a'), [I(0)]), e), assign(('idx', ('id', 'a'), [I(2)]), e), assign(('idx', ('id', 'a'), [I(1)]), other), openfile(F, 'RANDOM'), putrec(F, 'a')]
        c = TYPES + [declarr('q', [(0, 2)], T), openfile(F, 'RANDOM'), getrec(F, 'q')]
        for k in range(3):
            c += shows(T, e, ('idx', ('id', 'q'), [I(k)]))
        return multi([b, c])
    rec = [deftype('In', rec=[declare('v', T), declare('t', 'STRING')]), deftype('R', rec=[declare('n', 'INTEGER'), declare('v', T), declare('i', 'In'), declarr('a', [(1, 2)], T), declare('w', 'STRING')])]
    r = ('id', 'r')
    b = TYPES + rec + [declare('r', 'R'), assign(('fld', r, 'n'), I(-7)), assign(('fld', r, 'v'), e), assign(('fld', ('fld', r, 'i'), 'v'), e), assign(('idx', ('fld', r, 'a'), [I(2)]), e), assign(('idx', ('fld', r, 'a'), [I(1)]), other),
                       assign(('fld', ('fld', r, 'i'), 't'), ('str', 'tt ')), assign(('fld', r, 'w'), ('str', ' end')), openfile(F, 'RANDOM'), putrec(F, 'r')]
    q = ('id', 'q')
    c = TYPES + rec + [declare('q', 'R'), openfile(F, 'RANDOM'), getrec(F, 'q'), output(('var', ('fld', q, 'n')), ('str', '|'), ('var', ('fld', q, 'w')), ('str', '|'), ('var', ('fld', ('fld', q, 'i'), 't')))]
    for lv in (('fld', q, 'v'), ('fld', ('fld', q, 'i'), 'v'), ('idx', ('fld', q, 'a'), [I(1)]), ('idx', ('fld', q, 'a'), [I(2)])):
        c += shows(T, e, lv)
    return multi([b, c])


KT = PRIM + ['Col', 'Shp', 'Rec', 'Rec2', 'Nest', 'arrI', 'arrI3', 'arrS', 'arrR']
ARR = {'arrI': ([(1, 2)], 'INTEGER'), 'arrI3': ([(1, 3)], 'INTEGER'), 'arrS': ([(1, 2)], 'STRING'), 'arrR': ([(1, 2)], 'Rec')}


def mk(T, n):
    if T in ARR:
        b, t = ARR[T]
        return [declarr(n, b, t)]
    return [declare(n, T)]


def fill(T, n):
    if T in ARR:
        b, t = ARR[T]
        if t == 'Rec':
            return [assign(('fld', ('idx', ('id', n), [I(2)]), 's'), ('str', 'q q'))]
        return [assign(('idx', ('id', n), [I(2)]), LIT[t])]
    return [s for s in value(T)[1:]]


def dumps(T, n):
    if T in ARR:
        b, t = ARR[T]
        o = []
        for i in range(b[0][0], b[0][1] + 1):
            o += [output(*[x]) for x in dump(t, ('idx', ('id', n), [I(i)]))]
        return o
    return [output(x) for x in dump(T, ('id', n))]


def pair_items(rng):
    for a in KT:
        for b in KT:
            for how in range(3):
                yield a, b, how


def pair_make(it, rng):
    A, Bt, how = it
    F = 'r.dat'
    if how == 2:
        # the target keeps its value when the record does not fit
        s = Session({})
        ents = WORLD_TYPES() + mk(A, 'src' + A) + fill(A, 'src' + A) + mk(Bt, 'dst')
        if Bt not in ARR:
            ents += value(Bt, 1) + [assign('dst', V('src' + Bt))] if Bt != A else [assign('dst', V('src' + A))]
        ents += [openfile(F, 'RANDOM'), putrec(F, 'src' + A), seek(F, 1), getrec(F, 'dst')] + dumps(Bt, 'dst') + dumps(A, 'src' + A) + [seek(F, 1), getrec(F, 'src' + A)] + dumps(A, 'src' + A) + [closefile(F)]
        try:
            for x in ents:
                s.add(Entry(x))
        except ref.Unknown:
            return None
        return s.test()
    b1 = WORLD_TYPES() + mk(A, 'src' + A) + fill(A, 'src' + A) + [openfile(F, 'RANDOM'), putrec(F, 'src' + A)]
    b2 = mk(Bt, 'dst') + [seek(F, 1), getrec(F, 'dst')] + dumps(Bt, 'dst')
    if how == 0:
        return test(b1 + b2)
    return multi([b1, WORLD_TYPES() + [openfile(F, 'RANDOM')] + b2])


def rval(r, T):
    if T == 'INTEGER':
        return I(r.choice(BIG) if r.random() < .5 else r.randint(-10 ** r.randint(1, 18), 10 ** r.randint(1, 18)))
    if T == 'REAL':
        return rexpr(rnd_real(r) if r.random() < .7 else r.choice(REALS))
    if T == 'STRING':
        return sx(''.join(r.choice('ab #\n\r\0\t0123 "\\\xff\x80') for _ in range(r.randint(0, r.choice([3, 8, 40])))))
    if T == 'CHAR':
        return ('fn', 'CHR', [I(r.randint(0, 255))])
    if T == 'BOOLEAN':
        return ('bool', r.random() < .5)
    if T == 'DATE':
        y, m = r.randint(0, 9999), r.randint(1, 12)
        return ('date', r.randint(1, 28), m, y)
    return V(r.choice(['Red', 'Green', 'Blue', 'Cyan', 'Grey']))


def rand_make(seed, rng):
    """a random record type, filled with random values, written several times and read back by another run"""
    r = random.Random(seed)
    ts = list(TYPES)
    known = PRIM + ['Col']
    recs = {}
    for i in range(r.randint(1, 3)):
        fs = []
        for j in range(r.randint(1, 5)):
            t = r.choice(known + list(recs))
            b = None
            if r.random() < .35:
                b = [(lo, lo + r.randint(0, 2)) for lo in [r.randint(-2, 3) for _ in range(r.choice([1, 1, 2]))]]
            fs.append(('f%d' % j, t, b))
        recs['R%d' % i] = fs
        ts.append(deftype('R%d' % i, rec=[declarr(n, b, t) if b else declare(n, t) for n, t, b in fs]))

    def leaves(lv, t):
        if t in recs:
            for n, ft, b in recs[t]:
                x = ('fld', lv, n)
                if b:
                    for idx in itertools.product(*[range(l, u + 1) for l, u in b]):
                        yield from leaves(('idx', x, [I(k) for k in idx]), ft)
                else:
                    yield from leaves(x, ft)
        else:
            yield lv, t
    b1, b2 = list(ts), list(ts)
    F = 'r.dat'
    b1.append(openfile(F, 'RANDOM'))
    b2.append(openfile(F, 'RANDOM'))
    n = r.randint(1, 4)
    kinds = []
    for k in range(n):
        t = r.choice(known + list(recs) + list(recs))
        ar = [(0, r.randint(0, 2))] if r.random() < .25 else None
        kinds.append((t, ar))
        b1.append(declarr('v%d' % k, ar, t) if ar else declare('v%d' % k, t))
        base = [('id', 'v%d' % k)] if not ar else [('idx', ('id', 'v%d' % k), [I(i)]) for i in range(ar[0][1] + 1)]
        for bs in base:
            for lv, lt in leaves(bs, t):
                if r.random() < .8:
                    b1.append(assign(lv, rval(r, lt)))
        b1 += [seek(F, k + 1), putrec(F, 'v%d' % k)]
    order = list(range(n))
    r.shuffle(order)
    for k in order:
        t, ar = kinds[k]
        nm = 'w%d' % k
        b2.append(declarr(nm, ar, t) if ar else declare(nm, t))
        b2 += [seek(F, k + 1), getrec(F, nm)]
        base = [('id', nm)] if not ar else [('idx', ('id', nm), [I(i)]) for i in range(ar[0][1] + 1)]
        for bs in base:
            for lv, lt in leaves(bs, t):
                b2.append(output(('str', '<'), ('var', lv), ('str', '>')))
    if r.random() < .4:
        # same session
        return test(b1 + [x for x in b2 if x not in ts and x.k != 'open'])
    if r.random() < .3:
        return test(b1 + [closefile(F)] + [x for x in b2 if x.k != 'type'])
    return multi([b1, b2])


def tasks(tier):
    T = Task
    return [T('one value, every way to store it', single_items, single_make, bound='256 CHAR codes, %d strings, %d reals, integers, dates, enum values; alone / reopened / next run / in array / in record / between records' % (len(SPECIAL), 2 * len(REALS))),
            T('pairs of types', pair_items, pair_make, bound='%d x %d written/read types; target unchanged on mismatch' % (len(KT), len(KT))),
            T('random records', seeds, rand_make, False, weight=2, bound='random record types and values, same session / reopened / next run'),
            rand_task('random programs with random files', 1, rand_files=1, types=1, arrays=1, err=0.01)]
