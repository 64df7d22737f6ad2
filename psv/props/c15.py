"""Text files return exactly the lines that were written, and EOF is exact."""
from .common import *
from .c13 import sx, REALS, rnd_real

F = 't.txt'
INIT = [None, '', 'x', 'x\n', '\n', '\n\n', 'a\nb', 'a\nb\n', '\n\nend', 'a\r\nb\r\n', ' lead\ttrail \n', 'nul\0in\nside\0\n', '\xff\xfe\n', 'x' * 5000 + '\n' + 'y' * 70000, '\n' * 20]
LINES = ['', ' ', 'a', 'a b', '"q"', '#', '\t', '\xe9\xff', '\0', 'x' * 300, '\r', '12', ' 5', "'", '\\']
VALS = [('int', 0), I(-5), I((1 << 63) - 1), I(-(1 << 63)), ('bool', True), ('bool', False), ('char', 'c'), ('char', ' '), ('fn', 'CHR', [I(0)]), ('fn', 'CHR', [I(200)]), ('date', 1, 2, 2003), ('date', 29, 2, 2024), ('real', '2.5'), ('real', '0.125'), ('real', '3.0'),
        ('real', '1234567.890625'), ('neg', ('real', '0.5')), ('real', '0.000001'), ('real', '100000000000.25'), ('str', ''), ('str', ' padded ')] + [sx(s) for s in LINES]


def rd_all(var='l', f=F):
    return while_(('not', ('fn', 'EOF', [('str', f)])), [readfile(f, var), output(('str', '<'), V(var), ('str', '>'))])


def read_items(rng):
    for i in range(len(INIT)):
        for how in range(5):
            yield i, how


def read_make(it, rng):
    """reading existing content: EOF loop, EOF before every line, repeat after reopening"""
    i, how = it
    files = {} if INIT[i] is None else {F: INIT[i]}
    if how == 0:
        b = [openfile(F, 'READ'), rd_all(), output(('fn', 'EOF', [('str', F)])), closefile(F), outs('end')]
    elif how == 1:
        b = [openfile(F, 'READ'), output(('fn', 'EOF', [('str', F)])), output(('fn', 'EOF', [('str', F)])), rd_all(), closefile(F), openfile(F, 'READ'), rd_all()]
    elif how == 2:
        b = [openfile(F, 'APPEND'), closefile(F), openfile(F, 'READ'), rd_all(), closefile(F)]
    elif how == 3:
        b = [openfile(F, 'APPEND'), writefile(F, ('str', 'one')), writefile(F, ('str', '')), closefile(F), openfile(F, 'READ'), rd_all(), closefile(F)]
    else:
        b = [openfile(F, 'WRITE'), writefile(F, ('str', 'one')), closefile(F), openfile(F, 'READ'), rd_all(), closefile(F)]
    return test(b, files=files)


def val_items(rng):
    for i in range(len(VALS)):
        for m in ('WRITE', 'APPEND'):
            for k in range(3):
                yield i, m, k


def val_make(it, rng):
    i, m, k = it
    e = VALS[i]
    w = [openfile(F, m)]
    if k == 1:
        w = [assign('v', e)] + w
        e = V('v')
    if k == 2:
        w.append(writefile(F, ('str', 'before')))
    w.append(writefile(F, e))
    if k == 2:
        w.append(writefile(F, e))
    w.append(writefile(F, ('str', 'after')))
    files = {F: 'old\n'}
    b = w + [closefile(F), openfile(F, 'READ'), rd_all(), closefile(F)]
    if k == 1:
        return multi([w, [openfile(F, 'READ'), rd_all()]], files=files)
    return test(b, files=files)


OPS = ['W', 'A', 'R', 'w', 'e', 'r', 'E', 'c', 'L']


def do(s, op, n, f=F):
    if op in 'WAR':
        s.add(Entry(openfile(f, {'W': 'WRITE', 'A': 'APPEND', 'R': 'READ'}[op])))
    elif op == 'w':
        s.add(Entry(writefile(f, ('str', 'line %d' % n))))
    elif op == 'e':
        s.add(Entry(writefile(f, ('str', ''))))
    elif op == 'r':
        s.add(Entry(readfile(f, 'l')))
        s.add(Entry(expr(V('l'))))
    elif op == 'E':
        s.add(Entry(expr(('fn', 'EOF', [('str', f)]))))
    elif op == 'c':
        s.add(Entry(closefile(f)))
    elif op == 'L':
        s.add(Entry(if_([(('not', ('fn', 'EOF', [('str', f)])), [rd_all(f=f)])], [outs('empty')])))


def hist_items(depth):
    def items(rng):
        for n in range(1, depth + 1):
            for ops in itertools.product(OPS, repeat=n):
                yield ops
    return items


def hist_make(ops, rng):
    # only histories in which the operations are mostly legal say something new here (the rest is C16)
    st, bad = None, 0
    for o in ops:
        if o in 'WAR':
            bad += st is not None
            st = st or o
        elif o == 'c':
            bad += st is None
            st = None
        else:
            bad += st != 'R' if o in 'rEL' else st not in ('W', 'A')
    if bad > 1:
        return None
    init = rng.choice([None, 'x\ny\n', 'x\ny', ''])
    disk = {} if init is None else {F: init}
    s = Session(dict(disk))
    s.add(Entry(declare('l', 'STRING')))
    for i, o in enumerate(ops):
        do(s, o, i)
    do(s, 'c', 0)
    do(s, 'R', 0)
    do(s, 'L', 0)
    do(s, 'c', 0)
    return s.test(disk)


def rtext(r):
    return ''.join(r.choice('ab 01#."\t\r\0\xe9') for _ in range(r.choice([0, 0, 1, 2, 5, 12, 60])))


def rand_make(seed, rng):
    r = random.Random(seed)
    files = {f: '\n'.join(rtext(r) for _ in range(r.randint(0, 4))) + r.choice(['', '\n']) for f in ('t.txt', 'u.txt') if r.random() < .7}
    s = Session(dict(files))
    s.add(Entry(declare('l', 'STRING')))
    state = {}
    for i in range(r.randint(5, 40)):
        f = r.choice(['t.txt', 'u.txt', 't.txt'])
        st = state.get(f)
        if r.random() < .03:
            do(s, r.choice(OPS), i, f)
            h = s.r.g.files.get(f)
            state[f] = h.mode[0] if h else None
            continue
        if st is None:
            do(s, r.choice('WAR'), i, f)
        elif r.random() < .15:
            do(s, 'c', i, f)
        elif st == 'R':
            do(s, r.choice('rrrEL'), i, f)
        else:
            x = r.random()
            e = sx(rtext(r)) if x < .5 else r.choice(VALS) if x < .8 else I(r.randint(-10 ** 6, 10 ** 6)) if x < .9 else ('real', '%d.%06d' % (r.randint(0, 10 ** r.randint(0, 9)), r.randint(0, 999999)))
            s.add(Entry(writefile(f, e)))
        h = s.r.g.files.get(f)
        state[f] = h.mode[0] if h else None
    return s.test(files)


def real_make(seed, rng):
    """REAL as text: accurate to 6 decimals"""
    r = random.Random(seed)
    xs = [round(r.uniform(-1, 1) * 10 ** r.randint(-6, 9), r.randint(0, 6)) for _ in range(20)]
    b = [openfile(F, 'WRITE')] + [writefile(F, R(x)) for x in xs] + [closefile(F), openfile(F, 'READ'), rd_all(), closefile(F)]
    c = test(b)
    return c


def big_make(seed, rng):
    """many lines, long lines; written by a loop and read back"""
    r = random.Random(seed)
    n = r.choice([1, 50, 300])
    m = r.choice([0, 1, 10, 900])
    b = [openfile(F, r.choice(['WRITE', 'APPEND'])), assign('s', ('str', 'k' * m)), for_('i', I(1), I(n), [writefile(F, B('&', V('i'), V('s')))]), closefile(F), openfile(F, 'READ'), assign('n', I(0)), assign('t', I(0)),
         while_(('not', ('fn', 'EOF', [('str', F)])), [readfile(F, 'l'), assign('n', B('+', V('n'), I(1))), assign('t', B('+', V('t'), ('fn', 'LENGTH', [V('l')])))]), output(V('n'), ('str', ' '), V('t')), closefile(F)]
    return test(b, files={F: ''})


def tasks(tier):
    T = Task
    return [T('existing content', read_items, read_make, bound='%d contents' % len(INIT)),
            T('values', val_items, val_make, bound='%d values, WRITE / APPEND' % len(VALS)),
            T('histories', hist_items(4 if tier == 'quick' else 5), hist_make, bound='every history of up to %d operations with at most one illegal operation' % (4 if tier == 'quick' else 5)),
            T('random histories', seeds, rand_make, False, weight=3, bound='up to 40 operations on two files'),
            T('reals', seeds, real_make, False, weight=.3, bound='random REAL values of up to 6 decimals'),
            T('many lines', seeds, big_make, False, weight=.3, bound='up to 300 lines of up to 900 characters'),
            rand_task('random programs with text files', 1, files=1.5, err=0.01)]
