"""File statements obey the handle state machine and never lose data silently."""
from .common import *
from .c15 import rd_all, sx

OPS = ['OR', 'OW', 'OA', 'OX', 'close', 'read', 'eof', 'write', 'seek', 'put', 'get']
MODE = {'OR': 'READ', 'OW': 'WRITE', 'OA': 'APPEND', 'OX': 'RANDOM'}


def act(op, f, n=0):
    if op in MODE:
        return openfile(f, MODE[op])
    return {'close': lambda: closefile(f), 'read': lambda: readfile(f, 'l'), 'eof': lambda: expr(('fn', 'EOF', [('str', f)])), 'write': lambda: writefile(f, ('str', 'w%d' % n)),
            'seek': lambda: seek(f, 1 + n % 2), 'put': lambda: putrec(f, 'x'), 'get': lambda: getrec(f, 'x')}[op]()


def start(disk):
    s = Session(disk)
    s.add(Entry(declare('l', 'STRING')))
    s.add(Entry(declare('x', 'STRING')))
    s.add(Entry(assign('x', ('str', 'rec'))))
    return s


INITS = [{}, {'f': ''}, {'f': 'l1\nl2\n'}]


def machine_items(depth):
    def items(rng):
        for i in range(len(INITS)):
            for n in range(1, depth + 1):
                for ops in itertools.product(OPS, repeat=n):
                    yield i, ops
    return items


def machine_make(it, rng):
    i, ops = it
    if i == 2 and 'OX' in ops:
        return None
    disk = dict(INITS[i])
    s = start(disk)
    try:
        for n, o in enumerate(ops):
            s.add(Entry(act(o, 'f', n)))
            if o == 'read':
                s.add(Entry(expr(V('l'))))
            if o == 'get':
                s.add(Entry(expr(V('x'))))
        s2 = None
        s.r.finish()
        t = disk.get('f')
        if isinstance(t, list):
            s2 = start(disk)
            s2.add(Entry(openfile('f', 'RANDOM')))
            for k in range(len(t) + 1):
                s2.add(Entry(seek('f', k + 1)))
                s2.add(Entry(getrec('f', 'x')))
                s2.add(Entry(expr(V('x'))))
            return sessions([s, s2], INITS[i])
    except ref.Unknown:
        return None
    return s.test(INITS[i])


def prog(ops, names, r):
    """file-mode program: the first illegal operation ends it, everything written must be there"""
    b = [declare('l', 'STRING'), declare('x', 'STRING'), assign('x', ('str', 'rec'))]
    for n, (o, f) in enumerate(ops):
        b.append(act(o, f, n))
        if o in ('read', 'get') and r.random() < .5:
            b.append(output(V('l'), V('x')))
    return b


def two_make(seed, rng):
    r = random.Random(seed)
    names = ['f', 'g', 'h.dat']
    files = {f: r.choice(['', 'a\nb\n', 'c']) for f in ('f', 'g') if r.random() < .7}
    s = start(dict(files))
    try:
        st = {}
        for n in range(r.randint(4, 30)):
            f = r.choice(names)
            h = s.r.g.files.get(f)
            m = h.mode if h else None
            if r.random() < .25:
                o = r.choice(OPS)
            elif m is None:
                o = 'OX' if f == 'h.dat' else r.choice(['OR', 'OW', 'OA'])
            elif m == 'READ':
                o = r.choice(['read', 'read', 'eof', 'close'])
            elif m == 'RANDOM':
                o = r.choice(['seek', 'put', 'put', 'get', 'close'])
            else:
                o = r.choice(['write', 'write', 'write', 'close'])
            if o == 'put':
                s.add(Entry(assign('x', ('str', 'v%d' % n))))
            s.add(Entry(act(o, f, n)))
            if o == 'read':
                s.add(Entry(expr(V('l'))))
            if o == 'get':
                s.add(Entry(expr(V('x'))))
        if r.random() < .5:
            s.r.finish()
            ss = [s]
            d = s.disk
            s2 = start(d)
            for f in names:
                if isinstance(d.get(f), list):
                    s2.add(Entry(openfile(f, 'RANDOM')))
                    for k in range(len(d[f]) + 1):
                        s2.add(Entry(seek(f, k + 1)))
                        s2.add(Entry(getrec(f, 'x')))
                        s2.add(Entry(expr(V('x'))))
                elif f in d:
                    s2.add(Entry(openfile(f, 'READ')))
                    s2.add(Entry(if_([(('bool', True), [rd_all(f=f)])])))
            return sessions([s, s2], files)
    except ref.Unknown:
        return None
    return s.test(files)


def exit_make(seed, rng):
    """a program writes and then ends in some way; a later run reads everything back"""
    r = random.Random(seed)
    b = [declare('x', 'STRING')]
    fs = [f for f in ('f', 'g', 'h') if r.random() < .7] or ['f']
    kind = {f: r.choice(['WRITE', 'APPEND', 'RANDOM']) for f in fs}
    for f in fs:
        b.append(openfile(f, 'WRITE'))
        b.append(closefile(f))
        b.append(openfile(f, kind[f]))
    for n in range(r.randint(1, 10)):
        f = r.choice(fs)
        if kind[f] == 'RANDOM':
            b += [assign('x', ('str', 'v%d\n' % n)), putrec(f, 'x')]
            if r.random() < .6:
                b.append(seek(f, 1))
        else:
            b.append(writefile(f, ('str', 'w%d' % n * r.choice([1, 1, 2000]))))
    for f in fs:
        if r.random() < .3:
            b.append(closefile(f))
    end = r.choice(['normal', 'error', 'proc', 'deep', 'while', 'fn', 'budget'])
    if end == 'error':
        b.append(r.choice([output(B('DIV', I(1), I(0))), assign('x', I(5)), output(V('nosuch')), closefile('nosuch'), call('nosuch'), output(('fn', 'LEFT', [('str', 'a'), I(5)]))]))
    elif end == 'proc':
        b = [proc('p', [], b + [output(V('nosuch'))]), call('p')]
    elif end == 'deep':
        b = [proc('q', [('BYVAL', 'n', 'INTEGER')], [if_([(B('=', V('n'), I(0)), [output(B('DIV', I(1), I(0)))])], [call('q', [B('-', V('n'), I(1))])])])] + b + [call('q', [I(r.randint(0, 5))])]
    elif end == 'while':
        b.append(while_(('bool', True), [output(B('DIV', I(1), I(0)))]))
    elif end == 'fn':
        b = [func('fn1', [], 'INTEGER', b + [output(V('nosuch')), ret(I(1))]), output(('fn', 'fn1', []))]
    elif end == 'budget':
        b.append(brk())
    c = [declare('x', 'STRING')]
    for f in fs:
        if kind[f] == 'RANDOM':
            c.append(openfile(f, 'RANDOM'))
            for k in range(1, 4):
                c += [seek(f, 1), getrec(f, 'x'), output(V('x'))]
                break
        else:
            c += [openfile(f, 'READ'), assign('l', ('str', '')), rd_all(f=f)]
    if any(kind[f] == 'RANDOM' for f in fs) and r.random() < .5:
        # a record may be missing: the run ends there
        pass
    return multi([b, c])


# ---- faults of the file system
def expect(src, ops, stdin, verdict, why, args=('p.pseudo',), files=None):
    c = Case(src, files=files, runs=[Run(args=args, stdin=stdin, ops=ops)], dump=True)

    def check(rs, fs):
        r = rs[0]
        if r.crashed():
            return 'crash: ' + r.status(), why
        if r.kind == 2:
            return 'timeout', why
        x = verdict(r, fs)
        return (x, why) if x else None
    return Test(c, check)


BADDIR = 'd/sub'


def fault_items(rng):
    for mode in ('READ', 'WRITE', 'APPEND', 'RANDOM'):
        for place in ('missingdir', 'dir', 'locked', 'lockeddir', 'dangling', 'empty', 'nul', 'slash', 'long', 'throughfile', 'readonly'):
            for repl in (False, True):
                for pre in (False, True):
                    yield mode, place, repl, pre
    for kind in ('full', 'fullmany', 'fullclose', 'fullappend', 'romod', 'romodexit', 'romoderr', 'fullexit'):
        for repl in (False, True):
            yield kind, None, repl, False


PATHS = {'missingdir': 'nodir/x', 'dir': 'd', 'locked': 'l.txt', 'lockeddir': 'ld/x', 'dangling': 'dl', 'empty': '', 'nul': None, 'slash': 'd/', 'long': 'n' * 300, 'throughfile': 'plain/x', 'readonly': 'ro.txt'}


def fault_make(it, rng):
    mode, place, repl, pre = it
    files = {'plain': 'keep\n', 'l.txt': 'locked\n', 'ro.txt': 'INTEGER 1\n'}
    ops = [(1, 'd'), (1, 'ld'), (4, 'ld'), (3, 'dl', 'nodir/target'), (4, 'l.txt'), (5, 'ro.txt')]
    undo = [(7, 'ld')]
    lead = 'OPENFILE "good.txt" FOR WRITE\nWRITEFILE "good.txt", "kept"\n' if pre else ''

    def wrap(body, marker):
        src = body + marker
        return src
    if place:
        p = PATHS[place]
        name = '"%s"' % p if p is not None else '"a" & CHR(0) & "b"'
        body = lead + 'OPENFILE %s FOR %s\n' % (name, mode)
        ok = place == 'readonly' and mode in ('READ', 'RANDOM') or place == 'dangling' and False
        if place == 'slash' and mode in ('READ',):
            pass
        src = body + 'OUTPUT "opened"\n'

        def verdict(r, fs):
            out = r.out.decode('latin1')
            err = r.err.decode('latin1')
            if repl:
                # the failed OPENFILE is reported and the name is not open
                n = err.count('Runtime Error')
                if ok:
                    return None if n == 0 else 'reported an error'
                if n != 2:
                    return 'OPENFILE of a path that cannot be opened: %d errors reported, expected 2 (OPENFILE, CLOSEFILE)' % n
            elif ok:
                return None if r.code == 0 else 'refused'
            elif r.code != 1 or 'Runtime Error' not in err or 'opened' in out:
                return 'OPENFILE of a path that cannot be opened is not reported'
            if pre and fs.get('good.txt') != b'kept\n':
                return 'the other file lost its line'
            for k, v in files.items():
                if fs.get(k) != v.encode() and not (k == 'l.txt' and fs.get(k) is not None):
                    return 'file %r changed to %r' % (k, fs.get(k))
            extra = set(fs) - set(files) - {'p.pseudo', 'd', 'ld', 'dl', 'good.txt'}
            if extra:
                return 'created %r' % extra
            return None
        if repl:
            si = body + 'CLOSEFILE %s\n' % name + 'EXIT\n'
            if ok:
                si = body + 'EXIT\n'
            return expect(None, ops, si, verdict, 'OPENFILE reports what it cannot open', args=(), files=files)
        return expect(src, ops, '', verdict, 'OPENFILE reports what it cannot open', files=files)
    full = {'full': 'OPENFILE "/dev/full" FOR WRITE\nWRITEFILE "/dev/full", "x"\nCLOSEFILE "/dev/full"\nOUTPUT "all done"\n',
            'fullappend': 'OPENFILE "/dev/full" FOR APPEND\nWRITEFILE "/dev/full", "x"\nCLOSEFILE "/dev/full"\nOUTPUT "all done"\n',
            'fullmany': 'OPENFILE "/dev/full" FOR WRITE\nFOR i <- 1 TO 300 ' + '\n    WRITEFILE "/dev/full", "line of some length"\nNEXT\nCLOSEFILE "/dev/full"\nOUTPUT "all done"\n',
            'fullclose': 'OPENFILE "/dev/full" FOR WRITE\nWRITEFILE "/dev/full", 12345\nCLOSEFILE "/dev/full"\nOUTPUT "all done"\n',
            'fullexit': 'OPENFILE "/dev/full" FOR WRITE\nWRITEFILE "/dev/full", TRUE\n',
            'romod': 'x <- 7\nOPENFILE "ro.txt" FOR RANDOM\nPUTRECORD "ro.txt", x\nCLOSEFILE "ro.txt"\nOUTPUT "all done"\n',
            'romodexit': 'x <- 7\nOPENFILE "ro.txt" FOR RANDOM\nPUTRECORD "ro.txt", x\n',
            'romoderr': 'x <- 7\nOPENFILE "ro.txt" FOR RANDOM\nPUTRECORD "ro.txt", x\nOUTPUT 1 DIV 0\n'}[mode]

    def verdict(r, fs):
        err = r.err.decode('latin1')
        if mode == 'romoderr':
            e2 = err.replace('Runtime Error', '', 1)
            return None if 'rror' in e2 else 'a rejected write is silently ignored'
        if 'rror' not in err:
            return 'a rejected write is silently ignored'
        if not repl and r.code != 1:
            return 'a rejected write is reported with exit status %d' % r.code
        if not repl and 'all done' in r.out.decode('latin1'):
            return 'the program goes on after a rejected write'
        return None
    if repl:
        body = full.replace('NEXT\n', 'NEXT\n\n')
        return expect(None, ops, body + 'EXIT\n', verdict, 'rejected writes are reported', args=(), files=files)
    return expect(full, ops, '', verdict, 'rejected writes are reported', files=files)


def after_make(it, rng):
    """illegal statements leave handles and contents as they were: position of a READ handle, cursor of a RANDOM handle, a WRITE handle"""
    kind, bad, repl = it
    s = start({'t.txt': 'l1\nl2\nl3\n', 'o.txt': 'other\n'})
    f = {'READ': 't.txt', 'WRITE': 'w.txt', 'APPEND': 't.txt', 'RANDOM': 'r.dat'}[kind]
    s.add(Entry(openfile(f, kind)))
    if kind == 'READ':
        s.add(Entry(readfile(f, 'l')))
    elif kind == 'RANDOM':
        for k in (1, 2, 3):
            s.add(Entry(assign('x', ('str', 'r%d' % k))))
            s.add(Entry(seek(f, k)))
            s.add(Entry(putrec(f, 'x')))
        s.add(Entry(seek(f, 2)))
    else:
        s.add(Entry(writefile(f, ('str', 'first'))))
    try:
        for x in BAD[bad](f):
            s.add(Entry(x))
    except ref.Unknown:
        return None
    if kind == 'READ':
        s.add(Entry(expr(('fn', 'EOF', [('str', f)]))))
        s.add(Entry(readfile(f, 'l')))
        s.add(Entry(expr(V('l'))))
    elif kind == 'RANDOM':
        s.add(Entry(getrec(f, 'x')))
        s.add(Entry(expr(V('x'))))
        for k in (1, 2, 3, 4):
            s.add(Entry(seek(f, k)))
            s.add(Entry(getrec(f, 'x')))
            s.add(Entry(expr(V('x'))))
    else:
        s.add(Entry(writefile(f, ('str', 'second'))))
    if repl:
        s.add(Entry(closefile(f)))
    return s.test({'t.txt': 'l1\nl2\nl3\n', 'o.txt': 'other\n'})


BAD = [lambda f, o=o: [act(o, f)] for o in OPS if o != 'close'] + [lambda f, o=o: [act(o, 'o.txt')] for o in OPS] + [lambda f, o=o: [act(o, 'missing.txt')] for o in ('OR', 'OA', 'close', 'read', 'eof', 'write', 'seek', 'put', 'get')] + [
    lambda f: [seek(f, 0)], lambda f: [seek(f, 9)], lambda f: [seek(f, ('str', 'a'))], lambda f: [getrec(f, 'nosuch')], lambda f: [putrec(f, 'nosuch')], lambda f: [writefile(f, V('nosuch'))], lambda f: [readfile(f, 'INTEGERVAR')],
    lambda f: [assign('iv', I(5)), readfile(f, 'iv'), expr(V('iv'))], lambda f: [assign('iv', I(5)), getrec(f, 'iv'), expr(V('iv'))], lambda f: [writefile(f, B('DIV', I(1), I(0)))], lambda f: [S('open', f=I(5), mode='READ')], lambda f: [S('close', f=I(5))], lambda f: [S('close', f=('str', ''))],
    lambda f: [openfile(f, m) for m in ('READ', 'WRITE', 'APPEND', 'RANDOM')], lambda f: [const('ct', ('str', 'k')), readfile(f, 'ct'), getrec(f, 'ct'), expr(V('ct'))], lambda f: [declarr('ar', [(1, 2)], 'STRING'), readfile(f, 'ar')]]


def after_items(rng):
    for k in ('READ', 'WRITE', 'APPEND', 'RANDOM'):
        for b in range(len(BAD)):
            for r in (False, True):
                yield k, b, r


def tasks(tier):
    T = Task
    d = 3 if tier == 'quick' else 4
    return [T('state machine', machine_items(d), machine_make, bound='every sequence of up to %d of the statements %s on one name, from a missing / empty / text file' % (d, OPS)),
            T('rejected statements', after_items, after_make, bound='%d rejected statements against every handle mode' % len(BAD)),
            T('file system faults', fault_items, fault_make, bound='unopenable paths x modes, rejected writes, file and REPL'),
            T('end of the run', seeds, exit_make, False, weight=1, bound='random writes, then normal end or error at any depth; read by another run'),
            T('random histories', seeds, two_make, False, weight=2, bound='up to 30 statements on three names')]
