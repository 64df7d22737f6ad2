"""No crash, no memory error: every run ends normally or with a diagnostic.  Everything runs in the sanitizer build."""
from .common import *
from .. import harness
from . import text, c02, c03, c04, c05, c06, c07, c08, c09, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20
from .c10 import SMALL
import itertools, functools

STDIN = b'5\nabc\nTRUE\n1.5\nx\n\n7\n'
DIAG = (b'Syntax Error', b'Runtime Error', b'Error(pedantic)')


def ends(r, repl):
    """what is wrong with the end of a run, if anything"""
    if r.crashed():
        return 'crash: ' + r.status()
    if r.kind == 2:
        return None
    if repl:
        return None if r.code == 0 else 'the session ends with status %d' % r.code
    d = any(x in r.err for x in DIAG)
    if r.code == 0 and d and not r.out:
        return 'exit status 0 with a diagnostic'
    if r.code == 1 and not d and b'rror' not in r.err:
        return 'exit status 1 without a diagnostic'
    return None


def safe(case, n=1):
    def check(rs, fs):
        for i, (r, run) in enumerate(zip(rs, case.runs)):
            x = ends(r, not [a for a in run.args if not a.startswith('-')])
            if x:
                return ('run %d: ' % (i + 1) if len(rs) > 1 else '') + x, 'exit status 0, or a diagnostic and exit status 1\n' + r.err.decode('latin1')[-3000:]
        return None
    return Test(case, check, n)


def prog(src, stdin=STDIN, files=None, args=('p.pseudo',)):
    return safe(Case(src, files=files, runs=[Run(args=args, stdin=stdin)]))


# ---- all short token sequences, entered into sessions
VOC = ['x', 'y', 'p', 'f', 'T', '5', '0', '1.5', '"s"', "'c'", 'TRUE', '1/1/2000', '+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '>=', 'AND', 'OR', 'NOT', '(', ')', '[', ']', ',', ':', '.', '^', '<-', '\n',
       'IF', 'THEN', 'ELSE', 'ENDIF', 'CASE OF', 'OTHERWISE', 'ENDCASE', 'WHILE', 'DO', 'ENDWHILE', 'REPEAT', 'UNTIL', 'FOR', 'TO', 'STEP', 'NEXT', 'PROCEDURE', 'ENDPROCEDURE', 'FUNCTION', 'RETURNS', 'RETURN', 'ENDFUNCTION', 'CALL',
       'BYREF', 'TYPE', 'ENDTYPE', 'DECLARE', 'CONSTANT', 'ARRAY', 'OF', 'INTEGER', 'STRING', 'OUTPUT', 'INPUT', 'OPENFILE', 'READ', 'RANDOM', 'CLOSEFILE', 'READFILE', 'WRITEFILE', 'SEEK', 'GETRECORD', 'PUTRECORD', 'BREAK', 'CONTINUE', 'LENGTH', 'a', 'r']
SETUP = ['DECLARE x : INTEGER', 'x <- 2', 'y <- "abc"', 'TYPE T', 'DECLARE q : INTEGER', 'ENDTYPE', '', 'DECLARE r : T', 'DECLARE a : ARRAY[1:3] OF INTEGER', 'PROCEDURE p(z : INTEGER)', 'OUTPUT z', 'ENDPROCEDURE', '', 'FUNCTION f(z : INTEGER) RETURNS INTEGER', 'RETURN z', 'ENDFUNCTION', '']


def seq_items(k, n, start=0):
    def items(rng):
        for c in chunks(itertools.product(range(len(VOC)), repeat=k), n):
            yield c
    return items


def session(lines, files=None, args=(), n=1):
    return safe(Case(None, files=files, runs=[Run(args=args, stdin='\n'.join(lines + ['EXIT']) + '\n')]), n)


def seq_make(c, rng):
    l = list(SETUP)
    for t in c:
        l.append(' '.join(VOC[i] for i in t))
        l.append('')
    return session(l, n=len(c))


def rseq_make(seed, rng):
    r = random.Random(seed)
    l = list(SETUP)
    k = r.choice([3, 3, 3, 4, 5, 6, 8])
    for _ in range(80):
        l.append(' '.join(r.choice(VOC) for _ in range(k)))
        l.append('')
    return session(l, n=80)


# ---- mutated programs
TOKS = VOC + ['NEXT i', 'ENDFUNCTION', '9223372036854775807', '99999999999999999999', '1e5', '.', '..', '"', "'", '\\', '\x00', '\xff', '@', '//', 'BYVAL', 'DATE', 'REAL', 'CHAR', 'BOOLEAN', 'Red', 'nosuch', '-1', '30/2/2001', '0.0', 'MID', 'EOF', 'APPEND', 'WRITE']


def corpus():
    global _corpus
    if _corpus is None:
        _corpus = [s for n, s in text.corpus()] + [s + '\n' for s in SMALL]
    return _corpus


_corpus = None


def source(r):
    if r.random() < .55:
        g = gen.G(r, err=.1, files=.4, rand_files=.4, ptrs=.6, inputs=.3, size=r.choice([4, 10, 16]))
        return lang.show(g.program())
    return r.choice(corpus())


def mutate_tokens(s, r):
    lines = s.split('\n')
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        if not lines:
            break
        i = r.randrange(len(lines))
        k = r.random()
        if k < .15:
            del lines[i]
        elif k < .25:
            lines.insert(i, r.choice(lines))
        elif k < .32:
            j = r.randrange(len(lines))
            lines[i], lines[j] = lines[j], lines[i]
        elif k < .4:
            lines.insert(i, r.choice(r.choice(corpus()).split('\n')))
        else:
            t = text.tokens(lines[i])
            if not t or not t[0]:
                continue
            x = [b for a, b in t[0]]
            j = r.randrange(len(x))
            m = r.random()
            if m < .3:
                x[j] = r.choice(TOKS)
            elif m < .5:
                x.insert(j, r.choice(TOKS))
            elif m < .7:
                del x[j]
            elif m < .85:
                x[j] = r.choice([b for a, b in (text.tokens(r.choice(lines)) or ([],))[0]] or ['x'])
            else:
                x = x[:j]
            lines[i] = ' '.join(x)
    return '\n'.join(lines)


def mutate_bytes(s, r):
    b = bytearray(s.encode('latin1', 'replace'))
    for _ in range(r.choice([1, 2, 4, 10])):
        i = r.randrange(len(b) + 1)
        k = r.random()
        if k < .3:
            b[i:i + 1] = bytes([r.randrange(256)])
        elif k < .5:
            b[i:i] = bytes([r.choice(b'\'"\\/^.()[]<>-=,:\n\r\t \0\xff0123456789')])
        elif k < .7:
            del b[i:i + r.choice([1, 1, 2, 8])]
        elif k < .8:
            del b[i:]
        else:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[j:j + r.randint(1, 30)]
    return bytes(b)


def datafile(r):
    k = r.random()
    if k < .1:
        return b''
    if k < .3:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 80)))
    if k < .5:
        return '\n'.join(r.choice(['5', 'abc', '', '1.5', 'TRUE', '1/2/2000', 'x' * 50]) for _ in range(r.randint(1, 6))).encode() + r.choice([b'', b'\n'])
    # like the records of a random file
    o = ''
    for _ in range(r.randint(1, 4)):
        for _ in range(r.randint(1, 3)):
            o += r.choice(['#INTEGER', '#STRING', '#REAL', '#CHAR', '#BOOLEAN', '#DATE', '#ENUM', '#ARRAY', '#RECORD', 'INTEGER', '#', '##', '#T', '']) + r.choice(['', ' ', '#'])
            o += r.choice(['5', '-1', '99999999999999999999', 'abc', '3', '0x1p3', 'nan', 'TRUE', '1 2 2000', '4#abcd', '1/1/2000', '-5#a', '999999#x']) + r.choice(['', ' ', '#', '\n'])
        o += r.choice(['\n', ''])
    return o.encode('latin1')


def files(r):
    return {n: datafile(r) for n in ('t.txt', 'r.dat', 'a.txt', 'random.dat', 'rf0.dat', 'f0.txt')}


def stdin(r):
    k = r.random()
    if k < .2:
        return b''
    if k < .4:
        return bytes(r.randrange(256) for _ in range(r.randint(1, 60)))
    return b'\n'.join(r.choice([b'5', b'abc', b'', b'1.5', b'TRUE', b'-', b'99999999999999999999', b'1/2/2000', b'x' * 300, b'\xff\x00']) for _ in range(8)) + b'\n'


def tok_make(seed, rng):
    r = random.Random(seed)
    s = mutate_tokens(source(r), r) if r.random() < .85 else source(r)
    a = r.choice([('p.pseudo',)] * 4 + [('-p', 'p.pseudo')])
    return prog(s.encode('latin1', 'replace'), stdin(r), files(r) if r.random() < .6 else None, a)


def byte_make(seed, rng):
    r = random.Random(seed)
    return prog(mutate_bytes(source(r), r), stdin(r), files(r) if r.random() < .3 else None)


def replmut_make(seed, rng):
    r = random.Random(seed)
    l = []
    for _ in range(3):
        s = mutate_tokens(source(r), r)
        for x in s.split('\n'):
            l.append(x)
            if x.startswith(('ENDIF', 'ENDPROC', 'ENDFUNC', 'ENDTYPE', 'NEXT', 'ENDWHILE', 'UNTIL', 'ENDCASE')):
                l.append('')
    l = [x for x in l if not x.startswith(('EXIT', 'RUNFILE'))]
    src = ('\n'.join(l) + '\n').encode('latin1', 'replace')
    return safe(Case(None, files=files(r), runs=[Run(args=r.choice([(), (), ('-p',)]), stdin=src)]))


# ---- statements with operands of every kind
HOLES = ['OUTPUT %s', 'v <- %s', 'DECLARE v : INTEGER\nv <- %s', 'DECLARE v : Rec\nv <- %s', 'DECLARE v : PI\nv <- %s', 'DECLARE v : Col\nv <- %s', 'v <- -%s', 'v <- NOT %s', 'IF %s THEN\nOUTPUT 1\nENDIF', 'WHILE %s\nBREAK\nENDWHILE', 'REPEAT\nOUTPUT 1\nUNTIL %s', 'FOR i <- %s TO 3\nNEXT', 'FOR i <- 1 TO %s\nNEXT', 'FOR i <- 1 TO 3 STEP %s\nNEXT',
         'CALL okI(%s)', 'CALL okR(%s)', 'CALL okS(%s)', 'CALL okRec(%s)', 'CALL refI(%s)', 'CALL refRec(%s)', 'CALL refP(%s)', 'OUTPUT fI(%s)', 'OUTPUT fRec(%s)', 'OPENFILE %s FOR READ', 'OPENFILE %s FOR RANDOM', 'CLOSEFILE %s', 'READFILE %s, v', 'WRITEFILE %s, 5', 'WRITEFILE "w.txt", %s', 'SEEK "r.dat", %s', 'GETRECORD %s, v', 'PUTRECORD %s, v', 'OUTPUT EOF(%s)', 'arr[%s] <- 1', 'OUTPUT arr[%s]', 'DECLARE b : ARRAY[%s:3] OF INTEGER', 'DECLARE b : ARRAY[1:%s] OF Rec',
         'CASE OF srcINTEGER\n%s : OUTPUT 1\nENDCASE', 'CASE OF srcINTEGER\n%s TO 5 : OUTPUT 1\nENDCASE', 'CASE OF srcSTRING\n1 TO %s : OUTPUT 1\nENDCASE', 'CONSTANT k = %s', 'v <- INTEGER(%s)', 'v <- REAL(%s)', 'v <- STRING(%s)', 'v <- CHAR(%s)', 'v <- BOOLEAN(%s)', 'v <- DATE(%s)', 'v <- LENGTH(%s)', 'v <- LEFT(%s, 1)', 'v <- LEFT("abc", %s)', 'v <- MID("abc", %s, 1)', 'v <- MID("abc", 1, %s)', 'v <- RIGHT(%s, 1)', 'v <- CHR(%s)', 'v <- ASC(%s)', 'v <- DAY(%s)', 'v <- DAYINDEX(%s)', 'v <- SETDATE(%s, 1, 2000)', 'v <- SETDATE(1, %s, 2000)', 'v <- SETDATE(1, 1, %s)', 'v <- IS_NUM(%s)', 'v <- STR_TO_NUM(%s)', 'v <- NUM_TO_STR(%s)', 'v <- RAND(%s)', 'v <- INT(%s)', 'v <- UCASE(%s)', 'v <- TO_UPPER(%s)', 'v <- %s.x', 'v <- %s^', 'v <- %s[1]', 'v <- ^%s', 'srcPI <- ^%s', 'INPUT %s', '%s <- 5', '%s <- srcRec', '%s <- ^srcINTEGER', 'READFILE "t.txt", %s', 'GETRECORD "r.dat", %s', 'PUTRECORD "r.dat", %s', 'RETURN %s', '%s', 'CASE OF %s\n1 : OUTPUT 1\nENDCASE', 'FOR %s <- 1 TO 2\nNEXT', 'CALL %s', 'DECLARE w : %s', 'TYPE W = ^%s\nDECLARE w : W\nw <- ^srcINTEGER', 'TYPE W = (%s)', 'TYPE %s = (Q1)', 'v <- DIV(%s, 2)', 'v <- MOD(7, %s)']
FILL = ['0', '5', '-1', '9223372036854775807', '-9223372036854775807', '-9223372036854775807 - 1', '0.0', '1.5', '-1.5', '1/0', '0.0/0.0', '""', '"s"', '"abcdefgh"', "'c'", 'TRUE', 'FALSE', '1/1/2000', '30/2/2001', 'srcINTEGER', 'srcREAL', 'srcBOOLEAN', 'srcCHAR', 'srcSTRING', 'srcDATE', 'srcCol', 'srcShp', 'srcPI', 'srcPS', 'srcRec', 'srcRec2', 'srcNest', 'Green', 'Col', 'Rec', 'PI', 'arr', 'arr[1]', 'arrR', 'arrR[1]', 'arrR[2].x', 'arrR[1].a', 'arrR[1].a[2]', 'srcNest.r', 'srcNest.c', 'srcNest.r.a', 'srcNest.nof', 'srcPI^', 'unP', 'unP^', 'deadP', 'deadP^', 'deadR', 'deadR^', 'deadR^.x', 'nosuch', 'cc', 'fI(1)', 'fRec(srcRec)', 'fNone()', 'okI(1)', 'okI', 'fI', 'fI(fI(1))', 'DAY(srcDATE)', 'TODAY()', 'srcINTEGER = 3', 'srcRec = srcRec', 'arr = arr', 'srcPI = srcPI', 'srcINTEGER + srcREAL', 'srcCol + 1', 'srcSTRING & 5', '(srcINTEGER)', '"t.txt"', '"r.dat"', '"w.txt"', '"missing.txt"', '"."', '"dir"', '"/dev/null"', 'Program', 'x <- 5', 'INTEGER', 'Red', 'Red + 1', '5 MOD 0', 'LEFT("abc", 2)']


@functools.lru_cache(None)
def world():
    b = WORLD_TYPES()
    for t in KINDS:
        b += value(t)
    b += [declarr('arr', [(1, 2)], 'INTEGER'), declarr('arrR', [(1, 2)], 'Rec'), deftype('PR', ptr='Rec'), const('cc', I(12)), declare('unP', 'PI'), declare('deadP', 'PI'), declare('deadR', 'PR'),
          proc('kill', [], [declare('lc', 'INTEGER'), declare('lr', 'Rec'), ptrassign('deadP', 'lc'), ptrassign('deadR', 'lr')]), call('kill')]
    s = lang.show(b)
    for n, t in (('I', 'INTEGER'), ('R', 'REAL'), ('S', 'STRING'), ('Rec', 'Rec')):
        s += 'PROCEDURE ok%s(q : %s)\nOUTPUT "in"\nENDPROCEDURE\n' % (n, t)
        s += 'FUNCTION f%s(q : %s) RETURNS %s\nRETURN q\nENDFUNCTION\n' % (n, t, t)
    for n, t, a in (('I', 'INTEGER', 'q <- 1'), ('Rec', 'Rec', 'q.x <- 1'), ('P', 'PI', 'q^ <- 4')):
        s += 'PROCEDURE ref%s(BYREF q : %s)\n%s\nENDPROCEDURE\n' % (n, t, a)
    s += 'FUNCTION fNone() RETURNS INTEGER\nOUTPUT "n"\nENDFUNCTION\nOPENFILE "t.txt" FOR READ\nOPENFILE "r.dat" FOR RANDOM\nOPENFILE "w.txt" FOR WRITE\nPUTRECORD "r.dat", srcINTEGER\n'
    return s


def tmpl_items(rng):
    for i in range(len(HOLES)):
        for c in chunks(range(len(FILL)), 12):
            for mode in (0, 1, 2):
                yield i, c, mode


def tmpl_make(it, rng):
    """a template with 12 fillings: globally in one session, in a procedure, or each as a program of its own"""
    i, c, mode = it
    l = world().split('\n')
    # multi-line entries are ended by a blank line
    out = []
    for x in l[:-1]:
        out.append(x)
        if x in ('ENDTYPE', 'ENDPROCEDURE', 'ENDFUNCTION'):
            out.append('')
    for k, f in enumerate(c):
        s = HOLES[i] % FILL[f]
        if mode == 1:
            s = 'PROCEDURE t%d\n%s\nOUTPUT srcINTEGER\nENDPROCEDURE\n\nCALL t%d\n' % (k, s, k)
        elif mode == 2:
            s = 'FUNCTION t%d() RETURNS INTEGER\n%s\nRETURN 1\nENDFUNCTION\n\nOUTPUT t%d()\n' % (k, s, k)
        out += s.split('\n') + ['']
    out += ['OUTPUT srcINTEGER', 'srcRec.x', 'arrR[2].a[1]', 'srcPI^']
    return session(out, files={'t.txt': 'one\ntwo\n', 'dir/x': ''} if False else {'t.txt': 'one\ntwo\n'}, n=len(c))


def pair_items(rng):
    ops = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '<=', '>', '>=', 'AND', 'OR']
    for o in ops:
        for a in range(len(FILL)):
            yield o, a


def pair_make(it, rng):
    o, a = it
    out = []
    for x in world().split('\n')[:-1]:
        out.append(x)
        if x in ('ENDTYPE', 'ENDPROCEDURE', 'ENDFUNCTION'):
            out.append('')
    for f in FILL:
        out.append('OUTPUT %s %s %s' % (FILL[a], o, f))
    return session(out, files={'t.txt': 'one\ntwo\n'}, n=len(FILL))


# ---- nesting
def deep_items(rng):
    for n in (1, 10, 100, 500, 1000):
        for k in range(16):
            yield n, k


def deep_make(it, rng):
    n, k = it
    S_ = ['OUTPUT ' + '(' * n + '1' + ')' * n, 'OUTPUT ' + '-' * n + '1', 'OUTPUT ' + 'NOT ' * n + 'TRUE', 'OUTPUT ' + '1 + ' * n + '1', 'OUTPUT ' + '(' * n, 'x <- ' * n + '1',
          'IF TRUE THEN\n' * n + 'OUTPUT 1\n' + 'ENDIF\n' * n, 'WHILE TRUE\n' * n + 'BREAK\n' + 'ENDWHILE\nBREAK\n' * (n - 1) + 'ENDWHILE', 'FOR i <- 1 TO 1\n' * n + 'OUTPUT 1\n' + 'NEXT\n' * n,
          'FUNCTION f(n : INTEGER) RETURNS INTEGER\nIF n = 0 THEN\nRETURN 0\nENDIF\nRETURN f(n - 1) + 1\nENDFUNCTION\nOUTPUT f(%d)' % n, 'PROCEDURE p(n : INTEGER)\nIF n > 0 THEN\nCALL p(n - 1)\nENDIF\nENDPROCEDURE\nCALL p(%d)' % n,
          'PROCEDURE p(BYREF n : INTEGER)\nIF n > 0 THEN\nn <- n - 1\nCALL p(n)\nENDIF\nENDPROCEDURE\nm <- %d\nCALL p(m)\nOUTPUT m' % n, 'OUTPUT ' + 'ABS(' * n + '1' + ')' * n, 'OUTPUT ' + 'LEFT(' * n + '"a"' + ', 1)' * n, 'OUTPUT ' + '"a" & ' * n + '"b"',
          'TYPE T0\nDECLARE x : INTEGER\nENDTYPE\n' + ''.join('TYPE T%d\nDECLARE x : T%d\nENDTYPE\n' % (i + 1, i) for i in range(min(n, 200))) + 'DECLARE v : T%d\nv <- v\nOUTPUT v%s' % (min(n, 200), '.x' * (min(n, 200) + 1))]
    return prog(S_[k] + '\n')


# ---- data files and input
def data_items(rng):
    return seeds(rng)


TYPES = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'Col', 'Rec', 'Nest', 'PI']


def data_make(seed, rng):
    r = random.Random(seed)
    s = lang.show(WORLD_TYPES())
    t = r.choice(TYPES)
    arr = r.random() < .3
    s += 'DECLARE v : ' + ('ARRAY[1:2] OF ' if arr else '') + t + '\n'
    s += 'OPENFILE "r.dat" FOR RANDOM\n'
    own = None
    f = files(r)
    ops = []
    for _ in range(r.randint(1, 6)):
        s += r.choice(['GETRECORD "r.dat", v\n', 'SEEK "r.dat", %d\n' % r.randint(1, 4), 'PUTRECORD "r.dat", v\n', 'GETRECORD "r.dat", v\n'])
    if not arr and t not in ('PI',):
        s += 'OUTPUT v\n'
    s += 'CLOSEFILE "r.dat"\n'
    s2 = 'OPENFILE "t.txt" FOR READ\nWHILE NOT EOF("t.txt")\nREADFILE "t.txt", l\nOUTPUT LENGTH(l)\nENDWHILE\nCLOSEFILE "t.txt"\n'
    k = r.random()
    if k < .5:
        # a file the interpreter itself wrote, then damaged
        w = lang.show(WORLD_TYPES()) + ''.join(lang.show(value(t)) if not arr else '' for _ in (0,)) + 'DECLARE aa : ARRAY[1:2] OF %s\nOPENFILE "r.dat" FOR RANDOM\nPUTRECORD "r.dat", %s\nSEEK "r.dat", 2\nPUTRECORD "r.dat", %s\nCLOSEFILE "r.dat"\n' % (t, 'aa' if arr else 'src' + t, 'aa' if arr else 'src' + t)
        return damaged(w, s, r)
    return prog(s2 + s if r.random() < .4 else s, stdin(r), f)


def damaged(w, s, r):
    """the second run reads a file the first one wrote, with some bytes overwritten through a text handle of the first program"""
    o = Case(w, files={}, runs=[Run(), Run(ops=[(2, 'p.pseudo', s)])])
    if r.random() < .7:
        # overwrite with a variant of what such a file looks like
        o = Case(w, files={}, runs=[Run(), Run(ops=[(2, 'p.pseudo', s), (2, 'r.dat', datafile(r))])])
    return safe(o, 2)


def input_make(seed, rng):
    r = random.Random(seed)
    s = lang.show(WORLD_TYPES())
    for i in range(4):
        t = r.choice(PRIM + ['Col', 'Rec', 'PI', None])
        n = 'v%d' % i
        if t:
            s += 'DECLARE %s : %s\n' % (n, t)
        s += 'INPUT %s\nOUTPUT %s\n' % (n, n)
    return prog(s, stdin(r))


# ---- the programs of the other properties, in the sanitizer build
OTHERS = (c02, c03, c04, c05, c06, c07, c08, c09, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20)


@functools.lru_cache(None)
def pools(tier):
    out = []
    for m in OTHERS:
        for t in m.tasks(tier):
            if t.items is not seeds:
                its = list(itertools.islice(t.items(random.Random(1)), 20000))
                out.append((t.make, its))
            else:
                out.append((t.make, None))
    return out


def other_make(seed, rng):
    r = random.Random(seed)
    mk, its = r.choice(pools('quick'))
    t = mk(r.choice(its) if its else r.getrandbits(48), r)
    return safe(t.case, t.n) if t else None


def tasks(tier):
    T = Task
    big = tier != 'quick'
    o = [T('token sequences of length 1 and 2', lambda rng: itertools.chain(seq_items(1, 50)(rng), seq_items(2, 150)(rng)), seq_make, kind='asan', bound='every sequence of 1 or 2 tokens of a vocabulary of %d, as an entry' % len(VOC)),
         T('operands of every kind', tmpl_items, tmpl_make, kind='asan', bound='%d statement templates, %d operands' % (len(HOLES), len(FILL))),
         T('pairs of operands', pair_items, pair_make, kind='asan', bound='15 operators, %d x %d operands' % (len(FILL), len(FILL))),
         T('nesting', deep_items, deep_make, kind='asan', bound='nesting and call depth up to 1000')]
    if big:
        o.append(T('token sequences of length 3', seq_items(3, 150), seq_make, kind='asan', bound='every sequence of 3 tokens'))
    o += [T('longer token sequences', seeds, rseq_make, False, 'asan', .6, 'random sequences of 3 to 8 tokens'),
          T('token mutations', seeds, tok_make, False, 'asan', 1.5, 'random and repository programs with tokens and lines changed, arbitrary input and data files'),
          T('byte mutations', seeds, byte_make, False, 'asan', .7, 'random and repository programs with bytes changed'),
          T('mutated sessions', seeds, replmut_make, False, 'asan', 1, 'mutated programs as REPL sessions'),
          T('data files', seeds, data_make, False, 'asan', .7, 'random files and files as written by the interpreter, damaged'),
          T('input', seeds, input_make, False, 'asan', .4, 'INPUT of arbitrary bytes into every type'),
          T('programs of the other properties', seeds, other_make, False, 'asan', 2, 'a sample of the programs of every other check')]
    return o
