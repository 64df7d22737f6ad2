"""Syntax before execution, and positions of diagnostics."""
from .common import *
from .. import harness
from . import text
from .c10 import SMALL, FIX, FILES, mutate
from .c20 import static, WORD
import re

POS = re.compile(r'^(Syntax Error|Error\(pedantic\)) on line (-?\d+), column (-?\d+) of (.*?):?$', re.M)
STDIN = '5\nabc\nTRUE\n1.5\n'

# faults confined to one line; in every context the statement cannot be completed on a later line
BAD = ['OUTPUT', 'x <-', 'OUTPUT (1', 'OUTPUT 1 2', 'x <- 5 y <- 6', '@', "OUTPUT 'abc", 'OUTPUT $', 'DECLARE x INTEGER', 'DECLARE : INTEGER', 'DECLARE x :', 'DECLARE x : ARRAY OF INTEGER',
       'DECLARE x : ARRAY[1] OF INTEGER', 'DECLARE x : ARRAY[1:] OF INTEGER', 'DECLARE x : ARRAY[1:2 OF INTEGER', 'DECLARE x : ARRAY[1:2] INTEGER', 'DECLARE x, : INTEGER', 'CONSTANT = 5', 'CONSTANT x 5', 'CONSTANT x =',
       'OPENFILE "a" FOR', 'OPENFILE "a"', 'OPENFILE "a" FOR FOO', 'READFILE "a"', 'READFILE "a",', 'READFILE "a", 5', 'CLOSEFILE', 'SEEK "a"', 'SEEK "a",', 'x <- 1 +', 'x <- * 2', 'x <- )', 'x[1 <- 2', 'x[] <- 2',
       'x. <- 2', 'INPUT', 'INPUT 5', 'CALL', 'CALL p(', 'CALL p(1,', 'CALL p(1', 'CALL 5', 'RETURN', 'x <- NOT', '5 <- x', 'TYPE T = (', 'TYPE T = (A, )', 'TYPE T = ^', 'TYPE T = (A B)', 'IF THEN',
       'FOR i <- TO 3', 'FOR i <- 1 TO', 'FOR 5 <- 1 TO 3', 'FOR i = 1 TO 3', 'WHILE', 'UNTIL', 'CASE', 'CASE OF', 'CASE x', 'PROCEDURE', 'PROCEDURE p(', 'PROCEDURE p(a INTEGER)', 'PROCEDURE p(BYVAL)', 'FUNCTION',
       'FUNCTION f() RETURNS', 'FUNCTION f(a) RETURNS INTEGER', 'x <- ^', 'OUTPUT 1,', 'OUTPUT , 1', 'TO 3', 'STEP 2', 'x <- 1.2.3', 'OUTPUT 99999999999999999999', 'x <- "a" &', 'OUTPUT f(1', 'OUTPUT f(1,', 'x <- TRUE FALSE',
       'WRITEFILE "a"', 'GETRECORD "a"', 'PUTRECORD "a",', 'x <- "a\\qb"', "x <- ''", "x <- 'ab'", 'OUTPUT #', 'x <- 1 ; y', '{', 'x <- [1]', 'OUTPUT 1.5.', 'x <- 1/2/', 'x <- DIV(1', 'x <- DIV(1,2', 'x <- MOD 1', 'x <- 1 = = 2',
       'x <- 1 AND', 'x <- OR TRUE', 'x <- INTEGER(', 'x <- INTEGER', 'x <- a.5', 'x <- (1))', 'OUTPUT 1 %', 'OUTPUT !TRUE', '~', 'x <- ?', '|', 'x <- `a`', 'x <-  (', '. x <- 1']
TERMS = ['ENDIF', 'ENDWHILE', 'NEXT', 'UNTIL TRUE', 'ENDCASE', 'ENDPROCEDURE', 'ENDFUNCTION', 'ENDTYPE', 'ELSE', 'THEN']

BASE = '''OUTPUT "sent"
OPENFILE "new.txt" FOR WRITE
WRITEFILE "new.txt", "x"
CLOSEFILE "new.txt"
OPENFILE "a.txt" FOR APPEND
WRITEFILE "a.txt", "y"
INPUT q
TYPE E = (Red, Green)
TYPE R
    DECLARE f : INTEGER
ENDTYPE
DECLARE arr : ARRAY[1:3] OF INTEGER
CONSTANT k = 4

PROCEDURE p(a : INTEGER)
    IF a > 1 THEN
        OUTPUT a
    ELSE IF a = 0 THEN
        OUTPUT "zero"
    ELSE
        OUTPUT "one"
    ENDIF
ENDPROCEDURE
FUNCTION f(b : INTEGER) RETURNS INTEGER
    WHILE b < 3 DO
        b <- b + 1
    ENDWHILE
    RETURN b
ENDFUNCTION
FOR i <- 1 TO 3
    REPEAT
        arr[i] <- i
    UNTIL TRUE
NEXT i
c <- 2
CASE OF c
    1 : OUTPUT "1"
    2 : OUTPUT "2"
        OUTPUT "3"
    OTHERWISE : OUTPUT "4"
ENDCASE
CALL p(f(1))
CLOSEFILE "a.txt"'''.split('\n')


def one_diag(res, kinds=('syntax',)):
    err = res.err.decode('latin1')
    x = errs(err)
    return len(x) == 1 and x[0][0] in kinds


def nothing(res, fs, files, src, lines, line=None, kinds=('syntax',)):
    """nothing executed and one diagnostic naming a position of the source (the given line)"""
    exp = 'nothing executes, one Syntax Error%s, exit status 1' % (' on line %d' % line if line else '')
    if res.crashed():
        return 'crash: ' + res.status(), exp
    if res.kind == 2:
        return 'timeout', exp
    if res.code != 1:
        return 'exit status %d' % res.code, exp
    if res.out != b'\n':
        return 'output although the source has a syntax error: %r' % res.out, exp
    for k, v in fs.items():
        if k == 'p.pseudo':
            continue
        if k not in files:
            return 'file %r created although the source has a syntax error' % k, exp
        if files[k].encode('latin1') != v:
            return 'file %r changed although the source has a syntax error' % k, exp
    if not one_diag(res, kinds):
        return 'not exactly one Syntax Error diagnostic', exp
    m = POS.search(res.err.decode('latin1'))
    if not m:
        return 'the diagnostic names no position', exp
    l, c = int(m.group(2)), int(m.group(3))
    if m.group(4) != 'p.pseudo':
        return 'the diagnostic names file %r' % m.group(4), exp
    if not 1 <= l <= len(lines) + 1:
        return 'the diagnostic names line %d of a source of %d lines' % (l, len(lines)), exp
    if line is not None and l != line:
        return 'the diagnostic names line %d, the fault is on line %d' % (l, line), exp
    w = len(lines[l - 1]) if l <= len(lines) else 0
    if not 1 <= c <= w + 1:
        return 'the diagnostic names column %d of line %d, which has %d characters' % (c, l, w), exp
    return None


def bad_test(lines, line=None, files=FIX, args=('p.pseudo',), kinds=('syntax',), crlf=False):
    src = ('\r\n' if crlf else '\n').join(lines) + '\n'
    c = Case(src, files=files, runs=[Run(args=args, stdin=STDIN)], dump=True)
    return Test(c, lambda rs, fs: nothing(rs[0], fs, files, src, lines, line, kinds))


def insert_items(rng):
    for p in range(len(BASE) + 1):
        for b in range(len(BAD)):
            yield p, b


def case_body(p):
    i = BASE.index('CASE OF c')
    j = BASE.index('ENDCASE')
    return i < p <= j


def insert_make(it, rng):
    p, b = it
    s = BAD[b]
    l = list(BASE)
    ind = rng.choice(['', '    ', '\t'])
    l.insert(p, ind + s + rng.choice(['', '', '  // c', ' ']))
    inrec = l[p - 1].startswith('TYPE R') or l[p - 1].startswith('    DECLARE f') if p else False
    exact = p + 1
    # a bare keyword may end a block of the surrounding construct: the fault is then not confined to this line
    if s.startswith(('UNTIL', 'STEP', 'TO', 'CASE', 'WHILE')) and case_body(p):
        exact = None
    if s == 'UNTIL' or s == 'RETURN' and case_body(p):
        exact = exact
    return bad_test(l, exact, crlf=rng.random() < .1)


def term_items(rng):
    for i, l in enumerate(BASE):
        w = l.split()
        if w and (w[0] in ('ENDIF', 'ENDWHILE', 'NEXT', 'UNTIL', 'ENDCASE', 'ENDPROCEDURE', 'ENDFUNCTION', 'ENDTYPE')):
            yield 'del', i, 0
    for i in range(len(BASE) + 1):
        for t in range(len(TERMS)):
            yield 'ins', i, t


def term_make(it, rng):
    k, i, t = it
    l = list(BASE)
    if k == 'del':
        del l[i]
        return bad_test(l)
    # inserted terminators always unbalance the blocks
    l.insert(i, TERMS[t])
    top = depth_at(i) == 0
    if TERMS[t] == 'ELSE' and 16 <= i + 1 <= 20:
        return None
    return bad_test(l, i + 1 if top else None)


def depth_at(i):
    d = 0
    for l in BASE[:i]:
        w = (l.split() or [''])[0]
        if w in ('IF', 'WHILE', 'FOR', 'REPEAT', 'CASE', 'PROCEDURE', 'FUNCTION') or l == 'TYPE R':
            d += 1
        elif w in ('ENDIF', 'ENDWHILE', 'NEXT', 'UNTIL', 'ENDCASE', 'ENDPROCEDURE', 'ENDFUNCTION', 'ENDTYPE'):
            d -= 1
    return d


def first_items(rng):
    """the sentinel program of one line before each bad line, and each bad line at the very end"""
    for b in range(len(BAD)):
        for k in range(3):
            yield b, k
    for s in range(len(SMALL)):
        for b in range(0, len(BAD)):
            yield b, 3 + s


def first_make(it, rng):
    b, k = it
    s = BAD[b]
    if k == 0:
        return bad_test([s], 1)
    if k == 1:
        return bad_test(['OUTPUT 1', '', '// c', s], 4)
    if k == 2:
        return bad_test(['', s, '', 'OUTPUT 2', ''], 2)
    l = SMALL[k - 3].split('\n')
    if any(x.startswith(('CASE', 'TYPE', 'OUTPUT')) for x in l) and len(l) == 1 and l[0] == 'OUTPUT':
        return None
    return bad_test([s] + l, 1)


def must_be_one(lines, files):
    """if the run reports a Syntax Error then nothing executed"""
    src = '\n'.join(lines) + '\n'
    c = Case(src, files=files, runs=[Run(stdin=STDIN)], dump=True)

    def check(rs, fs):
        r = rs[0]
        if r.crashed():
            return 'crash: ' + r.status(), ''
        if b'Syntax Error' in r.err and b'Syntax Error' not in src.encode('latin1'):
            return nothing(r, fs, files, src, lines)
        return None
    return Test(c, check)


HEAD = ['OUTPUT "sent"', 'OPENFILE "new.txt" FOR WRITE', 'WRITEFILE "new.txt", "x"', 'OPENFILE "a.txt" FOR APPEND', 'WRITEFILE "a.txt", 1', 'INPUT qqq']


def mut_make(seed, rng):
    r = random.Random(seed)
    if r.random() < .6:
        g = gen.G(r, err=0, files=.3, size=8, ptrs=.2)
        lines = lang.show(g.program()).split('\n')[:-1]
    else:
        lines = r.choice(SMALL).split('\n')
    if not lines:
        return None
    return must_be_one(HEAD + mutate(lines, r), FIX)


def corpus_items(rng):
    for i, (n, s) in enumerate(text.corpus()):
        for l in range(s.count('\n') + 1):
            for k in range(3):
                yield i, l, k


def corpus_make(it, rng):
    i, l, k = it
    lines = text.corpus()[i][1].split('\n')
    if lines[-1] == '':
        lines.pop()
    if l >= len(lines):
        return None
    lines.insert(l, BAD[rng.randrange(len(BAD))])
    return bad_test(lines)


# ---- runtime errors
def faults():
    """(setup, failing statement)"""
    R = lambda: V('nosuch')
    o = []
    A = lambda s, *pre: o.append((list(pre), s))
    A(output(R()))
    A(assign('u1', R()))
    A(expr(R()))
    A(output(B('DIV', I(1), I(0))))
    A(output(B('/', I(1), I(0))))
    A(output(('dm', 'MOD', I(1), I(0))))
    A(output(B('+', I(1), ('bool', True))))
    A(output(B('AND', I(1), ('bool', True))))
    A(output(('not', I(1))))
    A(output(('neg', ('str', 'a'))))
    A(assign('ti', ('str', 'ab')), declare('ti', 'INTEGER'))
    A(assign('ti', ('real', '1.5')), declare('ti', 'INTEGER'))
    A(declare('ti', 'INTEGER'), declare('ti', 'INTEGER'))
    A(declare('zz', 'NoType'))
    A(declarr('zz', [(3, 1)], 'INTEGER'))
    A(declarr('zz', [(I(1), ('str', 'a'))], 'INTEGER'))
    A(const('kk', I(1)), const('kk', I(2)))
    A(assign('kk', I(1)), const('kk', I(2)))
    A(output(('var', ('idx', ('id', 'ar'), [I(9)]))), declarr('ar', [(1, 2)], 'INTEGER'))
    A(assign(('idx', ('id', 'ar'), [I(0)]), I(1)), declarr('ar', [(1, 2)], 'INTEGER'))
    A(output(('var', ('idx', ('id', 'ar'), [('bool', True)]))), declarr('ar', [(1, 2)], 'INTEGER'))
    A(output(('var', ('idx', ('id', 'ar'), [I(1), I(1)]))), declarr('ar', [(1, 2)], 'INTEGER'))
    A(assign(('idx', ('id', 'ar'), [I(1)]), ('str', 'zz')), declarr('ar', [(1, 2)], 'INTEGER'))
    A(output(('var', ('fld', ('id', 'rr'), 'nof'))), declare('rr', 'RT'))
    A(assign(('fld', ('id', 'rr'), 'x'), ('str', 'q')), declare('rr', 'RT'))
    A(output(('var', ('fld', ('id', 'ti'), 'x'))), declare('ti', 'INTEGER'))
    A(output(('var', ('deref', ('id', 'pp')))), declare('pp', 'PT'))
    A(assign(('deref', ('id', 'pp')), I(2)), declare('pp', 'PT'))
    A(ptrassign('pp', 'ts'), declare('pp', 'PT'), declare('ts', 'STRING'))
    A(call('noproc'))
    A(call('okproc', [I(1)]))
    A(call('oneproc', [('str', 'a')]))
    A(call('refproc', [I(1)]))
    A(output(('fn', 'nofn', [])))
    A(output(('fn', 'onefn', [('str', 'a')])))
    A(output(('fn', 'noret', [])))
    A(output(('fn', 'badret', [])))
    A(output(('fn', 'LEFT', [('str', 'ab'), I(5)])))
    A(output(('fn', 'MID', [('str', 'ab'), I(0), I(1)])))
    A(output(('date', 30, 2, 2020)))
    A(output(('fn', 'SETDATE', [I(31), I(4), I(2020)])))
    A(output(('cast', 'INTEGER', ('date', 1, 1, 2000))))
    A(if_([(I(1), [outs('a')])]))
    A(while_(I(1), [outs('a')]))
    A(repeat([outs('r')], I(1)))
    A(for_('fi', ('str', 'a'), I(3), [outs('a')]))
    A(for_('fi', I(1), I(3), [outs('a')], step=I(0)))
    A(case('ts', [('eq', ('bool', True), [outs('a')])]), declare('ts', 'STRING'))
    A(openfile('nofile.txt', 'READ'))
    A(closefile('nofile.txt'))
    A(readfile('nofile.txt', 'ln'))
    A(writefile('nofile.txt', I(1)))
    A(seek('nofile.txt', 1))
    A(getrec('nofile.txt', 'ln'))
    A(putrec('nofile.txt', 'ti'), declare('ti', 'INTEGER'))
    A(output(('fn', 'EOF', [('str', 'nofile.txt')])))
    A(assign('ec', V('Blue')), declare('ec', 'ET'))
    A(deftype('ET', enum=['Q1', 'Q2']))
    A(brk())
    A(cont())
    A(input_('ti'), const('ti', I(3)))
    return o


PRE = lambda: [deftype('RT', rec=[declare('x', 'INTEGER')]), deftype('PT', ptr='INTEGER'), deftype('ET', enum=['Red', 'Grn']), deftype('FT', enum=['Blue', 'Pink']),
               proc('okproc', [], [outs('ok')]), proc('oneproc', [(None, 'a', 'INTEGER')], [outs('one')]), proc('refproc', [('BYREF', 'a', 'INTEGER')], [outs('ref')]),
               func('onefn', [(None, 'a', 'INTEGER')], 'INTEGER', [ret(I(1))]), func('noret', [], 'INTEGER', [outs('nr')]), func('badret', [], 'INTEGER', [ret(('str', 'ab'))])]
WRAP = ['plain', 'if', 'elif', 'else', 'while', 'for', 'repeat', 'case', 'nest']


def wrap(k, b):
    T = ('bool', True)
    if k == 'plain':
        return b
    if k == 'if':
        return [if_([(T, b)])]
    if k == 'elif':
        return [if_([(('bool', False), [outs('n')]), (T, b)])]
    if k == 'else':
        return [if_([(('bool', False), [outs('n')])], b)]
    if k == 'while':
        return [while_(T, b)]
    if k == 'for':
        return [for_('wi', I(1), I(2), b)]
    if k == 'repeat':
        return [repeat(b, ('bool', False))]
    if k == 'case':
        return [assign('wc', I(2)), case('wc', [('eq', I(1), [outs('n')]), ('eq', I(2), b)])]
    return [if_([(T, [for_('wi', I(1), I(2), [outs('w')] + b)])])]


def nested(fault, depth, wraps, style):
    """the fault at the given call depth; style: bits choosing procedure or function for every level"""
    pre, s = fault
    b = PRE()
    body = list(pre) + [outs('before')] + wrap(wraps[0], [s]) + [outs('after')]
    for d in range(depth):
        n = 'lev%d' % d
        w = wraps[(d + 1) % len(wraps)]
        if style >> d & 1:
            b.append(func(n, [(None, 'z', 'INTEGER')], 'INTEGER', body + [ret(I(1))]))
            inner = output(B('+', ('fn', n, [I(d)]), I(1))) if style >> (d + 4) & 1 else assign('rv', ('fn', n, [I(d)]))
        else:
            b.append(proc(n, [(None, 'z', 'INTEGER')], body))
            inner = call(n, [I(d)])
        body = [outs('lv')] + wrap(w, [inner]) + [outs('no')]
    return b + body


def columns(t):
    """adds the check that columns of the traceback lie in the named lines"""
    lines = t.case.files['p.pseudo'].decode('latin1').split('\n')
    old = t.check

    def check(rs, fs):
        r = old(rs, fs)
        if r:
            return r
        fr = frames_of_text(rs[0].err.decode('latin1'))
        for n, l, c in fr or ():
            if (l, c) == (0, 0):
                continue
            if not 1 <= l <= len(lines) or not 1 <= c <= len(lines[l - 1]) + 1:
                return 'the traceback names line %d column %d, not a position of the source' % (l, c), ''
        return None
    t.check = check
    return t


frames_of_text = harness.frames_of


def rt_items(rng):
    n = len(faults())
    for i in range(n):
        for w in range(len(WRAP)):
            yield i, 0, w, 0
        for d in range(1, 5):
            for k in range(6):
                yield i, d, k, rng.getrandbits(8)


def rt_make(it, rng):
    i, d, w, style = it
    f = faults()[i]
    ws = [WRAP[w]] if d == 0 else [rng.choice(WRAP) for _ in range(d + 1)]
    t = test(nested(f, d, ws, style), stdin='', files={}, disk={})
    return columns(t) if t else None


def rec_items(rng):
    for i in range(len(faults())):
        for n in (1, 2, 5, 17):
            for fn in (0, 1):
                yield i, n, fn


def rec_make(it, rng):
    """faults at the bottom of a recursion: one frame per active call"""
    i, n, fn = it
    pre, s = faults()[i]
    deep = list(pre) + [s]
    if fn:
        p = func('rec', [(None, 'n', 'INTEGER')], 'INTEGER', [if_([(B('>', V('n'), I(0)), [assign('t', ('fn', 'rec', [B('-', V('n'), I(1))]))])], deep), ret(I(1))])
        b = PRE() + [p, output(('fn', 'rec', [I(n)]))]
    else:
        p = proc('rec', [(None, 'n', 'INTEGER')], [if_([(B('>', V('n'), I(0)), [outs('d'), call('rec', [B('-', V('n'), I(1))])])], deep)])
        b = PRE() + [p, call('rec', [I(n)])]
    t = test(b, files={}, disk={})
    return columns(t) if t else None


def rrand_make(seed, rng):
    r = random.Random(seed)
    g = gen.G(r, err=.15, size=14, procs=3, funcs=3, files=.2, ptrs=.2)
    t = test(g.program(), pedantic=False)
    return columns(t) if t else None


# ---- pedantic rejections name the line
def ped_items(rng):
    for p in range(7):
        for k in range(6):
            yield p, k


PBASE = ['OUTPUT "a"', 'DECLARE v : INTEGER', 'DECLARE b : BOOLEAN', 'FOR i <- 1 TO 2', '    v <- i', 'NEXT i', 'OUTPUT v']


def ped_make(it, rng):
    p, k = it
    l = list(PBASE)
    if k in (0, 1):
        l[p:p] = ['IF TRUE THEN', ('BREAK', 'CONTINUE')[k], 'ENDIF']
        return bad_test(l, p + 2, args=('-p', 'p.pseudo'), kinds=('pedantic',))
    if k == 2:
        l[p:p] = ['IF TRUE THEN', 'OUTPUT 1', 'ELSE IF FALSE THEN', 'OUTPUT 2', 'ENDIF']
        return bad_test(l, p + 3, args=('-p', 'p.pseudo'), kinds=('pedantic',))
    if k == 3:
        l[p:p] = ['OUTPUT INTEGER("5")']
        return bad_test(l, p + 1, args=('-p', 'p.pseudo'), kinds=('pedantic',))
    if p in (4, 5):
        return None
    l[p:p] = [('und <- 5', 'INPUT und')[k - 4]]
    src = '\n'.join(l) + '\n'
    c = Case(src, runs=[Run(args=('--pedantic', 'p.pseudo'), stdin=STDIN)])

    def check(rs, fs):
        m = POS.search(rs[0].err.decode('latin1'))
        if rs[0].code != 1 or not m or m.group(1) != 'Error(pedantic)':
            return 'no pedantic error', ''
        if int(m.group(2)) != p + 1 or not 1 <= int(m.group(3)) <= len(l[p]) + 1:
            return 'the pedantic error names line %s column %s, the construct is on line %d' % (m.group(2), m.group(3), p + 1), ''
        return None
    return Test(c, check)


# ---- entries of the REPL
def repl_items(rng):
    for b in range(len(BAD)):
        yield b


def repl_make(b, rng):
    s = BAD[b]
    multi = s.split()[0] in ('IF', 'CASE', 'WHILE', 'REPEAT', 'FOR', 'PROCEDURE', 'FUNCTION') or s.startswith('TYPE') and '=' not in s
    lines = [s] + ([''] if multi else [])
    stdin = '\n'.join(['sentinel <- 7'] + lines + ['OUTPUT sentinel + 1', 'EXIT']) + '\n'
    c = Case(None, runs=[Run(args=(), stdin=stdin)])

    def check(rs, fs):
        r = rs[0]
        err = r.err.decode('latin1')
        if r.crashed() or r.code != 0:
            return 'session ends with ' + r.status(), ''
        if b'8' not in r.out:
            return 'the session is disturbed', ''
        x = errs(err)
        m = POS.search(err)
        if len(x) != 1 or x[0][0] != 'syntax' or not m:
            return 'not exactly one Syntax Error', ''
        if int(m.group(2)) != 1 or not 1 <= int(m.group(3)) <= len(s) + 1:
            return 'the diagnostic of an entry of one line names line %s column %s' % (m.group(2), m.group(3)), ''
        return None
    return Test(c, check)


def tasks(tier):
    T = Task
    return [T('one faulty line', insert_items, insert_make, bound='%d one-line faults at every line of a program with every construct' % len(BAD)),
            T('small programs after a faulty line', first_items, first_make, bound='%d one-line faults before %d small programs' % (len(BAD), len(SMALL))),
            T('block terminators', term_items, term_make, bound='every terminator deleted, %d terminators inserted at every line' % len(TERMS)),
            T('faults in the repository programs', corpus_items, corpus_make, bound='a faulty line at every line of every test and example program'),
            T('runtime faults', rt_items, rt_make, bound='%d runtime faults, %d surroundings, call depth 0 to 4' % (len(faults()), len(WRAP))),
            T('runtime faults in recursion', rec_items, rec_make, bound='depth 1, 2, 5, 17'),
            T('pedantic positions', ped_items, ped_make, bound='every construct at every line'),
            T('entries', repl_items, repl_make, bound='%d faulty entries' % len(BAD)),
            T('mutated programs', seeds, mut_make, False, weight=1, bound='random programs with one token deleted, doubled, exchanged or replaced'),
            T('random programs with errors', seeds, rrand_make, False, weight=1, bound='random programs, traceback compared with the reference')]
