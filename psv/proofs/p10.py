"""From the text of a program to its tokens: blanks, comments and line endings yield none, and nothing else decides what the
tokens are (C10); where each of them is (C11); BREAK and CONTINUE under --pedantic (C20).

A source is a string S of length N.  LINE(i), COL(i): the place of position i, defined by
LINE(0) = 1, COL(0) = 1;  LINE(i+1) = LINE(i) + (S[i] = LF);  COL(i+1) = 1 after LF, else COL(i) + 1;
position N has the column of the character before it (0 after LF)."""
from .base import *
from .base import _Cur
from .p03 import Auto
from .p05 import str_obj
from .p07 import drop
from .. import vec

LX = 'Lexer'
LINE = z3.Function('LINE', z3.BitVecSort(64), z3.BitVecSort(32))
COL = z3.Function('COL', z3.BitVecSort(64), z3.BitVecSort(32))
B64 = lambda x: x if isz(x) else z3.BitVecVal(x, 64)
B32 = lambda x: x if isz(x) else z3.BitVecVal(x, 32)
B8 = lambda x: x if isz(x) else z3.BitVecVal(x, 8)
rng = lambda c, a, b: z3.And(z3.UGE(c, ord(a)), z3.ULE(c, ord(b)))
digit = lambda c: rng(c, '0', '9')
letter = lambda c: z3.Or(rng(c, 'a', 'z'), rng(c, 'A', 'Z'))
wordchar = lambda c: z3.Or(letter(c), digit(c), c == ord('_'))

KEYWORDS = dict(DIV='DIV', MOD='MOD', AND='AND', OR='OR', NOT='NOT', TRUE='TRUE', FALSE='FALSE', DECLARE='DECLARE', CONSTANT='CONSTANT',
                INTEGER='DATA_TYPE', REAL='DATA_TYPE', BOOLEAN='DATA_TYPE', CHAR='DATA_TYPE', STRING='DATA_TYPE', DATE='DATA_TYPE',
                ARRAY='ARRAY', TYPE='TYPE', ENDTYPE='ENDTYPE', IF='IF', THEN='THEN', ELSE='ELSE', ENDIF='ENDIF',
                CASE='CASE', OF='OF', OTHERWISE='OTHERWISE', ENDCASE='ENDCASE', WHILE='WHILE', DO='DO', ENDWHILE='ENDWHILE',
                REPEAT='REPEAT', UNTIL='UNTIL', FOR='FOR', TO='TO', STEP='STEP', NEXT='NEXT', BREAK='BREAK', CONTINUE='CONTINUE',
                PROCEDURE='PROCEDURE', BYREF='BYREF', BYVAL='BYVAL', ENDPROCEDURE='ENDPROCEDURE', CALL='CALL',
                FUNCTION='FUNCTION', ENDFUNCTION='ENDFUNCTION', RETURNS='RETURNS', RETURN='RETURN', OUTPUT='OUTPUT', PRINT='OUTPUT', INPUT='INPUT',
                OPENFILE='OPENFILE', READFILE='READFILE', WRITEFILE='WRITEFILE', CLOSEFILE='CLOSEFILE', READ='READ', WRITE='WRITE',
                APPEND='APPEND', RANDOM='RANDOM', SEEK='SEEK', GETRECORD='GETRECORD', PUTRECORD='PUTRECORD')
IO_WORDS = ('INPUT', 'OUTPUT', 'OPENFILE', 'READFILE', 'WRITEFILE', 'CLOSEFILE')


def string_at(c, st, s):
    p = str_obj(st, 'text')
    lib.puts(c.e, st, p, s)
    return p


# ---------------------------------------------------------------- the lexer at a position of its source
def lexer_state(c, started=True):
    """a lexer whose position is i0 (inside the source)"""
    st = c.state()
    w = c.w
    lx = w.new(st, LX)
    S = lib.opaque(st, name='source')
    N = S.length()
    st.pc.append(z3.ULT(N, 1 << 30))
    i0 = bv('i0')
    n0 = bv('ntokens')
    st.pc.append(z3.ULT(n0, 1 << 40))
    w.poke(st, lx, 'expr', string_at(c, st, S))
    st.w(lx.obj).meta['len:tokens'] = n0
    off = lambda m: w.L.off(LX, m)
    st.ghost['norel'] = [('mem', lx.obj, off(m), n) for m, n in (('idx', 8), ('line', 4), ('column', 4), ('currentChar', 1))] + [('spec', m) for m in ('dots', 'dot', 'm', 'half', 'end', 'kv', 'pos', 'com')]
    st.ghost.update(lexer=lx, S=S, N=N, i0=i0, n0=n0, K=bv('anywhere'), node=lx)
    if started:
        st.pc.append(z3.ULT(i0, N))
        w.poke(st, lx, 'idx', i0)
        w.poke(st, lx, 'line', LINE(i0))
        w.poke(st, lx, 'column', COL(i0))
        w.poke(st, lx, 'currentChar', S.char(i0))
    return st, lx


def toks(c, lx):
    return c.e.gep_off(lx, c.w.L.off(LX, 'tokens'))


def place_law(S, N, i):
    """the place of the position after i, for i inside the source"""
    nl = S.char(i) == 10
    col0 = z3.If(nl, z3.BitVecVal(0, 32), COL(i))
    return z3.And(LINE(i + 1) == LINE(i) + z3.If(nl, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)),
                  COL(i + 1) == z3.If(z3.ULT(i + 1, N), col0 + 1, col0))


def place_bound(i):
    """places are within the source (by induction over the definition of LINE and COL: target Places)"""
    k = z3.Extract(31, 0, i)
    return z3.And(LINE(i) >= 1, LINE(i) <= k + 1, COL(i) >= 0, COL(i) <= k + 1)


@target('C10 C11', None)
class Places:
    """LINE and COL of every position are within the source"""
    def setup(self, c):
        i, n = bv('i'), bv('n')
        S = lib.opaque(None, name='source')
        z = z3.BitVecVal(0, 64)
        c.lemma('the first position', place_bound(z), [LINE(z) == 1, COL(z) == z3.If(n == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32))])
        c.lemma('the next position', place_bound(i + 1), [z3.ULT(i, n), z3.ULT(n, 1 << 30), place_bound(i), place_law(S, n, i)])
        yield


def lexer_contracts(c, keep=()):
    e, w, H = c.e, c.w, c.handler

    def advance(e, st, a, ins):
        g = st.ghost
        S, N = g['S'], g['N']
        lx = a[0]
        i = B64(w.peek(st, lx, 'idx', LX))
        e.mark(st, lx)
        inside = e.decide(st, z3.ULT(i, N))
        e.event(st, 'advance', i=i, inside=inside)
        w.poke(st, lx, 'idx', z3.simplify(i + 1))
        if inside:
            st.pc += [place_law(S, N, i), place_bound(i), place_bound(z3.simplify(i + 1))]
            w.poke(st, lx, 'line', LINE(z3.simplify(i + 1)))
            w.poke(st, lx, 'column', COL(z3.simplify(i + 1)))
            if e.decide(st, z3.ULT(i + 1, N)):
                w.poke(st, lx, 'currentChar', S.char(z3.simplify(i + 1)))
        else:
            w.poke(st, lx, 'line', bv('beyond', 32))
            w.poke(st, lx, 'column', bv('beyond', 32))
        return None
    if 'advance' not in keep:
        H(r'^Lexer::advance\(\)', advance)

    def peek(e, st, a, ins):
        """the character n after the current one, NUL beyond the end"""
        g = st.ghost
        i = B64(w.peek(st, a[0], 'idx', LX)) + B64(a[1])
        i = z3.simplify(i)
        e.event(st, 'peek', i=i)
        return z3.simplify(z3.If(z3.ULT(i, g['N']), g['S'].char(i), z3.BitVecVal(0, 8)))
    if 'peek' not in keep:
        H(r'^Lexer::getNextChar\(', peek)
    drop(c, 'Token::Token')
    for nm, f in (('isalpha', letter), ('isalnum', lambda x: z3.Or(letter(x), digit(x)))):
        def ct(e, st, a, ins, f=f):
            """the "C" locale; the argument is EOF or fits a char"""
            x = B32(a[0])
            return z3.simplify(z3.If(z3.And(z3.Extract(31, 8, x) == 0, f(z3.Extract(7, 0, x))), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        e.handlers['@' + nm] = ct
    e.candidate_hooks.append(positions)

    def back(e, st, a, ins):
        b, n = vec.vector_at(e, st, a[0])
        e.safety(st, 'back() of a vector that has an element', n != 0 if b is not None else False)
        return Ptr(b.obj, norm(z3.simplify((n - 1) * st.mem[b.obj].meta['esize']), ('i', 64)))
    H(r'^std::vector<std::unique_ptr<Token, .*>::back\(\)', back)


def positions(e, loop, A):
    """candidate invariants: where the lexer is, and what it has passed"""
    st = loop.entry
    g = st.ghost
    if 'lexer' not in g:
        return []
    lx = g['lexer'].obj
    off = lambda m: e.c.w.L.off(LX, m)
    loc = {m: ('mem', lx, off(m), n) for m, n in (('idx', 8), ('line', 4), ('column', 4), ('currentChar', 1))}
    S, N, i0, K = g['S'], g['N'], g['i0'], g['K']
    out = []
    if loc['idx'] not in loop.W:
        return []
    I = lambda get: B64(get(loc['idx']))
    add = lambda n, f: out.append(('lexer: ' + n, f))
    add('inside', lambda get: z3.ULE(I(get), N))
    add('near', lambda get: z3.ULE(I(get), N + 1))
    add('from', lambda get: z3.UGE(I(get), i0))
    e0 = B64(loop.read(loop.entry, loc['idx']))
    add('onward', lambda get: z3.UGE(I(get), e0))
    add('after', lambda get: z3.UGT(I(get), i0))
    if loc['line'] in loop.W:
        add('line', lambda get: z3.Implies(z3.ULE(I(get), N), B32(get(loc['line'])) == LINE(I(get))))
        if g.get('sameline'):
            add('same line', lambda get: LINE(I(get)) == LINE(i0))
        add('col', lambda get: z3.Implies(z3.ULE(I(get), N), B32(get(loc['column'])) == COL(I(get))))
    if loc['currentChar'] in loop.W:
        add('char', lambda get: z3.Implies(z3.ULT(I(get), N), B8(get(loc['currentChar'])) == S.char(I(get))))
    for nm, f in g.get('scans', ()):
        add(nm, lambda get, f=f: f(e, loop, get, I(get)))
    for l in loop.W:
        if l[0] == 'spec' and l[1] == 'pos':
            add('position', lambda get, l=l: B64(get(l)) == I(get))
    for nm, f in g.get('specscans', ()):
        add(nm, lambda get, f=f: f(e, loop, lambda l: get(l), I(get)))
    return out


def made(c, st):
    """the tokens the call leaves, in order: [(position in the vector, token)]"""
    stack = []
    for k, d in c.events(st):
        if k == 'push' and d['vec'].obj == st.ghost['lexer'].obj:
            stack.append((d['idx'], d['elem'][0]))
        elif k == 'pop' and d['vec'].obj == st.ghost['lexer'].obj:
            if not stack:
                c.ok(st, 'tokens of other calls stay', False)
                return []
            stack.pop()
    return stack


def one_token(c, st):
    """the token of the call"""
    m = made(c, st)
    c.ok(st, 'one token is added', len(m) == 1)
    if len(m) != 1:
        return None
    b, n = vec.vector_at(c.e, st, toks(c, st.ghost['lexer']))
    c.ok(st, 'at the end of the tokens', z3.And(B64(m[0][0]) == st.ghost['n0'], B64(n) == st.ghost['n0'] + 1))
    return m[0][1]


def T(c, st, p, m):
    return c.w.peek(st, p, m, 'Token')


def is_type(c, st, p, name):
    return B32(T(c, st, p, 'type')) == c.K['TokenType::' + name]


def at_place(c, st, p, i, what='the token is at its first character'):
    c.ok(st, what, z3.And(B32(T(c, st, p, 'line')) == LINE(i), B32(T(c, st, p, 'column')) == COL(i)))


def spells(c, st, p, frm, to, what='the text of the token is that of the source'):
    """value of the token = S[frm, to), at an arbitrary position"""
    v, K, S = T(c, st, p, 'value'), st.ghost['K'], st.ghost['S']
    c.ok(st, what, z3.And(v.length() == to - frm, z3.Implies(z3.ULT(K, to - frm), v.char(K) == S.char(z3.simplify(frm + K)))))


def no_value(c, st, p):
    c.ok(st, 'the token carries no text', T(c, st, p, 'value').length() == 0)


def position(c, st):
    """the position after the call, with what the lexer knows about it"""
    g, w = st.ghost, c.w
    lx = g['lexer']
    j = B64(w.peek(st, lx, 'idx', LX))
    c.ok(st, 'the lexer knows its place', z3.And(z3.ULE(j, g['N']), B32(w.peek(st, lx, 'line', LX)) == LINE(j), B32(w.peek(st, lx, 'column', LX)) == COL(j),
                                                 z3.Implies(z3.ULT(j, g['N']), B8(w.peek(st, lx, 'currentChar', LX)) == g['S'].char(j))))
    return j


def lex_error(c, st, out, names, what):
    """an error of one of the classes, at a place between the start and the current position"""
    g = st.ghost
    err = st.mem[out[1].obj].meta.get('err') if out[0] == 'throw' and isinstance(out[1], Ptr) else None
    c.ok(st, what, err is not None and err[0] in names)
    if err is None or err[0] not in names:
        return None
    if '(int, int' in err[1]:
        l, k = B32(err[2][1]), B32(err[2][2])
        j = B64(c.w.peek(st, g['lexer'], 'idx', LX))
        ps = [g['i0'], z3.simplify(j), z3.simplify(j - 1)]
        c.ok(st, 'the error is at a place passed by the lexer', z3.Or(*[z3.And(z3.ULE(p, g['N']), l == LINE(p), z3.Or(k == COL(p), k == COL(p) - 1)) for p in ps]))
    return err


# ---------------------------------------------------------------- advance, getNextChar, setExpr
@target('C10 C11', 'Lexer::advance()', contracts=lambda c: lexer_contracts(c, ('advance',)), cover=['inside', 'end', 'beyond', 'start'])
class Advance:
    def setup(self, c):
        for k in ('inside', 'beyond', 'start'):
            st, lx = lexer_state(c, k == 'inside')
            if k == 'beyond':
                st.pc.append(z3.And(z3.UGE(st.ghost['i0'], st.ghost['N']), z3.ULT(st.ghost['i0'], 1 << 32)))
                c.w.poke(st, lx, 'idx', st.ghost['i0'])
            elif k == 'start':
                c.w.poke(st, lx, 'idx', (1 << 64) - 1)
                c.w.poke(st, lx, 'line', 1)
                c.w.poke(st, lx, 'column', 0)
                c.w.poke(st, lx, 'currentChar', 0)
            st.ghost['case'] = k
            yield st, [lx]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        lx, S, N, i = g['lexer'], g['S'], g['N'], g['i0']
        c.ok(st, 'completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        idx, line, col, cur = [w.peek(st, lx, m, LX) for m in ('idx', 'line', 'column', 'currentChar')]
        if g['case'] == 'start':
            c.cover('start')
            z = z3.BitVecVal(0, 64)
            c.ok(st, 'the first character is next', B64(idx) == 0)
            c.ok(st, 'on line 1, column 1', z3.And(B32(line) == 1, B32(col) == z3.If(N == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), z3.Implies(N != 0, B8(cur) == S.char(z))))
            return
        c.ok(st, 'the next position follows', B64(idx) == i + 1)
        if g['case'] == 'beyond':
            return c.cover('beyond')
        c.cover('inside')
        if c.e.decide(st, i + 1 == N):
            c.cover('end')
        nl = S.char(i) == 10
        c0 = z3.If(nl, z3.BitVecVal(0, 32), COL(i))
        c.ok(st, 'a line break begins a new line', B32(line) == LINE(i) + z3.If(nl, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))
        c.ok(st, 'every other character takes one column', B32(col) == z3.If(z3.ULT(i + 1, N), c0 + 1, c0))
        c.ok(st, 'its character is the current one', z3.Implies(z3.ULT(i + 1, N), B8(cur) == S.char(i + 1)))


@target('C10 C11', 'Lexer::getNextChar(unsigned long)', contracts=lambda c: lexer_contracts(c, ('peek',)), cover=['peek'])
class GetNextChar:
    def setup(self, c):
        st, lx = lexer_state(c)
        n = bv('n')
        st.pc.append(z3.ULT(n, 1 << 32))
        st.ghost['n'] = n
        yield st, [lx, n]

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'completes', out[0] == 'ret')
        if out[0] == 'ret':
            c.cover('peek')
            i = z3.simplify(g['i0'] + g['n'])
            c.ok(st, 'the character at that distance, or NUL', B8(out[1]) == z3.If(z3.ULT(i, g['N']), g['S'].char(i), z3.BitVecVal(0, 8)))
            c.ok(st, 'the lexer stays where it is', B64(c.w.peek(st, g['lexer'], 'idx', LX)) == g['i0'])


WITHOUT = z3.Function('without', lib.STRSORT, z3.BitVecSort(8), lib.STRSORT)


def filter_contracts(c):
    lexer_contracts(c, ('advance',))
    e, w, H = c.e, c.w, c.handler

    def adv(e, st, a, ins):
        e.event(st, 'begin', idx=w.peek(st, a[0], 'idx', LX), line=w.peek(st, a[0], 'line', LX), col=w.peek(st, a[0], 'column', LX), cur=w.peek(st, a[0], 'currentChar', LX), expr=w.peek(st, a[0], 'expr', LX))
        return None
    H(r'^Lexer::advance\(\)', adv)

    def remove(e, st, a, ins):
        """std::remove over a whole string: the characters other than the one given, in order; what follows is unspecified"""
        p, q = a[0], a[1]
        o = st.mem[p.obj]
        if o.kind != 'strbuf' or q.obj != p.obj or p.off != 0:
            raise Unsupported('std::remove')
        own = o.meta['owner']
        s = lib.gets(e, st, own)
        c8 = e.load_cell(st, a[2], 1, ('i', 8))
        e.safety(st, 'std::remove over the whole string', B64(q.off) == s.length())
        r = WITHOUT(s.id, B8(c8))
        m = lib.LEN(r)
        st.pc.append(z3.ULE(m, s.length()))
        rest = lib.opaque(st, name='rest')
        lib.puts(e, st, own, lib.S(s.ln, lambda i: z3.If(z3.ULT(lib.b64(i), m), lib.AT(r, i), rest.char(i))))
        st.ghost['removed'] = (own.obj, r, m)
        return Ptr(p.obj, m)
    H(r'^__gnu_cxx::__normal_iterator<char\*, .*> std::remove<', remove)

    def erase(e, st, a, ins):
        """erase(first, last) of the rest of a string"""
        s = lib.gets(e, st, a[0])
        f, l = a[1], a[2]
        e.safety(st, 'the end of the string is erased', z3.And(z3.BoolVal(f.obj == l.obj), B64(l.off) == s.length(), z3.ULE(B64(f.off), s.length())))
        own = st.mem[f.obj].meta['owner']
        e.safety(st, 'iterators of the string itself', own.obj == a[0].obj)
        rm = st.ghost.get('removed')
        if rm and rm[0] == a[0].obj and e.valid(st, B64(f.off) == rm[2]):
            lib.puts(e, st, a[0], lib.S(rm[2], lambda i: lib.AT(rm[1], lib.b64(i)), rm[1]))
        else:
            lib.puts(e, st, a[0], lib.substr(s, 0, f.off))
        return f
    H(r'^std::__cxx11::basic_string<char, .*>::erase\(__gnu_cxx', erase)


@target('C10 C11', 'Lexer::setExpr(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>*)', contracts=filter_contracts, cover=['set'])
class SetExpr:
    """carriage returns are no part of the source; the lexer stands before its first character, on line 1"""
    def setup(self, c):
        st, lx = lexer_state(c, False)
        s = lib.opaque(st, name='text')
        p = string_at(c, st, s)
        st.ghost.update(s=s, p=p)
        yield st, [lx, p]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        c.ok(st, 'completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('set')
        got = lib.gets(c.e, st, g['p'])
        c.ok(st, 'the source is the text without its carriage returns', False if got._id is None else got._id == WITHOUT(g['s'].id, z3.BitVecVal(13, 8)))
        b = [d for k, d in c.events(st, 'begin')]
        c.ok(st, 'the lexer moves to the first character', len(b) == 1)
        if len(b) == 1:
            d = b[0]
            c.ok(st, 'of this source', d['expr'].obj == g['p'].obj)
            c.ok(st, 'from before it, on line 1', z3.And(B64(d['idx']) == z3.BitVecVal((1 << 64) - 1, 64), B32(d['line']) == 1, B32(d['col']) == 0, B8(d['cur']) != 10))


# ---------------------------------------------------------------- words
def is_literal(S, i, n, word):
    """S[i, i+n) = word"""
    return z3.And(n == len(word), *[S.char(z3.simplify(i + k)) == ord(ch) for k, ch in enumerate(word)])


def passed(pred, frm=0):
    """every character between the start (+frm) and the position satisfies pred (at one arbitrary position)"""
    def f(e, loop, get, I):
        g = loop.entry.ghost
        K = g['K']
        return z3.Implies(z3.And(z3.UGE(K, g['i0'] + frm), z3.ULT(K, I)), pred(g['S'].char(K)))
    return f


@target('C10 C11 C20', 'Lexer::makeWord()', contracts=lexer_contracts, cover=['keyword', 'identifier', 'type name', 'pedantic'], budget=200)
class MakeWord:
    """the longest run of letters, digits and underscores is one token: a keyword, the name of a basic type, or an identifier"""
    def setup(self, c):
        st, lx = lexer_state(c)
        g = st.ghost
        st.pc.append(letter(g['S'].char(g['i0'])))
        ped = bv('pedantic', 8)
        st.pc.append(z3.ULE(ped, 1))
        c.e.put(st, c.e.gobj(st, '@pedantic'), ped, 1)
        g.update(ped=ped, sameline=True, scans=[('word', passed(wordchar))])
        yield st, [lx]

    def post(self, c, st, out):
        g = st.ghost
        S, N, i0, K = g['S'], g['N'], g['i0'], g['K']
        j = position(c, st)
        n = z3.simplify(j - i0)
        c.ok(st, 'the word is made of letters, digits and underscores', z3.And(z3.UGT(j, i0), z3.Implies(z3.And(z3.UGE(K, i0), z3.ULT(K, j)), wordchar(S.char(K)))))
        c.ok(st, 'and ends where they end', z3.Or(j == N, z3.Not(wordchar(S.char(j)))))
        p = one_token(c, st)
        if p is None:
            return
        t = B32(T(c, st, p, 'type'))
        is_kw = {kw: is_literal(S, i0, n, kw) for kw in KEYWORDS}
        loop_word = z3.Or(is_kw['BREAK'], is_kw['CONTINUE'])
        if out[0] == 'throw':
            c.cover('pedantic')
            err = lex_error(c, st, out, ('PedanticError',), 'only --pedantic rejects a word')
            if err:
                c.ok(st, 'BREAK and CONTINUE, under --pedantic', z3.And(loop_word, g['ped'] != 0))
                c.ok(st, 'the error is at that word', err[2][1].obj == p.obj)
            at_place(c, st, p, i0)
            return
        c.ok(st, 'completes', out[0] == 'ret')
        c.ok(st, '--pedantic rejects BREAK and CONTINUE', z3.Implies(g['ped'] != 0, z3.Not(loop_word)))
        want = z3.BitVecVal(c.K['TokenType::IDENTIFIER'], 32)
        for kw, ty in KEYWORDS.items():
            want = z3.If(is_kw[kw], z3.BitVecVal(c.K['TokenType::' + ty], 32), want)
        c.ok(st, 'the word decides the token', t == want)
        at_place(c, st, p, i0)
        v = T(c, st, p, 'value')
        if c.e.valid(st, t == c.K['TokenType::IDENTIFIER']) or c.e.valid(st, t == c.K['TokenType::DATA_TYPE']):
            c.cover('identifier' if c.e.valid(st, t == c.K['TokenType::IDENTIFIER']) else 'type name')
            spells(c, st, p, i0, j)
        else:
            c.cover('keyword')


# ---------------------------------------------------------------- numbers and dates
class Digits(Auto):
    """dots: points passed, dot: where the last one was; ahead: where the program looks ahead from, scan: where it looked last"""
    scan = ahead = None

    def on(self, eng, st, kind, d):
        g = st.ghost
        if kind == 'advance' and d['inside']:
            i = B64(d['i'])
            t = dict(self.t)
            dot = g['S'].char(i) == ord('.')
            t['dots'] = z3.simplify(z3.If(dot, t['dots'] + 1, t['dots']))
            t['dot'] = z3.simplify(z3.If(dot, i, t['dot']))
            self.t = t
        elif kind == 'peek':
            self.scan = B64(d['i'])
            if self.ahead is None:
                self.ahead = B64(eng.c.w.peek(st, g['lexer'], 'idx', LX))


def number_scans(c):
    def hook(e, loop, A):
        st = loop.entry
        g = st.ghost
        if 'digits' not in g:
            return []
        lx = g['lexer'].obj
        S, N, i0, K = g['S'], g['N'], g['i0'], g['K']
        idx = ('mem', lx, c.w.L.off(LX, 'idx'), 8)
        sp = lambda n: ('spec', n)
        val = lambda get, n: B64(get(sp(n))) if sp(n) in loop.W else B64(st.spec.t[n])
        wide = lambda l: lambda get: (lambda v: z3.SignExt(32, v) if v.size() == 32 else v)(loop.scalar(l, get(l)))
        ints = [l for l, (kd, a) in loop.W.items() if kd == 'bv' and l[0] == 'reg' and a in (32, 64)]
        out = []
        if idx in loop.W:
            I = lambda get: B64(get(idx))
            P = lambda get, x: z3.And(z3.UGE(x, i0), z3.ULT(x, I(get)))
            has = lambda get: val(get, 'dots') != 0
            if sp('dots') in loop.W:
                out.append(('number: one dot', lambda get: z3.ULE(val(get, 'dots'), 1)))
                out.append(('number: dot is there', lambda get: z3.Implies(has(get), z3.And(P(get, val(get, 'dot')), S.char(val(get, 'dot')) == ord('.')))))
                for l, (kd, a) in loop.W.items():
                    if kd == 'bv' and a == 8 and l[0] in ('reg', 'mem') and l[1] != lx:
                        out.append(('number: %s is dots' % (l,), lambda get, l=l: B8(loop.scalar(l, get(l))) == z3.Extract(7, 0, val(get, 'dots'))))
                    elif kd == 'bool':
                        out.append(('number: %s is dots' % (l,), lambda get, l=l: boolof(get(l)) == has(get)))
            E0 = B64(loop.read(loop.entry, idx))
            if st.spec.scan is None:
                out.append(('number: digits', lambda get: z3.Implies(P(get, K), z3.Or(digit(S.char(K)), z3.And(has(get), K == val(get, 'dot'))))))
            else:
                out.append(('number: more digits', lambda get: z3.And(z3.UGE(I(get), E0), z3.Implies(z3.And(z3.UGE(K, E0), z3.ULT(K, I(get))), digit(S.char(K))))))
                for l in ints:
                    X = wide(l)
                    x0 = X(lambda q: loop.read(loop.entry, q))
                    out.append(('number: %s steps' % (l,), lambda get, X=X, x0=x0: z3.And(X(get) >= 0, I(get) == E0 + (X(get) - x0))))
        elif st.spec.ahead is not None:
            # the scan ahead: only looks
            here = st.spec.ahead
            for l in ints:
                X = wide(l)
                for lo in (0, 1):
                    end = lambda get, X=X, lo=lo: here + X(get) + lo
                    out.append(('scan %s all %d' % (l, lo), lambda get, end=end: z3.Implies(z3.And(z3.UGT(K, here), z3.ULT(K, end(get))), z3.And(z3.ULT(K, N), digit(S.char(K))))))
                    out.append(('scan %s within %d' % (l, lo), lambda get, X=X, end=end: z3.And(X(get) >= 0, z3.ULE(end(get), N + 1))))
        return out
    return hook


def boolof(v):
    return v if z3.is_bool(v) else B8(v) != 0 if isz(v) else z3.BoolVal(bool(v))


def number_contracts(c):
    lexer_contracts(c)
    c.e.candidate_hooks.append(number_scans(c))


@target('C10 C11 C18', 'Lexer::makeNumber()', contracts=number_contracts, cover=['integer', 'real', 'date'], budget=300)
class MakeNumber:
    """the longest run of digits, with at most one point, is an INTEGER or (with the point) a REAL; digits '/' digits '/' digits is a DATE"""
    def setup(self, c):
        st, lx = lexer_state(c)
        g = st.ghost
        st.pc.append(digit(g['S'].char(g['i0'])))
        z = z3.BitVecVal(0, 64)
        st.spec = Digits('number', dots=z, dot=z)
        g['digits'] = True
        yield st, [lx]

    def post(self, c, st, out):
        g, sp = st.ghost, st.spec
        S, N, i0, K, t = g['S'], g['N'], g['i0'], g['K'], st.spec.t
        c.ok(st, 'completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        j = position(c, st)
        p = one_token(c, st)
        if p is None:
            return
        c.ok(st, 'the token is at its first character', z3.And(B32(T(c, st, p, 'column')) == COL(i0), z3.Or(B32(T(c, st, p, 'line')) == LINE(i0), B32(T(c, st, p, 'line')) == LINE(j))))
        here = z3.And(z3.UGE(K, i0), z3.ULT(K, j))
        c.ok(st, 'which is on the line of its last', z3.Implies(here, S.char(K) != 10))
        spells(c, st, p, i0, j)
        if c.e.decide(st, is_type(c, st, p, 'DATE')):
            c.cover('date')
            s1, s2 = sp.ahead, z3.simplify(sp.scan - 1) if sp.scan is not None else None
            c.ok(st, 'a date is told by what follows its first digits', s1 is not None)
            if s1 is None:
                return
            c.ok(st, 'a date has two slashes in its inside', z3.And(S.char(s1) == ord('/'), S.char(s2) == ord('/'), z3.UGT(s1, i0), z3.UGT(s2, s1 + 1), z3.UGT(j, s2 + 1)))
            c.ok(st, 'and digits elsewhere', z3.Implies(z3.And(here, K != s1, K != s2), digit(S.char(K))))
            return c.ok(st, 'a date ends where its digits end', z3.Or(j == N, z3.Not(digit(S.char(j)))))
        c.ok(st, 'the number is made of digits and at most one point', z3.And(z3.UGT(j, i0), z3.ULE(t['dots'], 1), z3.Implies(here, z3.Or(digit(S.char(K)), z3.And(t['dots'] == 1, K == t['dot'])))))
        c.ok(st, 'and ends where they end', z3.Or(j == N, z3.And(z3.Not(digit(S.char(j))), z3.Or(S.char(j) != ord('.'), t['dots'] == 1))))
        real = c.e.decide(st, t['dots'] == 1)
        c.cover('real' if real else 'integer')
        c.ok(st, 'a number with a point is a REAL, one without an INTEGER', is_type(c, st, p, 'REAL' if real else 'INTEGER'))
        if real:
            return
        # no date begins here: for no b, S[j] = '/', digits in (j, b), at least one, S[b] = '/', a digit at b + 1
        b, last = K, sp.scan if sp.scan is not None else j
        c.ok(st, 'digits with two slashes between them are a DATE', z3.Not(z3.And(
            z3.ULT(b + 1, N), z3.ULT(b, N), z3.UGT(b, j + 1), S.char(j) == ord('/'), S.char(b) == ord('/'), digit(S.char(b + 1)),
            *[z3.Implies(z3.And(z3.UGT(x, j), z3.ULT(x, b)), digit(S.char(x))) for x in (last, z3.simplify(last - 1))])))


# ---------------------------------------------------------------- characters and strings
ESC = {'n': 10, 't': 9, "'": 39, '"': 34, '\\': 92}


def escape(ch):
    """(is an escape code, what it stands for)"""
    v = z3.BitVecVal(255, 8)
    for k, x in ESC.items():
        v = z3.If(ch == ord(k), z3.BitVecVal(x, 8), v)
    return z3.Or(*[ch == ord(k) for k in ESC]), v


@target('C10 C11 C18', 'Lexer::makeChar()', contracts=lexer_contracts, cover=['plain', 'escape', 'error'], budget=60)
class MakeChar:
    def setup(self, c):
        st, lx = lexer_state(c)
        g = st.ghost
        st.pc.append(g['S'].char(g['i0']) == 39)
        yield st, [lx]

    def post(self, c, st, out):
        g = st.ghost
        S, N, i = g['S'], g['N'], g['i0']
        at = lambda k: S.char(z3.simplify(i + k))
        has = lambda k: z3.ULT(i + k, N)
        esc, v = escape(at(2))
        plain = z3.And(has(2), at(1) != 92, at(1) != 39, at(2) == 39)
        escd = z3.And(has(3), at(1) == 92, esc, at(3) == 39)
        if out[0] == 'throw':
            c.cover('error')
            lex_error(c, st, out, ('LexerError', 'ExpectedQuotesError'), 'a lexical error')
            return c.ok(st, 'only what is no character constant is an error', z3.Not(z3.Or(plain, escd)))
        c.ok(st, 'only a character constant is accepted', z3.Or(plain, escd))
        j = position(c, st)
        p = one_token(c, st)
        if p is None:
            return
        isesc = c.e.decide(st, at(1) == 92)
        c.cover('escape' if isesc else 'plain')
        c.ok(st, 'a CHAR', is_type(c, st, p, 'CHAR'))
        x = T(c, st, p, 'value')
        c.ok(st, 'its character', z3.And(x.length() == 1, x.char(z3.BitVecVal(0, 64)) == (v if isesc else at(1))))
        c.ok(st, 'the closing quote ends it', j == i + (4 if isesc else 3))
        c.ok(st, 'the token is at its first character', z3.And(B32(T(c, st, p, 'column')) == COL(i), z3.Or(B32(T(c, st, p, 'line')) == LINE(i), B32(T(c, st, p, 'line')) == LINE(j))))


class Chars(Auto):
    """reads the inside of a string constant: t.m what its value has so far (length), t.b the position after what has been read;
    KV: the character of the value at position M, if it is known already"""
    def on(self, eng, st, kind, d):
        g = st.ghost
        if kind != 'advance' or not d['inside']:
            return
        S, N = g['S'], g['N']
        i = B64(d['i'])
        t = dict(self.t)
        if eng.decide(st, i == g['i0']):
            self.t = t
            return
        # the position after the opening quote: either the second half of an escape, or a character of its own
        ch = S.char(i)
        half = t['half'] != 0
        esc, v = escape(ch)
        begins = z3.And(z3.Not(half), ch == 92)
        gives = z3.And(z3.Or(half, z3.And(ch != 92)), t['end'] == 0)
        val = z3.If(half, v, ch)
        end = z3.And(z3.Not(half), ch == 34)
        one = z3.BitVecVal(1, 64)
        zero = z3.BitVecVal(0, 64)
        adds = z3.And(gives, z3.Not(end))
        t['kv'] = z3.simplify(z3.If(z3.And(adds, t['m'] == g['M']), val, t['kv']))
        t['m'] = z3.simplify(t['m'] + z3.If(adds, one, zero))
        t['half'] = z3.simplify(z3.If(z3.And(begins, t['end'] == 0), one, zero))
        t['end'] = z3.simplify(z3.If(end, one, t['end']))
        self.t = t


def chars_hook(c):
    def hook(e, loop, A):
        st = loop.entry
        g = st.ghost
        if 'M' not in g:
            return []
        lx = g['lexer'].obj
        out = []
        sp = lambda n: ('spec', n)
        if sp('m') not in loop.W:
            return []
        val = lambda get, n: get(sp(n)) if sp(n) in loop.W else st.spec.t[n]
        idx = ('mem', lx, c.w.L.off(LX, 'idx'), 8)
        known = lambda get: z3.ULE(B64(get(idx)), g['N'])
        out.append(('string: whole', lambda get: z3.Implies(known(get), val(get, 'half') == 0)))
        out.append(('string: open', lambda get: val(get, 'end') == 0))
        for l in [l for l, (k, a) in loop.W.items() if k == 'str']:
            out.append(('string: length %s' % (l,), lambda get, l=l: z3.Implies(known(get), get(l).length() == val(get, 'm'))))
            out.append(('string: at M %s' % (l,), lambda get, l=l: z3.Implies(z3.And(known(get), z3.ULT(g['M'], val(get, 'm'))), get(l).char(g['M']) == val(get, 'kv'))))
        out.append(('string: short', lambda get: z3.ULE(val(get, 'm'), B64(get(idx)))))
        return out
    return hook


def string_contracts(c):
    lexer_contracts(c)
    c.e.candidate_hooks.append(chars_hook(c))


@target('C10 C11 C18', 'Lexer::makeString()', contracts=string_contracts, cover=['string', 'bad escape', 'no end'], budget=120)
class MakeString:
    """the characters up to the closing quote, escapes replaced by what they stand for"""
    def setup(self, c):
        st, lx = lexer_state(c)
        g = st.ghost
        st.pc.append(g['S'].char(g['i0']) == 34)
        z = z3.BitVecVal(0, 64)
        st.spec = Chars('string', m=z, half=z, end=z, kv=z3.BitVecVal(0, 8))
        g['M'] = bv('M')
        yield st, [lx]

    def post(self, c, st, out):
        g, t = st.ghost, st.spec.t
        S, N, i, M = g['S'], g['N'], g['i0'], g['M']
        j = B64(c.w.peek(st, g['lexer'], 'idx', LX))
        if out[0] == 'throw':
            err = lex_error(c, st, out, ('LexerError', 'ExpectedQuotesError'), 'a lexical error')
            if err and err[0] == 'ExpectedQuotesError':
                c.cover('no end')
                return c.ok(st, 'only a string that is never closed lacks its quote', z3.And(z3.UGE(j, N), t['end'] == 0))
            c.cover('bad escape')
            return c.ok(st, 'only an unknown escape is invalid', z3.And(t['half'] == 1, z3.Or(z3.UGE(j, N), z3.Not(escape(S.char(j))[0]))))
        c.ok(st, 'completes', out[0] == 'ret')
        j = position(c, st)
        p = one_token(c, st)
        if p is None:
            return
        c.cover('string')
        c.ok(st, 'a STRING', is_type(c, st, p, 'STRING'))
        c.ok(st, 'the closing quote ends it', z3.And(t['end'] == 1, t['half'] == 0, S.char(z3.simplify(j - 1)) == 34))
        x = T(c, st, p, 'value')
        c.ok(st, 'as long as what is written', x.length() == t['m'])
        c.ok(st, 'its characters', z3.Implies(z3.ULT(M, t['m']), x.char(M) == t['kv']))
        l = B32(T(c, st, p, 'line'))
        c.ok(st, 'the token is at its first character', z3.And(B32(T(c, st, p, 'column')) == COL(i), z3.Or(l == LINE(i), l == LINE(j))))


# ---------------------------------------------------------------- the sequence of tokens
PUNCT = {'+': 'PLUS', '-': 'MINUS', '*': 'STAR', '(': 'LPAREN', ')': 'RPAREN', '[': 'LSQRBRACKET', ']': 'RSQRBRACKET', ':': 'COLON', ',': 'COMMA',
         '&': 'AMPERSAND', '^': 'CARET', '.': 'PERIOD', '\n': 'LINE_END', '/': 'SLASH', '=': 'EQUALS', '<': 'LESSER', '>': 'GREATER'}
PAIRS = {'<=': 'LESSER_EQUAL', '<>': 'NOT_EQUALS', '<-': 'ASSIGNMENT', '>=': 'GREATER_EQUAL'}
NONE, COMMENT, BAD, LONG = -1, -2, -3, -4


def symbol(K, a, b):
    """(what begins with the characters a, b (b = NUL at the end): a token type, NONE a blank, COMMENT, BAD, LONG a word, number, ...; its length)"""
    V = lambda x: z3.BitVecVal(x, 32)
    t, n = V(BAD), V(1)
    for k, ty in PUNCT.items():
        t = z3.If(a == ord(k), V(K['TokenType::' + ty]), t)
    for k, ty in PAIRS.items():
        here = z3.And(a == ord(k[0]), b == ord(k[1]))
        t, n = z3.If(here, V(K['TokenType::' + ty]), t), z3.If(here, V(2), n)
    t = z3.If(z3.And(a == ord('/'), b == ord('/')), V(COMMENT), t)
    t = z3.If(z3.And(a == ord('='), b == ord('=')), V(BAD), t)
    t = z3.If(z3.Or(a == 32, a == 9), V(NONE), t)
    t = z3.If(z3.Or(letter(a), digit(a), a == 39, a == 34), V(LONG), t)
    return t, n


def tokens_contracts(c):
    lexer_contracts(c)
    e, w, H = c.e, c.w, c.handler

    def lexeme(which):
        def f(e, st, a, ins):
            """makeWord, makeNumber, makeChar, makeString: one token, at least one character further; or an error"""
            g = st.ghost
            S, N = g['S'], g['N']
            lx = a[0]
            i = B64(w.peek(st, lx, 'idx', LX))
            x = st.fork()
            e.event(x, 'lexeme', i=i, which=which, j=None, token=None)
            out = [('throw', x, e.new(x, 64, 'exc'), '@_ZTIN3PSC%dErrorE' % 5 if False else '@_ZTIN3PSC10LexerErrorE')]
            j = bv('next')
            st.pc.append(z3.And(z3.UGT(j, i), z3.ULE(j, N)))
            e.mark(st, lx)
            tok = w.new(st, 'Token')
            ts = toks(c, lx)
            b, n = vec.vector_at(e, st, ts)
            n = B64(n)
            o = st.w(b.obj)
            o.meta['elems'] = dict(o.meta['elems'])
            o.meta['elems'][(len(o.meta['elems']), 0, n)] = tok
            e.put(st, e.gep_off(ts, 8), Ptr(b.obj, norm(z3.simplify((n + 1) * 8), ('i', 64))), 8)
            if isinstance(o.size, int) or isz(o.size):
                o.size = norm(z3.simplify(lib.b64(o.size) + 8), ('i', 64))
            w.poke(st, lx, 'idx', j)
            w.poke(st, lx, 'line', LINE(j))
            w.poke(st, lx, 'column', COL(j))
            if e.decide(st, z3.ULT(j, N)):
                w.poke(st, lx, 'currentChar', S.char(j))
            e.event(st, 'lexeme', i=i, which=which, j=j, token=tok)
            out.append(('ret', st, None))
            return out
        return f
    for m in ('Word', 'Number', 'Char', 'String'):
        H(r'^Lexer::make%s\(\)' % m, lexeme(m))
    w.over[(LX, 'tokens@')] = lambda st, o, idx: c.w.new(st, 'Token') if False else None


class Scan(Auto):
    """pos: everything before has become tokens; com: inside a comment (which goes on at pos); n: the tokens so far;
    copied: how many of them are in the result"""
    cons, pend, start = 0, None, None
    ended = False
    sym = None

    def remode(self):
        self.mode = (self.cons, self.pend is not None, self.ended)

    def on(self, eng, st, kind, d):
        c, g = eng.c, st.ghost
        S, N = g['S'], g['N']
        t = dict(self.t)
        if kind == 'lexeme':
            i = B64(d['i'])
            c.ok(st, 'the text is read in order', z3.And(i == t['pos'], z3.ULT(i, N), t['com'] == 0, z3.BoolVal(self.cons == 0 and self.pend is None and not self.ended)))
            ch = S.char(i)
            k = {'Word': letter(ch), 'Number': digit(ch), 'Char': ch == 39, 'String': ch == 34}[d['which']]
            c.ok(st, 'a word begins with a letter, a number with a digit, a constant with its quote', k)
            if d['j'] is not None:
                t['pos'] = d['j']
                t['n'] = z3.simplify(t['n'] + 1)
                self.t = t
        elif kind == 'advance':
            i = B64(d['i'])
            c.ok(st, 'the text is read in order', z3.And(i == t['pos'], z3.BoolVal(d['inside'] and not self.ended)))
            t['pos'] = z3.simplify(i + 1)
            if eng.decide(st, t['com'] != 0):
                c.ok(st, 'a comment ends before the line break', S.char(i) != 10)
                t['com'] = self.more(g, t['pos'])
                self.t = t
                return
            if self.cons == 0:
                self.start = i
            self.cons += 1
            self.t = t
            self.settle(eng, st)
        elif kind == 'push' and d['vec'].obj == g['lexer'].obj:
            p = d['elem'][0]
            if self.cons == 0 and self.pend is None and eng.decide(st, t['pos'] == N):
                c.ok(st, 'the tokens end once', not self.ended)
                c.ok(st, 'with the end of the program', is_type(c, st, p, 'EXPRESSION_END'))
                l, k = B32(T(c, st, p, 'line')), B32(T(c, st, p, 'column'))
                last = c.last_token(st, z3.simplify(t['n'] - 1)) if eng.valid(st, t['n'] != g['n0']) else None
                place = z3.And(l == LINE(N), k == COL(N), z3.Or(k != 0, t['n'] == g['n0']))
                if last is not None:
                    place = z3.Or(place, z3.And(l == B32(T(c, st, last, 'line')), k == B32(T(c, st, last, 'column'))))
                c.ok(st, 'the end is at the last character, or token, of the source', place)
                no_value(c, st, p)
                self.ended = True
                t['n'] = z3.simplify(t['n'] + 1)
                self.t = t
                self.remode()
                return
            c.ok(st, 'a token is made for text of its own', z3.And(t['com'] == 0, z3.BoolVal(self.pend is None and not self.ended)))
            self.pend = p
            t['n'] = z3.simplify(t['n'] + 1)
            self.t = t
            self.settle(eng, st)
        elif kind == 'push':
            p = d['elem'][0]
            key = st.mem[p.obj].meta.get('key')
            at = g['n0'] + t['copied']
            if key is None:
                same = z3.BoolVal(False)
                b, n = vec.vector_at(eng, st, toks(c, g['lexer']))
                for (q, off, ix), x in st.mem[b.obj].meta['elems'].items():
                    if isinstance(x, Ptr) and x.obj == p.obj:
                        same = B64(ix) == at
            else:
                same = B64(key[1]) == at
            c.ok(st, 'the result lists the tokens of this source, in order', z3.And(z3.BoolVal(self.ended and d['vec'].obj == g['sret'].obj), B64(d['idx']) == t['copied'], same))
            t['copied'] = z3.simplify(t['copied'] + 1)
            self.t = t

    def more(self, g, pos):
        """inside a comment at pos: 1 unless a line break or the end is there"""
        return z3.simplify(z3.If(z3.Or(pos == g['N'], g['S'].char(pos) == 10), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64)))

    def settle(self, eng, st):
        """what has been read and made, once it is complete"""
        c, g, t = eng.c, st.ghost, dict(self.t)
        S, N = g['S'], g['N']
        i = self.start if self.cons else t['pos']
        ty, n = symbol(c.K, S.char(i), z3.If(z3.ULT(i + 1, N), S.char(z3.simplify(i + 1)), z3.BitVecVal(0, 8)))
        st.pc.append(z3.Implies(z3.ULE(i, N), place_bound(i)))
        if self.cons == 1 and self.pend is None and eng.decide(st, ty == COMMENT):
            self.cons = 0
            t['com'] = self.more(g, t['pos'])
            self.t = t
            return self.remode()
        if self.cons == 1 and self.pend is None and eng.decide(st, ty == NONE):
            self.cons = 0
            return self.remode()
        if self.pend is not None:
            c.ok(st, 'only symbols make these tokens', ty >= 0)
        c.ok(st, 'a symbol is no longer than its characters', z3.And(z3.ULE(self.cons, n), z3.BoolVal(True)) if False else z3.BitVecVal(self.cons, 32) <= n)
        if self.pend is not None and self.cons and eng.decide(st, n == self.cons):
            p = self.pend
            c.ok(st, 'each symbol makes its token', B32(T(c, st, p, 'type')) == ty)
            l, k = B32(T(c, st, p, 'line')), B32(T(c, st, p, 'column'))
            c.ok(st, 'the token is where its symbol is', z3.And(l == LINE(i), k >= COL(i), k <= COL(i) + self.cons))
            no_value(c, st, p)
            self.cons, self.pend = 0, None
        self.remode()


def scan_hook(c):
    def hook(e, loop, A):
        st = loop.entry
        g = st.ghost
        if 'sret' not in g:
            return []
        out = []
        sp = lambda n: ('spec', n)
        val = lambda get, n: B64(get(sp(n))) if sp(n) in loop.W else B64(st.spec.t[n])
        lx = g['lexer'].obj
        idx = ('mem', lx, c.w.L.off(LX, 'idx'), 8)
        I = (lambda get: B64(get(idx))) if idx in loop.W else None
        if sp('com') in loop.W:
            out.append(('tokens: no comment', lambda get: val(get, 'com') == 0))
            out.append(('tokens: comment', lambda get: val(get, 'com') == z3.If(z3.Or(val(get, 'pos') == g['N'], g['S'].char(val(get, 'pos')) == 10), z3.BitVecVal(0, 64), z3.BitVecVal(1, 64))))
        if I is not None:
            out.append(('tokens: position', lambda get: val(get, 'pos') == I(get)))
            out.append(('tokens: not beyond', lambda get: z3.ULE(I(get), g['N'])))
        I0 = I if I is not None else lambda get: val(get, 'pos')
        for l, (k, a) in loop.W.items():
            if k == 'vecptr':
                if l[0] == 'mem' and l[1] == lx:
                    out.append(('tokens: as many %s' % (l,), lambda get, l=l: loop.scalar(l, get(l)) == val(get, 'n')))
                    out.append(('tokens: more %s' % (l,), lambda get, l=l: z3.And(z3.UGE(val(get, 'n'), g['n0']), z3.ULE(val(get, 'n') - g['n0'], I0(get)))))
                    out.append(('tokens: bounded %s' % (l,), lambda get, l=l: z3.And(z3.UGE(val(get, 'n'), g['n0']), z3.ULE(val(get, 'n') - g['n0'], val(get, 'pos')), z3.ULE(val(get, 'pos'), g['N']))))
                elif l[0] == 'mem':
                    out.append(('tokens: copied %s' % (l,), lambda get, l=l: loop.scalar(l, get(l)) == val(get, 'copied')))
            if k == 'bv' and a == 64 and l[0] == 'reg' and sp('copied') in loop.W:
                out.append(('tokens: next is %s' % (l,), lambda get, l=l: loop.scalar(l, get(l)) == g['n0'] + val(get, 'copied')))
                out.append(('tokens: up to %s' % (l,), lambda get, l=l: z3.ULE(g['n0'] + val(get, 'copied'), val(get, 'n'))))
        return out
    return hook


@target('C10 C11', 'Lexer::makeTokens()', contracts=lambda c: (tokens_contracts(c), c.e.candidate_hooks.append(scan_hook(c))), cover=['tokens', 'error', 'hint'], budget=200)
class MakeTokens:
    """the tokens of a source: one per symbol, word, number or constant, one per line break, none for blanks and comments, and one for the end"""
    def setup(self, c):
        st, lx = lexer_state(c, False)
        g = st.ghost
        N, i0 = g['N'], g['i0']
        z = z3.BitVecVal(0, 64)
        w = c.w
        st.pc += [i0 == 0, LINE(z) == 1]
        w.poke(st, lx, 'idx', 0)
        w.poke(st, lx, 'line', LINE(z))
        w.poke(st, lx, 'column', COL(z))
        st.pc += [COL(z) == z3.If(N == 0, z3.BitVecVal(0, 32), z3.BitVecVal(1, 32)), z3.Implies(N != 0, B8(w.peek(st, lx, 'currentChar', LX)) == g['S'].char(z))]
        b, n = vec.vector_at(c.e, st, toks(c, lx))
        st.w(b.obj).size = None         # it grows with the vector
        r = c.e.new(st, 24, 'alloca', name='result')
        g['sret'] = r
        st.spec = Scan((0, False, False), pos=z, com=z, n=g['n0'], copied=z)
        c.last_token = lambda st, i: c.e.load_cell(st, Ptr(vec.vector_at(c.e, st, toks(c, g['lexer']))[0].obj, norm(z3.simplify(i * 8), ('i', 64))), 8, ('ptr',))
        yield st, [r, lx]

    def post(self, c, st, out):
        g, sp = st.ghost, st.spec
        S, N, t = g['S'], g['N'], st.spec.t
        if out[0] == 'throw':
            err = st.mem[out[1].obj].meta.get('err')
            if err is None:
                c.cover('error')
                last = [d for k, d in c.events(st, 'lexeme')]
                return c.ok(st, 'errors of a word, number or constant pass through', bool(last) and last[-1]['j'] is None)
            pos, n = t['pos'], t['n']
            i = sp.start if sp.cons else pos
            a, b = S.char(i), z3.If(z3.ULT(i + 1, N), S.char(z3.simplify(i + 1)), z3.BitVecVal(0, 8))
            l, k = B32(err[2][1]), B32(err[2][2])
            c.ok(st, 'the error is where the fault is', z3.And(t['com'] == 0, z3.ULT(i, N), l == LINE(i), k >= COL(i), k <= COL(i) + sp.cons))
            if c.e.decide(st, a == ord('(')):
                c.cover('hint')
                before = S.char(z3.simplify(i - 1))
                some = c.e.decide(st, n != 0)
                c.ok(st, 'only after an input or output statement', some)
                if some:
                    q = c.last_token(st, z3.simplify(n - 1))
                    c.ok(st, 'whose keyword it follows at once', z3.And(i != 0, before != 32, before != 9, z3.Or(*[is_type(c, st, q, x) for x in IO_WORDS])))
                return
            ty, n = symbol(c.K, a, b)
            return c.ok(st, 'only text that begins no token is an error', ty == BAD)
        c.ok(st, 'completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('tokens')
        c.ok(st, 'all of the source was read, up to its end', z3.And(t['pos'] == N, t['com'] == 0, z3.BoolVal(sp.cons == 0 and sp.pend is None and sp.ended)))
        c.ok(st, 'all its tokens are in the result', g['n0'] + t['copied'] == t['n'])
        b, n = vec.vector_at(c.e, st, g['sret'])
        c.ok(st, 'and nothing else', B64(n) == t['copied'])


@target('C10', None)
class Layout:
    """what follows a token does not change it, as long as it is a blank, a line break, or a comment: with the contracts above,
    the tokens of a source (types, texts) stay the same when blanks or comments are put between them or at the end of a line"""
    def setup(self, c):
        a, b, x = z3.BitVec('a', 8), z3.BitVec('b', 8), z3.BitVec('x', 8)
        t, n = symbol(c.K, a, b)
        space = z3.Or(x == 32, x == 9, x == 10)
        u, m = symbol(c.K, a, x)
        c.lemma('a symbol of one character is the same before a blank', z3.And(u == t, m == 1), [t >= 0, n == 1, space])
        c.lemma('and before a comment', z3.Implies(a != ord('/'), z3.And(u == t, m == 1)), [t >= 0, n == 1, x == ord('/')])
        c.lemma('a symbol has at most two characters', z3.Or(n == 1, n == 2), [])
        c.lemma('what is no token of one character stays none', u == t, [t < 0, t != COMMENT, z3.Not(z3.And(a == ord('='), b == ord('='))), space])
        c.lemma('words end before blanks, line breaks and comments', z3.Not(wordchar(x)), [z3.Or(space, x == ord('/'))])
        c.lemma('numbers end before blanks and line breaks', z3.And(z3.Not(digit(x)), x != ord('.'), x != ord('/')), [space])
        y = z3.BitVec('y', 8)
        c.lemma('a comment begins with no digit: no date', z3.Not(digit(y)), [y == ord('/')])
        yield
