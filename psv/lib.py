"""Contracts of the C++ standard library and runtime functions that the verified code calls (trusted)."""
import re
import z3
from .exec import *
from .exec import norm, _Cur, number
from .ir import Unsupported

STRSORT = z3.DeclareSort('Str')
LEN = z3.Function('len', STRSORT, z3.BitVecSort(64))
AT = z3.Function('at', STRSORT, z3.BitVecSort(64), BYTE)
BIG = 1 << 40
NPOS = (1 << 64) - 1

DEC = z3.Function('dec', z3.BitVecSort(64), STRSORT)            # std::to_string(long)
FTOS = z3.Function('ftos', F64, STRSORT)                        # std::to_string(double)
STOL = z3.Function('stol', STRSORT, z3.BitVecSort(64))          # value of strtol(s, 10)
STOD = z3.Function('stod', STRSORT, F64)
STOLEND = z3.Function('stolend', STRSORT, z3.BitVecSort(64))     # length of the prefix strtol accepts
STODEND = z3.Function('stodend', STRSORT, z3.BitVecSort(64))
FLNO = z3.Function('find_last_not_of', STRSORT, BYTE, z3.BitVecSort(64))
FFO = z3.Function('find_first_of', STRSORT, STRSORT, z3.BitVecSort(64))


def b64(x):
    return x if isz(x) else z3.BitVecVal(x, 64)


def b8(x):
    return x if isz(x) else z3.BitVecVal(x, 8)


class S:
    """contents of a string: length, characters, and (when opaque or literal) an identity"""
    __slots__ = ('ln', 'at', '_id', 'lit')

    def __init__(self, ln, at, id=None, lit=None):
        self.ln, self.at, self._id, self.lit = ln, at, id, lit

    @property
    def t(self):
        return self

    @property
    def id(self):
        if self._id is None:
            self._id = fresh('str', STRSORT)
        return self._id

    def length(self):
        return b64(self.ln)

    def char(self, i):
        if self.lit is not None and not isz(i):
            return z3.BitVecVal(self.lit[i] if i < len(self.lit) else 0, 8)
        return b8(self.at(b64(i)))


_lits = {}


def lit(b):
    if isinstance(b, str):
        b = b.encode()

    def at(i):
        i = z3.simplify(i)
        if z3.is_bv_value(i):
            k = i.as_long()
            return z3.BitVecVal(b[k] if k < len(b) else 0, 8)
        r = z3.BitVecVal(0, 8)
        for k, c in enumerate(b):
            r = z3.If(i == k, z3.BitVecVal(c, 8), r)
        return r
    if b not in _lits:
        _lits[b] = z3.Const('lit_' + b.hex(), STRSORT)
    return S(len(b), at, _lits[b], b)


def opaque(st=None, eng=None, id=None, name='s'):
    if id is None:
        id = fresh(name, STRSORT)
    if st is not None:
        st.pc.append(z3.ULT(LEN(id), BIG))
    return S(LEN(id), lambda i: AT(id, i), id)


def substr(s, pos, n):
    if s.lit is not None and not isz(pos) and not isz(n):
        return lit(s.lit[pos:pos + n])
    return S(n, lambda i: s.char(z3.simplify(b64(i) + b64(pos))))


def concat(a, b):
    if a.lit is not None and b.lit is not None:
        return lit(a.lit + b.lit)
    if a.lit == b'':
        return b
    if b.lit == b'':
        return a
    ln = norm(z3.simplify(a.length() + b.length()), ('i', 64))
    return S(ln, lambda i: z3.If(z3.ULT(b64(i), a.length()), a.char(i), b.char(z3.simplify(b64(i) - a.length()))))


def char1(c):
    if not isz(c):
        return lit(bytes([c & 255]))
    return S(1, lambda i: c)


def update(s, k, c):
    return S(s.ln, lambda i: z3.If(b64(i) == b64(k), b8(c), s.char(i)))


def seq(a, b):
    """equality of contents (a fresh unknown where it cannot be expressed)"""
    if a is b:
        return z3.BoolVal(True)
    if a.lit is not None and b.lit is not None:
        return z3.BoolVal(a.lit == b.lit)
    if a.lit is not None:
        a, b = b, a
    for x in (b, a):
        if not isz(x.ln) and x.ln <= 40:
            y = b if x is a else a
            return z3.And(y.length() == x.ln, *[y.char(i) == x.char(i) for i in range(x.ln)])
    if a._id is not None and b._id is not None:
        return a._id == b._id
    return None


def textgoal(st, a, b):
    """equality of contents as a proof goal (true for all positions if true for an arbitrary one)"""
    r = seq(a, b)
    if r is not None:
        return r
    k = bv('at')
    return z3.And(a.length() == b.length(), z3.Implies(z3.ULT(k, a.length()), a.char(k) == b.char(k)))


# ---------- strings in memory
def gets(eng, st, p):
    o = st.mem.get(p.obj)
    if o is None:
        raise Unsupported('string at ' + repr(p))
    if isz(p.off):
        v = eng.load_cell(st, p, 32, ('str',))
    else:
        c = o.cells.get(p.off)
        if c is not None and isinstance(c[0], S):
            if not o.alive:
                eng.ub(st, 'use of a dead string')
            return c[0]
        if o.lazy is None:
            raise Unsupported('string object not initialised')
        v = eng.load_cell(st, p, 32, ('str',))
    if not isinstance(v, S):
        raise Unsupported('not a string: %r' % (v,))
    return v


def puts(eng, st, p, s):
    eng.mark(st, p)
    eng.put(st, p, s, 32)


def buffer(eng, st, p):
    """object standing for the character buffer of the string at p"""
    key = 'B%s+%s' % (p.obj, p.off if not isz(p.off) else p.off.hash())
    if key not in st.mem:
        o = Obj(key, None, 'strbuf')
        o.meta['vload'], o.meta['vstore'], o.meta['owner'] = bufload, bufstore, p
        st.add(o)
    return Ptr(key, 0)


def bufload(eng, st, o, off, size, ty):
    s = gets(eng, st, o.meta['owner'])
    if size != 1:
        raise Unsupported('wide load from a string')
    if isz(s.ln) or isz(off):
        eng.safety(st, 'read within the string', z3.ULE(b64(off), s.length()))
        if s.lit is None or isz(off):
            return norm(z3.simplify(z3.If(b64(off) == s.length(), z3.BitVecVal(0, 8), s.char(off))), ty)
    elif not 0 <= off <= s.ln:
        eng.ub(st, 'read outside of a string')
    if not isz(off) and not isz(s.ln) and off == s.ln:
        return 0
    return norm(z3.simplify(s.char(off)), ty)


def bufstore(eng, st, o, off, v, size):
    p = o.meta['owner']
    s = gets(eng, st, p)
    if size != 1:
        raise Unsupported('wide store into a string')
    eng.safety(st, 'write within the string', z3.ULT(b64(off), s.length()))
    puts(eng, st, p, update(s, off, v))


def cstr(eng, st, p):
    """contents of the C string at p"""
    if not isinstance(p, Ptr) or p.null:
        eng.ub(st, 'null C string')
    o = st.mem.get(p.obj)
    if o is None:
        raise Unsupported('C string')
    if o.kind == 'strbuf':
        if p.off != 0:
            raise Unsupported('C string in the middle')
        return gets(eng, st, o.meta['owner'])
    if o.kind == 'global':
        b = bytearray()
        k = p.off
        while True:
            c = eng.load_cell(st, Ptr(p.obj, k), 1, ('i', 8))
            if isz(c):
                raise Unsupported('C string')
            if c == 0:
                return lit(bytes(b))
            b.append(c)
            k += 1
    raise Unsupported('C string in ' + o.kind)


# ---------- vectors and heap
def delete(eng, st, p):
    if not isinstance(p, Ptr):
        raise Unsupported('delete of ' + repr(p))
    if p.null:
        return
    if p.obj not in st.mem:
        raise Unsupported('delete of ' + str(p.obj))
    o = st.w(p.obj)
    if not o.alive:
        eng.ub(st, 'double delete')
    if o.kind in ('alloca', 'global'):
        eng.ub(st, 'delete of a non-heap object')
    h = o.meta.get('ondelete')
    if h:
        h(eng, st, o)
    o.alive = False


BS = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>'


def install(eng):
    H = eng.dispatch = []
    dem = eng.dem

    def reg(rx):
        def d(f):
            eng.patterns.append((re.compile(rx), f))
            return f
        return d

    def on(name):
        def d(f):
            eng.handlers['@' + name] = f
            return f
        return d

    def ret(v):
        return v

    # --- runtime
    @on('_Znwm')
    def new(e, st, a, ins):
        n = a[0]
        return e.new(st, n, 'heap')

    @on('_ZdlPv')
    def dele(e, st, a, ins):
        p = a[0]
        if isinstance(p, Ptr) and not p.null:
            o = st.w(p.obj)
            if not o.alive and not o.meta.get('destroyed'):
                e.ub(st, 'double delete')
            o.alive = False
        return None
    eng.handlers['@_ZdlPvm'] = dele

    @on('__cxa_allocate_exception')
    def cxa(e, st, a, ins):
        return e.new(st, a[0], 'exc')

    @on('__cxa_free_exception')
    def cxaf(e, st, a, ins):
        return None

    @on('__cxa_throw')
    def thr(e, st, a, ins):
        ti = a[1]
        return [('throw', st, a[0], ti.obj[1:])]

    @on('__cxa_begin_catch')
    def bc(e, st, a, ins):
        st.ghost['caught'] = st.ghost.get('caught', ()) + (st.exc,)
        return a[0]

    @on('__cxa_end_catch')
    def ec(e, st, a, ins):
        st.ghost['caught'] = st.ghost.get('caught', ())[:-1]
        return None

    @on('__cxa_rethrow')
    def rt(e, st, a, ins):
        p, ti = st.ghost['caught'][-1]
        return [('throw', st, p, ti)]

    @on('abort')
    def ab(e, st, a, ins):
        e.ub(st, 'abort reached')

    @on('__cxa_pure_virtual')
    def pv(e, st, a, ins):
        e.ub(st, 'pure virtual call')

    @on('__clang_call_terminate')
    def ct(e, st, a, ins):
        e.ub(st, 'exception escapes a noexcept function')
    eng.handlers['@_ZSt9terminatev'] = ct

    # --- exceptions of the interpreter: construction has no effect on the state
    @reg(r'^PSC::\w*Error::\w*Error\(')
    def err(e, st, a, ins):
        d = e.dem.get(ins.a['f'][1], ins.a['f'][1])
        st.ghost['lasterr'] = (d.split('::')[1], tuple(a))
        st.w(a[0].obj).meta['err'] = (d.split('::')[1], d, tuple(a))
        return None

    @reg(r'^PSC::\w*Error::~\w*Error\(|^PSC::Error::~')
    def errd(e, st, a, ins):
        return None

    # --- allocators
    @reg(r'^std::(__new_)?allocator<.*>::~?(__new_)?allocator(<.*>)?\(|^std::__new_allocator<.*>::~?__new_allocator')
    def alloc(e, st, a, ins):
        return None

    @reg(r'^(void )?std::default_delete<.*>::operator\(\)\(.*\) const$')
    def dd(e, st, a, ins):
        delete(e, st, a[1])
        return None

    # --- std::string
    @reg('^' + re.escape(BS) + '::')
    def string(e, st, a, ins):
        d = e.dem[e.curname][len(BS) + 2:]
        return strmethod(e, st, a, ins, d)

    @reg(r'^' + re.escape(BS) + r' std::operator\+<')
    def plus(e, st, a, ins):
        d = e.dem[e.curname]
        sig = d[d.index('>(', d.index('operator+<')) + 2:-1] if '>(' in d else ''
        x, y = splitargs(sig)
        puts(e, st, a[0], concat(sarg(e, st, x, a[1]), sarg(e, st, y, a[2])))
        return None

    @reg(r'^bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char>>\(')
    def seqop(e, st, a, ins):
        d = e.dem[e.curname]
        x, y = splitargs(d[d.index('allocator<char>>(') + 17:-1])
        r = seq(sarg(e, st, x, a[0]), sarg(e, st, y, a[1]))
        if r is None:
            r = boolean('streq')
            st.approx += ('equality of computed strings',)
        if 'operator!=' in d:
            r = z3.Not(r)
        return norm(z3.simplify(r), ('i', 1))

    @reg(r'^std::__cxx11::to_string\((\w+ ?\w*)\)')
    def tos(e, st, a, ins):
        d = e.dem[e.curname]
        t = d[d.index('(') + 1:-1]
        if t == 'double':
            id = FTOS(a[1])
            # the notation ends in digits after a point, or is inf or nan: never all zeros
            st.pc.append(FLNO(id, z3.BitVecVal(48, 8)) != NPOS)
        elif t in ('int', 'long'):
            x = a[1]
            if not isz(x):
                x = z3.BitVecVal(sgn(x, 32 if t == 'int' else 64) & mask(64), 64)
            elif x.size() < 64:
                x = z3.SignExt(64 - x.size(), x)
            id = DEC(x)
        elif t in ('unsigned int', 'unsigned long'):
            x = a[1]
            if isz(x) and x.size() < 64:
                x = z3.ZeroExt(64 - x.size(), x)
            id = DEC(b64(x))
        else:
            raise Unsupported('to_string ' + t)
        st.pc.append(z3.And(z3.ULT(LEN(id), 400), z3.UGE(LEN(id), 1)))
        puts(e, st, a[0], S(LEN(id), lambda i: AT(id, i), id))
        return None

    @reg(r'^std::__cxx11::(stol|stoul|stoi|stoll|stod)\(')
    def stox(e, st, a, ins):
        d = e.dem[e.curname]
        s = gets(e, st, a[0])
        out = []
        for ti in ('@_ZTISt16invalid_argument', '@_ZTISt12out_of_range'):
            f = st.fork()
            out.append(('throw', f, e.new(f, 16, 'exc'), ti))
        v = STOD(s.id) if 'stod' in d else STOL(s.id)
        if 'stoi' in d:
            v = z3.Extract(31, 0, v)
        out.append(('ret', st, v))
        return out

    @reg(r'^@?(strtol|__isoc23_strtol|strtod)$')
    def strtox(e, st, a, ins):
        s = cstr(e, st, a[0])
        d = 'strtod' in e.curname
        if isinstance(a[1], Ptr) and not a[1].null:
            end = (STODEND if d else STOLEND)(s.id)
            st.pc.append(z3.ULE(end, s.length()))
            e.put(st, a[1], Ptr(a[0].obj, end), 8)
        if not d and (isz(a[2]) or a[2] != 10):
            raise Unsupported('strtol with another base')
        return (STOD if d else STOL)(s.id)

    @on('__errno_location')
    def errno(e, st, a, ins):
        if 'errno' not in st.mem:
            o = Obj('errno', 4, 'heap')
            o.lazy = lambda eng, s, ob, off, ty: bv('errno', 32)
            st.add(o)
        return Ptr('errno', 0)

    # --- streams: an event per inserted item
    @reg(r'^(std::)?(basic_)?ostream(<char, std::char_traits<char>>)?(&|::operator<<)|^std::basic_ostream<char, std::char_traits<char>>& std::operator<<|^std::ostream& std::ostream::_M_insert')
    def out(e, st, a, ins):
        d = e.dem[e.curname]
        s = a[0]
        sig = splitargs(d[d.rindex('(', 0, len(d)) + 1:-1]) if '(*)' not in d else ['manip']
        item = None
        if '(*)(' in d:
            item = ('manip', a[1].name if isinstance(a[1], FnPtr) else None)
        elif 'basic_string' in d.split('operator<<', 1)[1]:
            item = ('str', gets(e, st, a[1]))
        elif 'char const*' in d:
            item = ('str', cstr(e, st, a[1]))
        elif re.search(r'[(,] ?char\)$', d):
            item = ('char', a[1])
        else:
            m = re.search(r'\(([a-z ]+)\)$', d)
            if m:
                item = (m.group(1), a[1])
            elif 'setprecision' in d.lower():
                item = ('manip', 'precision', a[1])
            else:
                raise Unsupported('stream insertion ' + d[:120])
        e.event(st, 'out', stream=s, item=item)
        written(e, st, s, item)
        return s

    # --- string streams: the text of what was inserted
    @reg(r'^std::__cxx11::basic_o?stringstream<char, std::char_traits<char>, std::allocator<char>>::')
    def oss(e, st, a, ins):
        d = e.dem[e.curname].rsplit('>::', 1)[1]
        if d in ('basic_ostringstream()', 'basic_stringstream()'):
            st.ghost['text'] = dict(st.ghost.get('text', {}), **{skey(a[0]): (lit(b''), 6)})
            return None
        if d.startswith('~'):
            return None
        if d.startswith('str() const'):
            if skey(a[1]) not in st.ghost.get('text', {}):
                raise Unsupported('string stream')
            puts(e, st, a[0], st.ghost['text'][skey(a[1])][0])
            return None
        raise Unsupported('string stream ' + d)

    @reg(r'^std::ostream::(flush|put)\(|^std::basic_ostream<char, std::char_traits<char>>& std::(endl|flush)<')
    def flush(e, st, a, ins):
        d = e.dem[e.curname]
        if '::put(' in d:
            e.event(st, 'out', stream=a[0], item=('char', a[1]))
            written(e, st, a[0], ('char', a[1]))
        elif 'endl' in d:
            e.event(st, 'out', stream=a[0], item=('manip', '@endl'))
            written(e, st, a[0], ('char', 10))
        return a[0]

    # --- math
    @on('floor')
    def floor(e, st, a, ins):
        return z3.fpRoundToIntegral(z3.RTN(), a[0])

    @on('modf')
    def modf(e, st, a, ins):
        i = z3.fpRoundToIntegral(z3.RTZ(), a[0])
        e.put(st, a[1], i, 8)
        r = z3.fpSub(RNE, a[0], i)
        whole = z3.Or(z3.fpIsInf(a[0]), z3.fpEQ(i, a[0]))
        st.pc.append(z3.Or(whole, z3.Not(z3.fpIsZero(r))))   # a fact of binary64: a difference is zero between equals only
        return z3.If(whole, z3.fpZero(F64, False), r)

    for f in ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'log', 'log10', 'exp', 'ceil', 'round', 'trunc', 'tgamma', 'lgamma', 'abs', 'log2'):
        uf = z3.Function('libm_' + f, F64, F64)
        eng.handlers['@' + f] = (lambda uf: lambda e, st, a, ins: uf(a[0]))(uf)
    pw = z3.Function('libm_pow', F64, F64, F64)
    at2 = z3.Function('libm_atan2', F64, F64, F64)
    eng.handlers['@pow'] = lambda e, st, a, ins: pw(a[0], a[1])
    eng.handlers['@atan2'] = lambda e, st, a, ins: at2(a[0], a[1])

    def ctype(f):
        def h(e, st, a, ins):
            c = a[0]
            return f(c)
        return h

    def rng(c, lo, hi):
        return z3.And(c >= lo, c <= hi)

    def up(c):
        c = c if isz(c) else z3.BitVecVal(c, 32)
        return norm(z3.simplify(z3.If(rng(c, 97, 122), c - 32, c)), ('i', 32))

    def lo(c):
        c = c if isz(c) else z3.BitVecVal(c, 32)
        return norm(z3.simplify(z3.If(rng(c, 65, 90), c + 32, c)), ('i', 32))

    def isdig(c):
        c = c if isz(c) else z3.BitVecVal(c, 32)
        return norm(z3.simplify(z3.If(rng(c, 48, 57), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))), ('i', 32))
    eng.handlers['@toupper'], eng.handlers['@tolower'], eng.handlers['@isdigit'] = ctype(up), ctype(lo), ctype(isdig)

    @on('__dynamic_cast')
    def dyn(e, st, a, ins):
        p = a[0]
        if p.null:
            return NULL
        src, dst = e.alias(a[1].obj[1:]), e.alias(a[2].obj[1:])
        o = st.mem[p.obj]
        vt = e.load_cell(st, p, 8, ('ptr',))
        if not isinstance(vt, Ptr) or not vt.obj.startswith('@@_ZTV'):
            h = e.virt.get(('dynamic_cast', o.cls))
            if h is None:
                raise Unsupported('dynamic_cast of an abstract object')
            return h(e, st, p, dst)
        ti = '@_ZTI' + vt.obj[6:]
        return p if e.derives(ti, dst) else NULL

    @on('__cxa_guard_acquire')
    def ga(e, st, a, ins):
        return 0


def skey(p):
    return '%s+%s' % (p.obj, p.off)


RTEXT = z3.Function('rtext', z3.BitVecSort(32), F64, STRSORT)       # text of a REAL with a given number of significant digits


def item_string(st, item, precision=6):
    """text an insertion adds"""
    k, v = item[0], item[1]
    if k == 'str':
        return v
    if k == 'char':
        return char1(v)
    if k == 'double':
        id = RTEXT(b32(precision), v)
    elif k in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'unsigned short'):
        n = {'int': 32, 'unsigned int': 32, 'short': 16, 'unsigned short': 16}.get(k, 64)
        if isz(v):
            x = v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v) if k.startswith('uns') else z3.SignExt(64 - v.size(), v)
        else:
            x = z3.BitVecVal(v & mask(n) if k.startswith('uns') else sgn(v, n), 64)
        id = DEC(z3.simplify(x))
    else:
        return None
    st.pc.append(z3.And(z3.ULT(LEN(id), 400), z3.UGE(LEN(id), 1)))
    return S(LEN(id), lambda i: AT(id, i), id)


def b32(x):
    return x if isz(x) else z3.BitVecVal(x, 32)


def written(e, st, s, item):
    t = st.ghost.get('text', {})
    k = skey(s)
    if k not in t:
        return
    x, prec = t[k]
    if item[0] == 'manip':
        if 'precision' in str(item[1]):
            t = dict(t, **{k: (x, item[2])})
        elif 'endl' in str(item[1]):
            t = dict(t, **{k: (concat(x, char1(10)), prec)})
        elif 'flush' in str(item[1]):
            return
        else:
            raise Unsupported('manipulator of a string stream')
    else:
        y = item_string(st, item, prec)
        if y is None:
            raise Unsupported('insertion into a string stream')
        t = dict(t, **{k: (concat(x, y), prec)})
    st.ghost['text'] = t


def splitargs(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def sarg(e, st, t, v):
    """string value of an operand of declared type t"""
    if t == 'char':
        return char1(v)
    if 'char const*' in t and 'basic_string' not in t:
        return cstr(e, st, v)
    return gets(e, st, v)


def strmethod(e, st, a, ins, d):
    m = d.split('(', 1)[0]
    sig = splitargs(d[d.index('(') + 1:d.rindex(')')])
    if sig == ['']:
        sig = []
    this = a[0]
    m = re.sub(r'<.*>$', '', m)
    i64 = ('i', 64)
    if m == '~basic_string':
        return None
    if m == 'basic_string':
        if not sig or sig == ['std::allocator<char> const&']:
            s = lit(b'')
        elif sig[0].startswith(BS):
            s = gets(e, st, a[1])
            if len(sig) >= 2 and sig[1] == 'unsigned long':
                raise Unsupported('substring constructor')
            if sig[0].endswith('&&'):
                puts(e, st, a[1], lit(b''))
        elif sig[0] == 'char const*':
            if len(sig) > 1 and sig[1] == 'unsigned long':
                raise Unsupported('string from a buffer')
            s = cstr(e, st, a[1])
        elif sig[0] == 'unsigned long' and sig[1] == 'char':
            c = a[2]
            s = S(a[1], lambda i: b8(c))
        elif sig[0] == 'char*' or '__normal_iterator' in sig[0]:
            s = opaque(st)
            st.approx += ('string from iterators',)
        else:
            raise Unsupported('string constructor ' + d)
        puts(e, st, this, s)
        return None
    if m == 'substr':
        src = gets(e, st, a[1])
        pos, cnt = a[2], a[3]
        if not e.decide(st, z3.ULE(b64(pos), src.length())):
            return [('throw', st, e.new(st, 16, 'exc'), '@_ZTISt12out_of_range')]
        rest = src.length() - b64(pos)
        k = norm(z3.simplify(z3.If(z3.ULT(b64(cnt), rest), b64(cnt), rest)), i64)
        puts(e, st, a[0], substr(src, pos, k))
        return None
    s = gets(e, st, this)
    n = s.length()
    ln = lambda: norm(z3.simplify(n), i64)
    if m in ('size', 'length'):
        return ln()
    if m == 'empty':
        return norm(z3.simplify(n == 0), ('i', 1))
    if m == 'starts_with' and sig == ['char']:
        return z3.simplify(z3.And(n != 0, s.char(0) == b8(a[1])))
    if m == 'ends_with' and sig == ['char']:
        return z3.simplify(z3.And(n != 0, s.char(z3.simplify(n - 1)) == b8(a[1])))
    if m in ('operator[]', 'at'):
        if m == 'at':
            if not e.decide(st, z3.ULT(b64(a[1]), n)):
                return [('throw', st, e.new(st, 16, 'exc'), '@_ZTISt12out_of_range')]
        b = buffer(e, st, this)
        return Ptr(b.obj, a[1])
    if m in ('back', 'front'):
        e.safety(st, '%s() of a non-empty string' % m, n != 0)
        b = buffer(e, st, this)
        return Ptr(b.obj, 0 if m == 'front' else norm(z3.simplify(n - 1), i64))
    if m in ('c_str', 'data', 'begin', 'cbegin'):
        return buffer(e, st, this)
    if m in ('end', 'cend'):
        return Ptr(buffer(e, st, this).obj, ln())
    if m in ('operator=', 'assign'):
        x = sarg(e, st, sig[0], a[1])
        if len(sig) > 1:
            raise Unsupported('string ' + d)
        if sig[0].endswith('&&') and not (a[1].obj == this.obj and a[1].off is this.off):
            puts(e, st, a[1], lit(b''))
        puts(e, st, this, x)
        return this
    if m in ('operator+=', 'append', 'push_back'):
        if len(sig) > 1:
            raise Unsupported('string ' + d)
        x = sarg(e, st, sig[0], a[1])
        puts(e, st, this, concat(s, x))
        if st.mem[this.obj].kind == 'vec':
            e.event(st, 'strappend', at=this, what=x)
        elif 'appends' in st.ghost:
            e.event(st, 'append', at=this, what=x, was=s)
        return this if m != 'push_back' else None
    if m == 'pop_back':
        e.safety(st, 'pop_back() of a non-empty string', n != 0)
        puts(e, st, this, substr(s, 0, norm(z3.simplify(n - 1), i64)))
        return None
    if m == 'clear':
        puts(e, st, this, lit(b''))
        return None
    if m == 'reserve':
        return None
    if m == 'resize':
        k = a[1]
        c = a[2] if len(a) > 2 else 0
        puts(e, st, this, S(k, lambda i: z3.If(z3.ULT(b64(i), n), s.char(i), b8(c))))
        return None
    if m == 'erase':
        if sig and sig[0] == 'unsigned long':
            pos, cnt = a[1], a[2]
            if not e.decide(st, z3.ULE(b64(pos), n)):
                return [('throw', st, e.new(st, 16, 'exc'), '@_ZTISt12out_of_range')]
            rest = n - b64(pos)
            k = z3.If(z3.ULT(b64(cnt), rest), b64(cnt), rest)
            nl = norm(z3.simplify(n - k), i64)
            puts(e, st, this, S(nl, lambda i: z3.If(z3.ULT(b64(i), b64(pos)), s.char(i), s.char(z3.simplify(b64(i) + k)))))
            return this
        raise Unsupported('string ' + d)
    if m == 'compare':
        x = sarg(e, st, sig[-1], a[-1])
        if len(sig) > 1:
            raise Unsupported('string ' + d)
        r = seq(s, x)
        if r is None:
            r = boolean('streq')
            st.approx += ('equality of computed strings',)
        o = bv('order', 32)
        st.pc.append(o != 0)
        return z3.simplify(z3.If(r, z3.BitVecVal(0, 32), o))
    if m in ('find', 'find_last_not_of', 'find_first_of', 'find_first_not_of', 'rfind', 'find_last_of'):
        r = bv(m)
        if sig[0] == 'char' and m == 'find_last_not_of' and (len(a) < 3 or a[2] == NPOS):
            c = b8(a[1])
            r = FLNO(s.id, c)
            st.pc.append(z3.Or(r == NPOS, z3.And(z3.ULT(r, n), s.char(r) != c)))
            k = st.ghost.get('K')
            if k is not None:
                st.pc.append(z3.Implies(z3.And(z3.ULT(k, n), z3.Or(r == NPOS, z3.UGT(k, r))), s.char(k) == c))
        elif sig[0] == 'char' and m == 'find':
            c = b8(a[1])
            st.pc.append(z3.Or(r == NPOS, z3.And(z3.ULT(r, n), s.char(r) == c)))
            k = st.ghost.get('K')
            if k is not None:
                first = b64(a[2]) if len(a) > 2 else z3.BitVecVal(0, 64)
                st.pc.append(z3.Or(r == NPOS, z3.UGE(r, first)))
                st.pc.append(z3.Implies(z3.And(z3.ULT(k, n), z3.UGE(k, first), z3.Or(r == NPOS, z3.ULT(k, r))), s.char(k) != c))
            st.approx += ('extremality of ' + m,)
        elif m == 'find_first_of' and len(sig) <= 2 and 'char' in sig[0]:
            r = FFO(s.id, sarg(e, st, sig[0], a[1]).id)
            st.pc.append(z3.Or(r == NPOS, z3.ULT(r, n)))
        else:
            st.pc.append(z3.Or(r == NPOS, z3.ULT(r, n)))
            st.approx += ('result of ' + m,)
        return r
    raise Unsupported('string method ' + d)
