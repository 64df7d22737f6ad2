"""Contracts of file streams (trusted): what is opened, read, written and closed is recorded as events; whether the system
succeeds is unknown, and the stream tells (is_open, good, fail)."""
import re
import z3
from .exec import *
from .exec import norm, number
from . import lib
from .ir import Unsupported

IN, OUT, APP, TRUNC, ATE, BINARY = 8, 16, 1, 32, 2, 4


def info(st, p):
    return st.ghost.get('fs', {}).get(p.obj, {})


def setinfo(st, p, **kw):
    fs = dict(st.ghost.get('fs', {}))
    fs[p.obj] = dict(fs.get(p.obj, {}), **kw)
    st.ghost['fs'] = fs


def new_stream(e, st, how, **kw):
    """a stream object: dereferencing its table of virtual bases yields the offset of std::basic_ios"""
    o = Obj('fstream%s' % number(), 520, 'heap', stream_lazy, None)
    o.meta['how'] = how
    p = st.add(o)
    setinfo(st, p, how=how, **dict(dict(open=z3.BoolVal(False)), **kw))
    return p


def stream_lazy(eng, st, o, off, ty):
    if off == 0 and ty[0] == 'ptr':
        return vtable(st, o.meta['how'])
    raise Unsupported('access inside a stream')


def vtable(st, how):
    k = 'VTS:' + how
    if k not in st.mem:
        v = Obj(k, None, 'vtable', lambda e, s, ob, of, t: 248 if how == 'out' else 256)
        st.add(v)
    return Ptr(k, 64)


def install(eng):
    def reg(rx):
        def d(f):
            eng.patterns.insert(0, (re.compile(rx), f))
            return f
        return d

    def started(e, st, p, how, name, mode):
        b = boolean('isopen')
        e.event(st, 'fopen', stream=p, how=how, name=name, mode=mode, r=b)
        setinfo(st, p, open=b, name=name, mode=mode)
        t = dict(st.ghost.get('text', {}))
        t[lib.skey(Ptr(p.obj, 0))] = (lib.lit(b''), 6)
        st.ghost['text'] = t

    @reg(r'^std::__detail::_MakeUniq<std::basic_[io]fstream<.*>.*std::make_unique<')
    def make(e, st, a, ins):
        d = e.dem[e.curname]
        if not d.endswith('>()'):
            raise Unsupported('stream made with arguments')
        e.put(st, a[0], new_stream(e, st, 'out' if 'basic_ofstream' in d else 'in'), 8)
        return None

    @reg(r'^std::basic_([io])fstream<char, std::char_traits<char>>::(\w+|~\w+)\(')
    def method(e, st, a, ins):
        d = e.dem[e.curname]
        m = re.match(r'^std::basic_([io])fstream<char, std::char_traits<char>>::(~?\w+)\((.*)\)', d)
        how, name, sig = {'i': 'in', 'o': 'out'}[m.group(1)], m.group(2), m.group(3)
        p = a[0]
        if name.startswith('basic_'):
            setinfo(st, p, how=how, open=z3.BoolVal(False))
            e.put(st, p, vtable(st, how), 8)
            if sig:
                started(e, st, p, how, lib.gets(e, st, a[1]) if 'basic_string' in sig else lib.cstr(e, st, a[1]), a[2])
            return None
        if name == 'open':
            started(e, st, p, how, lib.gets(e, st, a[1]) if 'basic_string' in sig else lib.cstr(e, st, a[1]), a[2])
            return None
        if name == 'is_open':
            return info(st, p).get('open', boolean('isopen'))
        if name == 'close' or name.startswith('~'):
            if name == 'close' or info(st, p).get('closed') is None:
                e.event(st, 'fclose', stream=p)
            setinfo(st, p, closed=True, open=z3.BoolVal(False))
            return None
        raise Unsupported('file stream ' + name)

    @reg(r'^std::basic_ios<char, std::char_traits<char>>::(good|fail|eof|bad|operator bool|operator!)\(\) const')
    def state(e, st, a, ins):
        d = e.dem[e.curname]
        w = re.search(r'>>?::(operator bool|operator!|\w+)\(', d).group(1)
        r = boolean(w.replace('operator ', ''))
        e.event(st, 'fstate', stream=a[0], what=w, r=r)
        return r

    # --- reading: what the file holds is unknown; each call yields something arbitrary and is recorded
    @reg(r'^std::istream::(peek|get|seekg|ignore)\(')
    def read1(e, st, a, ins):
        d = e.dem[e.curname]
        w = re.match(r'^std::istream::(\w+)\((.*)\)', d)
        if w.group(1) in ('peek', 'get'):
            if w.group(2):
                raise Unsupported(d)
            r = bv(w.group(1), 32)
            st.pc.append(z3.And(r >= -1, r <= 255))
            e.event(st, w.group(1), stream=a[0], r=r)
            return r
        if w.group(1) == 'seekg':
            e.event(st, 'seekg', stream=a[0], at=a[1:])
            return a[0]
        raise Unsupported(d)

    @reg(r'^std::basic_istream<char, std::char_traits<char>>& std::getline<char, .*>\(std::basic_istream<char, std::char_traits<char>>&, std::__cxx11::basic_string<char, [^&]*>&\)$')
    def getline(e, st, a, ins):
        s = lib.opaque(st, name='line')
        lib.puts(e, st, a[1], s)
        e.event(st, 'getline', stream=a[0], s=s)
        return a[0]

    @reg(r'^std::istream::operator>>\(std::istream& \(\*\)\(std::istream&\)\)')
    def manip(e, st, a, ins):
        e.event(st, 'inmanip', stream=a[0], how=getattr(a[1], 'name', str(a[1])))
        return a[0]

    @reg(r'^std::__cxx11::basic_istringstream<char, std::char_traits<char>, std::allocator<char>>::')
    def iss(e, st, a, ins):
        d = e.dem[e.curname].split('>>::', 1)[1]
        if d.startswith('~'):
            return None
        if d.startswith('basic_istringstream(std::__cxx11::basic_string<char'):
            e.event(st, 'instring', stream=a[0], s=lib.gets(e, st, a[1]))
            return None
        raise Unsupported('string stream ' + d)

    # --- formatted input from known contents: a list of pieces (see `reader`)
    @reg(r'^std::istream::operator>>\((long|int|unsigned int|unsigned long|double|float)&\)|^std::basic_istream<char, std::char_traits<char>>& std::operator>><char, std::char_traits<char>, std::allocator<char>>')
    def extract(e, st, a, ins):
        d = e.dem[e.curname]
        m = re.match(r'^std::istream::operator>>\(([a-z ]+)&\)', d)
        kind = m.group(1) if m else 'string'
        R = Reader(e, st, a[0])
        if kind == 'string':
            w = R.word()
            if w is not None:
                lib.puts(e, st, a[1], w)
        elif kind in ('double', 'float'):
            v = R.real()
            if kind == 'float':
                raise Unsupported(d)
            if v is not None:
                e.put(st, a[1], v, 8)
        else:
            n = 64 if 'long' in kind else 32
            v = R.number(n, 'unsigned' in kind)
            if v is not None:
                e.put(st, a[1], v, n // 8)
        R.done()
        e.event(st, 'extract', stream=a[0], what=kind)
        return a[0]

    base_read, base_state = read1, state

    @reg(r'^std::istream::(peek|get|ignore)\(')
    def read_known(e, st, a, ins):
        if rkey(a[0]) not in st.ghost.get('input', {}):
            return read1(e, st, a, ins)
        d = e.dem[e.curname]
        R = Reader(e, st, a[0])
        w = re.match(r'^std::istream::(\w+)', d).group(1)
        if w == 'ignore':
            if not isinstance(a[1], int) or a[1] != 1:
                raise Unsupported('ignore')
            R.char()
            R.done()
            return a[0]
        if w == 'peek':
            raise Unsupported('peek')
        ch = R.char()
        R.done()
        if ch is None:
            return 0xffffffff
        return norm(z3.simplify(z3.ZeroExt(24, lib.b8(ch))), ('i', 32))

    @reg(r'^std::basic_ios<char, std::char_traits<char>>::(good|fail|eof|bad|operator bool|operator!)\(\) const')
    def state_known(e, st, a, ins):
        k = rkey(a[0])
        if k not in st.ghost.get('input', {}):
            return state(e, st, a, ins)
        w = re.search(r'>>?::(operator bool|operator!|\w+)\(', e.dem[e.curname]).group(1)
        f = st.ghost['input'][k][1]
        if w in ('fail', 'operator!'):
            return 1 if f else 0
        if w == 'operator bool':
            return 0 if f else 1
        raise Unsupported('state ' + w)


def rkey(p):
    return p.obj


def reader(e, st, pieces):
    """an input stream with known contents: a list of ('lit', bytes) ('num', term) ('real', term) ('word', S), ('auto',) where the
    specification says what is read next, ('nested',) what loads of components read, and ('rest',) an unknown rest that begins
    with white space or is nothing.
    Trusted: the decimal text of a number, and the text of a finite REAL with 17 significant digits, read back as the same number."""
    p = new_stream(e, st, 'in')
    d = dict(st.ghost.get('input', {}))
    d[p.obj] = (tuple(pieces), False)
    st.ghost['input'] = d
    return p


def left(st, p):
    return st.ghost['input'][p.obj]


WS = b' \t\n\v\f\r'


class Reader:
    def __init__(self, e, st, p):
        self.e, self.st, self.k = e, st, rkey(p)
        if self.k not in st.ghost.get('input', {}):
            raise Unsupported('input')
        self.p, self.failed = st.ghost['input'][self.k]
        self.p = list(self.p)

    def done(self):
        d = dict(self.st.ghost['input'])
        d[self.k] = (tuple(self.p), self.failed)
        self.st.ghost['input'] = d

    def skip(self):
        while self.p and self.p[0][0] == 'lit':
            t = self.p[0][1].lstrip(WS)
            if t:
                self.p[0] = ('lit', t)
                return
            self.p.pop(0)

    def ends(self):
        """what follows is white space or nothing"""
        return not self.p or self.p[0][0] == 'rest' or (self.p[0][0] == 'lit' and self.p[0][1][:1] in [bytes([x]) for x in WS])

    def word(self):
        if self.failed:
            return None
        self.skip()
        if not self.p:
            self.failed = True
            return None
        k = self.p[0]
        if k[0] == 'lit':
            n = next((i for i, x in enumerate(k[1]) if x in WS), len(k[1]))
            w = k[1][:n]
            if n < len(k[1]):
                self.p[0] = ('lit', k[1][n:])
            else:
                self.p.pop(0)
                if not self.ends():
                    raise Unsupported('word')
            return lib.lit(w)
        if k[0] == 'word':
            self.p.pop(0)
            if not self.ends():
                raise Unsupported('word')
            return k[1]
        raise Unsupported('word')

    def number(self, n, unsigned):
        if self.failed:
            return None          # nothing is stored once the stream has failed
        self.skip()
        if not self.p:
            self.failed = True
            return 0
        k = self.p[0]
        if k[0] == 'num':
            self.p.pop(0)
            if not self.ends():
                raise Unsupported('number')
            x = k[1]                # the number, as 64 bits
            lo, hi = (0, (1 << n) - 1) if unsigned else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
            if n < 64 and not self.e.decide(self.st, z3.And(x >= lo, x <= hi)):
                raise Unsupported('number out of range')
            if unsigned and n == 64 and not k[2:]:
                raise Unsupported('signed text read as an unsigned number')
            return norm(z3.simplify(z3.Extract(n - 1, 0, x) if n < 64 else x), ('i', n))
        if k[0] == 'lit' and k[1][:1] not in [bytes([x]) for x in b'0123456789+-']:
            self.failed = True
            return 0
        raise Unsupported('number')

    def real(self):
        if self.failed:
            return None
        self.skip()
        if self.p and self.p[0][0] == 'real':
            x = self.p.pop(0)[1]
            if not self.ends():
                raise Unsupported('number')
            return x
        if not self.p or (self.p[0][0] == 'lit' and self.p[0][1][:1] not in [bytes([x]) for x in b'0123456789+-.']):
            self.failed = True
            return z3.FPVal(0.0, F64)
        raise Unsupported('number')

    def char(self):
        if self.failed:
            return None
        if not self.p:
            self.failed = True
            return None
        k = self.p[0]
        if k[0] == 'lit':
            self.p[0] = ('lit', k[1][1:])
            if not k[1][1:]:
                self.p.pop(0)
            return k[1][0]
        if k[0] == 'char':
            self.p.pop(0)
            return k[1]
        if k[0] == 'auto':
            return self.st.spec.next(self.e, self.st)
        raise Unsupported('character')
