"""Diagnostics: what they say, and where (C11, C20)."""
from .base import *
from .base import _Cur
from .p03 import Auto
from .p05 import str_obj
from .p07 import CTX, raw, drop
from .. import vec

RE = 'PSC::RuntimeError'
STRP = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
PSF = '@_Z10psfilenameB5cxx11'


def flat(items):
    """what was written, with adjacent literal text merged"""
    out = []
    for it in items:
        if it[0] == 'str' and it[1].lit is not None:
            it = ('lit', it[1].lit)
        elif it[0] == 'char' and not isz(it[1]):
            it = ('lit', bytes([it[1] & 255]))
        if it[0] == 'lit':
            if not it[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + it[1])
                continue
        out.append(it)
    return out


def same_items(c, st, what, got, want):
    got, want = flat(got), flat(want)
    if [x[0] if x[0] == 'lit' else None for x in got] != [x[0] if x[0] == 'lit' else None for x in want]:
        return c.ok(st, what, False)
    g = []
    for x, y in zip(got, want):
        if x[0] == 'lit':
            g.append(z3.BoolVal(x[1] == y[1]))
        elif x[0] == 'str' and y[0] == 'str':
            g.append(lib.seq(x[1], y[1]) if x[1] is not y[1] else z3.BoolVal(True))
        elif x[0] == y[0]:
            n = x[1].size() if isz(x[1]) else 32
            g.append(bvt(x[1], n) == bvt(y[1], n))
        else:
            g.append(z3.BoolVal(False))
    c.ok(st, what, z3.And(*g) if g else True)


def source_name(c, st):
    s = lib.opaque(st, name='filename')
    lib.puts(c.e, st, c.e.gobj(st, PSF), s)
    return s


L = lambda s: ('str', lib.lit(s))


def own_stream(c):
    """what a text stream of the function collected is what the specification saw being inserted"""
    c.e.handlers['@_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv'] = lambda e, st, a, ins: take(c, e, st, a)

    def sstr(e, st, a, ins):
        return take(c, e, st, a)
    c.handler(r'^std::__cxx11::basic_o?stringstream<.*>::str\(\) const', sstr)


def take(c, e, st, a):
    s = lib.opaque(st, name='text')
    e.event(st, 'str', stream=a[1], s=s)
    lib.puts(e, st, a[0], s)
    return None


# ---------------------------------------------------------------- runtime errors: the traceback
class Trace(Auto):
    """t.q scopes are dealt with; pending: what was written since"""
    pending = ()
    at = None
    text = None

    def where(self, eng, st, name, tok):
        w = eng.c.w
        return [('str', name), L(', line '), ('int', w.peek(st, tok, 'line', 'Token')), L(', column '), ('int', w.peek(st, tok, 'column', 'Token'))]

    def on(self, eng, st, kind, d):
        c, w = eng.c, eng.c.w
        if kind == 'visit':
            self.settle(eng, st)
            c.ok(st, 'the callers are visited in order, innermost first', d['idx'] == self.t['q'])
            self.t = dict(q=z3.simplify(self.t['q'] + 1))
            self.at = d['token']
            self.idx = d['idx']
            if d['token'].null:
                self.at = None
        elif kind == 'out':
            if d['item'][0] == 'manip':
                return c.ok(st, 'the text is not formatted', False)
            self.pending = self.pending + (d['item'],)
            n = len(flat(self.pending))
            if self.at is not None and n == 6:
                self.settle(eng, st)
        elif kind == 'str':
            self.settle(eng, st)
            c.ok(st, 'every caller is named', self.t['q'] == self.n)
            self.text = d['s']

    def settle(self, eng, st):
        """what was written since the last scope"""
        c, w = eng.c, eng.c.w
        if not self.begun:
            self.begun = True
            want = [('str', self.type), L(' in file '), ('str', self.file)]
            if eng.decide(st, self.info.length() != 0):
                want += [L(':\n'), ('str', self.info)]
            same_items(c, st, 'the message, and the place of the failing statement', self.pending, want + [L('\n\nTraceback:\n')] + self.where(eng, st, self.name(eng, st, z3.BitVecVal(0, 64)), self.tok))
        elif self.at is not None:
            same_items(c, st, 'a call site is named on a line of its own', self.pending, [L('\n')] + self.where(eng, st, self.name(eng, st, self.idx), self.at))
        else:
            c.ok(st, 'nothing else is written', not self.pending)
        self.pending, self.at, self.idx = (), None, None

    def name(self, eng, st, i):
        L_ = eng.c.w.L
        return lib.gets(eng, st, Ptr(self.chain.obj, z3.simplify(i * L_.size(CTX) + L_.off(CTX, 'name'))))


def trace_contracts(c):
    own_stream(c)
    drop(c, r'PSC::\w*Error::\w*Error')

    def switch(st, o, idx):
        i = lib.b64(idx)
        act = z3.Function('active', z3.BitVecSort(64), z3.BoolSort())(i)
        p = c.w.new(st, 'Token') if c.e.decide(st, act) else NULL
        c.e.event(st, 'visit', idx=i, token=p)
        return p
    c.w.over[(CTX, 'switchToken@')] = switch


@target('C11', '%s::RuntimeError(Token const&, PSC::Context const&, %s)' % (RE, STRP), contracts=trace_contracts, cover=['made'])
class Traceback:
    """the traceback names the place of the statement in its own scope, then the call site in each calling scope that is executing a call"""
    def setup(self, c):
        w = c.w
        st = c.state()
        p, tok, info = raw(c, st, RE), w.new(st, 'Token'), str_obj(st, 'info', 'info')
        ch = w.chain(st)
        sp = st.spec = Trace('trace', q=z3.BitVecVal(1, 64))
        sp.begun, sp.idx, sp.chain, sp.tok, sp.n = False, None, ch, tok, st.mem[ch.obj].meta['n']
        source_name(c, st)
        sp.type, sp.info, sp.file = lib.lit('Runtime Error'), lib.gets(c.e, st, info), lib.gets(c.e, st, c.e.gobj(st, PSF))
        st.ghost.update(p=p, tok=tok, ch=ch)
        yield st, [p, tok, ch, info]

    def post(self, c, st, out):
        g, w, sp = st.ghost, c.w, st.spec
        c.ok(st, 'an error is made', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('made')
        P = lambda x: w.peek(st, g['p'], x, RE)
        c.ok(st, 'the text is kept', sp.text is not None and P('rtInfo') is sp.text or (sp.text is not None and lib.seq(P('rtInfo'), sp.text)))
        c.ok(st, 'with the place', P('token').obj == g['tok'].obj)
        c.ok(st, 'and the scope', P('context').obj == g['ch'].obj)


# ---------------------------------------------------------------- the other errors: each keeps the place (and scope) it was made with
SIGS = {
    'InvalidUsageError': ('RuntimeError', [STRP]), 'TypeOperationError': ('RuntimeError', [STRP]), 'RedeclarationError': ('RuntimeError', [STRP]),
    'RedefinitionError': ('RuntimeError', [STRP]), 'ConstAssignError': ('RuntimeError', [STRP]), 'NotDefinedError': ('RuntimeError', [STRP, STRP]),
    'TypeNotDefinedError': ('RuntimeError', [STRP]), 'ArrayDirectAccessError': ('RuntimeError', []), 'ConditionTypeError': ('RuntimeError', []),
    'InvalidArgsError': ('RuntimeError', ['std::vector<PSC::DataType, std::allocator<PSC::DataType>>&&'] * 2), 'FileNotOpenError': ('RuntimeError', [STRP]),
    'PedanticError': ('Error', [STRP]), 'SyntaxError': ('Error', [STRP]), 'ExpectedTokenError': ('Error', [STRP]),
}
KINDS_OF = {'PedanticError': 'Error(pedantic)', 'SyntaxError': 'Syntax Error', 'ExpectedTokenError': 'Syntax Error'}


def error_contracts(c):
    drop(c, r'PSC::\w*Error::\w*Error')
    e, H = c.e, c.handler

    def rte(e, st, a, ins):
        e.event(st, 'rte', p=a[0], token=a[1], ctx=a[2])
        return None
    H(r'^PSC::RuntimeError::RuntimeError\(', rte)

    def text(e, st, a, ins):
        lib.puts(e, st, a[0], lib.opaque(st, name='message'))
        return None
    def token(e, st, a, ins):
        e.event(st, 'out', stream=a[0], item=('token', a[1]))
        return a[0]
    H(r'^operator<<\(std::ostream&, Token', token)

    H(r'^(conditionTypeErrorMessage|invalidArgsErrorMessage|getTypeHint)\(', text)


def error_class(cls, base, extra):
    class T:
        def setup(self, c):
            w = c.w
            st = c.state()
            p, tok = raw(c, st, 'PSC::' + cls), w.new(st, 'Token')
            ctx = w.new(st, CTX)
            st.ghost.update(p=p, tok=tok, ctx=ctx)
            a = [p, tok] + ([ctx] if base == 'RuntimeError' else [])
            for i, x in enumerate(extra):
                if x == STRP:
                    a.append(str_obj(st, 'text%d' % i, 'text%d' % i))
                else:
                    a.append(c.e.new(st, 24, 'heap'))
                    for k in (0, 8, 16):
                        c.e.put(st, c.e.gep_off(a[-1], k), NULL, 8)
            yield st, a

        def post(self, c, st, out):
            g, w = st.ghost, c.w
            c.ok(st, 'an error is made', out[0] == 'ret')
            if out[0] != 'ret':
                return
            c.cover('made')
            if base == 'RuntimeError':
                ev = [d for k, d in c.events(st, 'rte')]
                c.ok(st, 'with the place and the scope given', len(ev) == 1 and ev[0]['p'].obj == g['p'].obj and ev[0]['token'].obj == g['tok'].obj and ev[0]['ctx'].obj == g['ctx'].obj)
            else:
                P = lambda x: w.peek(st, g['p'], x, 'PSC::' + cls)
                c.ok(st, 'with the place given', P('token').obj == g['tok'].obj)
                c.ok(st, 'and its kind', lib.seq(P('type'), lib.lit(KINDS_OF[cls])))
    T.__name__ = cls
    target('C11' + (' C20' if cls == 'PedanticError' else ''), 'PSC::%s::%s(Token const&, %s)' % (cls, cls, ', '.join((['PSC::Context const&'] if base == 'RuntimeError' else []) + extra)) if base == 'RuntimeError' or extra else '',
           contracts=error_contracts, cover=['made'])(T)


for _k, (_b, _x) in SIGS.items():
    error_class(_k, _b, _x)


# ---------------------------------------------------------------- the text of syntax errors, and printing
class Text(Auto):
    pending = ()
    text = None

    def on(self, eng, st, kind, d):
        if kind == 'out':
            self.pending += (d['item'],)
        elif kind == 'str':
            self.text = d['s']


@target('C11 C20', 'PSC::Error::toStr[abi:cxx11]() const', contracts=own_stream, cover=['info', 'no info'])
class ErrorText:
    """<kind> on line <line>, column <column> of <file>[:\\n<message>]"""
    def setup(self, c):
        st = c.state()
        w = c.w
        p = w.new(st, 'PSC::Error')
        st.spec = Text('text')
        r = c.e.new(st, 32, 'alloca', name='text')
        st.ghost.update(p=p, r=r, file=source_name(c, st))
        yield st, [r, p]

    def post(self, c, st, out):
        g, w, sp = st.ghost, c.w, st.spec
        c.ok(st, 'the text is made', out[0] == 'ret' and sp.text is not None)
        if out[0] != 'ret' or sp.text is None:
            return
        P = lambda x: w.peek(st, g['p'], x, 'PSC::Error')
        tok = P('token')
        want = [('str', P('type')), L(' on line '), ('int', w.peek(st, tok, 'line', 'Token')), L(', column '), ('int', w.peek(st, tok, 'column', 'Token')), L(' of '), ('str', g['file'])]
        if c.e.decide(st, P('info').length() != 0):
            c.cover('info')
            want += [L(':\n'), ('str', P('info'))]
        else:
            c.cover('no info')
        same_items(c, st, 'the kind of error, the line, the column, the file and the message', sp.pending, want)
        c.ok(st, 'is the result', lib.seq(lib.gets(c.e, st, g['r']), sp.text))


@target('C11', 'PSC::RuntimeError::toStr[abi:cxx11]() const', cover=['same'])
class RuntimeErrorText:
    def setup(self, c):
        st = c.state()
        p = c.w.new(st, RE)
        r = c.e.new(st, 32, 'alloca', name='text')
        st.ghost.update(p=p, r=r)
        yield st, [r, p]

    def post(self, c, st, out):
        c.ok(st, 'the text is made', out[0] == 'ret')
        if out[0] == 'ret':
            c.cover('same')
            c.ok(st, 'when the error was', lib.seq(lib.gets(c.e, st, st.ghost['r']), c.w.peek(st, st.ghost['p'], 'rtInfo', RE)))


def print_contracts(c):
    def tostr(e, st, a, ins):
        s = lib.opaque(st, name='text')
        e.event(st, 'tostr', p=a[1], s=s)
        lib.puts(e, st, a[0], s)
        return None
    c.e.virt[('PSC::Error', 'toStr')] = tostr
    c.handler(r'^PSC::(Runtime)?Error::toStr\[', tostr)


@target('C11 C20', 'PSC::Error::print(std::ostream&) const', contracts=print_contracts, cover=['printed'])
class PrintError:
    def setup(self, c):
        st = c.state()
        p = c.w.new(st, 'PSC::Error')
        os = c.e.gobj(st, '@_ZSt4cerr')
        st.ghost.update(p=p, os=os)
        yield st, [p, os]

    def post(self, c, st, out):
        c.ok(st, 'printing completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('printed')
        ts = [d for k, d in c.events(st, 'tostr')]
        ev = [d for k, d in c.events(st, 'out')]
        c.ok(st, 'to the stream given', all(d['stream'].obj == st.ghost['os'].obj for d in ev))
        items = [d['item'] for d in ev if d['item'][0] != 'manip']
        c.ok(st, 'its text, and a line break', len(ts) == 1 and len(items) >= 1 and items[0][0] == 'str' and (len(ev) == 2 or flat(items)[-1] == ('lit', b'\n')))
        if len(ts) == 1 and items and items[0][0] == 'str':
            c.ok(st, 'once', z3.And(lib.seq(items[0][1], ts[0]['s']), z3.BoolVal(len(items) == 1)))
