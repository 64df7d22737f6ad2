"""What surrounds a program: the echo of the REPL, running a file, the command line (C12, C11, C15, C20)."""
import re
from .base import *
from .base import _Cur
from .p02 import evals, node_setup, num_contracts, NUM, error
from .p05 import out_contracts, shown_items, item_text
from .p09 import *
from .. import streams
from .p11 import flat, same_items, PSF

COUT, CERR = '@@_ZSt4cout', '@@_ZSt4cerr'


# ---------------------------------------------------------------- the echo of an expression
def echo_contracts(c):
    out_contracts(c)
    w = c.w

    def valid(e, st, a, ins):
        r = boolean('valid')
        e.event(st, 'valid', p=a[0], ctx=a[1], r=r)
        return r
    c.handler(r'^PSC::Pointer::isValid\(', valid)

    def ptr(st, o, off, ty):
        if c.e.decide(st, st.ghost['isset']):
            return w.variable(st)
        return NULL
    w.over[('PSC::Pointer', 'ptr')] = ptr


@target('C12 C05 C18', 'PSC::Block::runNodeREPL(Node*, PSC::Context&)', contracts=echo_contracts, budget=120,
        cover=['nothing', 'error', 'INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'ENUM', 'POINTER', 'COMPOSITE', 'null', 'valid', 'deleted'])
class Echo:
    def setup(self, c):
        st = c.state()
        st.ghost['isset'] = boolean('isset')
        b = c.w.new(st, 'PSC::Block')
        n = c.w.new(st, 'Node')
        ctx = c.w.new(st, 'PSC::Context')
        st.ghost.update(node=n, ctx=ctx)
        yield st, [b, n, ctx]

    def post(self, c, st, out):
        ev = [x[1] for x in c.events(st, 'eval')]
        if not ev and out[0] == 'throw':
            c.cover('error')
            return c.ok(st, 'an error of the statement is passed on', c.is_runtime_error(out))
        c.ok(st, 'the statement is run, once', out[0] == 'ret' and len(ev) == 1 and ev[0]['node'].obj == st.ghost['node'].obj and ev[0]['ctx'].obj == st.ghost['ctx'].obj)
        if len(ev) != 1 or out[0] != 'ret':
            return
        got = [x[1] for x in c.events(st, 'out')]
        c.ok(st, 'the echo goes to the standard output', all(g['stream'].obj == COUT for g in got))
        items = [g['item'] for g in got if not (g['item'][0] == 'manip' and 'endl' in str(g['item'][1]))]
        ends = [i for i, g in enumerate(got) if g['item'][0] == 'manip']
        k, v = c.orig(st, ev[0]['res'])
        if k == 'NONE':
            c.cover('nothing')
            return c.ok(st, 'a statement without a value is not echoed', not got)
        c.cover(k)
        c.ok(st, 'the line is ended after the value', ends == [len(got) - 1])
        if k in ('CHAR', 'STRING'):
            q = "'" if k == 'CHAR' else '"'
            want = [('lit', q.encode()), ('char', v) if k == 'CHAR' else ('str', v), ('lit', q.encode())]
            return same_items(c, st, 'a %s is shown between quotation marks' % k, items, want)
        if k == 'COMPOSITE':
            return same_items(c, st, 'a record is shown by the name of its type', items, [('str', v[0]), ('lit', b' object')])
        if k == 'ENUM':
            c.ok(st, 'an enumerated value is shown as its type and name', len(items) == 3 and items[0][0] == 'str' and items[1] == ('str', items[1][1]))
            if len(items) == 3 and items[2][0] == 'str':
                same_items(c, st, 'the type is shown first', items[:2], [('str', v[0]), ('lit', b': ')])
                x = shown_items(c, st, ev[0]['res'])[0]
                c.ok(st, 'the echo has ' + x[0], x[1](items[2]))
            return
        if k == 'POINTER':
            val = [x[1] for x in c.events(st, 'valid')]
            rest = None
            if v[1].null:
                c.cover('null')
                rest = ('lit', b'null')
            elif len(val) != 1:
                return c.ok(st, 'a pointer that is set is checked, once', False)
            elif c.e.decide(st, val[0]['r']):
                c.cover('valid')
                rest = ('str', lib.gets(c.e, st, Ptr(v[1].obj, v[1].off + c.w.L.off('PSC::Variable', 'name'))))
            else:
                c.cover('deleted')
                rest = ('lit', b'{DELETED}')
            c.ok(st, 'the pointer is checked in the context of the statement', not val or val[0]['ctx'].obj == st.ghost['ctx'].obj)
            return same_items(c, st, 'a pointer is shown with its type and target', items, [('str', v[0]), ('lit', b': '), rest])
        want = shown_items(c, st, ev[0]['res'])
        c.ok(st, 'the value is shown completely', len(items) == len(want))
        for it, x in zip(items, want):
            c.ok(st, 'the echo has ' + x[0], x[1](it))


# ---------------------------------------------------------------- running a file
LEX_ERR, SYN_ERR, PED_ERR, RTE = ('@_ZTIN3PSC%dE' % 0, '@_ZTIN3PSC11SyntaxErrorE', '@_ZTIN3PSC13PedanticErrorE', '@_ZTIN3PSC12RuntimeErrorE')
FAILS = {'lex': ['@_ZTIN3PSC10LexerErrorE'], 'parse': [SYN_ERR, PED_ERR], 'run': [RTE]}


def console(c, st):
    for n in ('@_ZSt4cout', '@_ZSt4cerr'):
        c.e.put(st, c.e.gobj(st, n), streams.vtable(st, 'out'), 8)


def launch_contracts(c):
    w = c.w

    def fails(e, st, k, out, **kw):
        for ti in FAILS[k]:
            s = st.fork()
            ex = e.new(s, 64, 'exc')
            e.event(s, k + 'error', exc=ex, **kw)
            out.append(('throw', s, ex, ti))

    def lexer(e, st, a, ins):
        st.ghost['lexer'] = a[0]
        st.ghost['source'] = a[1] if len(a) > 1 else None
        return None
    c.handler(r'^Lexer::Lexer\(', lexer)

    def setexpr(e, st, a, ins):
        st.ghost['source'] = a[1]
        st.ghost['tokens'] = None
        return None
    c.handler(r'^Lexer::setExpr\(', setexpr)
    for n in ('Lexer::~Lexer', 'Parser::~Parser'):
        c.handler('^' + re.escape(n) + r'\(', lambda e, st, a, ins: None)

    def make(e, st, a, ins):
        out = []
        src = st.ghost['source']
        kw = dict(lexer=a[1], source=src, text=lib.gets(e, st, src))
        fails(e, st, 'lex', out, **kw)
        v = a[0]
        st.ghost['tokens'] = v
        e.event(st, 'lex', tokens=v, **kw)
        out.append(('ret', st, v))
        return out
    c.handler(r'^Lexer::makeTokens\(', make)

    def parser(e, st, a, ins):
        st.ghost['parser'] = a[0]
        st.ghost['parsing'] = a[1] if len(a) > 1 else None
        return None
    c.handler(r'^Parser::Parser\(|^Parser::setTokens\(', parser)

    def parse(e, st, a, ins):
        out = []
        fails(e, st, 'parse', out, tokens=st.ghost['parsing'])
        b = w.new(st, 'PSC::Block')
        e.event(st, 'parse', tokens=st.ghost['parsing'], block=b)
        out.append(('ret', st, b))
        return out
    c.handler(r'^Parser::parse\(', parse)

    def world(e, st, a, ins):
        p = w.new(st, 'PSC::Context', 'heap', False)
        e.event(st, 'global', ctx=p)
        e.put(st, a[0], p, 8)
        return None
    c.handler(r'^PSC::Context::createGlobalContext\(', world)
    for n in (r'unique_ptr<PSC::Context, .*::~unique_ptr\(', r'vector<Token\*, .*::~vector\('):
        c.handler('^std::' + n, lambda e, st, a, ins: None)

    def run(e, st, a, ins):
        out = []
        cout = e.gobj(st, '@_ZSt4cout').obj
        kw = dict(block=a[0], ctx=a[1], digits=e.load_cell(st, Ptr(cout, 248 + 8), 8, ('int', 64)))
        fails(e, st, 'run', out, **kw)
        e.event(st, 'run', **kw)
        out.append(('ret', st, None))
        return out
    c.e.virt[('PSC::Block', 'run')] = run

    def manager(e, st, a, ins):
        return e.gep_off(a[0], w.L.off('PSC::Context', 'fileManager')) if ('PSC::Context', 'fileManager') in w.over else Ptr(a[0].obj, 0)
    c.handler(r'^PSC::Context::getFileManager\(', manager)

    def closeall(e, st, a, ins):
        r = boolean('closed')
        e.event(st, 'closeall', ctx=a[0], r=r)
        return r
    c.handler(r'^PSC::FileManager::closeAll\(', closeall)

    def show(e, st, a, ins):
        e.event(st, 'print', exc=a[0], stream=a[1])
        return None
    c.handler(r'^PSC::Error::print\(', show)


class Reading(Auto):
    """the text of a file: its lines, each followed by a line break, until the stream says there is no more"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if kind == 'getline':
            c.ok(st, 'every line is used before the next is read', self.mode == 'ready')
            c.ok(st, 'lines are read from the program', d['stream'].obj == self.stream)
            self.line, self.mode = d['s'], 'line'
            self.more = None
        elif kind == 'fopen':
            self.stream = d['stream'].obj
        elif kind == 'fstate':
            good = z3.Not(d['r']) if d['what'] in ('fail', 'operator!', 'eof', 'bad') else d['r']
            self.more = good
        elif kind == 'append':
            if self.mode not in ('line', 'half'):
                return self.bad(eng, st, 'only lines of the file become the text')
            if self.text is not None:
                c.ok(st, 'all lines become one text', self.text.obj == d['at'].obj)
            self.text = d['at']
            x = d['what']
            if self.mode == 'half':
                c.ok(st, 'each line is ended by a line break', lib.textgoal(st, x, lib.lit(b'\n')))
                self.mode = 'ready'
            elif x is self.line or eng.valid(st, lib.textgoal(st, x, self.line)):
                self.mode = 'half'
            else:
                c.ok(st, 'what is added is the line and a line break', lib.textgoal(st, x, lib.concat(self.line, lib.lit(b'\n'))))
                self.mode = 'ready'
        elif kind in ('lex', 'lexerror'):
            c.ok(st, 'every line is used', self.mode == 'ready')
            c.ok(st, 'the file is read until the stream says there is no more', z3.Not(self.more) if self.more is not None else False)
            c.ok(st, 'what was read is what is lexed', self.text is None or d['source'].obj == self.text.obj)
            self.mode = 'done'


def outcome(c, st, ev):
    """(what failed or None, message printed, events of the phases) of one run of a source"""
    return [(k, d) for k, d in ev if k in ('lex', 'parse', 'run', 'lexerror', 'parseerror', 'runerror')]


@target('C12 C11 C10', 'runFile()', contracts=launch_contracts, cover=['missing', 'lexerror', 'parseerror', 'runerror', 'done', 'not closed'])
class RunFile:
    def setup(self, c):
        st = c.state()
        name = lib.opaque(st, name='file')
        lib.puts(c.e, st, c.e.gobj(st, PSF), name)
        console(c, st)
        st.ghost.update(name=name, appends=True)
        st.spec = Reading('ready')
        st.spec.text = st.spec.line = st.spec.stream = st.spec.more = None
        yield st, []

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'running a file ends, and says whether it went well', out[0] == 'ret')
        if out[0] != 'ret':
            return
        ev = c.events(st)
        by = lambda k: [d for x, d in ev if x == k]
        op, shown = by('fopen'), by('out')
        c.ok(st, 'the program is the file named', len(op) == 1 and lib.seq(op[0]['name'], g['name']) if len(op) == 1 else False)
        if len(op) != 1:
            return
        c.ok(st, 'it is opened for reading', op[0]['how'] == 'in')
        good = out[1]
        phases = outcome(c, st, ev)
        if not c.e.decide(st, op[0]['r']):
            c.cover('missing')
            c.ok(st, 'a program that cannot be read is not run', not phases)
            c.ok(st, 'this is told on the error output', bool(shown) and all(d['stream'].obj == CERR for d in shown))
            return c.ok(st, 'and is a failure', z3.Not(as_truth(good)))
        seq = [k for k, d in phases]
        full = ['lex', 'parse', 'run']
        c.ok(st, 'the program is checked completely before it runs', seq in (full, ['lexerror'], ['lex', 'parseerror'], ['lex', 'parse', 'runerror']))
        lx, ps, rn = (by(k) or by(k + 'error') for k in full)
        items = [d['item'] for d in shown if d['item'][0] != 'manip']
        if ps:
            c.ok(st, 'the tokens of the source are what is parsed', ps[0]['tokens'].obj == lx[0]['tokens'].obj)
        if rn:
            gl = by('global')
            c.ok(st, 'the program runs in a fresh context', rn[0]['block'].obj == ps[0]['block'].obj and len(gl) == 1 and rn[0]['ctx'].obj == gl[0]['ctx'].obj)
            c.ok(st, 'REAL values are shown with 10 digits', bvt(rn[0]['digits']) == 10)
        pr = by('print')
        if seq and seq[-1].endswith('error'):
            c.cover(seq[-1])
            ex = phases[-1][1]['exc']
            c.ok(st, 'an error is reported, once, on the error output', len(pr) == 1 and pr[0]['exc'].obj == ex.obj and pr[0]['stream'].obj == CERR)
            same_items(c, st, 'the output ends with a line break', items, [('lit', b'\n')])
            c.ok(st, 'the line break precedes the report', [k for k, d in ev if k == 'print' or k == 'out' and d['item'][0] != 'manip'][-1:] == ['print'])
            return c.ok(st, 'and is a failure', z3.Not(as_truth(good)))
        c.ok(st, 'nothing is added to the output of the program', not items and not pr)
        ca = by('closeall')
        c.ok(st, 'the files still open are closed at the end', len(ca) == 1 and [k for k, d in ev if k in ('run', 'closeall')] == ['run', 'closeall'])
        if len(ca) == 1:
            ok = c.e.decide(st, ca[0]['r'])
            c.cover('done' if ok else 'not closed')
            c.ok(st, 'success is told', as_truth(good) if ok else z3.Not(as_truth(good)))


def as_truth(v):
    return v if isz(v) and z3.is_bool(v) else bvt(v, 8) != 0 if isz(v) else z3.BoolVal(bool(v))
