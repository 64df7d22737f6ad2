"""From tokens to the program: every parse function follows the grammar (C01 C02 C03 C04 C10 C11 C20 ...).

Each function is specified by the part of the grammar it parses, as a table of states: which tokens may be consumed and which
parse functions called from there.  Consuming a token, calling a parse function and making a node are what the function may do;
at its end the node it yields must be the one the grammar denotes, made of exactly the tokens and parts consumed, and an error
must name the first token that cannot continue the text."""
import re
from .base import *
from .base import _Cur
from .p03 import Auto
from .. import vec

PS = 'Parser'
SYN = '@_ZTIN3PSC11SyntaxErrorE'
PED = '@_ZTIN3PSC13PedanticErrorE'


def cur(c, st):
    return c.w.peek(st, st.ghost['parser'], 'currentToken', PS)


def ttype(c, st, t):
    return bvt(c.w.peek(st, t, 'type', 'Token'), 32)


def K(c, *names):
    return [c.K['TokenType::' + n] for n in names]


def is_type(c, st, t, *names):
    ty = ttype(c, st, t)
    return z3.Or(*[ty == k for k in K(c, *names)])


def known_ahead(c, st):
    """the tokens after the current one that have been looked at: {distance: token}"""
    g = st.ghost.get('ahead')
    return g[1] if g and g[0] == cur(c, st).obj else {}


def ahead_type(c, st):
    """types of the tokens after the current one, as a function of their distance"""
    return z3.Function('ahead_%s' % cur(c, st).obj, z3.BitVecSort(64), z3.BitVecSort(32))


def next_token(c, st, n=1):
    a = known_ahead(c, st)
    if n not in a:
        a = dict(a)
        a[n] = c.w.new(st, 'Token')
        st.ghost['ahead'] = (cur(c, st).obj, a)
        st.pc.append(ttype(c, st, a[n]) == ahead_type(c, st)(z3.BitVecVal(n, 64)))
    return a[n]


def moved(c, st, t):
    p = st.ghost['parser']
    c.w.poke(st, p, 'currentToken', t)
    if 'scan' in st.ghost:
        c.w.poke(st, p, 'idx', bv('idx'))
        st.pc.append(in_source(c, st, 0))


def consume(c, st):
    t = next_token(c, st)
    a = {n - 1: x for n, x in known_ahead(c, st).items() if n > 1}
    moved(c, st, t)
    st.ghost['ahead'] = (t.obj, a)


def somewhere(c, st):
    moved(c, st, c.w.new(st, 'Token'))


def in_source(c, st, n):
    """there is a token at the distance"""
    p = st.ghost['parser']
    b, size = vec.vector_at(c.e, st, c.w.peek(st, p, 'tokens', PS))
    i = bvt(c.w.peek(st, p, 'idx', PS))
    return z3.ULT(i + n, lib.b64(size))


def parser_contracts(c):
    w, e = c.w, c.e

    def source(st, o, off, ty):
        v = e.new(st, 24, 'world')
        b = e.new(st, None, 'vec', esize=8, elem='Token*')
        n = bv('ntokens')
        st.pc.append(z3.ULT(n, 1 << 32))
        for i, x in enumerate((b, Ptr(b.obj, z3.simplify(n * 8)), Ptr(b.obj, z3.simplify(n * 8)))):
            e.put(st, e.gep_off(v, 8 * i), x, 8)
        return v
    w.over[(PS, 'tokens')] = source
    w.over[(PS, 'currentToken')] = lambda st, o, off, ty: w.new(st, 'Token')

    def advance(e, st, a, ins):
        t = cur(c, st)
        consume(c, st)
        e.event(st, 'advance', token=t)
        return None
    c.handler(r'^Parser::advance\(', advance)

    def ahead(e, st, a, ins):
        if 'scan' not in st.ghost and not isz(a[1]):
            return ttype(c, st, next_token(c, st, a[1])) == a[2]
        n = z3.ZeroExt(32, bvt(a[1], 32))
        e.event(st, 'look', n=n, type=a[2], r=None)
        return z3.And(in_source(c, st, n), ahead_type(c, st)(n) == a[2])
    c.handler(r'^Parser::compareNextType\(', ahead)

    def sub(e, st, a, ins):
        d = e.dem[e.curname]
        name = re.match(r'^Parser::(\w+)', d).group(1)
        res = name == 'parseIdentifierExpression'
        ctx = dict(args=list(a), name=name, at=cur(c, st), arg=a[2 if res else 1] if len(a) > (2 if res else 1) else None, tokens=list(known_ahead(c, st).items()))
        out = []
        st.ghost['subargs'] = list(a)
        s = st.fork()
        e.event(s, 'suberror', **ctx)
        out.append(('throw', s, e.new(s, 64, 'exc'), SYN))
        r = w.new(st, 'PSC::Block' if name == 'parseBlock' else 'AbstractVariableResolver' if res else 'Node', 'world' if False else 'heap')
        if 'scan' not in st.ghost:
            somewhere(c, st)
        e.event(st, 'sub', res=r, **ctx)
        if 'scan' in st.ghost:
            somewhere(c, st)
            e.event(st, 'next')
        if res:
            e.put(st, a[0], r, 8)
        out.append(('ret', st, None if res else r))
        return out
    c.handler(r'^Parser::parse[A-Z]\w*\(', sub)

    def cast(e, st, p, dst):
        """any node may or may not be of the class asked for"""
        cls = [k for k in ('ComparisonNode', 'AccessNode') if k in dst]
        if not cls:
            raise Unsupported('dynamic_cast of a node to ' + dst)
        if not e.decide(st, z3.Bool('a node is %s %s' % (p.obj, cls[0]))):
            return NULL
        o = st.w(p.obj)
        o.cls, o.size = cls[0], w.L.size(cls[0])
        for m in ('left', 'right') if cls[0] == 'ComparisonNode' else ():
            e.put(st, e.gep_off(p, w.L.off(cls[0], m)), w.new(st, 'Node'), 8)
        return p
    e.virt[('dynamic_cast', 'Node')] = cast

    def make(e, st, a, ins):
        d = e.dem[e.curname]
        m = re.match(r'^(\w+)\* Parser::create<', d)
        return made(c, st, m.group(1), a[1:], lib.splitargs(d[d.rindex('>(') + 2:-1]))
    c.handler(r'^\w+\* Parser::create<', make)

    def unique(e, st, a, ins):
        d = e.dem[e.curname]
        m = re.match(r'^std::__detail::_MakeUniq<(\w+)>.*std::make_unique<', d)
        e.put(st, a[0], made(c, st, m.group(1), a[1:], lib.splitargs(d[d.rindex('>(') + 2:-1]), 'AbstractVariableResolver'), 8)
        return None
    c.handler(r'^std::__detail::_MakeUniq<\w+(Source|Resolver|Dereferencer)>::__single_object std::make_unique<', unique)

    def component(e, st, a, ins):
        d = e.dem[e.curname]
        made(c, st, d[:d.index('::')], a[1:], lib.splitargs(d[d.index('(') + 1:-1]), this=a[0])
        return None
    c.handler(r'^(\w+CaseComponent)::\1\(', component)

    def addcase(e, st, a, ins):
        e.event(st, 'addcase', node=a[0], case=a[1])
        return None
    c.handler(r'^CaseNode::addCase\(', addcase)
    block_contracts(c)
    c.handler(r'^std::unique_ptr<\w+(Source|Resolver|Dereferencer), .*>::~unique_ptr\(', lambda e, st, a, ins: None)


def block_contracts(c):
    def block(e, st, a, ins):
        e.event(st, 'block', block=a[0], main='MainBlock::' in e.dem[e.curname])
        return None
    c.handler(r'^PSC::(Main)?Block::(Main)?Block\(\)$', block)

    def addnode(e, st, a, ins):
        e.event(st, 'addnode', block=a[0], node=a[1])
        return None
    c.handler(r'^PSC::Block::addNode\(', addnode)


def made(c, st, cls, args, sig, kind='Node', this=None):
    e = c.e
    vals = []
    for x, s in zip(args, sig):
        s = s.strip()
        if 'unique_ptr<' in s and s.startswith('std::unique_ptr'):
            p = e.load_cell(st, x, 8, ('ptr',))
            e.put(st, x, NULL, 8)
            vals.append(p)
        elif s.startswith('std::vector<bool'):
            vals.append(('vec', vec.vector_at(e, st, x)) if False else x)
        elif s.startswith('std::vector<'):
            vals.append(('vec',) + vec.vector_at(e, st, x) + (x.obj,))
        elif s.endswith('*&') or s.endswith('*&&') or s.endswith('* const&'):
            vals.append(e.load_cell(st, x, 8, ('ptr',)))
        elif re.match(r'^PSC::DataType ?(const)?&', s):
            vals.append(('type', c.w.peek(st, x, 'type', 'PSC::DataType')))
        elif re.match(r'^PSC::FileMode ?(const)?&', s):
            vals.append(e.load_cell(st, x, 4, ('int', 32)))
        elif s.startswith('std::nullptr_t'):
            vals.append(NULL)
        else:
            vals.append(x)
    r = this
    if r is None:
        r = c.w.new(st, kind, 'heap')
    st.w(r.obj).meta['made'] = (cls, vals)
    e.event(st, 'make', res=r, cls=cls, args=vals)
    return r


# ---------------------------------------------------------------- the grammar as tables
class T:
    """consume a token of one of the types"""
    def __init__(self, types, to, cap=None, do=None):
        self.types, self.to, self.cap, self.do = types.split(), to, cap, do


class S:
    """call a parse function"""
    def __init__(self, name, to, cap=None, arg=None, do=None, at=None, unless2=None):
        self.name, self.to, self.cap, self.arg, self.do, self.at, self.unless2 = name, to, cap, arg, do, at, unless2


class Mk:
    """make a node of the parts (@acc: what was made of the text so far; @cur: the current token)"""
    def __init__(self, node, to):
        self.node, self.to = node, to


class End:
    """the text may end here; what it denotes"""
    def __init__(self, res, when=None):
        self.res, self.when = res, when


ACC = ('acc',)       # tag of the node made of the text so far; one node has it at a time


def acc(sp, c, st, v):
    old = st.ghost.get('acc')
    if old in st.mem:
        st.w(old).meta.pop('root', None)
    for oid, o in list(st.mem.items()):
        if o.meta.get('root') is ACC:
            st.w(oid).meta.pop('root', None)
    st.w(v.obj).meta['root'] = ACC


def is_acc(st, p):
    return isinstance(p, Ptr) and p.obj in st.mem and st.mem[p.obj].meta.get('root') is ACC and not isz(p.off) and p.off == 0


def due(lst, *parts):
    """the parts are listed next"""
    def f(sp, c, st, v):
        sp.owe(lst, tuple(sp.cap(x) for x in parts))
    return f


class Gram(Auto):
    """mode: (state of the table, number of parts not listed yet); t: what was captured, and the lengths of the lists"""
    def __init__(self, rules, start='0'):
        super().__init__((start, 0))
        self.rules, self.due, self.early = rules, (), ()

    def cap(self, name):
        return NULL if name is None else self.t.get('cap:' + name)

    def owe(self, lst, *parts):
        self.due = self.due + tuple((lst, p) for p in parts)
        self.settle()

    def settle(self):
        self.mode = (self.mode[0], len(self.due) - len(self.early))

    def types(self, state):
        return [n for r in self.rules.get(state, ()) if isinstance(r, T) for n in r.types]

    def starts(self, c, st, r, at, second):
        """the part of rule r starts with this token"""
        g = []
        if r.name in FIRST:
            g.append(is_type(c, st, at, *FIRST[r.name].split()))
        if r.name in SECOND or r.unless2:
            x = is_type(c, st, second, r.unless2 or SECOND[r.name]) if second is not None else z3.BoolVal(bool(r.unless2))
            g.append(z3.Not(x) if r.unless2 else x)
        return z3.And(*g) if g else None

    def go(self, to):
        self.mode = (to, self.mode[1])

    def capture(self, c, st, r, v, at=None):
        self.go(r.to)
        self.t = dict(self.t)
        if getattr(r, 'at', None):
            self.t['cap:' + r.at] = at
        if r.cap:
            if r.cap.endswith('[]'):
                if self.early:
                    x, self.early = self.early[0], self.early[1:]
                    self.pushed(c, st, r.cap, v, x)
                    self.settle()
                else:
                    self.owe(r.cap, v)
            else:
                self.t['cap:' + r.cap] = v
        if r.do:
            r.do(self, c, st, v)

    def bad(self, eng, st, what):
        eng.c.ok(st, what, False)
        self.mode = ('bad', 0)

    def on(self, eng, st, kind, d):
        c = eng.c
        state = self.mode[0]
        if state == 'bad':
            return
        if kind == 'advance':
            for r in self.rules[state]:
                if isinstance(r, T) and eng.decide(st, is_type(c, st, d['token'], *r.types)):
                    return self.capture(c, st, r, d['token'])
            return self.bad(eng, st, 'a token is consumed only where the grammar has it (%s)' % ' '.join(self.types(state)))
        if kind in ('sub', 'suberror'):
            second = dict(d['tokens']).get(1)
            subs = [r for r in self.rules[state] if isinstance(r, S)]
            for r in subs:
                if r.name == d['name'] and (r.arg is None or not isz(d['arg']) and r.arg == d['arg']):
                    ty = self.types(state)
                    if ty:
                        c.ok(st, 'parts are parsed only where the grammar has them', z3.Not(is_type(c, st, d['at'], *ty)))
                    g = self.starts(c, st, r, d['at'], second)
                    if g is not None:
                        c.ok(st, '%s is called at its first token' % r.name, g)
                    else:
                        for x in [y for y in self.rules[state] if isinstance(y, End) and y.when]:
                            c.ok(st, '%s is called where the text does not end' % r.name, z3.Not(x.when(self, c, st, d['at'])))
                        for x in subs:
                            g = self.starts(c, st, x, d['at'], second)
                            if g is not None:
                                c.ok(st, '%s is called where nothing else starts' % r.name, z3.Not(g))
                    if kind == 'suberror':
                        self.mode = ('error', 0)
                        return
                    return self.capture(c, st, r, d['res'], d['at'])
            return self.bad(eng, st, 'parts are parsed in the order of the grammar')
        if kind == 'push' and self.listing(c, st, d):
            if self.due:
                name, v = self.due[0]
                self.due = self.due[1:]
                self.pushed(c, st, name, v, d)
            else:
                self.early = self.early + (d,)
            self.settle()
        if kind == 'make':
            for r in self.rules.get(state, ()):
                if isinstance(r, Mk) and r.node[0] == d['cls'] and self.match(c, st, r, d):
                    self.go(r.to)
                    return acc(self, c, st, d['res'])

    def match(self, c, st, r, d):
        for w in r.node[1:]:
            if w.startswith('@cur:') and not c.e.decide(st, is_type(c, st, cur(c, st), w[5:])):
                return False
        ok = len(d['args']) == len(r.node) - 1 and all(self.part(c, st, x, w) for x, w in zip(d['args'], r.node[1:]))
        c.ok(st, 'the node is the one the grammar denotes: %s' % show(r.node), ok)
        return True

    def listing(self, c, st, d):
        return d['vec'].obj != st.ghost['parser'].obj

    def pushed(self, c, st, name, v, d):
        n = 'n' + name
        ok = all(same_part(c, st, d['elem'].get(8 * i), x) for i, x in enumerate(v)) if isinstance(v, tuple) else same_part(c, st, d['elem'].get(0), v)
        c.ok(st, 'parts are listed in order', z3.And(z3.BoolVal(ok), lib.b64(d['idx']) == self.t[n]))
        self.t = dict(self.t)
        self.t[n] = z3.simplify(self.t[n] + 1)
        st.ghost['list' + name] = d['vec'].obj

    def finish(self, c, st, out):
        """the end of the function"""
        state = self.mode[0]
        if state == 'bad':
            return
        rs = self.rules.get(state, [])
        if out[0] == 'ret':
            end = [r for r in rs if isinstance(r, End)]
            c.ok(st, 'the text may end here', bool(end))
            if not end:
                return
            ty = self.types(state)
            if ty:
                c.ok(st, 'the text is parsed as far as it goes', z3.Not(is_type(c, st, cur(c, st), *ty)))
            c.ok(st, 'every part is used', self.mode[1] == 0)
            c.cover('parsed')
            r = self.returned(c, st, out)
            res = end[0].res
            if end[0].when:
                c.ok(st, 'the text ends here', end[0].when(self, c, st, cur(c, st)))
            if callable(res):
                return res(self, c, st, r)
            return c.ok(st, 'the node is the one the grammar denotes: %s' % show(res), self.part(c, st, r, res))
        if state == 'error':
            c.cover('part')
            return c.ok(st, 'an error of a part is passed on', c.e.derives(out[2], SYN))
        m = st.mem[out[1].obj].meta.get('err') if isinstance(out[1], Ptr) else None
        c.ok(st, 'the error is one of the syntax', m is not None)
        if m is None:
            return
        t = cur(c, st)
        named = any(isinstance(x, Ptr) and x.obj == t.obj and not isz(x.off) and x.off == 0 for x in m[2])
        c.ok(st, 'the error names the offending token', named)
        if c.e.derives(out[2], PED):
            c.cover('pedantic')
            return c.ok(st, 'only what --pedantic forbids is rejected for it', z3.And(st.ghost['pedantic'], is_type(c, st, t, *PEDANTIC[state])) if state in PEDANTIC and 'pedantic' in st.ghost else False)
        c.ok(st, 'the error is one of the syntax', c.e.derives(out[2], SYN))
        c.cover('error')
        g = [is_type(c, st, t, *self.types(state))] if self.types(state) else []
        for r in rs:
            if isinstance(r, S):
                x = self.starts(c, st, r, t, known_ahead(c, st).get(1))
                g.append(z3.BoolVal(True) if x is None else x)
            if isinstance(r, End):
                g.append(r.when(self, c, st, t) if r.when else z3.BoolVal(True))
        if any(isinstance(r, R) for r in rs):
            g = [z3.And(z3.Or(*g), z3.Not(z3.Or(*[r.cond(self, c, st, t) for r in rs if isinstance(r, R)])))]
        c.ok(st, 'only a text that cannot be continued is rejected', z3.Not(z3.Or(*g)) if g else True)

    def returned(self, c, st, out):
        return out[1]

    def part(self, c, st, p, want):
        """p is what the grammar denotes"""
        if want is None:
            return isinstance(p, Ptr) and p.null
        if isinstance(want, int):
            return not isz(p) and not isinstance(p, Ptr) and p == want
        if isinstance(want, tuple):
            m = st.mem[p.obj].meta.get('made') if isinstance(p, Ptr) and p.obj in st.mem else None
            return m is not None and m[0] == want[0] and len(m[1]) == len(want) - 1 and all(self.part(c, st, x, y) for x, y in zip(m[1], want[1:]))
        if want == '@acc':
            return is_acc(st, p)
        if want.startswith('@cur:'):
            return same_part(c, st, p, cur(c, st))
        if want.startswith('='):
            return not isz(p) and not isinstance(p, Ptr) and p == c.K[want[1:]]
        if want.endswith('[]'):
            if not (isinstance(p, tuple) and p[0] == 'vec'):
                return False
            c.ok(st, 'all parts are listed, in one list', z3.And(lib.b64(p[2]) == self.t['n' + want], z3.BoolVal(p[3] == st.ghost.get('list' + want, p[3]))))
            return True
        v = self.cap(want.split('.')[0])
        if v is None or v.null:
            return False
        if want.endswith('.value'):
            return isinstance(p, Ptr) and p.obj == v.obj and not isz(p.off) and p.off == c.w.L.off('Token', 'value')
        return same_part(c, st, p, v)


class R:
    """a text that is rejected here although its next token could be there"""
    def __init__(self, cond):
        self.cond = cond


def show(w):
    return w[0] + '(' + ', '.join(show(x) for x in w[1:]) + ')' if isinstance(w, tuple) else str(w)


def same_part(c, st, p, v):
    return isinstance(p, Ptr) and isinstance(v, Ptr) and p.obj != 'undef' and (p.null and v.null or p.obj == v.obj and not isz(p.off) and not isz(v.off) and p.off == v.off)


FIRST = dict(parseWhileLoop='WHILE', parseForLoop='FOR', parseRepeatLoop='REPEAT', parseIfStatement='IF', parseCaseStatement='CASE', parseCall='CALL',
             parseProcedure='PROCEDURE', parseFunction='FUNCTION', parseOutput='OUTPUT', parseInput='INPUT READ', parseOpenFile='OPENFILE',
             parseReadFile='READFILE', parseWriteFile='WRITEFILE', parseCloseFile='CLOSEFILE', parseSeek='SEEK', parseGetRecord='GETRECORD',
             parsePutRecord='PUTRECORD', parseDeclareExpression='DECLARE', parseConstDeclareExpression='CONSTANT', parseType='TYPE',
             parseCast='DATA_TYPE', parseModDivFn='DIV MOD', parseFunctionCall='IDENTIFIER', parseIdentifierExpression='IDENTIFIER', parseArrayDeclare='ARRAY')
SECOND = dict(parseFunctionCall='LPAREN', parseModDivFn='LPAREN')
MAIN, CASE, OTHER = 0, 1, 2
PEDANTIC = {'else': ['IF'], 'cast': ['DATA_TYPE']}


def parse_setup(c, fn, first=True):
    st = c.state()
    p = c.w.new(st, PS)
    st.ghost.update(parser=p, node=p)
    t = cur(c, st)
    if first and fn in FIRST:
        st.pc.append(is_type(c, st, t, *FIRST[fn].split()))
    if fn in SECOND:
        st.pc.append(is_type(c, st, next_token(c, st), SECOND[fn]))
    if fn in ('parseIfStatement', 'parseCast'):
        b = boolean('pedantic')
        st.ghost['pedantic'] = b
        c.e.put(st, c.e.gobj(st, '@pedantic'), z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 1)
    return st, p


def parses(fn, rules, props, cover=('parsed', 'error', 'part'), cls=Gram, lists=(), budget=100, sig='', args=None, start='0'):
    for r in rules.values():
        for x in r:
            assert not hasattr(x, 'to') or x.to in rules, (fn, x.to)

    class P:
        def setup(self, c):
            st, p = parse_setup(c, fn)
            sp = cls(rules, start)
            st.ghost['r'] = None
            sp.t = {'n' + l: z3.BitVecVal(0, 64) for l in lists}
            sp.t.update({'cap:' + n: NULL for rs in rules.values() for x in rs for n in (getattr(x, 'cap', None), getattr(x, 'at', None)) if n})
            a = [p]
            if args:
                a += args(c, st, sp)
            if isinstance(sp, Tracked):
                sp.start(c, st)
            if cls is Resolver:
                r = c.e.new(st, 8, 'alloca')
                st.ghost['r'] = r
                a = [r, p]
            st.spec = sp
            yield st, a

        def post(self, c, st, out):
            st.spec.finish(c, st, out)
    return target(props, 'Parser::%s(%s)' % (fn, sig), contracts=parser_contracts, cover=list(cover), budget=budget)(P)


def ends_hook(e, loop, A):
    """candidate invariant: a flag of the program says whether the text goes on"""
    sp = A.spec
    if not isinstance(sp, Resolver) or ('spec', 'ty') not in loop.W:
        return []
    goes_on = lambda ty: z3.Or(*[ty == k for k in K(e.c, *sp.types('2'))])
    as_bv = lambda l, v: z3.BitVecVal(v, 8) if isinstance(v, int) else z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if z3.is_bool(v) else v
    return [('%s is %d where the text ends' % (l, v), lambda g, l=l, v=v: z3.Implies(as_bv(l, g(l)) == v, z3.Not(goes_on(g(('spec', 'ty'))))))
            for l, (k, a) in loop.W.items() if k == 'bool' or k == 'bv' and a == 8 for v in (0, 1)]


def current_type(e, st):
    return st.spec.t['ty'] == ttype(e.c, st, cur(e.c, st)) if isinstance(st.spec, Tracked) else z3.BoolVal(True)


def no_line_end(e, loop, A):
    """candidate invariant: the ends of lines have been skipped"""
    if not isinstance(A.spec, Tracked) or ('spec', 'ty') not in loop.W:
        return []
    return [('not at the end of a line', lambda g: g(('spec', 'ty')) != K(e.c, 'LINE_END')[0])]


class Tracked(Gram):
    """also keeps the type of the current token (t.ty)"""
    def start(self, c, st):
        self.t['ty'] = ttype(c, st, cur(c, st))
        c.e.candidate_hooks.append(ends_hook)
        c.e.candidate_hooks.append(no_line_end)
        c.e.inductive.append(current_type)

    def on(self, eng, st, kind, d):
        Gram.on(self, eng, st, kind, d)
        if kind in ('advance', 'sub', 'next'):
            self.t = dict(self.t)
            self.t['ty'] = ttype(eng.c, st, cur(eng.c, st))


class Resolver(Tracked):
    def returned(self, c, st, out):
        return c.e.load_cell(st, st.ghost['r'], 8, ('ptr',))


E, A, STR, B, ID = 'parseEvaluationExpression', 'parseArithmeticExpression', 'parseStringExpression', 'parseBlock', 'parseIdentifierExpression'

# ---------------------------------------------------------------- loops
parses('parseWhileLoop', {
    '0': [T('WHILE', '1', 'w')], '1': [S(E, '2', 'cond')], '2': [T('LINE_END', '2'), T('DO', '3'), S(B, '4', 'body', OTHER)], '3': [S(B, '4', 'body', OTHER)],
    '4': [T('ENDWHILE', '5')], '5': [End(('WhileLoopNode', 'w', 'cond', 'body'))]}, 'C03 C01 C10 C11')
parses('parseRepeatLoop', {
    '0': [T('REPEAT', '1', 'r')], '1': [S(B, '2', 'body', OTHER)], '2': [T('UNTIL', '3')], '3': [S(E, '4', 'cond')],
    '4': [End(('RepeatUntilNode', 'r', 'cond', 'body'))]}, 'C03 C01 C10 C11')


def other_name(sp, c, st, t):
    """NEXT may name the iterator, and nothing else"""
    return z3.And(is_type(c, st, t, 'IDENTIFIER'), z3.Not(lib.seq(c.w.peek(st, t, 'value', 'Token'), c.w.peek(st, sp.cap('it'), 'value', 'Token'))))


def next_name(sp, c, st, t):
    c.ok(st, 'NEXT names the iterator', lib.seq(c.w.peek(st, t, 'value', 'Token'), c.w.peek(st, sp.cap('it'), 'value', 'Token')))


def for_rules():
    def tail(k, step):
        return {k: [S(B, k + 'n', 'body', OTHER)], k + 'n': [T('NEXT', k + 'i')], k + 'i': [T('IDENTIFIER', k + 'e', do=next_name), R(other_name), End(node(step))], k + 'e': [End(node(step))]}
    node = lambda step: ('ForLoopNode', 'for', 'it', 'from', 'to', step, 'body')
    r = {'0': [T('FOR', '1', 'for')], '1': [T('IDENTIFIER', '2', 'it')], '2': [T('ASSIGNMENT', '3')], '3': [S(A, '4', 'from')], '4': [T('TO', '5')], '5': [S(A, '6', 'to')],
         '6': [T('STEP', '7'), S(B, 'an', 'body', OTHER)], '7': [S(A, 'b', 'step')]}
    r.update(tail('a', None))
    r.update(tail('b', 'step'))
    return r


parses('parseForLoop', for_rules(), 'C03 C01 C10 C11')

# ---------------------------------------------------------------- selection
vec.BUILD['IfConditionComponent'] = lambda e, st, a, sig: {0: e.load_cell(st, a[0], 8, ('ptr',)), 8: a[1]}
parses('parseIfStatement', {
    '0': [T('IF', '1', 'if')], '1': [S(E, '2', 'cond')], '2': [T('LINE_END', '2'), T('THEN', '3')], '3': [S(B, '4', 'body', OTHER, do=due('comps[]', 'cond', 'body'))],
    '4': [T('ELSE', 'else'), T('ENDIF', '6')],
    'else': [T('IF', '7'), S(B, '8', 'body', OTHER, do=due('comps[]', None, 'body'))], '7': [S(E, '2b', 'cond')],
    '2b': [T('LINE_END', '2b'), T('THEN', '3')], '8': [T('ENDIF', '6')], '6': [End(('IfStatementNode', 'if', 'comps[]'))]},
    'C03 C20 C01 C10 C11', lists=('comps[]',), cover=('parsed', 'error', 'part', 'pedantic'))


class Case(Gram):
    def on(self, eng, st, kind, d):
        if kind == 'addcase' and self.mode[0] != 'bad':
            c = eng.c
            if not self.due:
                return self.bad(eng, st, 'only the cases of the text are added')
            (name, v), self.due = self.due[0], self.due[1:]
            self.settle()
            want = v[0]
            return c.ok(st, 'the case is the one of the text', self.part(c, st, d['case'], want) and self.part(c, st, d['node'], CASENODE))
        Gram.on(self, eng, st, kind, d)


CASENODE = ('CaseNode', 'case', ('AccessNode', 'id', ('SimpleVariableSource', 'id')))
case = lambda *w: lambda sp, c, st, v: sp.owe('case', (w,))
parses('parseCaseStatement', {
    '0': [T('CASE', '1', 'case')], '1': [T('OF', '2')], '2': [T('IDENTIFIER', '3', 'id')], '3': [T('LINE_END', '3'), T('ENDCASE', '9'), T('OTHERWISE', '4'), S(E, '5', 'x')],
    'c': [T('ENDCASE', '9'), T('OTHERWISE', '4'), S(E, '5', 'x')], '4': [T('COLON', '4a')], '4a': [S(B, '4b', 'body', CASE, do=case('OtherwiseCaseComponent', 'body'))],
    '4b': [T('ENDCASE', '9')], '5': [T('TO', '6'), T('COLON', '7')], '6': [S(E, '6b', 'y')], '6b': [T('COLON', '8')],
    '7': [S(B, 'c', 'body', CASE, do=case('EqualsCaseComponent', 'body', 'x'))], '8': [S(B, 'c', 'body', CASE, do=case('RangeCaseComponent', 'body', 'x', 'y'))],
    '9': [End(CASENODE)]}, 'C03 C01 C10 C11', cls=Case)

# ---------------------------------------------------------------- calls
ARGS = lambda node: {'2': [T('LPAREN', '3')], '3': [T('RPAREN', '6'), S(E, '4', 'args[]')], '4': [T('COMMA', '5'), T('RPAREN', '6')], '5': [S(E, '4', 'args[]')], '6': [End(node)]}
CALL = ('CallNode', 'call', 'id.value', 'args[]')
r = ARGS(CALL)
r.update({'0': [T('CALL', '1', 'call')], '1': [T('IDENTIFIER', '2', 'id')]})
r['2'].append(End(CALL))
parses('parseCall', r, 'C04 C01 C11', lists=('args[]',))
r = ARGS(('FunctionCallNode', 'fn', 'args[]'))
r.update({'0': [T('IDENTIFIER', '2', 'fn')]})
parses('parseFunctionCall', r, 'C04 C01 C11', lists=('args[]',))

# ---------------------------------------------------------------- input, output, files
parses('parseOutput', {'0': [T('OUTPUT', '1', 'tok')], '1': [S(E, '2', 'nodes[]')], '2': [T('COMMA', '1'), End(('OutputNode', 'tok', 'nodes[]'))]}, 'C05 C12 C01', lists=('nodes[]',), cover=('parsed', 'part'))
parses('parseInput', {'0': [T('INPUT READ', '1', 'tok')], '1': [S(ID, '2', 'res')], '2': [End(('InputNode', 'tok', 'res'))]}, 'C05 C01')
MODES = ('READ', 'WRITE', 'APPEND', 'RANDOM')
r = {'0': [T('OPENFILE', '1', 'tok')], '1': [S(STR, '2', 'file')], '2': [T('FOR', '3')], '3': [T(m, m) for m in MODES]}
r.update({m: [End(('OpenFileNode', 'tok', 'file', '=FileMode::' + m))] for m in MODES})
parses('parseOpenFile', r, 'C16 C14 C15 C01')
for fn, kw, node in (('parseReadFile', 'READFILE', 'ReadFileNode'), ('parseGetRecord', 'GETRECORD', 'GetRecordNode'), ('parsePutRecord', 'PUTRECORD', 'PutRecordNode')):
    parses(fn, {'0': [T(kw, '1', 'tok')], '1': [S(STR, '2', 'file')], '2': [T('COMMA', '3')], '3': [T('IDENTIFIER', '4', 'id')], '4': [End((node, 'tok', 'file', 'id'))]}, ('C15' if 'File' in fn else 'C13 C14') + ' C16 C01')
for fn, kw, node in (('parseWriteFile', 'WRITEFILE', 'WriteFileNode'), ('parseSeek', 'SEEK', 'SeekFileNode')):
    parses(fn, {'0': [T(kw, '1', 'tok')], '1': [S(STR, '2', 'file')], '2': [T('COMMA', '3')], '3': [S(E, '4', 'x')], '4': [End((node, 'tok', 'file', 'x'))]}, ('C15' if 'File' in fn else 'C14') + ' C16 C01')
parses('parseCloseFile', {'0': [T('CLOSEFILE', '1', 'tok')], '1': [S(STR, '2', 'file')], '2': [End(('CloseFileNode', 'tok', 'file'))]}, 'C16 C01', cover=('parsed', 'part'))


# ---------------------------------------------------------------- expressions
def chain(fn, part, ops, node, extra=None):
    """part { operator part }, from the left"""
    r = {'0': [S(part, '1', do=acc)], '1': [T(ops, '2', 'op'), End('@acc')], '2': [S(part, '3', 'right')], '3': [Mk((node, 'op', '@acc', 'right'), '1')]}
    if extra:
        r['0'] = extra['0'] + r['0']
        r.update({k: v for k, v in extra.items() if k != '0'})
    parses(fn, r, 'C02 C01', cover=('parsed', 'part'))


chain(E, 'parseLogicalExpression', 'EQUALS NOT_EQUALS', 'ComparisonNode')
chain('parseLogicalExpression', 'parseComparisonExpression', 'AND OR', 'LogicNode')
chain('parseComparisonExpression', STR, 'EQUALS NOT_EQUALS GREATER LESSER GREATER_EQUAL LESSER_EQUAL', 'ComparisonNode',
      {'0': [T('NOT', 'n', 'op')], 'n': [S('parseComparisonExpression', 'n1', 'x')], 'n1': [End(('NotNode', 'op', 'x'))]})
chain(STR, A, 'AMPERSAND', 'StringConcatenationNode')
chain(A, 'parseTerm', 'PLUS MINUS', 'ArithmeticOperationNode')
chain('parseTerm', 'parseFactor', 'STAR SLASH DIV MOD', 'ArithmeticOperationNode')
parses('parseFactor', {'0': [T('MINUS', '1', 'op'), S('parseAtom', 'k', 'x')], '1': [S('parseAtom', '2', 'x')], '2': [End(('NegateNode', 'op', 'x'))], 'k': [End('x')]}, 'C02 C01', cover=('parsed', 'part'))
LITERALS = [('INTEGER', 'IntegerNode'), ('REAL', 'RealNode'), ('TRUE FALSE', 'BooleanNode'), ('CHAR', 'CharNode'), ('STRING', 'StringNode')]
r = {'0': [T(t, n, 'lit') for t, n in LITERALS + [('DATE', 'DateNode')]] + [S('parseFunctionCall', 'k', 'x'), S(ID, 'i', 'res', at='id', unless2='LPAREN'), T('LPAREN', 'g'), S('parseCast', 'k', 'x'), S('parseModDivFn', 'k', 'x')],
     'k': [End('x')], 'g': [S(E, 'h', 'x')], 'h': [T('RPAREN', 'k')], 'i': [T('ASSIGNMENT', 'a', 'tok'), End(('AccessNode', 'id', 'res'))],
     'a': [T('CARET', 'p', 'ref'), S(E, 'v', 'x')], 'v': [End(('AssignNode', 'tok', 'x', 'res'))], 'p': [S(ID, 'q', 'val')], 'q': [End(('PointerAssignNode', 'ref', 'res', 'val'))]}
r.update({n: [End((n, 'lit'))] for t, n in LITERALS + [('DATE', 'DateNode')]})
parses('parseAtom', r, 'C02 C04 C05 C09 C18 C01 C11')
def cast_args(c, st, sp):
    v = c.w.peek(st, cur(c, st), 'value', 'Token')
    st.pc.append(z3.Or(*[lib.seq(v, lib.lit(k.encode())) for k in TYPES]))
    return []


TYPES = ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE')


def cast_node(sp, c, st, p):
    m = st.mem[p.obj].meta.get('made')
    ok = m is not None and m[0] == 'CastNode' and len(m[1]) == 3 and sp.part(c, st, m[1][0], 'tok') and sp.part(c, st, m[1][1], 'x') and isinstance(m[1][2], tuple)
    c.ok(st, 'the node is the one the grammar denotes: CastNode(tok, x, type)', ok)
    if ok:
        v = c.w.peek(st, sp.cap('tok'), 'value', 'Token')
        for k in TYPES:
            c.ok(st, 'the type is the one named', z3.Implies(lib.seq(v, lib.lit(k.encode())), bvt(m[1][2][1], 32) == c.w.T[k]))


parses('parseCast', {'cast': [T('DATA_TYPE', '1', 'tok')], '1': [T('LPAREN', '2')], '2': [S(E, '3', 'x')], '3': [T('RPAREN', '4')], '4': [End(cast_node)]},
       'C02 C17 C20 C01 C11', cover=('parsed', 'error', 'part', 'pedantic'), start='cast', args=cast_args)
parses('parseModDivFn', {'0': [T('DIV MOD', '1', 'tok')], '1': [T('LPAREN', '2')], '2': [S(E, '3', 'a')], '3': [T('COMMA', '4')], '4': [S(E, '5', 'b')], '5': [T('RPAREN', '6')],
                         '6': [End(('ArithmeticOperationNode', 'tok', 'a', 'b'))]}, 'C02 C01 C11')


def fold(p, k):
    """the literals of a CONSTANT"""
    return {k + n: [End(('ConstDeclareNode', 'op', p(n), 'id'))] for t, n in LITERALS}


r = {'0': [T('CONSTANT', '1', 'op')], '1': [T('IDENTIFIER', '2', 'id')], '2': [T('EQUALS ASSIGNMENT', '3')],
     '3': [T('MINUS', '3m', 'minus')] + [T(t, 'p' + n, 'lit') for t, n in LITERALS], '3m': [T(t, 'm' + n, 'lit') for t, n in LITERALS]}
r.update(fold(lambda n: (n, 'lit'), 'p'))
r.update(fold(lambda n: ('NegateNode', 'minus', (n, 'lit')), 'm'))
parses('parseConstDeclareExpression', r, 'C08 C05 C01 C11', cover=('parsed', 'error'))


parses(ID, {'0': [T('IDENTIFIER', '1', 'id')], '1': [Mk(('SimpleVariableSource', 'id'), '2')],
            '2': [T('PERIOD', '3', 'tok'), Mk(('PointerDereferencer', '@cur:CARET', '@acc'), '2e'), T('CARET', '2c', 'tok'), T('LSQRBRACKET', '5', 'tok', do=lambda sp, c, st, v: sp.t.__setitem__('nind[]', z3.BitVecVal(0, 64))), End('@acc')],
            '2c': [Mk(('PointerDereferencer', 'tok', '@acc'), '2')], '2e': [T('CARET', '2')],
            '3': [T('IDENTIFIER', '4', 'm'), Mk(('CompositeResolver', 'tok', '@acc', '@cur:IDENTIFIER'), '3e')], '3e': [T('IDENTIFIER', '2')], '4': [Mk(('CompositeResolver', 'tok', '@acc', 'm'), '2')],
            '5': [S(A, '6', 'ind[]')], '6': [T('COMMA', '5'), T('RSQRBRACKET', '7')], '7': [Mk(('ArrayElementResolver', 'tok', '@acc', 'ind[]'), '2')]},
       'C06 C07 C09 C05 C01 C11', cls=Resolver, lists=('ind[]',))


# ---------------------------------------------------------------- declarations
class Declared(Gram):
    """the names are handed on to the declaration of an array"""
    def capture(self, c, st, r, v, at=None):
        if isinstance(r, S) and r.name == 'parseArrayDeclare':
            a = st.ghost['subargs']
            b, n = vec.vector_at(c.e, st, a[2])
            c.ok(st, 'the names declared are handed on', z3.And(lib.b64(n) == self.t['nids[]'], z3.BoolVal(a[2].obj == st.ghost.get('listids[]') and same_part(c, st, a[1], self.cap('op')))))
        Gram.capture(self, c, st, r, v, at)


DATATYPE = 'DATA_TYPE IDENTIFIER'
parses('parseDeclareExpression', {'0': [T('DECLARE', '1', 'op')], '1': [T('IDENTIFIER', '2', 'ids[]')], '2': [T('COMMA', '1'), T('COLON', '3')],
                                  '3': [S('parseArrayDeclare', 'k', 'x'), T(DATATYPE, '4', 'type')], '4': [End(('DeclareNode', 'op', 'ids[]', 'type'))], 'k': [End('x')]},
       'C05 C06 C01 C11', lists=('ids[]',), cls=Declared)


def array_args(c, st, sp):
    t = c.w.new(st, 'Token')
    v = c.e.new(st, 24, 'alloca')
    b = c.e.new(st, None, 'vec', esize=8, elem='Token const*')
    n = bv('names')
    st.pc.append(z3.ULT(n, lib.BIG))
    c.e.put(st, v, b, 8)
    for o in (8, 16):
        c.e.put(st, c.e.gep_off(v, o), Ptr(b.obj, z3.simplify(n * 8)), 8)
    sp.t['cap:op'], sp.t['nids[]'] = t, n
    st.ghost['listids[]'] = v.obj
    return [t, v]


parses('parseArrayDeclare', {'0': [T('ARRAY', '1')], '1': [T('LSQRBRACKET', '2')], '2': [S(A, '3', 'lo')], '3': [T('COLON', '4')], '4': [S(A, '5', 'hi', do=lambda sp, c, st, v: sp.owe('b[]', sp.cap('lo'), sp.cap('hi')))],
                             '5': [T('COMMA', '2'), T('RSQRBRACKET', '6')], '6': [T('OF', '7')], '7': [T(DATATYPE, '8', 'type')], '8': [End(('ArrayDeclareNode', 'op', 'ids[]', 'type', 'b[]'))]},
       'C06 C05 C01 C11', lists=('b[]',), args=array_args, sig='Token const&, std::vector<Token const*, std::allocator<Token const*>>&')


class Types(Gram):
    def pushed(self, c, st, name, v, d):
        if name != 'values[]':
            return Gram.pushed(self, c, st, name, v, d)
        c.ok(st, 'the names of the values are listed in order', z3.And(lib.seq(d['elem'][0], c.w.peek(st, v, 'value', 'Token')), lib.b64(d['idx']) == self.t['n' + name]))
        self.t = dict(self.t)
        self.t['n' + name] = z3.simplify(self.t['n' + name] + 1)
        st.ghost['list' + name] = d['vec'].obj

    def capture(self, c, st, r, v, at=None):
        if isinstance(r, S) and r.name == 'parseComposite':
            a = st.ghost['subargs']
            c.ok(st, 'the type is handed on', same_part(c, st, a[1], self.cap('tok')) and same_part(c, st, a[2], self.cap('id')))
        Gram.capture(self, c, st, r, v, at)


parses('parseType', {'0': [T('TYPE', '1', 'tok')], '1': [T('LINE_END', '1'), T('IDENTIFIER', '2', 'id')], '2': [T('EQUALS', '3'), T('LINE_END', 'c')], 'c': [S('parseComposite', 'k', 'x')], 'k': [End('x')],
                     '3': [T('CARET', 'p'), T('LPAREN', 'e')], 'p': [T(DATATYPE, 'q', 'type')], 'q': [End(('PointerDefineNode', 'tok', 'id', 'type'))],
                     'e': [T('IDENTIFIER', 'f', 'values[]')], 'f': [T('COMMA', 'e'), T('RPAREN', 'g')], 'g': [End(('EnumDefineNode', 'tok', 'id', 'values[]'))]},
       'C07 C09 C19 C10 C01 C11', lists=('values[]',), cls=Types)


class Body(Tracked):
    """statements become the nodes of one block, in order"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode[0] == 'bad':
            return
        if kind == 'block':
            c.ok(st, 'one block is made', self.t['cap:block'].null)
            self.t = dict(self.t)
            self.t['cap:block'] = d['block']
            st.ghost['main'] = d['main']
        elif kind == 'addnode':
            ok = bool(self.due) and same_part(c, st, d['node'], self.due[0][1]) and same_part(c, st, d['block'], self.cap('block'))
            c.ok(st, 'each statement is added to the block, once, in order', ok)
            self.due = self.due[1:]
            self.settle()
        else:
            Tracked.on(self, eng, st, kind, d)


def composite_args(c, st, sp):
    a = [c.w.new(st, 'Token'), c.w.new(st, 'Token')]
    sp.t.update({'cap:tok': a[0], 'cap:id': a[1], 'cap:block': NULL})
    return a


node = lambda sp, c, st, v: sp.owe('nodes', v)
parses('parseComposite', {'0': [T('LINE_END', '0'), S('parseDeclareExpression', '1', do=node), T('ENDTYPE', '9')], '1': [T('LINE_END', '0')], '9': [End(('CompositeDefineNode', 'tok', 'id', 'block'))]},
       'C07 C10 C01 C11', cls=Body, args=composite_args, sig='Token const&, Token const&')

# ---------------------------------------------------------------- statements
STATEMENTS = [n for n in FIRST if n not in ('parseProcedure', 'parseFunction', 'parseCast', 'parseModDivFn', 'parseFunctionCall', ID, 'parseArrayDeclare')]
parses('parseExpression', {'0': [S(n, 'k', 'x') for n in STATEMENTS] + [T('RETURN', 'r', 'tok'), T('BREAK', 'b', 'tok'), T('CONTINUE', 'c', 'tok'), S(E, 'k', 'x')], 'k': [End('x')],
                           'r': [S(E, 'r1', 'x')], 'r1': [End(('ReturnNode', 'tok', 'x'))], 'b': [End(('BreakNode', 'tok'))], 'c': [End(('ContinueNode', 'tok'))]},
       'C01 C03 C04 C05 C10 C16', cover=('parsed', 'part'))


# ---------------------------------------------------------------- blocks
ENDS = ('EXPRESSION_END', 'ENDIF', 'OTHERWISE', 'ENDCASE', 'ELSE', 'ENDWHILE', 'UNTIL', 'NEXT', 'ENDPROCEDURE', 'ENDFUNCTION')


class Block(Body):
    """a statement starts at the start of a line (t.sep: the text is there); in a CASE, a line with a colon starts the next case"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode[0] == 'bad':
            return
        if kind == 'look':
            c.ok(st, 'the rest of the line is looked at only in a CASE', self.kind == CASE)
        elif kind in ('sub', 'suberror'):
            c.ok(st, 'a statement starts a line', self.t['sep'])
        Body.on(self, eng, st, kind, d)
        self.t = dict(self.t)
        if kind == 'look':
            self.t['at'] = d['n']
        elif kind in ('advance', 'sub'):
            self.t['at'] = z3.BitVecVal(0, 64)
            self.t['sep'] = z3.BoolVal(kind == 'advance')


def line_of_case(sp, c, st, t, found):
    """the line has a colon (found: where; K is any place before it) / has none (K is any place)"""
    F, k, at = ahead_type(c, st), st.ghost['K'], sp.t['at']
    colon, end = K(c, 'COLON')[0], K(c, 'LINE_END')[0]
    if found:
        return z3.And(at != 0, in_source(c, st, at), F(at) == colon, z3.Implies(z3.And(k != 0, z3.ULT(k, at)), F(k) != end))
    return z3.Implies(z3.And(k != 0, z3.ULT(k, 1 << 32), in_source(c, st, k), F(k) == colon), z3.And(at != 0, z3.ULT(at, k), F(at) == end))


def ends_block(sp, c, st, t):
    g = z3.Or(is_type(c, st, t, 'EXPRESSION_END'), z3.And(sp.t['sep'], is_type(c, st, t, *ENDS)))
    if sp.kind != CASE:
        return g
    if st.ghost.get('ret'):
        return z3.Or(g, z3.And(sp.t['sep'], z3.Not(is_type(c, st, t, 'DECLARE')), line_of_case(sp, c, st, t, True)))
    return z3.Or(g, z3.And(z3.Not(is_type(c, st, t, 'DECLARE')), z3.Not(line_of_case(sp, c, st, t, False))))


def scan_hook(e, loop, A):
    """candidate invariant: what the line has before the place looked at"""
    if not isinstance(A.spec, Block):
        return []
    c, k = e.c, A.ghost['K']
    F = ahead_type(c, A)
    none = lambda i: z3.Implies(z3.And(k != 0, z3.ULT(k, i)), z3.And(F(k) != K(c, 'COLON')[0], F(k) != K(c, 'LINE_END')[0]))
    return [('no colon before %s' % (l,), lambda g, l=l: none(lib.b64(g(l)))) for l, (kd, a) in loop.W.items() if kd == 'bv' and a == 64 and l[0] == 'reg']


def between_hook(e, loop, A):
    """candidate invariant: a statement has been parsed to its end"""
    loc = ('spec', 'ty')
    if not isinstance(A.spec, Block) or loc not in loop.W:
        return []
    return [('the statement ends', lambda g: z3.Or(g(('spec', 'sep')) if ('spec', 'sep') in loop.W else A.spec.t['sep'], *[g(loc) == k for k in K(e.c, 'LINE_END', 'EXPRESSION_END')]))]


def block_of(kind, name):
    def stray(sp, c, st, t):
        """the statement before has not ended; a definition that is not the program's"""
        return z3.Or(z3.And(z3.Not(sp.t['sep']), z3.Not(is_type(c, st, t, 'LINE_END', 'EXPRESSION_END'))), z3.BoolVal(False) if kind == MAIN else is_type(c, st, t, 'PROCEDURE', 'FUNCTION'))
    rules = {'0': [T('LINE_END', '0'), S('parseExpression', '0', do=node), End('block', when=ends_block), R(stray)]}
    if kind == MAIN:
        rules['0'] += [S('parseProcedure', '0', do=node), S('parseFunction', '0', do=node)]

    class P:
        def setup(self, c):
            st, p = parse_setup(c, B)
            st.ghost['scan'] = True
            st.ghost['K'] = bv('anywhere')
            sp = Block(rules)
            sp.kind = kind
            sp.t = {'cap:block': NULL, 'at': z3.BitVecVal(0, 64), 'sep': z3.BoolVal(True)}
            c.e.candidate_hooks += [scan_hook, between_hook]
            sp.start(c, st)
            st.spec = sp
            st.pc.append(in_source(c, st, 0))
            c.e.inductive.append(lambda e, st: in_source(c, st, 0))
            yield st, [p, kind]

        def post(self, c, st, out):
            st.ghost['ret'] = out[0] == 'ret'
            st.spec.finish(c, st, out)
            if out[0] == 'ret':
                c.ok(st, 'only the program itself reports a stray BREAK or CONTINUE', st.ghost.get('main') == (kind == MAIN))
    return target('C01 C03 C10 C11 C12', 'Parser::parseBlock(Parser::BlockType)', name='Parser::parseBlock(%s)' % name, contracts=parser_contracts, cover=['parsed', 'error', 'part'], budget=120)(P)


for k, n in ((MAIN, 'MAIN'), (CASE, 'CASE'), (OTHER, 'OTHER')):
    block_of(k, n)


# ---------------------------------------------------------------- definitions of procedures and functions
OPEN, COMMA, PASS, NAMED, COLON, TYPED = range(6)      # t.ph: what the last token of the parameter list was


class Params(Tracked):
    """n parameters have been named, the first d have their type; K: any one of them.
    t.mode: the passing mode of the next parameter; t.passk: of the parameter K; t.nb: how many modes are listed"""
    def ph(self, *v):
        return z3.Or(*[self.t['ph'] == x for x in v])

    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode[0] != 'p' or kind not in ('advance', 'push', 'sub', 'suberror', 'make'):
            if kind == 'push' and self.mode[0] != 'bad' and isinstance(st.ghost.get('names'), Ptr):
                return self.listed(c, st, d)
            return Tracked.on(self, eng, st, kind, d)
        if kind == 'push':
            return self.listed(c, st, d)
        if kind != 'advance':
            return self.bad(eng, st, 'a list of parameters has no statements')
        t, n = d['token'], self.t['n']
        self.t = dict(self.t)
        ty = lambda *names: eng.decide(st, is_type(c, st, t, *names))
        c.ok(st, 'every name is listed before the next token but one', self.mode[1] <= 1)
        if ty('RPAREN'):
            c.ok(st, 'a list of parameters is complete', self.ph(OPEN, TYPED))
            c.ok(st, 'every parameter has its type', self.t['d'] == n)
            self.go('9')
        elif ty('COMMA'):
            c.ok(st, 'a comma follows a parameter', self.ph(NAMED, TYPED))
            c.ok(st, 'the parameters before have their type', z3.Implies(self.ph(TYPED), self.t['d'] == n))
            self.t['ph'] = z3.BitVecVal(COMMA, 8)
        elif ty('BYREF', 'BYVAL'):
            c.ok(st, 'a passing mode stands before a parameter', self.ph(OPEN, COMMA))
            self.t['mode'] = is_type(c, st, t, 'BYREF')
            self.t['ph'] = z3.BitVecVal(PASS, 8)
        elif ty('COLON'):
            c.ok(st, 'a type follows the name', self.ph(NAMED))
            self.t['ph'] = z3.BitVecVal(COLON, 8)
        elif ty('DATA_TYPE', 'IDENTIFIER'):
            if eng.decide(st, self.ph(COLON)):
                self.t['cap:type'] = t
                self.t['ph'] = z3.BitVecVal(TYPED, 8)
            else:
                c.ok(st, 'a name stands where a parameter starts', z3.And(self.ph(OPEN, COMMA, PASS), is_type(c, st, t, 'IDENTIFIER')))
                self.t['passk'] = z3.If(n == st.ghost['K'], self.t['mode'], self.t['passk'])
                self.t['n'] = z3.simplify(n + 1)
                self.t['ph'] = z3.BitVecVal(NAMED, 8)
                st.pc.append(z3.ULT(n, 1 << 30))      # there are fewer than 2^30 tokens
                self.owe('names', t)
        else:
            self.bad(eng, st, 'the token does not belong to a list of parameters')
        self.t['ty'] = ttype(c, st, cur(c, st))

    def listed(self, c, st, d):
        v = d['elem'].get(0)
        self.t = dict(self.t)
        idx = None if d['idx'] is None else lib.b64(d['idx'])
        if isinstance(v, lib.S):
            due, self.due = self.due[:1], self.due[1:]
            c.ok(st, 'each name is listed once, in order', z3.And(idx == self.t['n'] - 1, lib.seq(v, c.w.peek(st, due[0][1], 'value', 'Token'))) if due else False)
            c.ok(st, 'the names are one list', st.ghost.setdefault('namelist', d['vec'].obj) == d['vec'].obj)
            self.settle()
        elif isinstance(v, Ptr):
            c.ok(st, 'the type is listed for each parameter of its group', z3.And(idx == self.t['d'], z3.ULT(idx, self.t['n']), self.ph(TYPED), same_part(c, st, v, self.cap('type'))))
            self.t['d'] = z3.simplify(self.t['d'] + 1)
            c.ok(st, 'the types are one list', st.ghost.setdefault('typelist', d['vec'].obj) == d['vec'].obj)
        else:
            m = self.t['nb']
            b = as_flag(v)
            c.ok(st, 'the passing mode of each parameter is listed', z3.And(z3.ULT(m, self.t['n']), z3.Implies(m == st.ghost['K'], b == self.t['passk'])))
            self.t['nb'] = z3.simplify(m + 1)
            c.ok(st, 'the modes are one list', st.ghost.setdefault('modelist', d['vec'].obj) == d['vec'].obj)

    def finish(self, c, st, out):
        if self.mode[0] != 'p':
            return Tracked.finish(self, c, st, out)
        t = cur(c, st)
        ty = lambda *names: is_type(c, st, t, *names)
        c.ok(st, 'a list of parameters ends with a parenthesis', out[0] == 'throw')
        if out[0] != 'throw':
            return
        m = st.mem[out[1].obj].meta.get('err') if isinstance(out[1], Ptr) else None
        c.ok(st, 'the error is one of the syntax', m is not None and c.e.derives(out[2], SYN))
        if m is None:
            return
        c.ok(st, 'the error names the offending token', any(isinstance(x, Ptr) and x.obj == t.obj and not isz(x.off) and x.off == 0 for x in m[2]))
        c.cover('rejected')
        c.ok(st, 'only a text that cannot be continued is rejected', z3.Not(z3.Or(
            z3.And(self.ph(OPEN, TYPED), ty('RPAREN')), z3.And(self.ph(NAMED, TYPED), ty('COMMA')), z3.And(self.ph(OPEN, COMMA), ty('BYREF', 'BYVAL', 'IDENTIFIER')),
            z3.And(self.ph(PASS), ty('IDENTIFIER')), z3.And(self.ph(NAMED), ty('COLON')), z3.And(self.ph(COLON), ty('DATA_TYPE', 'IDENTIFIER')))))

    def part(self, c, st, p, want):
        if want == 'names' or want == 'types':
            if not (isinstance(p, tuple) and p[0] == 'vec'):
                return False
            c.ok(st, 'every parameter has its %s, in one list' % want[:-1], z3.And(lib.b64(p[2]) == self.t['n'], z3.BoolVal(p[3] == st.ghost.get(want[:-1] + 'list', p[3]))))
            return True
        if want == 'modes':
            c.ok(st, 'every parameter has its mode', self.t['nb'] == self.t['n'])
            return isinstance(p, Ptr) and p.obj == st.ghost.get('modelist', p.obj) and p.obj in st.ghost['boolvecs']
        return Tracked.part(self, c, st, p, want)


def as_flag(v):
    return v if isz(v) and z3.is_bool(v) else z3.BoolVal(bool(v)) if not isz(v) else v != 0


def params_hook(e, loop, A):
    """candidate invariants: the counters and flags of the program against those of the specification"""
    sp = A.spec
    if not isinstance(sp, Params):
        return []
    T = lambda g, n: g(('spec', n)) if ('spec', n) in loop.W else sp.t[n]
    E0 = loop.entry.spec.t
    k, out = A.ghost['K'], []
    out.append(('where a list of parameters is looked at', lambda g: z3.Or(T(g, 'ph') == OPEN, T(g, 'ph') == TYPED, z3.And(T(g, 'ph') == NAMED, T(g, 'ty') == K(e.c, 'COMMA')[0]))))
    out.append(('nothing named at the start', lambda g: (T(g, 'ph') == OPEN) == (T(g, 'n') == 0)))
    out.append(('all typed after a type', lambda g: z3.Or(T(g, 'ph') == NAMED, T(g, 'd') == T(g, 'n'))))
    out.append(('modes of parameters', lambda g: z3.ULE(T(g, 'nb'), T(g, 'n'))))
    out.append(('types of parameters', lambda g: z3.ULE(T(g, 'd'), T(g, 'n'))))
    out.append(('number of parameters', lambda g: z3.ULE(T(g, 'n'), 1 << 30)))
    for l, (kd, a) in loop.W.items():
        if l[0] == 'spec':
            continue
        if kd == 'bv' and a == 32:
            x = lambda g, l=l: z3.SignExt(32, bvt(g(l), 32))
            out.append(('%s modes wait' % (l,), lambda g, x=x: x(g) == T(g, 'n') - T(g, 'nb')))
            out.append(('%s types wait' % (l,), lambda g, x=x: x(g) == T(g, 'n') - T(g, 'd') + 1))
            out.append(('%s modes listed here' % (l,), lambda g, x=x: x(g) == T(g, 'nb') - E0['nb']))
            out.append(('%s types listed here' % (l,), lambda g, x=x: x(g) == T(g, 'd') - E0['d']))
            out.append(('%s is not negative' % (l,), lambda g, x=x: x(g) >= 0))
        if kd == 'vecptr':
            def count(g, l=l, es=a[1]):
                o = g(l).off
                return lib.b64(o // es) if isinstance(o, int) else vec.exact_div(z3.simplify(o), es)
            out.append(('%s ends the names' % (l,), lambda g, count=count: count(g) == T(g, 'n')))
            out.append(('%s ends the types' % (l,), lambda g, count=count: count(g) == T(g, 'd')))
        if kd == 'bool' or kd == 'bv' and a == 8:
            if kd == 'bv':
                out.append(('%s is a flag' % (l,), lambda g, l=l: z3.ULE(bvt(g(l), 8), 1)))
            out.append(('%s is the mode' % (l,), lambda g, l=l: as_flag(g(l)) == T(g, 'mode')))
            out.append(('%s is the mode of those that wait' % (l,), lambda g, l=l: z3.Implies(z3.And(z3.ULE(T(g, 'nb'), k), z3.ULT(k, T(g, 'n'))), as_flag(g(l)) == T(g, 'passk'))))
    return out


def definition(fn, word, rest):
    rules = {'0': [T(word, '1', 'tok')], '1': [T('IDENTIFIER', '2', 'name')], '2': [T('LPAREN', 'p')] + rest['9'], 'p': []}
    rules.update(rest)
    caps = ('tok', 'name', 'block', 'rt', 'type')

    class P:
        def setup(self, c):
            st, p = parse_setup(c, fn)
            sp = Params(rules)
            sp.t = {'cap:' + x: NULL for x in caps}
            z = z3.BitVecVal(0, 64)
            sp.t.update(n=z, d=z, nb=z, ph=z3.BitVecVal(OPEN, 8), mode=z3.BoolVal(False), passk=z3.BoolVal(False))
            st.ghost.update(K=bv('K'), names=p, boolvecs=set(), norel=('',))
            sp.start(c, st)
            c.e.candidate_hooks.append(params_hook)

            def bvec(e, s, a, ins):
                s.ghost['boolvecs'] = s.ghost['boolvecs'] | {a[0].obj}
                return None
            c.handler(r'^std::vector<bool, std::allocator<bool>\s?>::vector\(\)', bvec)
            c.handler(r'^std::_Bvector_base<std::allocator<bool>\s?>::~_Bvector_base\(', lambda e, s, a, ins: None)

            def empty(e, s, a, ins):
                """an empty vector of names or types: its buffer is there from the start"""
                for i in (0, 8, 16):
                    e.put(s, e.gep_off(a[0], i), NULL, 8)
                e.put(s, e.gep_off(a[0], 16), vec.buffer(e, s, a[0], 'Token*' if 'Token' in e.dem[e.curname] else 'std::basic_string<char>')[0], 8)
                return None
            c.handler(r'^std::vector<(Token const\*|std::__cxx11::basic_string<.*>), .*>::vector\(\)', empty)

            def room(e, s, a, ins):
                c.ok(s, 'the room reserved is that of the parameters', z3.ULE(lib.b64(a[1]), 1 << 31))
                return None
            c.handler(r'^std::vector<bool, std::allocator<bool>\s?>::reserve\(', room)
            st.spec = sp
            yield st, [p]

        def post(self, c, st, out):
            st.spec.finish(c, st, out)
    return target('C09 C04 C10 C11', 'Parser::%s()' % fn, contracts=parser_contracts, cover=['parsed', 'error', 'part', 'rejected'], budget=220)(P)


definition('parseProcedure', 'PROCEDURE', {'9': [S(B, 'e', 'block', OTHER)], 'e': [T('ENDPROCEDURE', 'f')],
                                           'f': [End(('ProcedureNode', 'tok', 'name.value', 'names', 'types', 'modes', 'block'))]})
definition('parseFunction', 'FUNCTION', {'9': [T('LINE_END', '9'), T('RETURNS', 'r')], 'r': [T('DATA_TYPE IDENTIFIER', 's', 'rt')], 's': [S(B, 'e', 'block', OTHER)], 'e': [T('ENDFUNCTION', 'f')],
                                         'f': [End(('FunctionNode', 'tok', 'name.value', 'names', 'types', 'modes', 'block', 'rt'))]})


# ---------------------------------------------------------------- the whole text
class Whole(Gram):
    def on(self, eng, st, kind, d):
        if kind == 'out':
            return
        Gram.on(self, eng, st, kind, d)


parses('parse', {'0': [S(B, '1', 'x', MAIN)], '1': [End('x', when=lambda sp, c, st, t: is_type(c, st, t, 'EXPRESSION_END'))]}, 'C01 C10 C11 C12', cls=Whole)
