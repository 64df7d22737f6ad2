"""Records: the text of a value, and reading it back (C13). What dump writes is exactly what load is shown to read back as the
same value; a record of another type is refused."""
from .base import *
from .base import _Cur
from .p02 import NUM
from .p03 import Auto, RTE
from .p05 import var_contracts, same
from .p17 import real_date, builtin, builtin_contracts
from .p18 import date_contracts
from .p14 import file_contracts, FILE
from .p04 import witness
from .. import streams

L = lib.lit
II, RR, BB, CC, SS, DD = 'INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE'
TAG = {II: 'INTEGER', RR: 'REAL', BB: 'BOOLEAN', CC: 'CHAR', SS: 'STRING', DD: 'DATE', 'ENUM': 'ENUM', 'COMPOSITE': 'COMPOSITE', 'ARRAY': 'ARRAY'}
CLS = dict(VCLS)
CLS.update(ENUM='PSC::Enum')
OUT = 'std::ostream&'


def signed(x):
    return lib.item_string(_Cur.st, ('long', x), 6)


def dec(st, x, kind='long'):
    return lib.item_string(st, (kind, x), 6)


def cat(*a):
    r = L(b'')
    for x in a:
        r = lib.concat(r, L(x) if isinstance(x, bytes) else x)
    return r


def text(c, st, k, v):
    """the record of a value, as a text"""
    if k == II:
        return cat(b'INTEGER ', dec(st, v))
    if k == RR:
        return cat(b'REAL ', lib.item_string(st, ('double', v), 17))
    if k == DD:
        y, m, d = v
        return cat(b'DATE ', dec(st, z3.ZeroExt(24, d), 'unsigned int'), b' ', dec(st, z3.ZeroExt(24, m), 'unsigned int'), b' ', dec(st, z3.SignExt(16, y), 'int'))
    if k == 'ENUM':
        return cat(b'ENUM ', v[0], b' ', dec(st, v[1], 'unsigned long'))


def pieces(c, st, k, v):
    """the same, as what a stream holds"""
    if k == II:
        return [('lit', b'INTEGER '), ('num', v)]
    if k == RR:
        return [('lit', b'REAL '), ('real', v)]
    if k == BB:
        return [('lit', b'BOOLEAN ' + (b'TRUE' if v else b'FALSE'))]
    if k == DD:
        y, m, d = v
        return [('lit', b'DATE '), ('num', z3.ZeroExt(56, d)), ('lit', b' '), ('num', z3.ZeroExt(56, m)), ('lit', b' '), ('num', z3.SignExt(48, y))]
    if k == 'ENUM':
        return [('lit', b'ENUM '), ('word', v[0]), ('lit', b' '), ('num', v[1], True)]


def out_stream(c, st):
    p = c.e.new(st, 512, 'heap', name='out')
    st.ghost['text'] = dict(st.ghost.get('text', {}))
    st.ghost['text'][lib.skey(p)] = (L(b''), 6)
    return p


def rec_contracts(c):
    var_contracts(c)
    e, w, H = c.e, c.w, c.handler
    e.candidate_hooks.append(witness)


def value_object(c, st, k):
    p = c.w.new(st, CLS[k])
    return p, c.payload(st, p, CLS[k])


def dump_target(k):
    cls = CLS[k]

    class Dump:
        def setup(self, c):
            st = c.state()
            p, v = value_object(c, st, k)
            o = out_stream(c, st)
            st.ghost.update(v=v, out=o, node=p)
            yield st, [p, o]

        def post(self, c, st, out):
            g, v = st.ghost, st.ghost['v']
            c.ok(st, 'returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            x = st.ghost['text'].get(lib.skey(g['out']))
            c.ok(st, 'the text is known', x is not None)
            if x is None:
                return
            x = x[0]
            c.cover('written')
            c.frame(st, 'writing a value changes nothing', {g['out'].obj})
            if k == BB:
                want = L(b'BOOLEAN TRUE') if c.e.decide(st, bvt(v, 8) != 0) else L(b'BOOLEAN FALSE')
            elif k == CC:
                want = cat(b'CHAR ', lib.char1(v))
                if c.e.decide(st, bvt(v, 8) == 10):
                    want = cat(want, b'#')
            else:
                want = text(c, st, k, v)
            c.ok(st, 'the record is the type and the value', lib.textgoal(st, x, want))
    target('C13 C14 C01', '%s::dump(std::ostream&) const' % cls, contracts=rec_contracts, cover=['written'])(Dump)


def load_target(k):
    cls = CLS[k]

    class Load:
        def setup(self, c):
            w = c.w
            ctx = None
            for case in ('same',) + tuple('other ' + x for x in TAG if x != k) + ('no number',):
                if case == 'no number' and k in (CC, SS, BB, 'ENUM'):
                    continue
                for sub in ((False, True) if k == BB and case == 'same' else (b'\n#', None) if k == CC and case == 'same' else (None,)):
                    st = c.state()
                    p, old = value_object(c, st, k)
                    ctx = w.new(st, 'PSC::Context')
                    src, v = value_object(c, st, k)
                    if case == 'same':
                        if k == BB:
                            v, ps = z3.BitVecVal(int(sub), 8), pieces(c, st, k, sub)
                        elif k == CC:
                            v = z3.BitVecVal(10, 8) if sub else bvt(v, 8)
                            if not sub:
                                st.pc.append(v != 10)
                            ps = [('lit', b'CHAR ')] + ([('lit', sub)] if sub else [('char', v)])
                        else:
                            ps = pieces(c, st, k, v)
                        if k == RR:
                            st.pc.append(z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v))))
                        if k == DD:
                            y, m, d = v
                            st.pc.append(z3.Or(real_date(v), z3.And(y == 0, m == 0, d == 0)))
                        if k == 'ENUM':
                            st.pc.append(lib.seq(v[0], old[0]))        # a record of the same type
                            D = w.new(st, 'PSC::EnumTypeDefinition')
                            b = w.peek(st, D, 'values')
                            st.pc.append(z3.ULT(bvt(v[1]), bvt(st.mem[b.obj].meta['n'])))
                            st.pc.append(lib.seq(w.peek(st, D, 'name'), v[0]))
                            st.ghost['def'] = D
                        ps.append(('rest',))
                    elif case.startswith('other'):
                        ps = [('lit', TAG[case[6:]].encode() + b' '), ('rest',)]
                    else:
                        ps = [('lit', TAG[k].encode() + b' x')]
                    s = streams.reader(c.e, st, ps)
                    st.ghost.update(case=case, v=v, old=old, p=p, in_=s, node=p, ctx=ctx)
                    yield st, [p, s, ctx]

        def post(self, c, st, out):
            g = st.ghost
            c.ok(st, 'returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            r = out[1]
            r = bool(r) if isinstance(r, int) else r
            if g['case'] != 'same':
                c.cover('refused')
                return c.ok(st, 'a record of something else is refused', z3.Not(r) if isz(r) else not r)
            c.cover('read')
            c.ok(st, 'a record of the type is read', r)
            ps, failed = streams.left(st, g['in_'])
            c.ok(st, 'exactly the record is read', list(ps) == [('rest',)])
            now = c.payload(st, g['p'], cls)
            c.ok(st, 'the value read is the one written', same(k, now, g['v']))
            c.frame(st, 'nothing but the value changes', {g['p'].obj, g['in_'].obj})
    cov = ['read', 'refused']
    target('C13 C14 C01', '%s::load(std::istream&, PSC::Context&)' % cls, contracts=enum_contracts if k == 'ENUM' else load_contracts, cover=cov)(Load)


def load_contracts(c):
    rec_contracts(c)
    date_contracts(c)


def enum_contracts(c):
    load_contracts(c)
    e, w = c.e, c.w

    def look(e, st, a, ins):
        """the enum type of that name, if there is one"""
        D = st.ghost.get('def')
        s = lib.gets(e, st, a[1])
        e.event(st, 'getdef', name=s, ctx=a[0])
        if D is None:
            D = w.new(st, 'PSC::EnumTypeDefinition') if e.decide(st, boolean('found')) else NULL
            if not D.null:
                st.pc.append(lib.seq(w.peek(st, D, 'name'), s))
            return D
        e.safety(st, 'the type of the record is looked up', lib.seq(s, st.ghost['v'][0]))
        return D
    c.handler(r'^PSC::Context::getEnumDefinition\(', look)


for _k in (II, RR, BB, CC, DD, 'ENUM'):
    dump_target(_k)
    load_target(_k)


# ---------------------------------------------------------------- STRING: a line feed is followed by a #
B64 = z3.BitVecSort(64)
CNT = z3.Function('encoded', B64, B64)          # number of characters that represent the first i characters of the text
W1 = lambda b: z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))


def cnt_facts(v, j, k=None, sum=True):
    """instances of the definition of CNT and of its monotony (by induction), at j; and between k and j"""
    n = v.length()
    step = lambda i: CNT(i + 1) == CNT(i) + 1 + W1(v.char(i) == 10)
    f = [CNT(z3.BitVecVal(0, 64)) == 0, z3.Implies(z3.ULT(j, n), step(j)), z3.Implies(z3.ULE(j, n), z3.And(z3.UGE(CNT(j), j), z3.ULE(CNT(j), 1 << 42)))]
    if sum:
        f.append(z3.Implies(z3.ULE(j, n), z3.UGE(CNT(n), CNT(j) + (n - j))))
    if k is not None:
        f.append(z3.Implies(z3.And(z3.ULT(k, j), z3.ULE(j, n)), z3.And(z3.ULT(CNT(k), CNT(j)), z3.Implies(v.char(k) == 10, z3.ULT(CNT(k) + 1, CNT(j))), z3.ULE(CNT(k), 1 << 42))))
    return z3.And(*f)


def string_facts(e, loop, A):
    g = loop.entry.ghost
    if 'enc' not in g:
        return
    for l, (k, a) in loop.W.items():
        if k == 'bv' and a == 64:
            A.pc.append(cnt_facts(g['enc'], loop.scalar(l, loop.vals[l]), g['K'], 'out' not in g))


def string_candidates(e, loop, A):
    g0 = loop.entry.ghost
    if 'enc' not in g0:
        return []
    v, K = g0['enc'], g0['K']
    n = v.length()
    out = []
    pos = [l for l, (k, a) in loop.W.items() if k == 'bv' and a == 64]
    strs = [l for l, (k, a) in loop.W.items() if k == 'str']
    bits = [l for l, (k, a) in loop.W.items() if k == 'bool']
    chars = [l for l, (k, a) in loop.W.items() if k == 'bv' and a == 8]
    sc = loop.scalar
    for p in pos:
        out.append(('%s in the text' % (p,), lambda g, p=p: z3.ULE(sc(p, g(p)), n)))
        for s in strs:
            out.append(('%s encodes %s characters' % (s, p), lambda g, p=p, s=s: g(s).length() == CNT(sc(p, g(p)))))
            out.append(('%s is %s long' % (s, p), lambda g, p=p, s=s: g(s).length() == sc(p, g(p))))
            out.append(('%s holds the text until %s' % (s, p), lambda g, p=p, s=s: z3.Implies(z3.ULT(K, sc(p, g(p))), g(s).char(K) == v.char(K))))
            out.append(('%s encodes the text until %s' % (s, p), lambda g, p=p, s=s: z3.Implies(z3.ULT(K, sc(p, g(p))), g(s).char(CNT(K)) == v.char(K))))
            out.append(('%s encodes line ends until %s' % (s, p), lambda g, p=p, s=s: z3.Implies(z3.And(z3.ULT(K, sc(p, g(p))), v.char(K) == 10), g(s).char(CNT(K) + 1) == 35)))
        for q in pos:
            for b in bits:
                if p != q:
                    out.append(('%s + %s encodes %s' % (p, b, q), lambda g, p=p, q=q, b=b: sc(p, g(p)) + W1(as_bool(g(b))) == CNT(sc(q, g(q)))))
    for b in bits:
        for ch in chars:
            out.append(('%s iff %s is a line end' % (b, ch), lambda g, b=b, ch=ch: as_bool(g(b)) == (lib.b8(g(ch)) == 10)))
    return out


def as_bool(r):
    return z3.BoolVal(bool(r)) if isinstance(r, (int, bool)) else r if z3.is_bool(r) else r != 0


def string_contracts(c):
    load_contracts(c)
    c.e.candidate_hooks.append(string_candidates)
    c.e.invariants.append(string_facts)


@target('C13 C14 C01', 'PSC::String::dump(std::ostream&) const', contracts=string_contracts, cover=['written'], budget=60)
class DumpString:
    def setup(self, c):
        st = c.state()
        p, v = value_object(c, st, SS)
        st.pc.append(z3.ULT(v.length(), 1 << 40))
        o = out_stream(c, st)
        K = bv('K')
        st.pc.append(cnt_facts(v, v.length(), K, False))
        st.ghost.update(enc=v, K=K, out=o, node=p)
        yield st, [p, o]

    def post(self, c, st, out):
        g, v, K = st.ghost, st.ghost['enc'], st.ghost['K']
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        its = [d['item'] for k, d in c.events(st, 'out')]
        ok = len(its) == 4 and its[0][0] == 'str' and its[0][1].lit == b'STRING ' and its[2][0] == 'str' and its[2][1].lit == b' ' and its[3][0] == 'str' and its[1][0] in ('unsigned long', 'long')
        c.ok(st, 'the record is the type, the length, and the text', ok)
        c.frame(st, 'writing a value changes nothing', {g['out'].obj})
        if not ok:
            return
        s = its[3][1]
        c.cover('written')
        c.ok(st, 'the length is that of what is written', z3.And(lib.b64(its[1][1]) == s.length(), s.length() == CNT(v.length())))
        st.pc.append(z3.ULT(K, v.length()))
        c.ok(st, 'every character is written in its place', s.char(CNT(K)) == v.char(K))
        c.ok(st, 'a line end is followed by a #', z3.Implies(v.char(K) == 10, s.char(CNT(K) + 1) == 35))


class Encoded(Auto):
    """the characters of the record of a text, in order"""
    def next(self, eng, st):
        c, v = eng.c, st.ghost['enc']
        if eng.decide(st, self.t['pend']):
            self.t = dict(self.t, pend=z3.BoolVal(False))
            return 35
        j = self.t['j']
        c.ok(st, 'only the record is read', z3.ULT(j, v.length()))
        ch = v.char(j)
        st.pc.append(cnt_facts(v, j, st.ghost['K']))
        self.t = dict(self.t, j=z3.simplify(j + 1), pend=z3.simplify(ch == 10))
        return ch

    def on(self, eng, st, kind, d):
        pass


@target('C13 C14 C01', 'PSC::String::load(std::istream&, PSC::Context&)', contracts=string_contracts, cover=['read', 'refused'], budget=120)
class LoadString:
    def setup(self, c):
        for case in ['same', 'no number', 'no space'] + ['other ' + x for x in TAG if x != SS]:
            st = c.state()
            p, old = value_object(c, st, SS)
            v = lib.opaque(st, name='text')
            st.pc.append(z3.ULT(v.length(), 1 << 40))
            K = bv('K')
            st.pc.append(cnt_facts(v, v.length(), K))
            n = CNT(v.length())
            ps = [('lit', b'STRING '), ('num', n, True), ('lit', b' '), ('auto',), ('rest',)]
            if case.startswith('other'):
                ps = [('lit', TAG[case[6:]].encode() + b' '), ('rest',)]
            elif case == 'no number':
                ps = [('lit', b'STRING x')]
            elif case == 'no space':
                ps = [('lit', b'STRING '), ('num', n, True), ('lit', b'\t'), ('auto',), ('rest',)]
            s = streams.reader(c.e, st, ps)
            sp = st.spec = Encoded('reading', j=z3.BitVecVal(0, 64), pend=z3.BoolVal(False))
            ctx = c.w.new(st, 'PSC::Context')
            st.ghost.update(enc=v, K=K, case=case, p=p, in_=s, node=p)
            yield st, [p, s, ctx]

    def post(self, c, st, out):
        g, v, K = st.ghost, st.ghost['enc'], st.ghost['K']
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = as_bool(out[1])
        if g['case'] != 'same':
            c.cover('refused')
            return c.ok(st, 'a record of something else is refused', z3.Not(r))
        c.cover('read')
        c.ok(st, 'a record of the type is read', r)
        t = st.spec.t
        st.pc.append(cnt_facts(v, t['j'], K))
        c.ok(st, 'exactly the record is read', z3.And(t['j'] == v.length(), z3.Not(t['pend'])))
        now = c.payload(st, g['p'], 'PSC::String')
        c.ok(st, 'the text read has the length of the one written', now.length() == v.length())
        st.pc.append(z3.ULT(K, v.length()))
        c.ok(st, 'the text read is the one written', now.char(K) == v.char(K))
        c.frame(st, 'nothing but the value changes', {g['p'].obj, g['in_'].obj})


# ---------------------------------------------------------------- variables, arrays, composites
def nested_contracts(c):
    """the records of the components, through their contracts"""
    load_contracts(c)
    e, w, H = c.e, c.w, c.handler

    def dump(e, st, a, ins):
        e.event(st, 'dump', holder=a[0], stream=a[1])
        return None

    def load(e, st, a, ins):
        r = boolean('loaded')
        out = c.raise_any(st)
        for o in out:
            e.event(o[1], 'load', holder=a[0], stream=a[1], ctx=a[2], r=None)
        if a[0].obj in st.mem:
            e.mark(st, a[0])
        e.event(st, 'load', holder=a[0], stream=a[1], ctx=a[2], r=r)
        return out + [('ret', st, r)]
    for cls in ('PSC::DataHolder', 'PSC::Variable', 'PSC::Array', 'PSC::Value'):
        e.virt[(cls, 'dump')] = dump
        e.virt[(cls, 'load')] = load
    e.candidate_hooks.append(spaced)
    own = st_fn(c)
    for cls in ('Variable', 'Array', 'Composite', 'Pointer', 'Integer', 'Real', 'Boolean', 'Char', 'String', 'Date', 'Enum'):
        for n, f in (('dump', dump), ('load', load)):
            if own != 'PSC::%s::%s' % (cls, n):
                H(r'^PSC::%s::%s\(' % (cls, n), f)

    def look(e, st, a, ins):
        s = lib.gets(e, st, a[1])
        D = w.new(st, 'PSC::CompositeTypeDefinition') if e.decide(st, boolean('found')) else NULL
        if not D.null:
            st.pc.append(lib.seq(w.peek(st, D, 'name'), s))
        e.event(st, 'getdef', name=s, ctx=a[0], res=D)
        return D
    H(r'^PSC::Context::getCompositeDefinition\(', look)


def st_fn(c):
    return re.match(r'[\w:]+', c.target.fn).group(0) if getattr(c, 'target', None) else ''


def spaced(e, loop, A):
    """a flag of the specification holds, except after the last component"""
    sp = loop.entry.spec
    if not isinstance(sp, Components):
        return []
    out = []
    B = [l for l, (k, a) in loop.W.items() if k == 'bool']
    P = [l for l, (k, a) in loop.W.items() if k == 'bv' and a == 64]
    for b in B:
        out.append(('%s' % (b,), lambda g, b=b: as_bool(g(b))))
        for p in P:
            for i, n in enumerate(sp.n):
                out.append(('%s or %s at the end %d' % (b, p, i), lambda g, b=b, p=p, n=n: z3.Or(as_bool(g(b)), loop.scalar(p, g(p)) == n)))
    return out


class Components(Auto):
    """the records of the components in order, separated by spaces: variables first, then arrays"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind == 'dump':
            k = st.mem[d['holder'].obj].meta.get('key')
            c.ok(st, 'the records go to the file', d['stream'].obj == st.ghost['out'].obj)
            c.ok(st, 'a record starts after a space', self.t['sep'])
            self.step(c, st, k)
            self.t = dict(self.t, sep=z3.BoolVal(False))
        elif kind == 'out':
            x = lib.item_string(st, d['item'], 6)
            c.ok(st, 'the text goes to the file', d['stream'].obj == st.ghost['out'].obj)
            if self.mode == 'head':
                self.head.append(d['item'])
                if x is not None and x.lit is not None and x.lit.endswith(b' '):
                    self.t = dict(self.t, sep=z3.BoolVal(True))
                return
            c.ok(st, 'between the components there are spaces only', x is not None and x.lit is not None and x.lit.strip() == b'' and len(x.lit) > 0)
            self.t = dict(self.t, sep=z3.BoolVal(True))
        elif kind == 'load':
            k = st.mem[d['holder'].obj].meta.get('key')
            c.ok(st, 'the components are read from the record', d['stream'].obj == st.ghost['in_'].obj and d['ctx'].obj == st.ghost['ctx'].obj)
            c.ok(st, 'nothing is read after a component that does not match', self.t['good'])
            self.step(c, st, k)
            if d['r'] is None:
                self.mode = 'error'
            else:
                self.t = dict(self.t, good=d['r'])

    def step(self, c, st, k):
        if k is None:
            return self.bad(c.e, st, 'a component of the value')
        first = len(self.bufs) == 2 and k[0] == self.bufs[1]
        if k[0] not in self.bufs:
            return self.bad(c.e, st, 'a component of the value')
        n = 'j' if first else 'i'
        c.ok(st, 'the components come in order, once each', k[1] == self.t[n])
        if first:
            c.ok(st, 'arrays come after the variables', self.t['i'] == self.n[0])
        self.t = dict(self.t)
        self.t[n] = z3.simplify(self.t[n] + 1)
        self.mode = 'body'

    def complete(self):
        r = [self.t['i'] == self.n[0]]
        if len(self.bufs) == 2:
            r.append(self.t['j'] == self.n[1])
        return z3.And(*r)


def components(c, st, p, cls):
    """(buffers, lengths) of the components of a value"""
    w = c.w
    if cls == 'PSC::Array':
        vs = [w.peek(st, p, 'data')]
    else:
        cx = w.peek(st, p, 'ctx')
        vs = [w.peek(st, cx, 'variables'), w.peek(st, cx, 'arrays')]
    return [b.obj for b in vs], [bvt(st.mem[b.obj].meta['n']) for b in vs]


def spec_of(c, st, p, cls):
    sp = Components('head', i=z3.BitVecVal(0, 64), j=z3.BitVecVal(0, 64), sep=z3.BoolVal(False), good=z3.BoolVal(True))
    sp.bufs, sp.n = components(c, st, p, cls)
    sp.head = []
    return sp


def nested_dump(cls, tag):
    class Dump:
        def setup(self, c):
            st = c.state()
            p = c.w.new(st, cls)
            sp = st.spec = spec_of(c, st, p, cls)
            o = out_stream(c, st)
            st.ghost.update(out=o, p=p, node=p)
            yield st, [p, o]

        def post(self, c, st, out):
            sp = st.spec
            c.ok(st, 'returns', out[0] == 'ret')
            if out[0] != 'ret' or sp.mode == 'bad':
                return
            c.cover('written')
            c.ok(st, 'all components are written', sp.complete())
            h = [lib.item_string(st, x, 6) for x in sp.head]
            ok = len(h) >= 3 and h[0] is not None and h[0].lit == tag + b' ' and h[2].lit == b' '
            c.ok(st, 'the record starts with what it is', ok)
            if ok and cls == 'PSC::Array':
                c.ok(st, 'and the number of elements', z3.And(sp.head[1][0] == 'unsigned long', lib.b64(sp.head[1][1]) == sp.n[0]) if sp.head[1][0] == 'unsigned long' else False)
            elif ok:
                c.ok(st, 'and the name of the type', lib.seq(h[1], c.w.peek(st, st.ghost['p'], 'definitionName')))
            c.frame(st, 'writing a value changes nothing', {st.ghost['out'].obj})
    target('C13 C07 C01' if cls != 'PSC::Array' else 'C13 C01', '%s::dump(std::ostream&) const' % cls, contracts=nested_contracts, cover=['written'])(Dump)

    class Load:
        def setup(self, c):
            w = c.w
            for case in ['same', 'size'] + ['other ' + x for x in TAG if TAG[x] != tag.decode()]:
                if case == 'size' and cls != 'PSC::Array':
                    continue
                st = c.state()
                p = w.new(st, cls)
                sp = st.spec = spec_of(c, st, p, cls)
                if case.startswith('other'):
                    ps = [('lit', TAG[case[6:]].encode() + b' '), ('rest',)]
                elif cls == 'PSC::Array':
                    n = sp.n[0]
                    if case == 'size':
                        n = bv('size')
                        st.pc.append(n != sp.n[0])
                    ps = [('lit', b'ARRAY '), ('num', n, True), ('lit', b' '), ('nested',), ('rest',)]
                else:
                    s = lib.opaque(st, name='recordtype')
                    st.ghost['typename'] = s
                    ps = [('lit', b'COMPOSITE '), ('word', s), ('lit', b' '), ('nested',), ('rest',)]
                s = streams.reader(c.e, st, ps)
                ctx = w.new(st, 'PSC::Context')
                st.ghost.update(case=case, p=p, in_=s, ctx=ctx, node=p)
                yield st, [p, s, ctx]

        def post(self, c, st, out):
            g, sp = st.ghost, st.spec
            if sp.mode == 'bad':
                return
            if out[0] == 'throw':
                return c.ok(st, 'only reading a component fails', sp.mode == 'error')
            c.ok(st, 'returns', out[0] == 'ret' and sp.mode != 'error')
            if out[0] != 'ret':
                return
            r = as_bool(out[1])
            if g['case'] != 'same':
                c.cover('refused')
                c.ok(st, 'a record of something else is refused', z3.Not(r))
                return c.ok(st, 'nothing is read from it', sp.mode == 'head')
            fits = z3.BoolVal(True)
            if cls != 'PSC::Array':
                gd = [d for k, d in c.events(st, 'getdef')]
                c.ok(st, 'the type of the record is looked up', len(gd) == 1 and gd[0]['ctx'].obj == g['ctx'].obj)
                if len(gd) != 1:
                    return
                c.ok(st, 'by the name it has', lib.seq(gd[0]['name'], g['typename']))
                fits = z3.And(z3.BoolVal(not gd[0]['res'].null), lib.seq(g['typename'], c.w.peek(st, g['p'], 'definitionName')))
            if sp.mode == 'head' and not c.e.decide(st, fits):
                c.cover('other type')
                return c.ok(st, 'a record of another type is refused', z3.Not(r))
            c.ok(st, 'only a record of the type is read', fits)
            c.cover('read')
            c.ok(st, 'read exactly if every component was', r == z3.And(sp.complete(), sp.t['good']))
            ps, failed = streams.left(st, g['in_'])
            c.ok(st, 'what the components read follows the head', [x[0] for x in ps if x[0] != 'lit'] == ['nested', 'rest'])
    target('C13 C14 C07 C01' if cls != 'PSC::Array' else 'C13 C14 C06 C01', '%s::load(std::istream&, PSC::Context&)' % cls, contracts=nested_contracts,
           cover=['read', 'refused'] + (['other type'] if cls != 'PSC::Array' else []))(Load)


nested_dump('PSC::Composite', b'COMPOSITE')
nested_dump('PSC::Array', b'ARRAY')


def variable_record(what):
    class T:
        def setup(self, c):
            st = c.state()
            w = c.w
            v = w.variable(st)
            st.ghost['holds'] = None
            o = out_stream(c, st) if what == 'dump' else streams.new_stream(c.e, st, 'in')
            ctx = w.new(st, 'PSC::Context')
            st.ghost.update(v=v, s=o, ctx=ctx, node=v)
            yield st, [v, o] + ([ctx] if what == 'load' else [])

        def post(self, c, st, out):
            g, w = st.ghost, c.w
            ev = [d for k, d in c.events(st) if k == what]
            if out[0] == 'throw':
                return c.ok(st, 'only reading the value fails', what == 'load' and len(ev) == 1 and ev[0]['r'] is None)
            c.ok(st, 'returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            ref = w.peek(st, g['v'], 'ref')
            c.cover('reference' if not ref.null else 'own')
            d = w.peek(st, g['v'] if ref.null else ref, 'data', 'PSC::Variable')
            c.ok(st, 'the value of the variable', len(ev) == 1 and ev[0]['holder'].obj == d.obj and ev[0]['stream'].obj == g['s'].obj)
            if what == 'load' and len(ev) == 1:
                c.ok(st, 'matches exactly if the value does', as_bool(out[1]) == ev[0]['r'])
    sig = '(std::ostream&) const' if what == 'dump' else '(std::istream&, PSC::Context&)'
    target('C13 C14 C01', 'PSC::Variable::%s%s' % (what, sig), contracts=nested_contracts, cover=['own', 'reference'])(T)


variable_record('dump')
variable_record('load')


# ---------------------------------------------------------------- EOF
def eof_contracts(c):
    file_contracts(c)
    builtin_contracts(c)

    def eof(e, st, a, ins):
        e.safety(st, 'the end of a file is asked of a file that is read', c.w.peek(st, a[0], 'mode', FILE) == c.K['FileMode::READ'])
        r = boolean('ateof')
        e.event(st, 'eof', file=a[0], r=r)
        return r
    c.handler(r'^PSC::File::eof\(\)', eof)


def eof_spec(c, st, v):
    w, gf, q = c.w, [d for k, d in c.events(st, 'getfile')], [d for k, d in c.events(st, 'eof')]
    c.ok(st, 'the file is looked up once, by the name given', lib.seq(gf[0]['name'], v[0]) if len(gf) == 1 else False)
    f = gf[0]['res'] if gf else NULL

    def check(c, st, x):
        c.ok(st, 'the file named is asked once', len(q) == 1 and q[0]['file'].obj == f.obj)
        if len(q) == 1:
            c.ok(st, 'its answer is the result', (lib.b8(x) != 0) == q[0]['r'])
    return z3.BoolVal(True) if f.null else w.peek(st, f, 'mode', FILE) != c.K['FileMode::READ'], check


builtin('EOF', 'EOF', [('File', 'STRING')], 'BOOLEAN', eof_spec, 'C15 C16', cover=('value', 'error'), contracts=eof_contracts)


# ---------------------------------------------------------------- the facts about lengths of encoded texts, by induction
@target('C13', None, name='encoded lengths (lemma)')
class EncodedLengths:
    def setup(self, c):
        v = lib.opaque(State(), name='text')
        n, i, k = v.length(), bv('i'), bv('k')
        step = CNT(i + 1) == CNT(i) + 1 + W1(v.char(i) == 10)
        zero = CNT(z3.BitVecVal(0, 64)) == 0
        small = z3.And(z3.ULT(n, 1 << 40), z3.ULT(i, n))
        u = z3.ULE
        b = lambda x: z3.And(u(x, CNT(x)), u(CNT(x), 2 * x))
        c.lemma('at least and at most twice the length: start', b(z3.BitVecVal(0, 64)), [zero])
        c.lemma('at least and at most twice the length: step', z3.And(b(i + 1), u(CNT(i + 1), 1 << 42)), [small, step, b(i)])
        # from i on, every character takes at least one: CNT(n) >= CNT(i) + (n - i), downwards from n
        d = lambda x: z3.UGE(CNT(n), CNT(x) + (n - x))
        c.lemma('what follows takes room: start', d(n), [])
        c.lemma('what follows takes room: step', d(i), [small, step, b(i), d(i + 1)])
        # k < j: CNT(k) < CNT(j), by induction on j
        m = lambda j: z3.And(z3.ULT(CNT(k), CNT(j)), z3.Implies(v.char(k) == 10, z3.ULT(CNT(k) + 1, CNT(j))), u(CNT(k), 1 << 42))
        kstep = CNT(k + 1) == CNT(k) + 1 + W1(v.char(k) == 10)
        c.lemma('increasing: start', m(k + 1), [z3.ULT(k, n), z3.ULT(n, 1 << 40), kstep, b(k)])
        c.lemma('increasing: step', m(i + 1), [small, z3.ULT(k, i), step, b(i), m(i)])
        yield None
