"""Variables: storage, assignment, reading, declaration, input, conversions (C05, C08, C19, C20)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, NUM, error, yields, to_real
from .p03 import Auto, RTE, adopt, scope_contracts, none_result
import re

NOTDEF, ARRACC, PED = '@_ZTIN3PSC15NotDefinedErrorE', '@_ZTIN3PSC22ArrayDirectAccessErrorE', '@_ZTIN3PSC13PedanticErrorE'
USER = ('ENUM', 'POINTER', 'COMPOSITE')
ALLKINDS = [k for k in KINDS if k != 'NONE']


# ---------------------------------------------------------------- shared contracts
def resolve(c):
    """AbstractVariableResolver::resolve: an error, an unknown name, an array, or a variable; may change any variable (it evaluates indices)"""
    def h(e, st, a, ins):
        w = c.w
        out = []
        for ti, how in ((RTE, 'error'), (NOTDEF, 'undefined')):
            s = st.fork()
            c.havoc_world(s)
            e.event(s, 'resolve', resolver=a[0], ctx=a[1], how=how, holder=None)
            out.append(('throw', s, e.new(s, 64, 'exc'), ti))
        s = st.fork()
        _Cur.st = s
        c.havoc_world(s)
        arr = w.new(s, 'PSC::Array')
        e.event(s, 'resolve', resolver=a[0], ctx=a[1], how='array', holder=arr)
        out.append(('ret', s, arr))
        _Cur.st = st
        c.havoc_world(st)
        v = w.variable(st)
        e.event(st, 'resolve', resolver=a[0], ctx=a[1], how='var', holder=v)
        out.append(('ret', st, v))
        return out
    return h


SIMPLE = {}


def simple_source(e, st, p, dst):
    """dynamic_cast of a resolver: a plain name or something else"""
    if not dst.endswith('SimpleVariableSourceE') and 'SimpleVariableSource' not in dst:
        raise Unsupported('dynamic_cast of a resolver to ' + dst)
    o = st.w(p.obj)
    b = o.meta.setdefault('simple', boolean('simple'))
    return p if e.decide(st, b) else NULL


def composite_copy(c):
    def h(e, st, a, ins):
        e.put(st, a[0], e.gep_off(e.gobj(st, '@_ZTVN3PSC9CompositeE'), 16), 8)
        o = st.w(a[0].obj)
        o.cls = 'PSC::Composite'
        o.meta['copyof'] = a[1]
        c.w.poke(st, a[0], 'definitionName', c.w.peek(st, a[1], 'definitionName', 'PSC::Composite'))
        e.event(st, 'copynew', dst=a[0], src=a[1], parent=a[2] if len(a) > 2 else None)
        return None
    return h


def composite_new(c):
    """Composite(name, parent): runs the declarations of the record, which may fail"""
    def h(e, st, a, ins):
        out = c.raise_any(st)
        for o in out:
            c.havoc_world(o[1])
        c.havoc_world(st)
        e.put(st, a[0], e.gep_off(e.gobj(st, '@_ZTVN3PSC9CompositeE'), 16), 8)
        st.w(a[0].obj).cls = 'PSC::Composite'
        c.w.poke(st, a[0], 'definitionName', lib.gets(e, st, a[1]))
        e.event(st, 'newcomposite', dst=a[0])
        return out + [('ret', st, None)]
    return h


def var_contracts(c):
    scope_contracts(c)
    e, w = c.e, c.w
    e.virt[('AbstractVariableResolver', 'resolve')] = resolve(c)
    e.virt[('dynamic_cast', 'AbstractVariableResolver')] = simple_source
    H = c.handler
    H(r'^PSC::Composite::Composite\(PSC::Composite const&(, PSC::Context&)?\)', composite_copy(c))
    H(r'^PSC::Composite::Composite\(std::__cxx11::basic_string.*, PSC::Context&\)', composite_new(c))

    def comp_assign(e, st, a, ins):
        e.mark(st, a[0])
        e.event(st, 'copycomp', dst=a[0], src=a[1])
        return None
    H(r'^PSC::Composite::operator=\(PSC::Composite const&\)', comp_assign)

    def shape(e, st, a, ins):
        r = z3.BoolVal(True) if any(st.mem[x.obj].meta.get('copyof') is not None and st.mem[x.obj].meta['copyof'].obj == y.obj for x, y in ((a[0], a[1]), (a[1], a[0]))) else boolean('shape')
        e.event(st, 'shape', a=a[0], b=a[1], r=r)
        return r
    H(r'^PSC::(Composite|Array|Context)::hasSameShape\(', shape)

    def copydata(e, st, a, ins):
        e.mark(st, a[0])
        e.event(st, 'copydata', dst=a[0], src=a[1])
        return None
    H(r'^PSC::Array::copyData\(', copydata)

    def istype(e, st, a, ins):
        r = boolean('istype')
        e.event(st, 'istype', r=r, token=a[1])
        return r
    H(r'^PSC::Context::isIdentifierType\(', istype)

    def enum_el(e, st, a, ins):
        if not e.decide(st, boolean('iselement')):
            e.event(st, 'element', res=NULL, name=lib.gets(e, st, a[1]))
            return NULL
        v = w.new(st, 'PSC::Enum', 'heap', False)
        w.peek(st, v, 'definitionName')
        w.peek(st, v, 'idx')
        e.event(st, 'element', res=v, name=lib.gets(e, st, a[1]))
        return v
    H(r'^PSC::Context::getEnumElement\(', enum_el)

    def gettype(e, st, a, ins):
        """any type, or none"""
        k = w.kindname[e.choose(st, typeterm(c, st), sorted(w.kindname))]
        n = NULL
        if k in USER:
            o = Obj('tname%s' % number(), 32, 'heap', lambda e_, s_, ob, of, ty: lib.opaque(s_, name='tname'), 'std::string', True)
            n = st.add(o)
        e.event(st, 'gettype', token=a[1], tk=k, name=n)
        return [n, w.T[k]]
    H(r'^PSC::Context::getType\(Token const&, bool\)', gettype)


def typeterm(c, st):
    t = bv('declared', 32)
    st.pc.append(z3.ULE(t, 9))
    return t


def text(e, st, p):
    return lib.gets(e, st, p)


# ---------------------------------------------------------------- comparing values
def full(c, st, p, kind, dead=False):
    """payload of a value object, with the activation a pointer belongs to"""
    v = c.payload_dead(st, p) if dead else c.payload(st, p, VCLS[kind])
    if kind == 'POINTER':
        o = st.w(p.obj)
        alive, o.alive = o.alive, True
        cid = c.w.peek(st, p, 'ctxId', 'PSC::Pointer')
        st.w(p.obj).alive = alive
        return v + (cid,)
    return v


def same(kind, x, y):
    if kind in ('BOOLEAN', 'CHAR'):
        return bvt(x, 8) == bvt(y, 8)
    if kind == 'INTEGER':
        return bvt(x) == bvt(y)
    if kind == 'REAL':
        return x == y
    if kind == 'STRING':
        return lib.seq(x, y)
    if kind == 'DATE':
        return z3.And(*[a == b for a, b in zip(x, y)])
    if kind == 'ENUM':
        return z3.And(lib.seq(x[0], y[0]), bvt(x[1]) == bvt(y[1]))
    if kind == 'POINTER':
        return z3.And(lib.seq(x[0], y[0]), z3.BoolVal(x[1].obj == y[1].obj and x[1].off == y[1].off), bvt(x[2]) == bvt(y[2]))
    if kind == 'COMPOSITE':
        return lib.seq(x[0], y[0])
    raise Unsupported(kind)


def tname(c, st, p, cls, path):
    n = c.w.peek(st, p, path, cls)
    return None if n.null else lib.gets(c.e, st, n)


def type_of(c, st, p, cls):
    """kind and type name of a typed container"""
    k = c.w.kindname[c.e.choose(st, c.w.peek(st, p, 'type.type', cls), sorted(c.w.kindname))]
    return k, (tname(c, st, p, cls, 'type.name') if k in USER else None)


def result_type(c, st, r):
    """type an abstract result had when it was produced (it may have been converted or destroyed since)"""
    k, v = c.orig(st, r)
    return k, (v[0] if k in USER else None)


def convert(c, st, vk, v, target):
    """value v of kind vk as a value of kind target: the conversions an assignment makes; None if there is none"""
    if vk == 'INTEGER' and target == 'REAL':
        return to_real('INTEGER', v)
    if vk == 'CHAR' and target == 'STRING':
        return lib.char1(v)
    if vk == 'STRING' and target == 'CHAR':
        return v.char(0) if c.e.decide(st, v.length() == 1) else None
    return v if vk == target else None


def samename(a, b):
    return z3.BoolVal(True) if a is b else z3.BoolVal(False) if a is None or b is None else lib.seq(a, b)


# ---------------------------------------------------------------- NodeResult::implicitCast, DataType::operator==
@target('C05 C02 C01', 'NodeResult::implicitCast(PSC::DataType)', contracts=var_contracts, cover=['INTEGERREAL', 'STRINGCHAR', 'CHARSTRING'])
class ImplicitCast:
    def setup(self, c):
        for vk in KINDS:
            for t in KINDS:
                st = c.state()
                r = c.w.result(st, vk)
                k, v = c.orig(st, r)
                st.ghost.update(res=r, vk=vk, v=v, t=t, d=c.w.peek(st, r, 'data'))
                n = NULL
                if t in USER:
                    n = st.add(Obj('tn', 32, 'heap', lambda e_, s_, ob, of, ty: lib.opaque(s_, name='tname'), 'std::string', True))
                yield st, [r, n, c.w.T[t]]

    def post(self, c, st, out):
        g = st.ghost
        r, vk, v, t = g['res'], g['vk'], g['v'], g['t']
        c.ok(st, 'a conversion completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        k = c.w.kindname[c.e.choose(st, c.w.peek(st, r, 'type.type'), sorted(c.w.kindname))]
        d = c.w.peek(st, r, 'data')
        if (vk, t) in (('INTEGER', 'REAL'), ('STRING', 'CHAR'), ('CHAR', 'STRING')):
            w = convert(c, st, vk, v, t)
            if w is not None:
                c.cover(vk + t)
                c.ok(st, 'the value is converted', k == t and c.value(st, d)[0] == t)
                if k == t and c.value(st, d)[0] == t:
                    c.ok(st, 'the converted value', same(t, c.value(st, d)[1], w))
                return
        c.ok(st, 'nothing else is converted', k == vk)
        c.ok(st, 'a value that is not converted stays', d.obj == g['d'].obj and d.null == g['d'].null)


@target('C19 C05', 'PSC::DataType::operator==(PSC::DataType const&) const', cover=['same', 'different'])
class TypeEq:
    def setup(self, c):
        for a in KINDS:
            for b in KINDS:
                st = c.state()
                ps, ns = [], []
                for k in (a, b):
                    r = c.w.new(st, 'PSC::DataType')
                    st.w(r.obj).meta['tkind'] = k
                    c.w.peek(st, r, 'type')
                    n = c.w.peek(st, r, 'name')
                    ps.append(r)
                    ns.append(None if n.null else lib.gets(c.e, st, n))
                st.ghost.update(a=a, b=b, ns=ns)
                yield st, ps

    def post(self, c, st, out):
        g = st.ghost
        eq = z3.And(z3.BoolVal(g['a'] == g['b']), samename(*g['ns']))
        c.cover('same' if g['a'] == g['b'] else 'different')
        c.ok(st, 'types are the same iff kind and name are', z3.And(out[0] == 'ret', hit(out[1]) == eq) if out[0] == 'ret' else False)


def hit(v):
    if isz(v) and z3.is_bool(v):
        return v
    return (v == 1) if isz(v) else z3.BoolVal(bool(v))


# ---------------------------------------------------------------- Variable
def var_value(c, st, v):
    s = c.w.storage(st, v)
    return s


@target('C05 C04 C09 C01 C07', 'PSC::Variable::set(PSC::Value const*)', contracts=var_contracts, cover=ALLKINDS)
class VariableSet:
    def setup(self, c):
        for k in ALLKINDS:
            st = c.state()
            v = c.w.variable(st, k)
            src = c.w.typed_value(st, v.obj, k, False)      # precondition: a value of the variable's type
            st.ghost.update(v=v, k=k, src=src)
            yield st, [v, src]

    def post(self, c, st, out):
        g = st.ghost
        v, k, src = g['v'], g['k'], g['src']
        c.ok(st, 'setting completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover(k)
        s = c.w.storage(st, v)
        stored(c, st, s, k, src)
        c.frame(st, 'only the storage of the variable changes', {s.obj})


def stored(c, st, s, k, src, what='the variable holds the value'):
    """storage s was given the value of the object src"""
    if k == 'COMPOSITE':
        ev = c.events(st, 'copycomp')
        c.ok(st, what, len(ev) == 1 and ev[0][1]['dst'].obj == s.obj and ev[0][1]['src'].obj == src.obj)
    else:
        c.ok(st, what, same(k, full(c, st, s, k), full(c, st, src, k, True)))


@target('C04 C09', 'PSC::Variable::createReference(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)', contracts=var_contracts, cover=['direct', 'indirect'])
class CreateReference:
    def setup(self, c):
        st = c.state()
        v = c.w.variable(st)
        o = Obj('refname', 32, 'heap', lambda e_, s_, ob, of, ty: lib.opaque(s_, name='name'), 'std::string', True)
        st.ghost.update(v=v)
        yield st, [v, st.add(o)]

    def post(self, c, st, out):
        w = c.w
        c.ok(st, 'a reference is made', out[0] == 'ret' and not out[1].null)
        if out[0] != 'ret' or out[1].null:
            return
        v, r = st.ghost['v'], out[1]
        ref = w.peek(st, v, 'ref')
        c.cover('direct' if ref.null else 'indirect')
        tgt = v if ref.null else ref
        c.ok(st, 'the reference denotes the variable itself, not a copy and not another reference', w.peek(st, r, 'ref', 'PSC::Variable').obj == tgt.obj)
        c.ok(st, 'the reference is not the variable', r.obj != v.obj)
        c.ok(st, 'the reference has the type of the variable', bvt(w.peek(st, r, 'type.type', 'PSC::Variable'), 32) == bvt(w.peek(st, v, 'type.type'), 32))
        c.ok(st, 'a reference to a constant is constant', bvt(w.peek(st, r, 'isConstant', 'PSC::Variable'), 8) == bvt(w.peek(st, v, 'isConstant'), 8))
        c.ok(st, 'the reference has the name given', lib.seq(w.peek(st, r, 'name', 'PSC::Variable'), lib.gets(c.e, st, Ptr('refname', 0))))
        c.ok(st, 'the reference has no storage of its own', w.peek(st, r, 'data', 'PSC::Variable').null)
        c.frame(st, 'the variable does not change', set())


# ---------------------------------------------------------------- assignment
def assign_contracts(c):
    var_contracts(c)
    base = c.evaluate

    def ev(e, st, a, ins):
        s = st.fork()
        _Cur.st = s
        c.havoc_world(s)
        x = c.w.new(s, 'PSC::ArrayDirectAccessError', 'exc', False)
        arr = c.w.new(s, 'PSC::Array')
        c.w.poke(s, x, 'array', arr)
        # thrown by the operand itself in this scope, or anywhere else
        mine = boolean('mine')
        for cond in (True, False):
            y = s.fork() if cond else s
            c.w.poke(y, x, 'context', a[2] if cond else c.w.new(y, 'PSC::Context'))
            for own in (True, False):
                z = y.fork() if own else y
                c.w.poke(z, x, 'node', a[1] if own else c.w.new(z, 'Node'))
                e.event(z, 'throwarray', node=a[1], array=arr, own=cond and own)
                outs.append(('throw', z, x, ARRACC))
        _Cur.st = st
        return base(e, st, a, ins)

    def ev2(e, st, a, ins):
        nonlocal outs
        outs = []
        r = ev(e, st, a, ins)
        return outs + r
    outs = []
    e = c.e
    e.virt[('Node', 'evaluate')] = ev2


@target('C05 C08 C20 C19 C01 C07', 'AssignNode::evaluate(PSC::Context&)', contracts=assign_contracts, budget=200,
        cover=['NONE', 'constant', 'converted', 'same', 'incompatible', 'undeclared', 'pedantic', 'array', 'whole array', 'shape'])
class Assign:
    def setup(self, c):
        return node_setup(c, 'AssignNode', [None])

    def post(self, c, st, out):
        w, n = c.w, st.ghost['node']
        evs = c.events(st)
        first = evs[0] if evs else (None, {})
        c.ok(st, 'the value is evaluated first', first[0] in ('eval', 'throw', 'throwarray') and first[1]['node'].obj == w.peek(st, n, 'node').obj)
        ev = [x for x in evs if x[0] in ('eval', 'throw', 'throwarray')]
        c.ok(st, 'the value is evaluated once', len(ev) == 1)
        rs = [x[1] for x in evs if x[0] == 'resolve']
        c.ok(st, 'the target is resolved at most once', len(rs) <= 1 and all(x['resolver'].obj == w.peek(st, n, 'resolver').obj for x in rs))
        added = c.events(st, 'addvar')
        k0 = first[0]
        if k0 == 'throw':
            c.ok(st, 'an error of the value is passed on', c.is_runtime_error(out))
            return self.nothing(c, st)
        r = rs[0] if rs else None
        if k0 == 'throwarray':
            return self.whole(c, st, out, first[1], r)
        vk, vn = result_type(c, st, first[1]['res'])
        if vk == 'NONE':
            c.cover('NONE')
            error(c, st, out, 'assigning no value')
            return self.nothing(c, st)
        c.ok(st, 'the target is resolved', r is not None)
        if r is None:
            return
        if r['how'] == 'error':
            c.ok(st, 'an error of the target is passed on', c.is_runtime_error(out))
            return self.nothing(c, st)
        if r['how'] == 'array':
            c.cover('array')
            error(c, st, out, 'assigning a value to an array')
            return self.nothing(c, st)
        if r['how'] == 'undefined':
            return self.undeclared(c, st, out, first[1]['res'], r)
        var = r['holder']
        c.ok(st, 'a declared target creates no variable', not added)
        tk, tn = type_of(c, st, var, 'PSC::Variable')
        const = c.e.decide(st, bvt(w.peek(st, var, 'isConstant'), 8) == 1)
        if const:
            c.cover('constant')
            error(c, st, out, 'assigning to a CONSTANT')
            return self.nothing(c, st)
        _, v = c.orig(st, first[1]['res'])
        v = full(c, st, st.mem[first[1]['res'].obj].meta['data'], vk, True)
        x = convert(c, st, vk, v, tk)
        if x is None or (tk in USER and not c.e.decide(st, samename(vn, tn))):
            c.cover('incompatible')
            error(c, st, out, 'assigning a value of another type')
            return self.nothing(c, st)
        if tk == 'COMPOSITE':
            sh = c.events(st, 'shape')
            c.ok(st, 'record shapes are compared', len(sh) == 1)
            if not sh:
                return
            if not c.e.decide(st, sh[0][1]['r']):
                c.cover('shape')
                error(c, st, out, 'assigning a record of another shape')
                return self.nothing(c, st)
        c.ok(st, 'a compatible value is assigned', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('same' if tk == vk else 'converted')
        s = w.storage(st, var)
        if tk == 'COMPOSITE':
            stored(c, st, s, tk, st.mem[first[1]['res'].obj].meta['data'])
        else:
            c.ok(st, 'the variable holds the value', same(tk, full(c, st, s, tk), x))
        c.frame(st, 'only the target changes', {s.obj})
        none_result(c, st, out)

    def nothing(self, c, st):
        c.frame(st, 'a failed assignment changes nothing', set())
        c.ok(st, 'a failed assignment creates nothing', not c.events(st, 'addvar'))

    def undeclared(self, c, st, out, res, r):
        w = c.w
        o = st.mem[r['resolver'].obj]
        added = c.events(st, 'addvar')
        if not c.e.decide(st, o.meta.get('simple', z3.BoolVal(False))):
            error(c, st, out, 'assigning to what does not exist')
            return self.nothing(c, st)
        t = c.events(st, 'istype')
        if t and c.e.decide(st, t[0][1]['r']):
            error(c, st, out, 'assigning to a type')
            return self.nothing(c, st)
        if c.e.decide(st, bvt(c.e.load_cell(st, c.e.gobj(st, '@pedantic'), 1, ('i', 8)), 8) == 1):
            c.cover('pedantic')
            c.ok(st, 'undeclared variables are refused with --pedantic', out[0] == 'throw' and out[2] == PED)
            return self.nothing(c, st)
        c.ok(st, 'an undeclared variable is created', out[0] == 'ret' and len(added) == 1)
        if out[0] != 'ret' or len(added) != 1:
            return
        c.cover('undeclared')
        v = added[0][1]['var']
        vk, vn = result_type(c, st, res)
        k, nm = type_of(c, st, v, 'PSC::Variable')
        c.ok(st, 'the new variable has the type of the value', z3.And(k == vk, samename(nm, vn)))
        c.ok(st, 'the new variable belongs to the scope', added[0][1]['ctx'].obj == st.ghost['ctx'].obj and w.peek(st, v, 'parent', 'PSC::Variable').obj == st.ghost['ctx'].obj)
        c.ok(st, 'the new variable is not constant', bvt(w.peek(st, v, 'isConstant', 'PSC::Variable'), 8) == 0)
        tok = w.peek(st, r['resolver'], 'token')
        c.ok(st, 'the new variable has the name given', lib.seq(w.peek(st, v, 'name', 'PSC::Variable'), w.peek(st, tok, 'value', 'Token')))
        c.ok(st, 'the new variable is no reference', w.peek(st, v, 'ref', 'PSC::Variable').null)
        d = w.peek(st, v, 'data', 'PSC::Variable')
        src = st.mem[res.obj].meta['data']
        c.ok(st, 'the new variable has storage of its own', not d.null and d.obj != src.obj)
        if k == vk and not d.null:
            kk = c.value(st, d)[0]
            c.ok(st, 'the new variable holds the value', z3.And(kk == vk, same(vk, full(c, st, d, vk), full(c, st, src, vk, True)) if kk == vk else False))
            if vk == 'COMPOSITE':
                c.ok(st, 'the new record is a copy of the value', st.mem[d.obj].meta.get('copyof') is not None and st.mem[d.obj].meta['copyof'].obj == src.obj)
        c.frame(st, 'only the new variable changes', {v.obj, d.obj})

    def whole(self, c, st, out, d, r):
        """array := array"""
        w = c.w
        cp = c.events(st, 'copydata')
        sh = c.events(st, 'shape')
        c.ok(st, 'no variable is created', not c.events(st, 'addvar'))
        if not d['own'] or r is None or r['how'] != 'array':
            error(c, st, out, 'a whole array used as a value')
            return self.nothing(c, st)
        A, B = r['holder'], d['array']
        ka, na = type_of(c, st, A, 'PSC::Array')
        kb, nb = type_of(c, st, B, 'PSC::Array')
        if ka != kb or not c.e.decide(st, samename(na, nb)):
            error(c, st, out, 'assigning an array of another type')
            return self.nothing(c, st)
        c.ok(st, 'array shapes are compared', len(sh) == 1 and {sh[0][1]['a'].obj, sh[0][1]['b'].obj} == {A.obj, B.obj})
        if not sh or not c.e.decide(st, sh[0][1]['r']):
            error(c, st, out, 'assigning an array of another shape')
            return self.nothing(c, st)
        c.cover('whole array')
        c.ok(st, 'an array of the same type and shape is copied', out[0] == 'ret' and len(cp) == 1 and cp[0][1]['dst'].obj == A.obj and cp[0][1]['src'].obj == B.obj)
        c.frame(st, 'only the target array changes', {A.obj})
        if out[0] == 'ret':
            none_result(c, st, out)


# ---------------------------------------------------------------- reading a variable
@target('C05 C19 C01 C07', 'AccessNode::evaluate(PSC::Context&)', contracts=var_contracts, cover=ALLKINDS + ['array', 'element', 'undefined'])
class Access:
    def setup(self, c):
        return node_setup(c, 'AccessNode', [None])

    def post(self, c, st, out):
        w, n = c.w, st.ghost['node']
        rs = [x[1] for x in c.events(st, 'resolve')]
        c.ok(st, 'the variable is resolved once', len(rs) == 1)
        c.frame(st, 'reading changes nothing', set())
        if not rs:
            return
        r = rs[0]
        if r['how'] == 'error':
            return c.ok(st, 'an error is passed on', c.is_runtime_error(out))
        if r['how'] == 'undefined':
            el = c.events(st, 'element')
            if el and not el[0][1]['res'].null:
                c.cover('element')
                p = el[0][1]['res']
                c.ok(st, 'the enumerated value is the one named', lib.seq(el[0][1]['name'], w.peek(st, w.peek(st, n, 'token'), 'value', 'Token')))
                v = yields(c, st, out, 'ENUM', 'an enumerated value')
                if v is not None:
                    c.ok(st, 'the enumerated value', same('ENUM', v, c.payload(st, p, 'PSC::Enum')))
                    t, d, q = c.result(st, st.ghost['r'])
                    nm = tname(c, st, q, 'NodeResult', 'type.name')
                    c.ok(st, 'the enumerated value has its type', nm is not None and lib.seq(nm, v[0]))
                return
            c.cover('undefined')
            return error(c, st, out, 'reading an unknown name')
        if r['how'] == 'array':
            c.cover('array')
            c.ok(st, 'a whole array is no value', out[0] == 'throw' and out[2] == ARRACC)
            if out[0] == 'throw':
                c.ok(st, 'the array read is reported', whole_of(c, st, out[1], r['holder'], n))
            return
        v = r['holder']
        k, nm = type_of(c, st, v, 'PSC::Variable')
        c.cover(k)
        x = yields(c, st, out, k, 'a variable')
        if x is None:
            return
        t, d, q = c.result(st, st.ghost['r'])
        if k in USER:
            rn = tname(c, st, q, 'NodeResult', 'type.name')
            c.ok(st, 'the value has the type of the variable', samename(rn, nm))
        s = w.storage(st, v)
        c.ok(st, 'the value is a copy', d.obj != s.obj)
        if k == 'COMPOSITE':
            cp = st.mem[d.obj].meta.get('copyof')
            c.ok(st, 'the value read', cp is not None and cp.obj == s.obj)
        else:
            c.ok(st, 'the value read', same(k, full(c, st, d, k), full(c, st, s, k)))


def whole_of(c, st, exc, arr, node):
    e = st.mem[exc.obj].meta.get('err')
    if e is None or e[0] != 'ArrayDirectAccessError':
        return False
    a = e[2]
    return len(a) == 5 and a[3].obj == arr.obj and a[4].obj == node.obj


# ---------------------------------------------------------------- construction of a variable
CTOR = 'PSC::Variable::Variable(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&, PSC::DataType, bool, PSC::Context*, PSC::Value const*)'


def str_obj(st, id, name='name'):
    return st.add(Obj(id, 32, 'heap', lambda e_, s_, ob, of, ty: lib.opaque(s_, name=name), 'std::string', True))


DEFAULT = {'INTEGER': 0, 'BOOLEAN': 0, 'CHAR': 0}


@target('C05 C04 C01 C07', CTOR, name='PSC::Variable::Variable', contracts=var_contracts, cover=[k + x for k in ALLKINDS for x in ('', ' default')])
class VariableCtor:
    def setup(self, c):
        for k in ALLKINDS:
            for init in (True, False):
                st = c.state()
                w = c.w
                v = c.e.new(st, w.L.size('PSC::Variable'), 'heap')
                nm, tn, ctx = str_obj(st, 'nm'), NULL, w.new(st, 'PSC::Context')
                src = NULL
                if k in USER:
                    tn = str_obj(st, 'tn', 'tname')
                if init:
                    src = w.new(st, VCLS[k], 'heap', False)
                    if k in USER:
                        w.poke(st, src, 'definitionName', lib.gets(c.e, st, tn))
                const = bv('const', 8)
                st.pc.append(z3.ULE(const, 1))
                st.ghost.update(v=v, k=k, src=src, init=init, nm=nm, tn=tn, ctx=ctx, const=const)
                yield st, [v, nm, tn, w.T[k], z3.Extract(0, 0, const) == 1, ctx, src]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        v, k = g['v'], g['k']
        if out[0] == 'throw':
            return c.ok(st, 'only the declarations of a record can fail', k == 'COMPOSITE' and not g['init'])
        c.cover(k + ('' if g['init'] else ' default'))
        V = 'PSC::Variable'
        c.ok(st, 'the type given', bvt(w.peek(st, v, 'type.type', V), 32) == w.T[k])
        if k in USER:
            c.ok(st, 'the type name given', lib.seq(tname(c, st, v, V, 'type.name'), lib.gets(c.e, st, g['tn'])))
        c.ok(st, 'the constancy given', bvt(w.peek(st, v, 'isConstant', V), 8) == g['const'])
        c.ok(st, 'the name given', lib.seq(w.peek(st, v, 'name', V), lib.gets(c.e, st, g['nm'])))
        c.ok(st, 'the scope given', w.peek(st, v, 'parent', V).obj == g['ctx'].obj)
        c.ok(st, 'no reference', w.peek(st, v, 'ref', V).null)
        d = w.peek(st, v, 'data', V)
        c.ok(st, 'storage of its own', not d.null and d.obj != g['src'].obj)
        if d.null:
            return
        kk, x = c.value(st, d)
        c.ok(st, 'storage of its type', kk == k)
        if kk != k:
            return
        if g['init']:
            c.ok(st, 'the value given', same(k, full(c, st, d, k), full(c, st, g['src'], k)))
            if k == 'COMPOSITE':
                c.ok(st, 'a copy of the record given', st.mem[d.obj].meta['copyof'].obj == g['src'].obj)
            return
        if k in DEFAULT:
            c.ok(st, 'the default value', bvt(x, 8 if k != 'INTEGER' else 64) == DEFAULT[k])
        elif k == 'REAL':
            c.ok(st, 'the default value', z3.fpIsZero(x))
        elif k == 'STRING':
            c.ok(st, 'the default value', lib.seq(x, lib.lit(b'')))
        elif k == 'ENUM':
            c.ok(st, 'the default value', z3.And(bvt(x[1]) == 0, lib.seq(x[0], lib.gets(c.e, st, g['tn']))))
        elif k == 'POINTER':
            c.ok(st, 'the default value', z3.And(z3.BoolVal(x[1].null), lib.seq(x[0], lib.gets(c.e, st, g['tn']))))
        elif k == 'COMPOSITE':
            c.ok(st, 'the default value', len(c.events(st, 'newcomposite')) == 1)


# ---------------------------------------------------------------- CONSTANT
@target('C08 C05 C01', 'ConstDeclareNode::evaluate(PSC::Context&)', contracts=var_contracts, cover=['NONE', 'exists', 'declared'])
class ConstDeclare:
    def setup(self, c):
        return node_setup(c, 'ConstDeclareNode', [None])

    def post(self, c, st, out):
        w, n = c.w, st.ghost['node']
        ev = [x for x in c.events(st) if x[0] in ('eval', 'throw')]
        c.ok(st, 'the value is evaluated once', len(ev) == 1 and ev[0][1]['node'].obj == w.peek(st, n, 'node').obj)
        added = c.events(st, 'addvar')
        if not ev or ev[0][0] == 'throw':
            c.ok(st, 'an error of the value is passed on', c.is_runtime_error(out) and not added)
            return
        res = ev[0][1]['res']
        vk, vn = result_type(c, st, res)
        if vk == 'NONE':
            c.cover('NONE')
            c.ok(st, 'nothing is created', not added)
            return error(c, st, out, 'a CONSTANT without a value')
        gv = c.events(st, 'getvar')
        tok = w.peek(st, n, 'identifier')
        name = w.peek(st, tok, 'value', 'Token')
        c.ok(st, 'the name is looked up in the scope itself', len(gv) == 1 and not gv[0][1]['glob'] and lib.seq(gv[0][1]['name'], name) if gv else False)
        if not gv:
            return
        if not gv[0][1]['var'].null:
            c.cover('exists')
            c.ok(st, 'nothing is created', not added)
            return error(c, st, out, 'a CONSTANT that exists')
        c.cover('declared')
        c.ok(st, 'the CONSTANT is created', out[0] == 'ret' and len(added) == 1)
        if out[0] != 'ret' or len(added) != 1:
            return
        new_var(c, st, added[0][1], vk, vn, 1, name, st.mem[res.obj].meta['data'])
        none_result(c, st, out)


def new_var(c, st, d, k, nm, const, name, src):
    """a variable added to the scope of the node"""
    w = c.w
    v, V = d['var'], 'PSC::Variable'
    ctx = st.ghost['ctx']
    kk, n2 = type_of(c, st, v, V)
    c.ok(st, 'the variable has the type due', z3.And(kk == k, samename(n2, nm)))
    c.ok(st, 'the variable belongs to the scope', d['ctx'].obj == ctx.obj and w.peek(st, v, 'parent', V).obj == ctx.obj)
    c.ok(st, 'the variable has the constancy due', bvt(w.peek(st, v, 'isConstant', V), 8) == const)
    c.ok(st, 'the variable has the name given', lib.seq(w.peek(st, v, 'name', V), name))
    c.ok(st, 'the variable is no reference', w.peek(st, v, 'ref', V).null)
    p = w.peek(st, v, 'data', V)
    c.ok(st, 'the variable has storage', not p.null and (src is None or p.obj != src.obj))
    if p.null or kk != k:
        return
    dk = c.value(st, p)[0]
    c.ok(st, 'the storage has the type due', dk == k)
    if src is not None and dk == k:
        c.ok(st, 'the variable holds the value', same(k, full(c, st, p, k), full(c, st, src, k, True)))
        if k == 'COMPOSITE':
            cp = st.mem[p.obj].meta.get('copyof')
            c.ok(st, 'the record is a copy', cp is not None and cp.obj == src.obj)


# ---------------------------------------------------------------- DECLARE
class Declare(Auto):
    def on(self, eng, st, kind, d):
        c, w = eng.c, eng.c.w
        if self.mode == 'bad':
            return
        if kind == 'getvar':
            c.ok(st, 'each name is looked up once, in the scope itself', z3.And(self.mode == 'next', z3.BoolVal(not d['glob'])))
            c.ok(st, 'the name looked up is the next one', lib.seq(d['name'], self.name(eng, st, self.t['i'])))
            self.mode = 'fresh' if d['var'].null else 'exists'
            self.istype, self.kind, self.rec = None, None, None
        elif kind == 'istype':
            self.istype = d['r']
        elif kind == 'gettype':
            c.ok(st, 'the type declared is the one named', d['token'].obj == self.type.obj)
            self.kind, self.tn = d['tk'], d['name']
        elif kind == 'recursive':
            self.rec = d['r']
        elif kind == 'addvar':
            c.ok(st, 'a variable is created for a new name only', self.mode == 'fresh')
            c.ok(st, 'a variable is created with a type only', self.kind not in (None, 'NONE'))
            if self.mode != 'fresh' or self.kind in (None, 'NONE'):
                self.mode = 'bad'
                return
            new_var(c, st, d, self.kind, lib.gets(eng, st, self.tn) if self.kind in USER else None, 0, self.name(eng, st, self.t['i']), None)
            if self.istype is not None:
                c.ok(st, 'a type name is not declared', z3.Not(self.istype))
            else:
                c.ok(st, 'type names are looked up', False)
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
            self.mode = 'next'

    def name(self, eng, st, i):
        w = eng.c.w
        b = w.peek(st, self.node, 'identifiers')
        tok = eng.load_cell(st, Ptr(b.obj, z3.simplify(i * 8)), 8, ('ptr',))
        return w.peek(st, tok, 'value', 'Token')


def declare_contracts(c):
    var_contracts(c)

    def rec(e, st, a, ins):
        s = st.fork()
        e.event(s, 'recursive', r=True)
        e.event(st, 'recursive', r=False)
        return [('throw', s, e.new(s, 64, 'exc'), RTE), ('ret', st, None)]
    c.handler(r'^checkRecursiveType\(', rec)


@target('C05 C04 C19 C01', 'DeclareNode::evaluate(PSC::Context&)', contracts=declare_contracts, cover=['all', 'exists', 'is a type', 'no type', 'recursive'])
class DeclareVar:
    def setup(self, c):
        for st, a in node_setup(c, 'DeclareNode', [None]):
            sp = st.spec = Declare('next', i=z3.BitVecVal(0, 64))
            sp.node, sp.type = a[1], c.w.peek(st, a[1], 'type')
            n = st.w(a[1].obj).meta['len:identifiers'] = bv('n')
            st.pc.append(z3.ULT(n, lib.BIG))
            st.ghost['n'] = n
            yield st, a

    def post(self, c, st, out):
        sp = st.spec
        if out[0] == 'ret':
            c.cover('all')
            c.ok(st, 'every name is declared', z3.And(sp.mode == 'next', sp.t['i'] == st.ghost['n']))
            return none_result(c, st, out)
        error(c, st, out, 'a declaration that fails')
        if sp.mode == 'exists':
            return c.cover('exists')
        if sp.mode == 'fresh' and sp.istype is not None and c.e.decide(st, sp.istype):
            return c.cover('is a type')
        if sp.mode == 'fresh' and sp.kind == 'NONE':
            return c.cover('no type')
        if sp.rec:
            return c.cover('recursive')
        c.ok(st, 'only a bad declaration fails', sp.mode == 'fresh' and sp.kind == 'COMPOSITE')


# ---------------------------------------------------------------- RETURN
@target('C04 C05 C19 C01 C07', 'ReturnNode::evaluate(PSC::Context&)', contracts=var_contracts, cover=['outside', 'converted', 'same', 'incompatible'], budget=100)
class Return:
    def setup(self, c):
        for st, a in node_setup(c, 'ReturnNode', [None]):
            c.w.poke(st, a[2], 'returnValue', NULL)
            yield st, a

    def post(self, c, st, out):
        w, n, ctx = c.w, st.ghost['node'], st.ghost['ctx']
        ev = [x for x in c.events(st) if x[0] in ('eval', 'throw')]
        if not c.e.decide(st, bvt(w.peek(st, ctx, 'isFunctionCtx'), 8) == 1):
            c.cover('outside')
            c.ok(st, 'RETURN outside of a function evaluates nothing', not ev)
            return error(c, st, out, 'RETURN outside of a function')
        c.ok(st, 'the value is evaluated once', len(ev) == 1 and ev[0][1]['node'].obj == w.peek(st, n, 'node').obj)
        if not ev or ev[0][0] == 'throw':
            return c.ok(st, 'an error of the value is passed on', c.is_runtime_error(out))
        res = ev[0][1]['res']
        vk, v = c.orig(st, res)
        vn = v[0] if vk in USER else None
        if vk != 'NONE':
            v = full(c, st, st.mem[res.obj].meta['data'], vk, True)
        k, nm = w.kindname[c.e.choose(st, w.peek(st, ctx, 'returnType.type'), sorted(w.kindname))], None
        if k in USER:
            nm = tname(c, st, ctx, 'PSC::Context', 'returnType.name')
        if vk == 'NONE':
            if k != 'NONE':
                error(c, st, out, 'returning no value')
            return
        x = convert(c, st, vk, v, k)
        if x is None or (k in USER and not c.e.decide(st, samename(vn, nm))):
            c.cover('incompatible')
            return error(c, st, out, 'returning a value of another type')
        c.cover('same' if vk == k else 'converted')
        c.ok(st, 'RETURN leaves the function', out[0] == 'throw' and out[2] == '@_ZTI15ReturnErrSignal')
        r = w.peek(st, ctx, 'returnValue')
        c.ok(st, 'there is a value returned', not r.null)
        if r.null:
            return
        d = w.peek(st, r, 'data', 'NodeResult')
        c.ok(st, 'the value returned has the type of the function', z3.And(bvt(w.peek(st, r, 'type.type', 'NodeResult'), 32) == w.T[k], samename(tname(c, st, r, 'NodeResult', 'type.name') if k in USER else None, nm)))
        c.ok(st, 'the value returned has its class', not d.null and c.value(st, d)[0] == k)
        if not d.null and c.value(st, d)[0] == k:
            c.ok(st, 'the value returned', same(k, full(c, st, d, k), x))


# ---------------------------------------------------------------- INPUT
def input_contracts(c):
    var_contracts(c)

    def getline(e, st, a, ins):
        s = lib.opaque(st, name='line')
        lib.puts(e, st, a[0], s)
        st.ghost['lines'] = st.ghost.get('lines', ()) + (s,)
        return boolean('more')
    c.handler(r'^getLine\(', getline)


def text_integer(s):
    """INTEGER a text denotes: 0 unless all of it is a numeral"""
    return z3.If(z3.And(lib.STOLEND(s.id) == s.length(), s.length() != 0), lib.STOL(s.id), z3.BitVecVal(0, 64))


DIGITS = lib.lit('0123456789')


def text_real(s):
    v = lib.STOD(s.id)
    ok = z3.And(lib.STODEND(s.id) == s.length(), z3.Not(z3.fpIsNaN(v)), lib.FFO(s.id, DIGITS.id) != lib.NPOS)
    return z3.If(ok, v, z3.FPVal(0.0, F64))


@target('C05 C08 C15 C20 C01', 'InputNode::evaluate(PSC::Context&)', contracts=input_contracts, cover=['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'other', 'constant', 'undeclared', 'pedantic'])
class Input:
    def setup(self, c):
        return node_setup(c, 'InputNode', [None])

    def nothing(self, c, st, read=False):
        c.frame(st, 'a failed INPUT changes nothing', set())
        c.ok(st, 'a failed INPUT creates nothing', not c.events(st, 'addvar'))

    def post(self, c, st, out):
        w, n = c.w, st.ghost['node']
        rs = [x[1] for x in c.events(st, 'resolve')]
        lines = st.ghost.get('lines', ())
        c.ok(st, 'the target is resolved once', len(rs) == 1 and rs[0]['resolver'].obj == w.peek(st, n, 'resolver').obj)
        if not rs:
            return
        r = rs[0]
        added = c.events(st, 'addvar')
        if r['how'] in ('error', 'array'):
            error(c, st, out, 'INPUT into what is no variable')
            return self.nothing(c, st)
        if r['how'] == 'undefined':
            if not c.e.decide(st, st.mem[r['resolver'].obj].meta.get('simple', z3.BoolVal(False))):
                error(c, st, out, 'INPUT into what does not exist')
                return self.nothing(c, st)
            t = c.events(st, 'istype')
            if t and c.e.decide(st, t[0][1]['r']):
                error(c, st, out, 'INPUT into a type')
                return self.nothing(c, st)
            if c.e.decide(st, bvt(c.e.load_cell(st, c.e.gobj(st, '@pedantic'), 1, ('i', 8)), 8) == 1):
                c.cover('pedantic')
                c.ok(st, 'undeclared variables are refused with --pedantic', out[0] == 'throw' and out[2] == PED)
                return self.nothing(c, st)
            c.cover('undeclared')
            c.ok(st, 'an undeclared variable is created', len(added) == 1)
            if len(added) != 1:
                return
            tok = w.peek(st, r['resolver'], 'token')
            new_var(c, st, added[0][1], 'STRING', None, 0, w.peek(st, tok, 'value', 'Token'), None)
            var = added[0][1]['var']
            own = {var.obj}
        else:
            var, own = r['holder'], set()
            c.ok(st, 'a declared target creates no variable', not added)
        V = 'PSC::Variable'
        if c.e.decide(st, bvt(w.peek(st, var, 'isConstant', V), 8) == 1):
            c.cover('constant')
            error(c, st, out, 'INPUT into a CONSTANT')
            return self.nothing(c, st)
        k = w.kindname[c.e.choose(st, w.peek(st, var, 'type.type', V), sorted(w.kindname))]
        if k in USER + ('DATE',):
            c.cover('other')
            error(c, st, out, 'INPUT of another type')
            return self.nothing(c, st)
        c.ok(st, 'INPUT completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.ok(st, 'one line is read', len(lines) == 1)
        if len(lines) != 1:
            return
        s = lines[0]
        c.cover(k)
        p = w.storage(st, var)
        x = full(c, st, p, k)
        if k == 'INTEGER':
            c.ok(st, 'the INTEGER read', bvt(x) == text_integer(s))
        elif k == 'REAL':
            c.ok(st, 'the REAL read', x == text_real(s))
        elif k == 'BOOLEAN':
            c.ok(st, 'the BOOLEAN read', (bvt(x, 8) == 1) == lib.seq(s, lib.lit('TRUE')))
            c.ok(st, 'the BOOLEAN is well-formed', z3.ULE(bvt(x, 8), 1))
        elif k == 'CHAR':
            c.ok(st, 'the CHAR read', bvt(x, 8) == z3.If(s.length() == 0, z3.BitVecVal(0, 8), s.char(0)))
        else:
            c.ok(st, 'the line read', lib.seq(x, s))
        c.frame(st, 'only the target changes', own | {p.obj})
        none_result(c, st, out)


# ---------------------------------------------------------------- OUTPUT
DATETEXT = z3.Function('datetext', z3.BitVecSort(16), BYTE, BYTE, lib.STRSORT)      # text of a date, as Date::toString makes it


def out_contracts(c):
    var_contracts(c)

    def dts(e, st, a, ins):
        id = DATETEXT(*c.date(st, a[1]))
        p = c.w.new(st, 'PSC::String', 'heap', False)
        c.w.poke(st, p, 'value', lib.opaque(st, id=id))
        e.put(st, a[0], p, 8)
        return None
    c.handler(r'^PSC::Date::toString\(\) const', dts)


def item_text(it):
    return it[1] if it[0] == 'str' else None


def shown_items(c, st, res):
    """what OUTPUT writes for a value: [(description, check(item))], or None for no value"""
    w = c.w
    k, v = c.orig(st, res)
    is_text = lambda s: (lambda it: lib.seq(it[1], s) if it[0] == 'str' else lib.seq(lib.char1(it[1]), s) if it[0] == 'char' else False)
    if k == 'NONE':
        return None
    if k == 'INTEGER':
        return [('the INTEGER', lambda it: bvt(it[1]) == bvt(v) if it[0] in ('long', 'int') else False)]
    if k == 'REAL':
        whole = z3.Or(z3.fpIsInf(v), z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), v), v))
        r = [('the REAL', lambda it: it[1] == v if it[0] == 'double' else False)]
        if c.e.decide(st, whole):
            r.append(('a fraction', is_text(lib.lit('.0'))))
        return r
    if k == 'BOOLEAN':
        return [('the BOOLEAN', is_text(lib.lit('TRUE') if c.e.decide(st, bvt(v, 8) == 1) else lib.lit('FALSE')))]
    if k == 'CHAR':
        return [('the CHAR', lambda it: bvt(it[1], 8) == bvt(v, 8) if it[0] == 'char' else False)]
    if k == 'STRING':
        return [('the STRING', is_text(v))]
    if k == 'DATE':
        return [('the DATE', is_text(lib.opaque(st, id=DATETEXT(*v))))]
    if k == 'ENUM':
        return [('the name of the enumerated value', lambda it: enum_text(c, st, v, it))]
    return [('the type of the value', is_text(v[0])), ('what it is', is_text(lib.lit(' object')))]


def enum_text(c, st, v, it):
    d = next((d for n, d in st.ghost.get('enumdefs', ()) if n is v[0]), None)
    if d is None or it[0] != 'str':
        return False
    b = c.w.peek(st, d, 'values', 'PSC::EnumTypeDefinition')
    s = c.e.load_cell(st, Ptr(b.obj, z3.simplify(bvt(v[1]) * 32)), 32, ('str',))
    return lib.seq(it[1], s)


class Output(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind in ('eval', 'throw') and 'node' in d:
            self.settle(eng, st)
            k = st.mem[d['node'].obj].meta.get('key')
            c.ok(st, 'operands are evaluated in order, once each', z3.And(self.mode == 'next', k[1] == self.t['i']) if k else False)
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
            if kind == 'throw':
                self.mode = 'error'
                return
            items = shown_items(c, st, d['res'])
            self.mode = 'none' if items is None else 'show'
            self.due = items
        elif kind == 'out':
            c.ok(st, 'what is written goes to the standard output', d['stream'].obj == '@@_ZSt4cout' and not isz(d['stream'].off))
            it = d['item']
            if it[0] == 'manip':
                if 'endl' in str(it[1]):
                    self.settle(eng, st)
                    c.ok(st, 'the line ends after the last operand', z3.And(self.mode == 'next', self.t['i'] == self.n))
                    self.mode = 'ended'
                elif 'precision' in str(it[1]):
                    c.ok(st, 'the precision of the output stays', False)
                return
            c.ok(st, 'text is written for the operand just evaluated', self.mode == 'show' and bool(self.due))
            if self.mode != 'show' or not self.due:
                self.mode = 'bad'
                return
            x = self.due[0]
            self.due = self.due[1:]
            c.ok(st, 'OUTPUT writes ' + x[0], x[1](it))
            if not self.due:
                self.mode, self.due = 'next', None

    def settle(self, eng, st):
        if self.mode == 'show':
            eng.c.ok(st, 'each operand is written completely', not self.due)
            self.mode, self.due = 'next', None


@target('C05 C12 C19 C18 C01', 'OutputNode::evaluate(PSC::Context&)', contracts=out_contracts, cover=['all', 'no value', 'error'], budget=120)
class OutputStatement:
    def setup(self, c):
        for st, a in node_setup(c, 'OutputNode', [None]):
            sp = st.spec = Output('next', i=z3.BitVecVal(0, 64))
            sp.due = None
            n = st.w(a[1].obj).meta['len:nodes'] = bv('n')
            st.pc.append(z3.ULT(n, lib.BIG))
            sp.n = n
            yield st, a

    def post(self, c, st, out):
        sp = st.spec
        if sp.mode == 'error':
            c.cover('error')
            return c.ok(st, 'an error of an operand is passed on', c.is_runtime_error(out))
        if sp.mode == 'none':
            c.cover('no value')
            return error(c, st, out, 'OUTPUT of no value')
        c.cover('all')
        c.ok(st, 'OUTPUT completes after the end of the line', out[0] == 'ret' and sp.mode == 'ended')
        if out[0] == 'ret':
            none_result(c, st, out)
