"""Arrays (C06)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, error
from .p03 import Auto, RTE, none_result
from .p05 import var_contracts, type_of, NOTDEF, samename, USER, str_obj
from .p09 import res_contracts, resolved
import re

B64 = z3.BitVecSort(64)


MUL = z3.Function('mul64', B64, B64, B64)
OVF = z3.Function('muloverflow', B64, B64, z3.BoolSort())


def mul(x, y):
    """products of two unknowns are compared as terms (the product itself does not matter)"""
    for a, b in ((x, y), (y, x)):
        if z3.is_bv_value(a):
            return z3.simplify(a * b)
    return MUL(*sorted((z3.simplify(x), z3.simplify(y)), key=lambda t: t.sexpr()))


def commutes(x, y):
    """instances of the laws used"""
    return z3.And(MUL(x, y) == MUL(y, x), z3.Implies(x == 1, MUL(x, y) == y), z3.Implies(y == 1, MUL(x, y) == x))


def products(c):
    c.e.mulfn = mul
    c.e.mulover = lambda x, y: OVF(*sorted((x, y), key=lambda t: t.sexpr()))


class Dims:
    """the dimensions of an array: bounds, sizes, and the products of the first k sizes"""

    def __init__(self, c, st, arr):
        b = c.w.peek(st, arr, 'dimensions', 'PSC::Array')
        o = st.mem[b.obj]
        self.buf, self.n = b.obj, bvt(o.meta['n'])
        self.lo = z3.Function('elem_%s_8' % b.obj, B64, B64)
        self.hi = z3.Function('elem_%s_16' % b.obj, B64, B64)
        self.num = z3.Function('elem_%s' % b.obj, B64, z3.BitVecSort(32))
        self.stride = z3.Function('STR_%s' % b.obj, B64, B64)

    def size(self, k):
        return self.hi(k) - self.lo(k) + 1

    def facts(self, k):
        """invariant of arrays (established by the declaration) and the definition of the products, at k"""
        s = self.stride
        return z3.And(s(z3.BitVecVal(0, 64)) == 1, s(k + 1) == mul(s(k), self.size(k)), commutes(s(k), self.size(k)), commutes(self.size(k), s(k)),
                      z3.Implies(z3.ULT(k, self.n), z3.And(self.lo(k) <= self.hi(k), self.size(k) != 0, z3.ULT(self.size(k), lib.BIG), z3.ULT(s(k), lib.BIG), s(k) != 0)))


def instantiate(c, f):
    """adds the instances of f at every index of a loop"""
    def hook(e, loop, A):
        for l, (kind, arg) in loop.W.items():
            if kind == 'vecptr' or (kind == 'bv' and arg == 64):
                v = loop.scalar(l, loop.vals[l])
                x = f(A, v)
                if x is not None:
                    A.pc.append(x)
    c.e.invariants.append(hook)


def equals(c, f):
    """candidate invariants: a changing value equals a function of another one"""
    def hook(e, loop, A):
        out = []
        loc = [l for l, (k, a) in loop.W.items() if k == 'vecptr' or (k == 'bv' and a == 64)]
        for l in loc:
            for m in loc:
                if l != m:
                    for nm, g in f(loop.entry):
                        out.append(('%s=%s(%s)' % (l, nm, m), lambda get, l=l, m=m, g=g: loop.scalar(l, get(l)) == g(loop.scalar(m, get(m)))))
        return out
    c.e.candidate_hooks.append(hook)


def vector_arg(c, st, elem, name):
    """a vector passed by reference"""
    o = Obj('arg%s' % number(), 24, 'heap', lambda e, s, ob, off, ty: __import__('psv.world', fromlist=['x']).vector_field(c.w, s, ob, 0, off, elem, name), 'std::vector<%s>' % elem, True)
    return st.add(o)


# ---------------------------------------------------------------- ArrayDimension
@target('C06', 'PSC::ArrayDimension::isValidIndex(long) const', cover=['done'])
class ValidIndex:
    def setup(self, c):
        st = c.state()
        d, x = c.w.new(st, 'PSC::ArrayDimension'), bv('index')
        st.ghost.update(d=d, x=x)
        yield st, [d, x]

    def post(self, c, st, out):
        c.cover('done')
        d, x, w = st.ghost['d'], st.ghost['x'], c.w
        lo, hi = bvt(w.peek(st, d, 'lowerBound')), bvt(w.peek(st, d, 'upperBound'))
        r = out[1] if isz(out[1]) and z3.is_bool(out[1]) else bvt(out[1], 8) == 1
        c.ok(st, 'exactly the indices between the bounds are valid', r == z3.And(lo <= x, x <= hi))


@target('C06', 'PSC::ArrayDimension::getSize() const', cover=['done'])
class DimSize:
    def setup(self, c):
        st = c.state()
        d = c.w.new(st, 'PSC::ArrayDimension')
        lo, hi = bvt(c.w.peek(st, d, 'lowerBound')), bvt(c.w.peek(st, d, 'upperBound'))
        st.pc += [lo <= hi, z3.ULT(hi - lo, lib.BIG)]      # invariant of arrays
        st.ghost.update(lo=lo, hi=hi)
        yield st, [d]

    def post(self, c, st, out):
        c.cover('done')
        c.ok(st, 'the number of indices between the bounds', out[0] == 'ret' and bvt(out[1]) == st.ghost['hi'] - st.ghost['lo'] + 1)


@target('C06', 'PSC::operator==(PSC::ArrayDimension const&, PSC::ArrayDimension const&)', cover=['done'])
class DimEq:
    def setup(self, c):
        st = c.state()
        a, b = c.w.new(st, 'PSC::ArrayDimension'), c.w.new(st, 'PSC::ArrayDimension')
        st.ghost.update(a=a, b=b)
        yield st, [a, b]

    def post(self, c, st, out):
        c.cover('done')
        w = c.w
        r = out[1] if isz(out[1]) and z3.is_bool(out[1]) else bvt(out[1], 8) == 1
        g = lambda p, n, k: bvt(w.peek(st, st.ghost[p], n), k)
        c.ok(st, 'dimensions are equal when their position and bounds are', r == z3.And(g('a', 'n', 32) == g('b', 'n', 32), g('a', 'lowerBound', 64) == g('b', 'lowerBound', 64),
                                                                                  g('a', 'upperBound', 64) == g('b', 'upperBound', 64)))


# ---------------------------------------------------------------- Array::getElement
@target('C06', 'PSC::Array::getElement(std::vector<long, std::allocator<long>> const&)', cover=['element'])
class Element:
    """row-major addressing: OFF(0) = 0, OFF(k+1) = OFF(k) + (index[k] - lower[k]) * STR(k); the lemmas about OFF are separate targets"""
    def setup(self, c):
        w = c.w
        products(c)
        st = c.state()
        arr = w.new(st, 'PSC::Array')
        D = Dims(c, st, arr)
        iv = vector_arg(c, st, 'long', 'index')
        ib = c.e.load_cell(st, iv, 8, ('ptr',))
        n = bvt(st.mem[ib.obj].meta['n'])
        ix = z3.Function('elem_%s' % ib.obj, B64, B64)
        off = z3.Function('OFF_%s' % D.buf, B64, B64)
        data = w.peek(st, arr, 'data', 'PSC::Array')
        dn = bvt(st.mem[data.obj].meta['n'])
        zero = z3.BitVecVal(0, 64)

        def facts(s, k):
            return z3.And(D.facts(k), off(zero) == 0, off(k + 1) == off(k) + mul(ix(k) - D.lo(k), D.stride(k)), commutes(ix(k) - D.lo(k), D.stride(k)), commutes(D.stride(k), ix(k) - D.lo(k)),
                          z3.Implies(z3.ULT(k, D.n), z3.And(ix(k) >= D.lo(k), ix(k) <= D.hi(k))),     # checked by the caller
                          # lemma: offsets stay within the array (proved below); invariant: there are as many elements as index tuples
                          z3.ULT(off(D.n), D.stride(D.n)), D.stride(D.n) == dn)
        instantiate(c, facts)
        equals(c, lambda s: [('OFF', off), ('STR', D.stride)])
        st.pc += [n == D.n, facts(st, zero)]
        st.ghost.update(arr=arr, data=data, off=off(D.n), D=D)
        yield st, [arr, iv]

    def post(self, c, st, out):
        c.cover('element')
        g = st.ghost
        c.ok(st, 'an element is found', out[0] == 'ret')
        c.frame(st, 'looking up an element changes nothing', {None})
        if out[0] != 'ret':
            return
        k = st.mem[out[1].obj].meta.get('key')
        c.ok(st, 'the element is one of the array', k is not None and k[0] == g['data'].obj)
        if k is not None:
            c.ok(st, 'the element at the row-major position of the indices', lib.b64(k[1]) == g['off'])


@target('C06', None, name='lemma: positions of index tuples')
class Positions:
    """over the integers, by induction on the number of dimensions (d: index minus lower bound, s: size of a dimension, p: product of the sizes before)"""
    def setup(self, c):
        I = z3.Int
        off, p, d, s, off2, d2 = I('off'), I('p'), I('d'), I('s'), I('off2'), I('d2')
        pre = [p >= 1, s >= 1, 0 <= off, off < p, 0 <= d, d < s]
        c.lemma('no dimensions: one position', z3.And(0 <= z3.IntVal(0), z3.IntVal(0) < 1))
        # off + d*p <= (p-1) + (s-1)*p = s*p - 1
        k = I('k')
        c.lemma('a product of non-negative numbers', k * p >= 0, [p >= 1, k >= 0])
        c.lemma('positions stay within the array', z3.And(0 <= off + d * p, off + d * p < p * s), pre + [(s - 1 - d) * p >= 0, d * p >= 0])
        c.lemma('different indices have different positions', z3.And(d == d2, off == off2),
                pre + [0 <= off2, off2 < p, 0 <= d2, d2 < s, off + d * p == off2 + d2 * p,
                       z3.Or(d == d2, (d - d2 - 1) * p >= 0, (d2 - d - 1) * p >= 0)])
        c.lemma('the cases of the previous lemma are all', z3.Or(d == d2, (d - d2 - 1) * p >= 0, (d2 - d - 1) * p >= 0),
                pre + [z3.Implies(d - d2 - 1 >= 0, (d - d2 - 1) * p >= 0), z3.Implies(d2 - d - 1 >= 0, (d2 - d - 1) * p >= 0)])
        yield from ()


# ---------------------------------------------------------------- a[i, j]
class Indices(Auto):
    """every index is evaluated in order, must be an INTEGER within the bounds of its dimension, and is used in its place"""

    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind in ('eval', 'throw') and 'node' in d:
            k = st.mem[d['node'].obj].meta.get('key')
            c.ok(st, 'only indices are evaluated', k is not None and k[0] == self.ibuf)
            c.ok(st, 'indices are evaluated in order, once each', z3.And(self.mode == 'next', lib.b64(k[1]) == self.t['i']) if k else False)
            c.ok(st, 'indices are evaluated only when their number is right', st.ghost.get('arity'))
            self.res = d.get('res')
            self.node = d['node']
            self.mode = 'evaluated' if kind == 'eval' else 'error'
        elif kind == 'push':
            v = lib.b64(d['elem'][0])
            c.ok(st, 'an index is used after it has been evaluated', self.mode == 'evaluated')
            if self.mode != 'evaluated':
                return self.bad(eng, st, 'an index is used after it has been evaluated')
            k, x = c.orig(st, self.res)
            c.ok(st, 'an index is an INTEGER', k == 'INTEGER')
            if k != 'INTEGER':
                return self.bad(eng, st, 'an index is an INTEGER')
            c.ok(st, 'the value of the index is used', v == bvt(x))
            i = self.t['i']
            c.ok(st, 'an index used is within its bounds', z3.And(self.D.lo(i) <= v, v <= self.D.hi(i)))
            c.ok(st, 'an index is used in its place', d['idx'] == i)
            self.vec = d['vec']
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(i + 1)
            self.mode = 'next'
        elif kind == 'getelement':
            c.ok(st, 'the array is indexed when all indices are known', z3.And(self.mode == 'next', self.t['i'] == self.n))
            b, n = vec.vector_at(eng, st, d['index'])
            c.ok(st, 'all indices are passed on', n == self.n)
            if self.vec is not None:
                c.ok(st, 'the indices evaluated are passed on', d['index'].obj == self.vec.obj)
            self.mode = 'indexed'


def index_contracts(c):
    res_contracts(c)

    def getelement(e, st, a, ins):
        v = c.w.variable(st)
        e.event(st, 'getelement', arr=a[0], index=a[1], res=v)
        return v
    c.handler(r'^PSC::Array::getElement\(', getelement)

    def res(e, st, a, ins):
        out = resolve_base(e, st, a, ins)
        for o in out:
            if o[0] == 'ret':
                x, h = o[1], o[2]
                if x.mem[h.obj].cls == 'PSC::Array':
                    _Cur.st = x
                    D = x.spec.D = Dims(c, x, h)
                    x.ghost['arity'] = D.n == x.spec.n
                    _Cur.st = st
        return out
    resolve_base = c.e.virt[('AbstractVariableResolver', 'resolve')]
    c.e.virt[('AbstractVariableResolver', 'resolve')] = res


@target('C06 C01', 'ArrayElementResolver::resolve(PSC::Context&)', contracts=index_contracts, cover=['element', 'no array', 'arity', 'bad index', 'bounds', 'error'])
class Index:
    def setup(self, c):
        w = c.w
        st = c.state()
        this, ctx = w.new(st, 'ArrayElementResolver'), w.new(st, 'PSC::Context')
        b = w.peek(st, this, 'indices')
        n = bvt(st.mem[b.obj].meta['n'])
        st.pc.append(n != 0)                # the parser makes no element reference without indices
        sp = st.spec = Indices('next', i=z3.BitVecVal(0, 64))
        sp.ibuf, sp.n, sp.vec, sp.D = b.obj, n, None, None
        st.ghost.update(this=this, ctx=ctx, cachebits=[boolean(x) for x in ('cached', 'cachedelsewhere', 'defined', 'isarray')])
        yield st, [this, ctx]

    def post(self, c, st, out):
        g, w, sp = st.ghost, c.w, st.spec
        d = resolved(c, st, out)
        c.frame(st, 'indexing changes nothing', {None})
        if d is None:
            return
        if d['how'] == 'var':
            c.cover('no array')
            return error(c, st, out, 'indexing a variable that is no array')
        if sp.mode == 'error':
            c.cover('error')
            return c.ok(st, 'errors of the indices are passed on', out[0] == 'throw')
        if sp.mode == 'indexed':
            c.cover('element')
            ev = [x for k, x in c.events(st, 'getelement')]
            c.ok(st, 'the number of indices is right', g['arity'])
            return c.ok(st, 'the element with the indices is denoted', out[0] == 'ret' and len(ev) == 1 and ev[0]['arr'].obj == d['holder'].obj and out[1].obj == ev[0]['res'].obj)
        if sp.mode == 'evaluated':
            k, x = c.orig(st, sp.res)
            if k != 'INTEGER':
                c.cover('bad index')
                return error(c, st, out, 'an index that is no INTEGER')
            c.cover('bounds')
            i = sp.t['i']
            c.ok(st, 'only an index out of bounds is refused', z3.Not(z3.And(sp.D.lo(i) <= bvt(x), bvt(x) <= sp.D.hi(i))))
            return error(c, st, out, 'an index out of bounds')
        c.cover('arity')
        c.ok(st, 'only a wrong number of indices is refused', z3.Not(g['arity']) if sp.mode == 'next' else False)
        error(c, st, out, 'a wrong number of indices')


# ---------------------------------------------------------------- copying, comparing and filling arrays and records
VCTOR = r'^PSC::Variable::Variable\(std::__cxx11::basic_string.*PSC::DataType, bool, PSC::Context\*, PSC::Value const\*\)'
VCOPY = r'^PSC::Variable::Variable\(PSC::Variable const&, PSC::Context\*\)'


def storage_contracts(c, kinds=None):
    """making, copying and setting variables: their own contracts"""
    w = c.w

    def ctor(e, st, a, ins):
        out = []
        s = st.fork()
        _Cur.st = s
        e.event(s, 'newvar', v=a[0], how='error')
        _Cur.st = st
        out.append(('throw', s, e.new(s, 64, 'exc'), RTE))
        e.event(st, 'newvar', v=a[0], how='made', name=lib.gets(e, st, a[1]), tname=a[2], tk=a[3], const=a[4], ctx=a[5], init=a[6])
        return out + [('ret', st, None)]
    c.handler(VCTOR, ctor)

    def copy(e, st, a, ins):
        e.event(st, 'copyvar', v=a[0], src=a[1], ctx=a[2])
        return None
    c.handler(VCOPY, copy)

    def setvar(e, st, a, ins):
        e.mark(st, a[0])
        e.event(st, 'setvar', v=a[0], src=a[1])
        return None
    c.handler(r'^PSC::Variable::set\(', setvar)

    def shape(e, st, a, ins):
        # what records and arrays have in common is a relation between positions
        ka, kb = [st.mem[x.obj].meta.get('key') for x in a[:2]]
        r = boolean('shape')
        e.event(st, 'shape', a=a[0], b=a[1], r=r)
        return r
    c.shape = shape
    c.handler(r'^PSC::Composite::hasSameShape\(', shape)

    def copydata(e, st, a, ins):
        e.event(st, 'copydata', dst=a[0], src=a[1])
        return None
    c.copydata = copydata


def key(st, p):
    return st.mem[p.obj].meta.get('key') or (None, None)


def pair_vectors(c, st, a, b, path, cls, same_length=True):
    """two vectors of the same length"""
    x, y = c.w.peek(st, a, path, cls), c.w.peek(st, b, path, cls)
    n, m = bvt(st.mem[x.obj].meta['n']), bvt(st.mem[y.obj].meta['n'])
    if same_length:
        st.pc.append(n == m)
    return x.obj, y.obj, n


class Pairwise(Auto):
    """the elements of two vectors are treated pairwise, in order, each once"""

    def pair(self, eng, st, x, y, what):
        c = eng.c
        kx, ky = key(st, x), key(st, y)
        ok = kx[0] == self.dst and ky[0] == self.src
        c.ok(st, what + ': element by element', ok)
        i = self.t['i']
        c.ok(st, what + ': every pair in turn', z3.And(self.mode == self.phase, lib.b64(kx[1]) == i, lib.b64(ky[1]) == i) if ok else False)
        self.t = dict(self.t)
        self.t['i'] = z3.simplify(i + 1)


def value_of(c, st, v):
    """the value object the variable at a position denotes"""
    return c.w.storage(st, v)


class CopyElements(Pairwise):
    phase = 'next'

    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind == 'setvar':
            src = d['src']
            # the variable whose storage the value is
            v = next((Ptr(o.meta['cell'], 0) for o in [st.mem[src.obj]] if 'cell' in o.meta), None)
            if v is None:
                return self.bad(eng, st, 'copied: the value of an element')
            owner = c.holder_of(st, v)
            self.pair(eng, st, d['v'], owner, 'copied')


def holder_of(c):
    """the element a value belongs to: itself, or the reference that leads to it"""
    def f(st, v):
        return v
    return f


def norefs(c):
    """invariant: fields and elements are no references (established by the constructor and the copy constructor)"""
    c.w.over[('PSC::Variable', 'ref')] = lambda st, o, off, ty: NULL
    c.holder_of = holder_of(c)


def copy_contracts(c):
    storage_contracts(c)
    norefs(c)


@target('C06 C05 C07', 'PSC::Array::copyData(PSC::Array const&)', contracts=copy_contracts, cover=['copied'])
class CopyData:
    """precondition: same type and bounds, hence as many elements (hasSameShape)"""
    def setup(self, c):
        st = c.state()
        a, b = c.w.new(st, 'PSC::Array'), c.w.new(st, 'PSC::Array')
        sp = st.spec = CopyElements('next', i=z3.BitVecVal(0, 64))
        sp.dst, sp.src, sp.n = pair_vectors(c, st, a, b, 'data', 'PSC::Array')
        yield st, [a, b]

    def post(self, c, st, out):
        c.cover('copied')
        c.ok(st, 'copying completes', out[0] == 'ret')
        c.ok(st, 'every element is copied', z3.And(st.spec.mode == 'next', st.spec.t['i'] == st.spec.n))


class CopyFields(CopyElements):
    """the variables, then the arrays of a record"""
    phase = 'next'

    def on(self, eng, st, kind, d):
        if self.mode == 'bad':
            return
        if kind == 'copydata':
            if self.mode == 'next':
                eng.c.ok(st, 'every variable is copied', self.t['i'] == self.n)
                self.mode, self.phase, self.dst, self.src = 'arrays', 'arrays', self.adst, self.asrc
                self.t = dict(self.t, i=z3.BitVecVal(0, 64))
            return self.pair(eng, st, d['dst'], d['src'], 'copied')
        super().on(eng, st, kind, d)


def record_contracts(c):
    copy_contracts(c)
    c.handler(r'^PSC::Array::copyData\(', c.copydata)
    c.handler(r'^PSC::Array::hasSameShape\(', c.shape)


@target('C05 C06 C07', 'PSC::Context::copyVariableData(PSC::Context const&)', contracts=record_contracts, cover=['copied'])
class CopyRecord:
    """precondition: two records of one type"""
    def setup(self, c):
        st = c.state()
        a, b = c.w.new(st, 'PSC::Context'), c.w.new(st, 'PSC::Context')
        sp = st.spec = CopyFields('next', i=z3.BitVecVal(0, 64))
        sp.dst, sp.src, sp.n = pair_vectors(c, st, a, b, 'variables', 'PSC::Context')
        sp.adst, sp.asrc, sp.an = pair_vectors(c, st, a, b, 'arrays', 'PSC::Context')
        yield st, [a, b]

    def post(self, c, st, out):
        sp = st.spec
        c.cover('copied')
        c.ok(st, 'copying completes', out[0] == 'ret')
        if sp.mode == 'next':
            c.ok(st, 'every field is copied', z3.And(sp.t['i'] == sp.n, sp.an == 0))
        else:
            c.ok(st, 'every field is copied', z3.And(sp.mode == 'arrays', sp.t['i'] == sp.an))


# ---------------------------------------------------------------- same shape
class SameShape(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad' or kind != 'shape':
            return
        x, y = d['a'], d['b']
        if 'cell' in st.mem[x.obj].meta:
            x, y = Ptr(st.mem[x.obj].meta['cell'], 0), Ptr(st.mem[y.obj].meta['cell'], 0)
        kx, ky = key(st, x), key(st, y)
        if (kx[0], ky[0]) == (self.dst, self.src):
            which = 'i'
        elif (kx[0], ky[0]) == (getattr(self, 'adst', None), getattr(self, 'asrc', None)):
            which = 'j'
        else:
            return self.bad(eng, st, 'fields are compared with the same fields')
        c.ok(st, 'fields are compared with the same fields', lib.b64(kx[1]) == lib.b64(ky[1]))
        # the answers are kept as a function of the position
        f = z3.Function('shape_%s' % which, B64, z3.BoolSort())
        st.pc.append(f(lib.b64(kx[1])) == d['r'])


def witness_shape(e, loop, A):
    """candidate: every pair before the position is alike, as far as it is a record (witness: one that is not)"""
    out = []
    for k, guard in loop.entry.ghost.get('unlike', ()):
        for l, (kind, arg) in loop.W.items():
            if kind == 'vecptr' or (kind == 'bv' and arg == 64):
                out.append(('%s before %s' % (l, k), lambda g, l=l, k=k: z3.ULE(loop.scalar(l, g(l)), k)))
    return out


def shape_contracts(c):
    record_contracts(c)
    c.e.candidate_hooks.append(witness_shape)

    def dimeq(e, st, a, ins):
        r = boolean('dimseq')
        st.ghost['dimseq'] = r
        e.event(st, 'dims', a=a[0], b=a[1], r=r)
        return r
    c.handler(r'^(bool )?std::operator==<PSC::ArrayDimension', dimeq)


def shape_of(path, which, cls, fn, props):
    pass


@target('C05 C06 C07', 'PSC::Context::hasSameShape(PSC::Context const&) const', contracts=shape_contracts, cover=['alike', 'record unlike', 'array unlike'])
class RecordShape:
    """records of one type are alike iff every record field and every array field is"""
    def setup(self, c):
        w = c.w
        for case in ('alike', 'record unlike', 'array unlike'):
            st = c.state()
            a, b = w.new(st, 'PSC::Context'), w.new(st, 'PSC::Context')
            sp = st.spec = SameShape('next')
            sp.dst, sp.src, sp.n = pair_vectors(c, st, a, b, 'variables', 'PSC::Context')
            sp.adst, sp.asrc, sp.an = pair_vectors(c, st, a, b, 'arrays', 'PSC::Context')
            K = bv('witness')
            fi, fj = [z3.Function('shape_%s' % x, B64, z3.BoolSort()) for x in 'ij']
            off = w.L.off('PSC::Variable', 'type.type')

            def kindof(s, o, of, ty, sp=sp):
                """the types of the fields of two records of one type agree"""
                k = o.meta.get('key')
                if k is None or k[0] not in (sp.dst, sp.src):
                    return w.datatype_kind(s, o, of, ty)
                t = z3.Function('fieldtype', B64, z3.BitVecSort(32))(lib.b64(k[1]))
                s.pc.append(z3.And(z3.ULE(t, 9), t != w.T['NONE']))
                s.w(o.id).meta['kt'] = t
                return t
            w.over[('PSC::Variable', 'type.type')] = kindof
            ft = z3.Function('fieldtype', B64, z3.BitVecSort(32))
            if case == 'record unlike':
                st.pc.append(z3.And(z3.ULT(K, sp.n), ft(K) == w.T['COMPOSITE'], z3.Not(fi(K))))
                st.ghost['unlike'] = ((K, 'i'),)
            elif case == 'array unlike':
                st.pc.append(z3.And(z3.ULT(K, sp.an), z3.Not(fj(K))))
                st.ghost['unlike'] = ((K, 'j'),)
            st.ghost['case'] = case
            yield st, [a, b]

    def post(self, c, st, out):
        case = st.ghost['case']
        c.ok(st, 'comparing completes', out[0] == 'ret')
        c.frame(st, 'comparing changes nothing', {None})
        if out[0] != 'ret':
            return
        r = out[1] if isz(out[1]) and z3.is_bool(out[1]) else bvt(out[1], 8) == 1
        ev = [d for k, d in c.events(st, 'shape')]
        if case != 'alike':
            c.cover(case)
            return c.ok(st, 'records with an unlike field are unlike', z3.Not(r))
        # without knowledge of a witness: `unlike` is answered only because of a field that is
        c.cover('alike')
        c.ok(st, 'records are unlike only if a field is', z3.Or(r, *[z3.Not(d['r']) for d in ev]))


@target('C06 C05 C07', 'PSC::Array::hasSameShape(PSC::Array const&) const', contracts=shape_contracts, cover=['alike', 'bounds', 'element unlike'])
class ArrayShape:
    """arrays of one type are alike iff their bounds are equal and, for records, every pair of elements is alike"""
    def setup(self, c):
        w = c.w
        for case in ('alike', 'element unlike'):
            st = c.state()
            a, b = w.new(st, 'PSC::Array'), w.new(st, 'PSC::Array')
            sp = st.spec = SameShape('next')
            # equal bounds: as many elements (checked before the elements are compared)
            sp.dst, sp.src, sp.n = pair_vectors(c, st, a, b, 'data', 'PSC::Array')
            t = bvt(w.peek(st, a, 'type.type'), 32)

            def kindof(s, o, of, ty, sp=sp, t=t):
                k = o.meta.get('key')
                if k is None or k[0] not in (sp.dst, sp.src):
                    return w.datatype_kind(s, o, of, ty)
                s.w(o.id).meta['kt'] = t
                return t
            w.over[('PSC::Variable', 'type.type')] = kindof
            st.pc.append(bvt(w.peek(st, b, 'type.type'), 32) == t)
            fi = z3.Function('shape_i', B64, z3.BoolSort())
            K = bv('witness')
            if case == 'element unlike':
                st.pc.append(z3.And(z3.ULT(K, sp.n), t == w.T['COMPOSITE'], z3.Not(fi(K))))
                st.ghost['unlike'] = ((K, 'i'),)
            st.ghost.update(case=case, a=a, b=b, t=t)
            yield st, [a, b]

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'comparing completes', out[0] == 'ret')
        c.frame(st, 'comparing changes nothing', {None})
        if out[0] != 'ret':
            return
        r = out[1] if isz(out[1]) and z3.is_bool(out[1]) else bvt(out[1], 8) == 1
        dm = [d for k, d in c.events(st, 'dims')]
        c.ok(st, 'the bounds are compared', len(dm) >= 1)
        if not dm:
            return
        ev = [d for k, d in c.events(st, 'shape')]
        c.ok(st, 'arrays of different bounds are unlike', z3.Implies(r, dm[0]['r']))
        if g['case'] == 'element unlike':
            c.cover('element unlike')
            return c.ok(st, 'arrays with an unlike element are unlike', z3.Not(r))
        c.cover('alike')
        c.cover('bounds')
        c.ok(st, 'arrays are unlike only if their bounds or an element are', z3.Or(r, z3.Not(dm[0]['r']), *[z3.Not(d['r']) for d in ev]))


# ---------------------------------------------------------------- making arrays
class Fill(Auto):
    """every element is a new variable, appended in order"""

    def on(self, eng, st, kind, d):
        c, w = eng.c, eng.c.w
        if self.mode == 'bad':
            return
        if kind == 'newvar':
            c.ok(st, 'an element is made in its turn', self.mode == 'next')
            self.mode = 'made' if d['how'] == 'made' else 'error'
            if d['how'] != 'made':
                return
            self.v = d['v']
            for what, x in self.expect(eng, st):
                pass
            a = self.arr
            tk = w.peek(st, a, 'type.type')
            c.ok(st, 'an element has the type of the array', bvt(d['tk'], 32) == bvt(tk, 32))
            tn = w.peek(st, a, 'type.name')
            c.ok(st, 'an element has the type name of the array', (d['tname'].null and tn.null) or d['tname'].obj == tn.obj)
            c.ok(st, 'an element is not constant', z3.Not(d['const']) if isz(d['const']) else d['const'] == 0)
            c.ok(st, 'an element belongs to the context of the array', d['ctx'].obj == self.ctx.obj)
            c.ok(st, 'an element has the default value', d['init'].null)
        elif kind == 'push':
            c.ok(st, 'the element made is appended', self.mode == 'made' and d['vec'].obj == self.arr.obj and d['vec'].off == w.L.off('PSC::Array', 'data') and d['elem'][0].obj == self.v.obj)
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
            self.mode = 'next'

    def expect(self, eng, st):
        return ()


def init_contracts(c):
    storage_contracts(c)
    products(c)


@target('C06 C07', 'PSC::Array::init(PSC::Context&)', contracts=init_contracts, cover=['made', 'too large', 'error'])
class ArrayInit:
    """as many elements as index tuples"""
    def setup(self, c):
        w = c.w
        st = c.state()
        arr, ctx = w.new(st, 'PSC::Array'), w.new(st, 'PSC::Context')
        data = w.L.off('PSC::Array', 'data')
        for d in (0, 8, 16):
            c.e.put(st, c.e.gep_off(arr, data + d), NULL, 8)       # a new array has no elements
        D = Dims(c, st, arr)
        facts = lambda s, k: D.facts(k)
        instantiate(c, facts)
        equals(c, lambda s: [('STR', D.stride)])
        st.pc.append(facts(st, z3.BitVecVal(0, 64)))
        sp = st.spec = Fill('next', i=z3.BitVecVal(0, 64))
        sp.arr, sp.ctx = arr, ctx
        st.ghost.update(arr=arr, D=D)
        yield st, [arr, ctx]

    def post(self, c, st, out):
        g, sp = st.ghost, st.spec
        D = g['D']
        if out[0] == 'throw':
            if sp.mode == 'error':
                c.cover('error')
                return c.ok(st, 'an error of an element is passed on', out[2] == RTE)
            c.cover('too large')
            return c.ok(st, 'only an array that is too large is refused', z3.And(out[2] == '@_ZTISt12length_error', z3.Not(z3.ULT(D.stride(D.n), 2 ** 60 - 1))))
        c.cover('made')
        c.ok(st, 'there is one element for every index tuple', z3.And(sp.mode == 'next', sp.t['i'] == D.stride(D.n)))
        b, n = vec.vector_at(c.e, st, c.e.gep_off(g['arr'], c.w.L.off('PSC::Array', 'data')))
        c.ok(st, 'the elements are those of the array', n == sp.t['i'])
