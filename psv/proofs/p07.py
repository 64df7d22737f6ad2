"""Scopes, records and arrays as objects: made empty or as copies, each with storage of its own; type definitions (C04, C05, C06, C07, C09, C19)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, error
from .p03 import Auto, RTE, none_result
from .p04 import lookup_contracts, STR, witness
from .p05 import var_contracts, declare_contracts, str_obj, samename, type_of, USER
from .p06 import storage_contracts, norefs, products
from .. import vec, world

CTX, ARR, COMP, VAR = 'PSC::Context', 'PSC::Array', 'PSC::Composite', 'PSC::Variable'
VECTORS = ('variables', 'arrays', 'procedures', 'functions', 'enums', 'pointers', 'composites', 'cache')
NEXTID = '@_ZN3PSC7Context6nextIdE'


def raw(c, st, cls):
    """storage for an object of the class, not yet constructed"""
    return c.e.new(st, c.w.L.size(cls), 'heap', name='raw')


def vlen(c, st, p, path, cls):
    v = c.e.gep_off(p, c.w.L.off(cls, path))
    return vec.vector_at(c.e, st, v)


def new_context(c, st, p, parent, name, fn, comp, tk, tn, start, full=True):
    """the scope at p is new: these attributes, and nothing in it"""
    w, e = c.w, c.e
    P = lambda x: w.peek(st, p, x, CTX)
    c.ok(st, 'its parent', P('parent').obj == parent.obj)
    c.ok(st, 'its name', lib.seq(P('name'), name))
    c.ok(st, 'the kind of scope', z3.And(bvt(P('isFunctionCtx'), 8) == fn, bvt(P('isCompositeCtx'), 8) == comp))
    c.ok(st, 'its result type', bvt(P('returnType.type'), 32) == tk)
    t = P('returnType.name')
    c.ok(st, 'the name of the result type', t.obj == tn.obj)
    c.ok(st, 'no result yet', P('returnValue').null)
    c.ok(st, 'nothing is being executed', P('switchToken').null)
    c.ok(st, 'no files', P('fileManager').null)
    c.ok(st, 'an identity of its own', z3.And(bvt(P('id')) == start, bvt(e.load_cell(st, e.gobj(st, NEXTID), 8, ('i', 64))) == start + 1))
    for v in VECTORS:
        if full or v not in ('variables', 'arrays'):
            c.ok(st, 'nothing in it', vlen(c, st, p, v, CTX)[1] == 0)


def ctx_target(sig, kind):
    class Ctor:
        def setup(self, c):
            st = c.state()
            p, par, nm = raw(c, st, CTX), c.w.new(st, CTX), str_obj(st, 'nm')
            start = bv('nextid')
            c.e.put(st, c.e.gobj(st, NEXTID), start, 8)
            st.ghost.update(p=p, par=par, nm=nm, start=start)
            fn, tk, tn = bv('fn', 8), bv('tk', 32), str_obj(st, 'tn', 'tname')
            st.pc.append(z3.ULE(fn, 1))
            bit = z3.Extract(0, 0, fn) == 1
            args = {'plain': [], 'call': [bit, tn, tk], 'record': [bit]}[kind]
            st.ghost.update(fn=fn, tk=tk, tn=tn)
            yield st, [p, par, nm] + args

        def post(self, c, st, out):
            g = st.ghost
            c.ok(st, 'the scope is made', out[0] == 'ret')
            if out[0] != 'ret':
                return
            c.cover('made')
            none = c.K['PSC::DataType::NONE'] if 'PSC::DataType::NONE' in c.K else c.w.T['NONE']
            fn, comp, tk, tn = {'plain': (0, 0, none, NULL), 'call': (g['fn'], 0, g['tk'], g['tn']), 'record': (0, g['fn'], none, NULL)}[kind]
            new_context(c, st, g['p'], g['par'], lib.gets(c.e, st, g['nm']), fn, comp, tk, tn, g['start'])
            c.frame(st, 'nothing else changes', {g['p'].obj, '@' + NEXTID})
    target('C04 C09 C07' if kind != 'record' else 'C07 C05 C09', 'PSC::Context::Context(%s)' % sig, name='Context::Context(%s)' % kind, contracts=var_contracts, cover=['made'])(Ctor)


S = STR
ctx_target('PSC::Context*, %s' % S, 'plain')
ctx_target('PSC::Context*, %s, bool, PSC::DataType' % S, 'call')
ctx_target('PSC::Context*, %s, bool' % S, 'record')


# ---------------------------------------------------------------- copies
def copy_contracts(c):
    var_contracts(c)
    storage_contracts(c)
    norefs(c)
    e, w = c.e, c.w

    def arr(e, st, a, ins):
        e.event(st, 'copyarr', v=a[0], src=a[1], ctx=a[2])
        return None
    c.handler(r'^PSC::Array::Array\(PSC::Array const&, PSC::Context\*\)', arr)

    def dims(e, st, a, ins):
        """the same dimensions"""
        e.event(st, 'copydims', sret=a[0], src=a[1])
        for k in (0, 8, 16):
            e.put(st, e.gep_off(a[0], k), NULL, 8)
        return None
    c.handler(r'^PSC::Array::copyDimensions\(', dims)


class CopyAll(Auto):
    """every element of the source vectors is copied, appended in its turn; every copy belongs to the given scope"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad' or kind not in ('copyvar', 'copyarr', 'push'):
            return
        if kind in ('copyvar', 'copyarr'):
            i = ('copyvar', 'copyarr').index(kind) if len(self.bufs) == 2 else 0
            k = st.mem[d['src'].obj].meta.get('key')
            ok = k is not None and k[0] == self.bufs[i] and self.mode == 'next'
            c.ok(st, 'an element of the source is copied', ok)
            if not ok:
                return self.bad(eng, st, 'a copy of another element')
            c.ok(st, 'the elements are copied in order, once each', k[1] == self.t['ij'[i]])
            c.ok(st, 'the copy belongs to the copied scope', d['ctx'].obj == self.ctx.obj)
            self.v, self.mode = d['v'], 'made%d' % i
        else:
            i = int(self.mode[4:]) if self.mode.startswith('made') else None
            ok = i is not None and d['elem'].get(0) is not None and d['elem'][0].obj == self.v.obj and d['vec'].obj == self.dst.obj and d['vec'].off == self.offs[i]
            c.ok(st, 'the copy is appended to the same list', ok)
            if not ok:
                return self.bad(eng, st, 'appended elsewhere')
            n = 'ij'[i]
            c.ok(st, 'at the same place', d['idx'] == self.t[n])
            self.t = dict(self.t)
            self.t[n] = z3.simplify(self.t[n] + 1)
            self.mode = 'next'


def copy_spec(c, st, dst, src, cls, paths, ctx):
    w = c.w
    sp = st.spec = CopyAll('next', i=z3.BitVecVal(0, 64), j=z3.BitVecVal(0, 64))
    b = [w.peek(st, src, x, cls) for x in paths]
    sp.bufs, sp.n = [x.obj for x in b], [bvt(st.mem[x.obj].meta['n']) for x in b]
    sp.dst, sp.offs, sp.ctx = dst, [w.L.off(cls, x) for x in paths], ctx
    return sp


@target('C07 C05 C06 C09', 'PSC::Context::Context(PSC::Context const&, PSC::Context*)', name='Context::Context(copy)', contracts=copy_contracts, cover=['copied'])
class CopyContext:
    def setup(self, c):
        st = c.state()
        w = c.w
        p, src, par = raw(c, st, CTX), w.new(st, CTX), w.new(st, CTX)
        start = bv('nextid')
        c.e.put(st, c.e.gobj(st, NEXTID), start, 8)
        copy_spec(c, st, p, src, CTX, ('variables', 'arrays'), p)
        st.ghost.update(p=p, src=src, par=par, start=start)
        yield st, [p, src, par]

    def post(self, c, st, out):
        g, sp, w = st.ghost, st.spec, c.w
        c.ok(st, 'the copy is made', out[0] == 'ret')
        if out[0] != 'ret' or sp.mode == 'bad':
            return
        c.cover('copied')
        Q = lambda x: w.peek(st, g['src'], x, CTX)
        new_context(c, st, g['p'], g['par'], Q('name'), bvt(Q('isFunctionCtx'), 8), bvt(Q('isCompositeCtx'), 8), bvt(Q('returnType.type'), 32), Q('returnType.name'), g['start'], False)
        c.ok(st, 'everything is copied', z3.And(sp.mode == 'next', sp.t['i'] == sp.n[0], sp.t['j'] == sp.n[1]))
        c.ok(st, 'nothing is added', z3.And(vlen(c, st, g['p'], 'variables', CTX)[1] == sp.n[0], vlen(c, st, g['p'], 'arrays', CTX)[1] == sp.n[1]))
        c.frame(st, 'nothing else changes', {g['p'].obj, '@' + NEXTID})


@target('C07 C06 C05', 'PSC::Array::Array(PSC::Array const&, PSC::Context*)', name='Array::Array(copy)', contracts=lambda c: copy_contracts(c) or c.e.patterns.pop(1), cover=['copied'])
class CopyArray:
    def setup(self, c):
        st = c.state()
        w = c.w
        p, src, ctx = raw(c, st, ARR), w.new(st, ARR), w.new(st, CTX)
        copy_spec(c, st, p, src, ARR, ('data',), ctx)
        st.ghost.update(p=p, src=src, ctx=ctx)
        yield st, [p, src, ctx]

    def post(self, c, st, out):
        g, sp, w = st.ghost, st.spec, c.w
        c.ok(st, 'the copy is made', out[0] == 'ret')
        if out[0] != 'ret' or sp.mode == 'bad':
            return
        c.cover('copied')
        P, Q = (lambda x: w.peek(st, g['p'], x, ARR)), (lambda x: w.peek(st, g['src'], x, ARR))
        c.ok(st, 'the name', lib.seq(P('name'), Q('name')))
        c.ok(st, 'the element type', z3.And(bvt(P('type.type'), 32) == bvt(Q('type.type'), 32), P('type.name').obj == Q('type.name').obj))
        d = [d for k, d in c.events(st, 'copydims')]
        o = w.L.off(ARR, 'dimensions')
        c.ok(st, 'the bounds', len(d) == 1 and d[0]['sret'].obj == g['p'].obj and d[0]['sret'].off == o and d[0]['src'].obj == g['src'].obj and d[0]['src'].off == o)
        c.ok(st, 'every element is copied', z3.And(sp.mode == 'next', sp.t['i'] == sp.n[0]))
        c.ok(st, 'nothing is added', vlen(c, st, g['p'], 'data', ARR)[1] == sp.n[0])
        c.frame(st, 'nothing else changes', {g['p'].obj})


class Dimensions(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if kind != 'push':
            return
        c.ok(st, 'appended to the result, in order', z3.And(z3.BoolVal(d['vec'].obj == self.dst.obj and d['vec'].off == self.dst.off), d['idx'] == self.t['i']))
        u = lambda off, bits: z3.Function('elem_%s_%d' % (self.name, off), z3.BitVecSort(64), z3.BitVecSort(bits))(self.t['i'])
        for off, bits in ((0, 32), (8, 64), (16, 64)):
            c.ok(st, 'the dimension at that place', bvt(d['elem'][off], bits) == u(off, bits))
        self.t = dict(self.t, i=z3.simplify(self.t['i'] + 1))


@target('C07 C06', 'PSC::Array::copyDimensions(std::vector<PSC::ArrayDimension, std::allocator<PSC::ArrayDimension>> const&)', contracts=var_contracts, cover=['copied'])
class CopyDimensions:
    def setup(self, c):
        st = c.state()
        w = c.w
        a = w.new(st, ARR)
        b = w.peek(st, a, 'dimensions')
        r = c.e.new(st, 24, 'alloca', name='sret')
        sp = st.spec = Dimensions('next', i=z3.BitVecVal(0, 64))
        sp.dst, sp.name, sp.n = r, world.vname(st.mem[b.obj]), bvt(st.mem[b.obj].meta['n'])
        st.ghost.update(r=r)
        yield st, [r, c.e.gep_off(a, w.L.off(ARR, 'dimensions'))]

    def post(self, c, st, out):
        sp = st.spec
        c.ok(st, 'the copy is made', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('copied')
        c.ok(st, 'all dimensions are copied', sp.t['i'] == sp.n)
        c.ok(st, 'as many as there are', vec.vector_at(c.e, st, st.ghost['r'])[1] == sp.n)
        c.frame(st, 'nothing else changes', {st.ghost['r'].obj})


@target('C06 C07', 'PSC::Array::Array(%s, PSC::DataType, std::vector<PSC::ArrayDimension, std::allocator<PSC::ArrayDimension>> const&)' % S, name='Array::Array', contracts=var_contracts, cover=['made'])
class NewArray:
    def setup(self, c):
        st = c.state()
        w = c.w
        p, src, nm, tn, tk = raw(c, st, ARR), w.new(st, ARR), str_obj(st, 'nm'), str_obj(st, 'tn'), bv('tk', 32)
        b = w.peek(st, src, 'dimensions')
        st.ghost.update(p=p, nm=nm, tn=tn, tk=tk, b=b)
        yield st, [p, nm, tn, tk, c.e.gep_off(src, w.L.off(ARR, 'dimensions'))]

    def post(self, c, st, out):
        g, w, e = st.ghost, c.w, c.e
        c.ok(st, 'the array is made', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('made')
        P = lambda x: w.peek(st, g['p'], x, ARR)
        c.ok(st, 'its name', lib.seq(P('name'), lib.gets(e, st, g['nm'])))
        c.ok(st, 'its type', z3.And(bvt(P('type.type'), 32) == g['tk'], z3.BoolVal(P('type.name').obj == g['tn'].obj)))
        b, n = vlen(c, st, g['p'], 'dimensions', ARR)
        m = bvt(st.mem[g['b'].obj].meta['n'])
        c.ok(st, 'its bounds', z3.And(n == m, z3.BoolVal(b is not None and b.obj != g['b'].obj and st.mem[b.obj].meta.get('copyof') is not None and st.mem[b.obj].meta['copyof'].obj == g['b'].obj)))
        c.ok(st, 'no elements yet', vlen(c, st, g['p'], 'data', ARR)[1] == 0)
        c.frame(st, 'nothing else changes', {g['p'].obj})


@target('C07 C06 C05', 'PSC::Variable::Variable(PSC::Variable const&, PSC::Context*)', name='Variable::Variable(copy)', contracts=lambda c: copy_contracts(c) or drop(c, 'Variable::Variable\\(PSC::Variable'), cover=['copied'])
class CopyVariable:
    """precondition: no reference (fields and elements are none)"""
    def setup(self, c):
        st = c.state()
        w = c.w
        p, src, ctx = raw(c, st, VAR), w.variable(st, noref=True), w.new(st, CTX)
        st.ghost.update(p=p, src=src, ctx=ctx)
        yield st, [p, src, ctx]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = [d for k, d in c.events(st, 'newvar')]
        if out[0] == 'throw':
            return c.ok(st, 'only making the variable fails', len(ev) == 1 and ev[0]['how'] == 'error')
        c.cover('copied')
        c.ok(st, 'one variable is made', len(ev) == 1 and ev[0]['how'] == 'made' and ev[0]['v'].obj == g['p'].obj)
        if len(ev) != 1 or ev[0]['how'] != 'made':
            return
        d = ev[0]
        Q = lambda x: w.peek(st, g['src'], x, VAR)
        c.ok(st, 'the same name', lib.seq(d['name'], Q('name')))
        c.ok(st, 'the same type', z3.And(bvt(d['tk'], 32) == bvt(Q('type.type'), 32), z3.BoolVal(d['tname'].obj == Q('type.name').obj)))
        c.ok(st, 'as constant', lib.b8(d['const']) == bvt(Q('isConstant'), 8) if not (isz(d['const']) and z3.is_bool(d['const'])) else d['const'] == (bvt(Q('isConstant'), 8) != 0))
        c.ok(st, 'in the scope given', d['ctx'].obj == g['ctx'].obj)
        c.ok(st, 'with its value', d['init'].obj == Q('data').obj)


def drop(c, rx):
    """the contract with this pattern is not used (it is the function under contract)"""
    n = [i for i, (p, f) in enumerate(c.e.patterns) if rx in p.pattern]
    for i in reversed(n):
        del c.e.patterns[i]


# ---------------------------------------------------------------- destroying a variable
@target('C04 C07 C09', 'PSC::Variable::~Variable()', contracts=var_contracts, cover=['owner', 'reference'])
class DestroyVariable:
    def setup(self, c):
        st = c.state()
        v = c.w.variable(st)
        st.ghost.update(v=v)
        yield st, [v]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        c.ok(st, 'destroying completes', out[0] == 'ret')
        st.w(g['v'].obj).alive = True
        ref = w.peek(st, g['v'], 'ref', VAR)
        gone = [o.id for o in st.mem.values() if not o.alive and o.kind not in ('alloca', 'exc')]
        if ref.null:
            c.cover('owner')
            d = w.peek(st, g['v'], 'data', VAR)
            own = {d.obj, g['v'].obj}
            if not d.null and st.mem[d.obj].cls == COMP:
                own |= set([x for x in gone if st.mem[x].cls == CTX][:1])      # the scope of the record
            c.ok(st, 'the value is destroyed with the variable, and nothing else', d.null or set(gone) <= own and d.obj in gone)
        else:
            c.cover('reference')
            c.ok(st, 'a reference does not destroy what it denotes', set(gone) <= {g['v'].obj})


# ---------------------------------------------------------------- records
def comp_contracts(own):
    def f(c):
        var_contracts(c)
        drop(c, 'Composite::Composite')
        drop(c, 'Composite::operator=')
        drop(c, 'Composite|Array|Context')
        e, w, H = c.e, c.w, c.handler

        def newctx(e, st, a, ins):
            e.event(st, 'newctx', v=a[0], parent=a[1], name=lib.gets(e, st, a[2]), record=a[3])
            w.poke(st, a[0], 'parent', a[1], CTX)
            return None
        H(r'^PSC::Context::Context\(PSC::Context\*, std::__cxx11::basic_string.* const&, bool\)$', newctx)

        def copyctx(e, st, a, ins):
            e.event(st, 'copyctx', v=a[0], src=a[1], parent=a[2])
            return None
        H(r'^PSC::Context::Context\(PSC::Context const&, PSC::Context\*\)', copyctx)

        def free(e, st, a, ins):
            e.event(st, 'freectx', v=a[0])
            return None
        H(r'^PSC::Context::~Context\(\)', free)

        def look(e, st, a, ins):
            D = w.new(st, 'PSC::CompositeTypeDefinition')
            e.event(st, 'getdef', ctx=a[0], name=lib.gets(e, st, a[1]), res=D)
            return D
        H(r'^PSC::Context::getCompositeDefinition\(', look)

        def data(e, st, a, ins):
            e.event(st, 'copydata', dst=a[0], src=a[1])
            return None
        H(r'^PSC::Context::copyVariableData\(', data)

        def shape(e, st, a, ins):
            r = boolean('alike')
            e.event(st, 'shape', a=a[0], b=a[1], r=r)
            return r
        H(r'^PSC::Context::hasSameShape\(', shape)
        if own == 'copy':
            def copy2(e, st, a, ins):
                e.event(st, 'copycomp', v=a[0], src=a[1], parent=a[2])
                return None
            H(r'^PSC::Composite::Composite\(PSC::Composite const&, PSC::Context&\)', copy2)
    return f


@target('C07 C05 C19', 'PSC::Composite::Composite(%s, PSC::Context&)' % S, name='Composite::Composite', contracts=comp_contracts('new'), cover=['made', 'error'])
class NewRecord:
    """precondition: a record type of that name is visible (the declarations check it)"""
    def setup(self, c):
        st = c.state()
        p, nm, ctx = raw(c, st, COMP), str_obj(st, 'nm'), c.w.new(st, CTX)
        st.ghost.update(p=p, nm=nm, ctx=ctx)
        yield st, [p, nm, ctx]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = {k: [d for kk, d in c.events(st) if kk == k] for k in ('newctx', 'getdef', 'run', 'freectx')}
        nm = lib.gets(c.e, st, g['nm'])
        one = [len(ev[k]) == 1 for k in ('newctx', 'getdef', 'run')]
        c.ok(st, 'one scope is made, and the declarations of the type are run once', all(one))
        if not all(one):
            return
        n, d, r = ev['newctx'][0], ev['getdef'][0], ev['run'][0]
        c.ok(st, 'the scope of a record: named after the type, in the scope given', z3.And(z3.BoolVal(n['parent'].obj == g['ctx'].obj), lib.seq(n['name'], nm), n['record'] if isz(n['record']) else z3.BoolVal(bool(n['record']))))
        c.ok(st, 'the declarations are those of the type', z3.And(lib.seq(d['name'], nm), z3.BoolVal(d['ctx'].obj == n['v'].obj and r['block'].obj == w.peek(st, d['res'], 'initBlock').obj)))
        if r['how'] != 'normal':
            c.cover('error')
            c.ok(st, 'an error of a declaration is passed on, the scope is destroyed', out[0] == 'throw' and not st.mem[n['v'].obj].alive)
            return
        c.cover('made')
        c.ok(st, 'the record is made', out[0] == 'ret' and st.mem[n['v'].obj].alive)
        if out[0] != 'ret':
            return
        c.ok(st, 'with the name of the type and that scope', z3.And(lib.seq(w.peek(st, g['p'], 'definitionName', COMP), nm), z3.BoolVal(w.peek(st, g['p'], 'ctx', COMP).obj == n['v'].obj)))


@target('C07 C05', 'PSC::Composite::Composite(PSC::Composite const&, PSC::Context&)', name='Composite::Composite(copy, scope)', contracts=comp_contracts('copy into'), cover=['copied'])
class CopyRecordInto:
    def setup(self, c):
        st = c.state()
        p, src, ctx = raw(c, st, COMP), c.w.new(st, COMP), c.w.new(st, CTX)
        st.ghost.update(p=p, src=src, ctx=ctx)
        yield st, [p, src, ctx]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = [d for k, d in c.events(st, 'copyctx')]
        c.ok(st, 'the record is copied', out[0] == 'ret' and len(ev) == 1)
        if out[0] != 'ret' or len(ev) != 1:
            return
        c.cover('copied')
        s = w.peek(st, g['src'], 'ctx', COMP)
        c.ok(st, 'a new scope with copies of all fields', ev[0]['src'].obj == s.obj and ev[0]['parent'].obj == g['ctx'].obj and w.peek(st, g['p'], 'ctx', COMP).obj == ev[0]['v'].obj and ev[0]['v'].obj != s.obj)
        c.ok(st, 'of the same type', lib.seq(w.peek(st, g['p'], 'definitionName', COMP), w.peek(st, g['src'], 'definitionName', COMP)))
        c.frame(st, 'nothing else changes', {g['p'].obj, ev[0]['v'].obj})


@target('C07 C05', 'PSC::Composite::Composite(PSC::Composite const&)', name='Composite::Composite(copy)', contracts=comp_contracts('copy'), cover=['copied'])
class CopyRecord:
    def setup(self, c):
        st = c.state()
        p, src = raw(c, st, COMP), c.w.new(st, COMP)
        st.ghost.update(p=p, src=src)
        yield st, [p, src]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = [d for k, d in c.events(st, 'copycomp')]
        c.cover('copied')
        par = w.peek(st, w.peek(st, g['src'], 'ctx', COMP), 'parent', CTX)
        c.ok(st, 'a copy in the scope of the source', out[0] == 'ret' and len(ev) == 1 and ev[0]['v'].obj == g['p'].obj and ev[0]['src'].obj == g['src'].obj and ev[0]['parent'].obj == par.obj)


@target('C07 C05', 'PSC::Composite::operator=(PSC::Composite const&)', contracts=comp_contracts('assign'), cover=['copied'])
class AssignRecord:
    """precondition: two records of one type"""
    def setup(self, c):
        st = c.state()
        p, src = c.w.new(st, COMP), c.w.new(st, COMP)
        st.pc.append(lib.seq(c.w.peek(st, p, 'definitionName'), c.w.peek(st, src, 'definitionName')))
        st.ghost.update(p=p, src=src, was=c.w.peek(st, p, 'ctx'))
        yield st, [p, src]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = [d for k, d in c.events(st, 'copydata')]
        c.cover('copied')
        c.ok(st, 'the values of the fields are copied', out[0] == 'ret' and len(ev) == 1 and ev[0]['dst'].obj == g['was'].obj and ev[0]['src'].obj == w.peek(st, g['src'], 'ctx').obj)
        c.ok(st, 'the fields stay where they are', w.peek(st, g['p'], 'ctx').obj == g['was'].obj)
        c.frame(st, 'nothing else changes', {g['was'].obj})


@target('C07 C05', 'PSC::Composite::hasSameShape(PSC::Composite const&) const', contracts=comp_contracts('shape'), cover=['compared'])
class ShapeRecord:
    def setup(self, c):
        st = c.state()
        p, src = c.w.new(st, COMP), c.w.new(st, COMP)
        st.ghost.update(p=p, src=src)
        yield st, [p, src]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = [d for k, d in c.events(st, 'shape')]
        ok = out[0] == 'ret' and len(ev) == 1 and ev[0]['a'].obj == w.peek(st, g['p'], 'ctx').obj and ev[0]['b'].obj == w.peek(st, g['src'], 'ctx').obj
        c.cover('compared')
        c.ok(st, 'the scopes of the two are compared', ok)
        if ok:
            c.ok(st, 'the result is theirs', as_bool(out[1]) == ev[0]['r'])


def as_bool(r):
    return z3.BoolVal(bool(r)) if isinstance(r, (int, bool)) else r if z3.is_bool(r) else r != 0


# ---------------------------------------------------------------- type definitions
DEFS = {'Enum': ('PSC::EnumTypeDefinition', 'enums'), 'Pointer': ('PSC::PointerTypeDefinition', 'pointers'), 'Composite': ('PSC::CompositeTypeDefinition', 'composites')}


def define_contracts(c):
    var_contracts(c)
    e, w = c.e, c.w
    for k, (cls, vecname) in DEFS.items():
        def create(e, st, a, ins, cls=cls, k=k):
            d = dict(what=k, ctx=a[0], name=w.peek(st, a[1], 'name', cls))
            if k == 'Enum':
                d['buf'], d['n'] = vec.vector_at(e, st, e.gep_off(a[1], w.L.off(cls, 'values')))
                if d['buf'] is not None:
                    d['of'] = st.mem[d['buf'].obj].meta.get('copyof')
            elif k == 'Composite':
                d['block'] = w.peek(st, a[1], 'initBlock', cls)
            e.event(st, 'define', **d)
            return None
        c.handler(r'^PSC::Context::create%sDefinition\(' % k, create)


def define_node(k, props):
    node = k + 'DefineNode'

    class Define:
        def setup(self, c):
            for st, a in node_setup(c, node, [None]):
                n = c.w.peek(st, a[1], 'name')
                c.w.peek(st, n, 'value', 'Token')
                if k == 'Enum':
                    st.ghost['values'] = c.w.peek(st, a[1], 'values')
                yield st, a

        def post(self, c, st, out):
            g, w = st.ghost, c.w
            n = g['node']
            tok = w.peek(st, n, 'name')
            name = w.peek(st, tok, 'value', 'Token')
            ist = [d for kk, d in c.events(st, 'istype')]
            ty = [d for kk, d in c.events(st, 'gettype')]
            df = [d for kk, d in c.events(st, 'define')]
            c.frame(st, 'a type definition changes no variable', {None})
            c.ok(st, 'the name is looked up', len(ist) >= 1 and all(d['token'].obj == tok.obj for d in ist + ty))
            taken = z3.Or(*[d['r'] for d in ist] + [z3.BoolVal(d['tk'] != 'NONE') for d in ty])
            if c.e.decide(st, taken):
                c.cover('redefined')
                c.ok(st, 'nothing is defined', not df)
                return error(c, st, out, 'a second definition of a name')
            c.ok(st, 'as a type anywhere', len(ty) == 1)
            c.cover('defined')
            c.ok(st, 'the type is defined, once', out[0] == 'ret' and len(df) == 1)
            if out[0] != 'ret' or len(df) != 1:
                return
            d = df[0]
            c.ok(st, 'in the scope of the definition, with the name given', z3.And(z3.BoolVal(d['ctx'].obj == g['ctx'].obj and d['what'] == k), lib.seq(d['name'], name)))
            if k == 'Enum':
                b = g['values']
                c.ok(st, 'with the values given, in order', z3.And(z3.BoolVal(d.get('of') is not None and d['of'].obj == b.obj), d['n'] == bvt(st.mem[b.obj].meta['n'])))
            else:
                c.ok(st, 'with the declarations given', d['block'].obj == w.peek(st, n, 'initBlock').obj)
            none_result(c, st, out)
    target(props, '%s::evaluate(PSC::Context&)' % node, contracts=define_contracts, cover=['defined', 'redefined'])(Define)


define_node('Enum', 'C19 C05')
define_node('Composite', 'C07 C05 C19')


def create_target(k, props):
    cls, vn = DEFS[k]

    class Create:
        def setup(self, c):
            for user in ((True, False) if k == 'Pointer' else (None,)):
                yield self.one(c, user)

        def one(self, c, user):
            st = c.state()
            w = c.w
            ctx, d = w.new(st, CTX), w.new(st, cls)
            if user is not None:
                c.e.put(st, c.e.gep_off(d, w.L.off(cls, 'type.type')), w.T['COMPOSITE'] if user else w.T['REAL'], 4)
            g = dict(ctx=ctx, d=d, name=w.peek(st, d, 'name'))
            if k == 'Enum':
                g['b'] = w.peek(st, d, 'values')
            elif k == 'Pointer':
                g['tk'], g['tn'] = w.peek(st, d, 'type.type'), w.peek(st, d, 'type.name')
            else:
                g['blk'] = w.peek(st, d, 'initBlock')
            b = w.peek(st, ctx, vn)
            g['n'] = bvt(st.mem[b.obj].meta['n'])
            st.ghost.update(g)
            return st, [ctx, d]

        def post(self, c, st, out):
            g, w = st.ghost, c.w
            ev = [d for kk, d in c.events(st, 'push')]
            c.ok(st, 'the definition is added, once', out[0] == 'ret' and len(ev) == 1 and ev[0]['vec'].obj == g['ctx'].obj and ev[0]['vec'].off == w.L.off(CTX, vn))
            if len(ev) != 1 or out[0] != 'ret':
                return
            c.cover('added')
            q = ev[0]['elem'][0]
            P = lambda x: w.peek(st, q, x, cls)
            c.ok(st, 'after those before', ev[0]['idx'] == g['n'])
            c.ok(st, 'with its name', lib.seq(P('name'), g['name']))
            if k == 'Enum':
                b, n = vlen(c, st, q, 'values', cls)
                src = st.mem[b.obj].meta.get('copyof', b) if b is not None else None
                c.ok(st, 'with its values', z3.And(z3.BoolVal(b is not None and src.obj == g['b'].obj), n == bvt(st.mem[g['b'].obj].meta['n'])))
            elif k == 'Pointer':
                c.ok(st, 'with its type', z3.And(bvt(P('type.type'), 32) == bvt(g['tk'], 32), z3.BoolVal(P('type.name').obj == g['tn'].obj)))
            else:
                c.ok(st, 'with its declarations', P('initBlock').obj == g['blk'].obj)
    target(props, 'PSC::Context::create%sDefinition(%s&&)' % (k, cls), contracts=var_contracts, cover=['added'])(Create)


create_target('Enum', 'C19 C05')
create_target('Pointer', 'C09 C05')
create_target('Composite', 'C07 C05')


# ---------------------------------------------------------------- a record type cannot contain itself
@target('C05 C07 C01', 'checkRecursiveType(Token const&, PSC::Context const&, PSC::DataType const&)', contracts=lambda c: (var_contracts(c), drop(c, 'checkRecursiveType'), c.e.candidate_hooks.append(witness)), cover=['plain', 'none', 'contained'])
class CheckRecursive:
    """the scopes of records around the declaration: those before position M of the chain of enclosing scopes"""
    def setup(self, c):
        w = c.w
        for case in ('plain', 'none', 'contained'):
            st = c.state()
            tok, ty = w.new(st, 'Token'), c.e.new(st, 16, 'heap')
            nm = str_obj(st, 'tn', 'tname')
            name = lib.gets(c.e, st, nm)
            kind = w.T['COMPOSITE'] if case != 'plain' else bv('k', 32)
            if case == 'plain':
                st.pc += [z3.ULE(kind, 9), kind != w.T['COMPOSITE']]
            c.e.put(st, ty, nm, 8)
            c.e.put(st, c.e.gep_off(ty, 8), kind, 4)
            K, M = bv('witness'), bv('records')
            on, oc = w.L.off(CTX, 'name'), w.L.off(CTX, 'isCompositeCtx')

            def load(e, s, o, idx, k, v, case=case):
                i = lib.b64(idx)
                if k == oc:
                    s.pc.append(bvt(v, 8) == z3.If(z3.ULT(i, M), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if case == 'none' else z3.Implies(z3.ULE(i, K), bvt(v, 8) == 1))
                elif k == on:
                    s.pc.append(z3.Implies(z3.ULT(i, M), z3.Not(lib.seq(v, name))) if case == 'none' else z3.Implies(i == K, lib.seq(v, name)))
            ch = w.chain(st, load)
            n = st.mem[ch.obj].meta['n']
            if case == 'contained':
                st.pc.append(z3.ULT(K, n))
                st.ghost['witness'] = ((K, 'chain'),)
            elif case == 'none':
                st.pc.append(z3.ULT(M, n))         # the outermost scope is no record
            st.ghost.update(case=case, node=tok)
            yield st, [tok, ch, ty]

    def post(self, c, st, out):
        case = st.ghost['case']
        c.cover(case)
        c.frame(st, 'nothing changes', {None})
        if case == 'contained':
            return error(c, st, out, 'a record that contains itself')
        c.ok(st, 'other declarations are accepted', out[0] == 'ret')


# ---------------------------------------------------------------- DECLARE of arrays
class DeclareArrays(Auto):
    """names first, then the bounds in order, then one array per name"""
    kind = rec = tn = arr = None

    def on(self, eng, st, kind, d):
        c, w = eng.c, eng.c.w
        if self.mode == 'bad':
            return
        t = self.t
        inc = lambda n: setattr(self, 't', dict(self.t, **{n: z3.simplify(self.t[n] + 1)}))
        if kind == 'getarray':
            c.ok(st, 'each name is looked up in the scope itself, before anything is evaluated', z3.And(z3.BoolVal(self.mode == 'names' and not d['glob'] and d['ctx'].obj == st.ghost['ctx'].obj), lib.seq(d['name'], self.name(eng, st, t['j']))))
            if not d['res'].null:
                self.mode = 'exists'
            else:
                inc('j')
        elif kind == 'eval' or kind == 'throw':
            if self.mode == 'names':
                c.ok(st, 'all names are looked up first', t['j'] == self.n)
                self.mode = 'bounds'
            k = st.mem[d['node'].obj].meta.get('key')
            ok = self.mode in ('bounds', 'lower') and k is not None and k[0] == self.bounds and d['ctx'].obj == st.ghost['ctx'].obj if kind == 'eval' else self.mode in ('bounds', 'lower') and k is not None
            c.ok(st, 'the bounds are evaluated', ok)
            if not ok:
                return self.bad(eng, st, 'another expression')
            c.ok(st, 'in order, once each', k[1] == t['b'])
            if self.mode == 'lower':
                c.ok(st, 'an upper bound follows a lower bound that is an INTEGER', c.orig(st, self.lo)[0] == 'INTEGER')
            if kind == 'throw':
                self.mode = 'error'
                return
            inc('b')
            if self.mode == 'bounds':
                self.lo, self.mode = d['res'], 'lower'
            else:
                self.hi, self.mode = d['res'], 'upper'
        elif kind == 'push':
            c.ok(st, 'a dimension is added for two INTEGER bounds', self.mode == 'upper')
            if self.mode != 'upper':
                return self.bad(eng, st, 'a dimension')
            lo, hi, small, size = self.pair(eng, st)
            if lo is None:
                return self.bad(eng, st, 'bounds that are no INTEGER')
            c.ok(st, 'of bounds in order, and not too many elements', z3.And(lo <= hi, small))
            c.ok(st, 'the dimension has the bounds given', z3.And(bvt(d['elem'][8]) == lo, bvt(d['elem'][16]) == hi))
            c.ok(st, 'the dimensions are in order', z3.And(d['idx'] == t['m'], bvt(d['elem'][0], 32) == z3.Extract(31, 0, t['m'])))
            self.vec = d['vec']
            self.lo = self.hi = None
            self.t = dict(self.t, m=z3.simplify(t['m'] + 1), size=size)
            self.mode = 'bounds'
        elif kind == 'gettype':
            if self.mode == 'bounds':
                c.ok(st, 'all bounds are evaluated first', t['b'] == self.nb)
                self.mode = 'arrays'
            c.ok(st, 'the type declared is the one named', d['token'].obj == self.type.obj and self.mode == 'arrays')
            self.kind, self.tn, self.rec, self.mode = d['tk'], d['name'], None, 'typed'
        elif kind == 'recursive':
            self.rec = d['r']
        elif kind == 'newarr':
            ok = self.mode == 'typed' and self.kind != 'NONE'
            c.ok(st, 'an array is made with a type', ok)
            if not ok:
                return self.bad(eng, st, 'an array without a type')
            if self.kind == 'COMPOSITE':
                c.ok(st, 'a record does not contain itself', self.rec is False)
            c.ok(st, 'the array has the name given', lib.seq(d['name'], self.name(eng, st, t['i'])))
            c.ok(st, 'the array has the type given', z3.And(bvt(d['tk'], 32) == w.T[self.kind], z3.BoolVal(d['tname'].obj == self.tn.obj)))
            c.ok(st, 'the array has the bounds given', z3.And(z3.BoolVal(d['dims'].obj == self.vec.obj and d['dims'].off == self.vec.off), d['n'] == t['m']))
            self.arr, self.mode = d['v'], 'made'
        elif kind == 'init':
            c.ok(st, 'the elements are made in the scope', self.mode == 'made' and d['v'].obj == self.arr.obj and d['ctx'].obj == st.ghost['ctx'].obj)
            sw = w.peek(st, st.ghost['ctx'], 'switchToken')
            c.ok(st, 'while the declaration is marked as the statement executed', sw.obj == st.ghost['node'].obj or sw.obj == w.peek(st, st.ghost['node'], 'token').obj)
            self.mode = {'made': 'filled'}.get(d['how'], d['how'])
        elif kind == 'addarray':
            c.ok(st, 'the array is added to the scope', self.mode == 'filled' and d['ctx'].obj == st.ghost['ctx'].obj and d['v'].obj == self.arr.obj)
            inc('i')
            self.mode, self.kind, self.rec, self.tn, self.arr = 'arrays', None, None, None, None

    def pair(self, eng, st):
        c = eng.c
        a, b = c.orig(st, self.lo), c.orig(st, self.hi)
        if a[0] != 'INTEGER' or b[0] != 'INTEGER':
            return None, None, None, None
        lo, hi = bvt(a[1]), bvt(b[1])
        ds = z3.simplify(hi - lo + 1)
        size = self.t['size']
        if z3.is_bv_value(z3.simplify(size)):
            s, over = z3.simplify(size * ds), z3.BoolVal(False)     # the first dimension
        else:
            s, over = eng.mulfn(size, ds), eng.mulover(size, ds)
        return lo, hi, z3.And(ds != 0, z3.Not(over)), s

    def name(self, eng, st, i):
        w = eng.c.w
        b = w.peek(st, st.ghost['node'], 'identifiers')
        tok = eng.load_cell(st, Ptr(b.obj, z3.simplify(i * 8)), 8, ('ptr',))
        return w.peek(st, tok, 'value', 'Token')


def halves(e, loop, A):
    """candidates: a position is even; a position is twice another"""
    P = [l for l, (k, a) in loop.W.items() if k == 'bv' and a == 64]
    sc = loop.scalar
    out = [('%s even' % (p,), lambda g, p=p: z3.Extract(0, 0, sc(p, g(p))) == 0) for p in P]
    out += [('%s twice %s' % (p, q), lambda g, p=p, q=q: z3.And(sc(p, g(p)) == 2 * sc(q, g(q)), z3.ULT(sc(q, g(q)), lib.BIG))) for p in P for q in P if p != q]
    return out


def declare_arrays_contracts(c):
    declare_contracts(c)
    products(c)
    e, w, H = c.e, c.w, c.handler
    e.candidate_hooks.append(halves)

    def getarr(e, st, a, ins):
        p = w.new(st, ARR) if e.decide(st, boolean('declared')) else NULL
        e.event(st, 'getarray', ctx=a[0], name=lib.gets(e, st, a[1]), glob=bool(a[2]) if isinstance(a[2], int) else a[2], res=p)
        return p
    H(r'^PSC::Context::getArray\(', getarr)

    def new(e, st, a, ins):
        b, n = vec.vector_at(e, st, a[4])
        e.event(st, 'newarr', v=a[0], name=lib.gets(e, st, a[1]), tname=a[2], tk=a[3], dims=a[4], n=n)
        return None
    H(r'^PSC::Array::Array\(std::__cxx11', new)

    def init(e, st, a, ins):
        """Array::init: the elements, or an error of a declaration of a record, or too many"""
        out = []
        for how, ti in (('error', RTE), ('too large', '@_ZTISt12length_error'), ('memory', '@_ZTISt9bad_alloc')):
            s = st.fork()
            _Cur.st = s
            e.event(s, 'init', v=a[0], ctx=a[1], how=how)
            out.append(('throw', s, e.new(s, 64, 'exc'), ti))
        _Cur.st = st
        e.event(st, 'init', v=a[0], ctx=a[1], how='made')
        return out + [('ret', st, None)]
    H(r'^PSC::Array::init\(', init)

    def free(e, st, a, ins):
        return None
    H(r'^PSC::Array::~Array\(\)', free)

    def add(e, st, a, ins):
        p = e.load_cell(st, a[1], 8, ('ptr',))
        e.put(st, a[1], NULL, 8)
        e.event(st, 'addarray', ctx=a[0], v=p)
        return None
    H(r'^PSC::Context::addArray\(', add)


@target('C06 C05 C11 C01', 'ArrayDeclareNode::evaluate(PSC::Context&)', contracts=declare_arrays_contracts, budget=200, cover=['all', 'exists', 'bad type', 'order', 'too large', 'no type', 'recursive', 'error', 'memory'])
class DeclareArray:
    """precondition: two bounds for each dimension, and at least one dimension (made so by the parser)"""
    def setup(self, c):
        for st, a in node_setup(c, 'ArrayDeclareNode', [None]):
            w = c.w
            sp = st.spec = DeclareArrays('names', **{k: z3.BitVecVal(int(k == 'size'), 64) for k in ('i', 'j', 'b', 'm', 'size')})
            n = st.w(a[1].obj).meta['len:identifiers'] = bv('n')
            nb = st.w(a[1].obj).meta['len:bounds'] = bv('bounds')
            st.pc += [z3.ULT(n, lib.BIG), n != 0, z3.ULT(nb, lib.BIG), nb != 0, z3.Extract(0, 0, nb) == 0]
            sp.n, sp.nb, sp.type, sp.bounds = n, nb, w.peek(st, a[1], 'type'), w.peek(st, a[1], 'bounds').obj
            yield st, a

    def post(self, c, st, out):
        sp, g = st.spec, st.ghost
        if sp.mode == 'bad':
            return
        c.ok(st, 'no statement is marked afterwards', c.w.peek(st, g['ctx'], 'switchToken').null if c.events(st, 'newarr') else True)
        if out[0] == 'ret':
            c.cover('all')
            c.ok(st, 'every name is declared', z3.And(z3.BoolVal(sp.mode == 'arrays'), sp.t['i'] == sp.n, sp.t['b'] == sp.nb))
            return none_result(c, st, out)
        m = sp.mode
        if m == 'error':
            c.cover('error')
            return c.ok(st, 'an error of an expression or a field is passed on', out[0] == 'throw')
        error(c, st, out, 'a declaration that fails')
        if m == 'exists':
            return c.cover('exists')
        if m in ('too large', 'memory'):
            return c.cover('memory')
        if m == 'lower':
            c.cover('bad type')
            return c.ok(st, 'only a bound that is no INTEGER fails', c.orig(st, sp.lo)[0] != 'INTEGER')
        if m == 'upper':
            lo, hi, small, size = sp.pair(c.e, st)
            if lo is None:
                return c.cover('bad type')
            if c.e.decide(st, lo > hi):
                return c.cover('order')
            c.cover('too large')
            return c.ok(st, 'only an array that is too large is refused', z3.Not(small))
        if m == 'typed' and sp.kind == 'NONE':
            return c.cover('no type')
        if m == 'typed' and sp.rec:
            return c.cover('recursive')
        c.ok(st, 'only a bad declaration fails', False)


# ---------------------------------------------------------------- the global scope and the built-in functions
BUILTINS = ('Length Right Mid Left ToUpper ToLower NumToStr StrToNum IsNum EOF LCase UCase ASC CHR DAY MONTH YEAR DAYINDEX SETDATE TODAY TIME HOURS MINUTES SECONDS '
            'Rand Int Pow Exp Sin Cos Tan ASin ACos ATan ATan2 Sqrt Log Ln').split()


def global_contracts(c):
    var_contracts(c)
    e, w, H = c.e, c.w, c.handler

    def ctx(e, st, a, ins):
        e.event(st, 'newctx', v=a[0], parent=a[1], name=lib.gets(e, st, a[2]))
        for x in VECTORS:
            for k in (0, 8, 16):
                e.put(st, e.gep_off(a[0], w.L.off(CTX, x) + k), NULL, 8)
        w.poke(st, a[0], 'fileManager', NULL, CTX)
        return None
    H(r'^PSC::Context::Context\(PSC::Context\*, std::__cxx11::basic_string.* const&\)$', ctx)

    def fn(e, st, a, ins):
        e.event(st, 'builtin', v=a[0], cls=re.match(r'^PSC::BuiltinFn(\w+)::', e.dem[e.curname]).group(1))
        return None
    H(r'^PSC::BuiltinFn(\w+)::BuiltinFn\1\(\)', fn)

    def add(e, st, a, ins):
        p = e.load_cell(st, a[1], 8, ('ptr',))
        e.put(st, a[1], NULL, 8)
        e.event(st, 'addfn', ctx=a[0], v=p)
        return None
    H(r'^PSC::Context::addFunction\(', add)


@target('C17 C04 C12', 'PSC::Context::createGlobalContext()', contracts=global_contracts, cover=['made'])
class GlobalScope:
    def setup(self, c):
        st = c.state()
        r = c.sret(st)
        st.ghost['r'] = r
        yield st, [r]

    def post(self, c, st, out):
        c.ok(st, 'the scope is made', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('made')
        w = c.w
        p = c.e.load_cell(st, st.ghost['r'], 8, ('ptr',))
        new = [d for k, d in c.events(st, 'newctx')]
        c.ok(st, 'one scope, without a parent', len(new) == 1 and new[0]['v'].obj == p.obj and new[0]['parent'].null)
        made = {d['v'].obj: d['cls'] for k, d in c.events(st, 'builtin')}
        added = [made.get(d['v'].obj) for k, d in c.events(st, 'addfn') if d['ctx'].obj == p.obj]
        c.ok(st, 'it has every built-in function, once', sorted(map(str, added)) == sorted(BUILTINS))
        c.ok(st, 'it has the table of open files', not w.peek(st, p, 'fileManager', CTX).null)
