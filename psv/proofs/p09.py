"""Names, fields, elements and pointers: what a reference denotes (C04, C05, C06, C09)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, error
from .p03 import Auto, RTE, none_result
from .p04 import witness, cache_contracts, str_arg
from .p05 import resolve, var_contracts, type_of, NOTDEF, ALLKINDS, samename, USER, typeterm, simple_source
import re


# ---------------------------------------------------------------- chains of callers
@target('C09', 'PSC::Pointer::isValid(PSC::Context const&) const', cover=['valid', 'dead'])
class PointerValid:
    """a pointer is valid in a context iff its target's context is that context or one of its callers (identified by number)"""
    def setup(self, c):
        w = c.w
        c.e.candidate_hooks.append(witness)
        for exists in (True, False):
            st = c.state()
            this = w.new(st, 'PSC::Pointer')
            cid = w.peek(st, this, 'ctxId')
            off = w.L.off('PSC::Context', 'id')

            def none(e, s, o, idx, k, v):
                if k == off:
                    s.pc.append(v != cid)
            ch = w.chain(st, None if exists else none)
            if exists:
                K = bv('witness')
                st.pc.append(z3.And(z3.ULT(K, st.mem[ch.obj].meta['n']), w.chain_field(ch.obj, 'id', 64)(K) == cid))
                st.ghost['witness'] = ((K, 'chain'),)
            st.ghost['exists'] = exists
            yield st, [this, ch]

    def post(self, c, st, out):
        c.ok(st, 'the test never fails', out[0] == 'ret')
        c.frame(st, 'the test changes nothing', {None})
        if out[0] != 'ret':
            return
        r = out[1] if isz(out[1]) and z3.is_bool(out[1]) else bvt(out[1], 8) == 1
        if st.ghost['exists']:
            c.cover('valid')
            c.ok(st, 'a target in the context or one of its callers is alive', r)
        else:
            c.cover('dead')
            c.ok(st, 'any other target is gone', z3.Not(r))


@target('C09', 'PSC::Pointer::setValue(PSC::Variable*)', cover=['set'])
class PointerSet:
    """a pointer remembers its target and the activation that owns it: the innermost context that is not that of a record"""
    def setup(self, c):
        w = c.w
        c.e.candidate_hooks.append(witness)
        st = c.state()
        this = w.new(st, 'PSC::Pointer')
        K = bv('witness')
        off = w.L.off('PSC::Context', 'isCompositeCtx')

        def rec(e, s, o, idx, k, v):
            if k == off:
                s.pc.append(z3.Implies(z3.ULT(lib.b64(idx), K), v == 1))
        ch = w.chain(st, rec)
        st.pc.append(z3.And(z3.ULT(K, st.mem[ch.obj].meta['n']), w.chain_field(ch.obj, 'isCompositeCtx', 8)(K) == 0))
        st.ghost['witness'] = ((K, 'chain'),)
        v = w.new(st, 'PSC::Variable')
        w.poke(st, v, 'parent', ch)
        st.ghost.update(this=this, v=v, ch=ch, K=K)
        yield st, [this, v]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        c.cover('set')
        c.ok(st, 'taking a pointer completes', out[0] == 'ret')
        c.frame(st, 'taking a pointer changes the pointer only', {g['this'].obj})
        if out[0] != 'ret':
            return
        p = w.peek(st, g['this'], 'ptr')
        c.ok(st, 'the pointer denotes the variable', p.obj == g['v'].obj and p.off == 0)
        c.ok(st, 'the pointer remembers the activation that owns the variable', bvt(w.peek(st, g['this'], 'ctxId')) == w.chain_field(g['ch'].obj, 'id', 64)(g['K']))


@target('C09', 'PSC::Pointer::operator=(PSC::Pointer const&)', cover=['set'])
class PointerCopy:
    def setup(self, c):
        w = c.w
        st = c.state()
        a, b = w.new(st, 'PSC::Pointer'), w.new(st, 'PSC::Pointer')
        n = w.peek(st, a, 'definitionName')
        w.poke(st, b, 'definitionName', n)      # precondition: pointers of one type
        st.ghost.update(a=a, b=b, p=w.peek(st, b, 'ptr'), i=w.peek(st, b, 'ctxId'))
        yield st, [a, b]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        c.cover('set')
        c.ok(st, 'copying a pointer completes', out[0] == 'ret')
        c.frame(st, 'copying a pointer changes the copy only', {g['a'].obj})
        c.ok(st, 'the copy denotes the same variable', w.peek(st, g['a'], 'ptr').obj == g['p'].obj)
        c.ok(st, 'of the same activation', bvt(w.peek(st, g['a'], 'ctxId')) == bvt(g['i']))


# ---------------------------------------------------------------- resolvers
def res_contracts(c):
    var_contracts(c)
    w = c.w
    # what a resolver may have cached: nothing, something in another context, or what it denotes in this context (invariant, kept by `set`, by
    # Context::clearCache on every addition, and by the destructor of a context)

    def cache_ctx(st, o, off, ty):
        how = st.ghost.get('cachehow')
        if how is None:
            b = st.ghost['cachebits']
            how = 'this' if c.e.decide(st, b[0]) else 'other' if c.e.decide(st, b[1]) else 'empty'
            st.ghost['cachehow'] = how
        return {'this': lambda: st.ghost['ctx'], 'other': lambda: w.new(st, 'PSC::Context'), 'empty': lambda: NULL}[how]()

    def cached(st, o, off, ty):
        cache_ctx(st, o, off, ty)
        how = st.ghost['cachehow']
        if how == 'empty':
            return NULL
        if how == 'other':
            return w.variable(st)
        d = denoted(c, st)
        if d.null:
            raise Infeasible()       # only what exists is cached
        return d
    w.over[('ResolverCache', 'cacheCtx')] = cache_ctx
    w.over[('ResolverCache', 'cached')] = cached

    def holder(e, st, a, ins):
        d = denoted(c, st)
        e.event(st, 'holder', ctx=a[0], name=lib.gets(e, st, a[1]), res=d)
        return d
    c.handler(r'^PSC::Context::getDataHolder\(', holder)

    def addcache(e, st, a, ins):
        e.event(st, 'addcache', ctx=a[0], cache=a[1])
        return None
    c.handler(r'^PSC::Context::addCache\(', addcache)

    def valid(e, st, a, ins):
        r = boolean('valid')
        e.event(st, 'valid', p=a[0], ctx=a[1], r=r)
        return r
    c.handler(r'^PSC::Pointer::isValid\(', valid)

    def ptr(st, o, off, ty):
        if c.e.decide(st, st.w(o.id).meta.setdefault('set', boolean('isset'))):
            return w.variable(st)
        return NULL
    w.over[('PSC::Pointer', 'ptr')] = ptr

    def member(e, st, a, ins):
        m = NULL
        if e.decide(st, boolean('hasfield')):
            m = w.new(st, 'PSC::Array') if e.decide(st, boolean('isarray')) else w.variable(st)
        e.event(st, 'member', rec=a[0], name=lib.gets(e, st, a[1]), res=m)
        return m
    c.handler(r'^PSC::Composite::getMember\(', member)
    # invariant: only plain names are cached (kept by the constructors)
    for k in ('PointerDereferencer', 'CompositeResolver', 'ArrayElementResolver', 'SimpleVariableSource', 'AbstractVariableResolver'):
        w.over[(k, 'isDynamic')] = lambda st, o, off, ty: 0


def denoted(c, st):
    """what the name denotes in the context: a variable, an array or nothing"""
    d = st.ghost.get('denoted')
    if d is None:
        d = NULL
        b = st.ghost['cachebits']
        if c.e.decide(st, b[2]):
            d = c.w.new(st, 'PSC::Array') if c.e.decide(st, b[3]) else c.w.variable(st)
        st.ghost['denoted'] = d
    return d


def res_setup(c, cls):
    st = c.state()
    this, ctx = c.w.new(st, cls), c.w.new(st, 'PSC::Context')
    st.ghost.update(this=this, ctx=ctx, node=this, cachebits=[boolean(x) for x in ('cached', 'cachedelsewhere', 'defined', 'isarray')])
    return st, [this, ctx]


@target('C04 C05 C09 C01', 'SimpleVariableSource::resolve(PSC::Context&)', contracts=res_contracts, cover=['found', 'unknown', 'cached'])
class ResolveName:
    """a plain name denotes what the context says it denotes, whatever has been cached"""
    def setup(self, c):
        st, a = res_setup(c, 'SimpleVariableSource')
        yield st, a

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        d = denoted(c, st)
        if d.null:
            c.cover('unknown')
            return c.ok(st, 'an unknown name is reported as such', out[0] == 'throw' and c.e.derives(out[2], NOTDEF))
        c.ok(st, 'a known name is found', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('found')
        c.ok(st, 'the name denotes what it denotes in this context', out[1].obj == d.obj)
        for k, x in c.events(st, 'holder'):
            c.ok(st, 'the name looked up is that of the token, in this context', x['ctx'].obj == g['ctx'].obj
                 and lib.seq(x['name'], w.peek(st, w.peek(st, g['this'], 'token'), 'value', 'Token')))
        # the invariant of the cache
        cc, cd = w.peek(st, g['this'], 'cache.cacheCtx'), w.peek(st, g['this'], 'cache.cached')
        if cc.obj == g['ctx'].obj:
            c.ok(st, 'what is cached for this context is what the name denotes in it', cd.obj == d.obj)
            if g.get('cachehow') != 'this':
                off = w.L.off('SimpleVariableSource', 'cache.cached')
                c.ok(st, 'the context knows who caches for it', any(x['ctx'].obj == g['ctx'].obj and x['cache'].obj == g['this'].obj and x['cache'].off == off
                                                                  for k, x in c.events(st, 'addcache')))
            else:
                c.cover('cached')
        else:
            c.ok(st, 'what is cached for another context is kept with it', g.get('cachehow') != 'this')


def resolved(c, st, out, member='resolver'):
    """the inner reference is resolved once, in this context; -> its event, None if it failed"""
    g = st.ghost
    ev = [d for k, d in c.events(st, 'resolve')]
    c.ok(st, 'the inner reference is resolved once, in the same context', len(ev) == 1 and ev[0]['resolver'].obj == c.w.peek(st, g['this'], member).obj and ev[0]['ctx'].obj == g['ctx'].obj)
    if not ev:
        return None
    d = ev[0]
    if d['how'] == 'error':
        c.ok(st, 'its errors are passed on', out[0] == 'throw' and out[2] == RTE)
        return None
    if d['how'] == 'undefined':
        c.ok(st, 'its errors are passed on', out[0] == 'throw' and out[2] == NOTDEF)
        return None
    return d


@target('C09 C05 C04 C01', 'PointerDereferencer::resolve(PSC::Context&)', contracts=res_contracts, cover=['target', 'no pointer', 'unset', 'dead'])
class Dereference:
    def setup(self, c):
        st, a = res_setup(c, 'PointerDereferencer')
        yield st, a

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        d = resolved(c, st, out)
        c.frame(st, 'following a pointer changes nothing', {None})
        if d is None:
            return
        if d['how'] == 'array':
            c.cover('no pointer')
            return error(c, st, out, 'following an array')
        k, n = type_of(c, st, d['holder'], 'PSC::Variable')
        if k != 'POINTER':
            c.cover('no pointer')
            return error(c, st, out, 'following a value that is no pointer')
        p = w.storage(st, d['holder'])
        t = w.peek(st, p, 'ptr', 'PSC::Pointer')
        ev = [x for kk, x in c.events(st, 'valid')]
        if t.null:
            c.cover('unset')
            return error(c, st, out, 'following a pointer that was never set')
        if out[0] == 'ret':
            c.ok(st, 'the liveness of the target is tested for this pointer in this context', len(ev) >= 1 and all(x['p'].obj == p.obj and x['ctx'].obj == g['ctx'].obj for x in ev))
            c.cover('target')
            c.ok(st, 'the pointer denotes its target', out[1].obj == t.obj and out[1].off == 0)
            if ev:
                c.ok(st, 'only a live target is reached', ev[-1]['r'])
            return
        c.ok(st, 'a live target is reached', z3.Not(ev[-1]['r']) if ev else False)
        c.cover('dead')
        error(c, st, out, 'following a pointer to a variable that is gone')


@target('C05 C04 C09 C06 C07', 'CompositeResolver::resolve(PSC::Context&)', contracts=res_contracts, cover=['field', 'no record', 'no field'])
class Field:
    def setup(self, c):
        st, a = res_setup(c, 'CompositeResolver')
        yield st, a

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        d = resolved(c, st, out)
        c.frame(st, 'selecting a field changes nothing', {None})
        if d is None:
            return
        if d['how'] == 'array':
            c.cover('no record')
            return error(c, st, out, 'a field of an array')
        k, n = type_of(c, st, d['holder'], 'PSC::Variable')
        if k != 'COMPOSITE':
            c.cover('no record')
            return error(c, st, out, 'a field of a value that is no record')
        rec = w.storage(st, d['holder'])
        ev = [x for kk, x in c.events(st, 'member')]
        c.ok(st, 'the field is looked up by its name in the record', len(ev) == 1 and ev[0]['rec'].obj == rec.obj
             and lib.seq(ev[0]['name'], w.peek(st, w.peek(st, g['this'], 'member'), 'value', 'Token')) if ev else False)
        if not ev:
            return
        if ev[0]['res'].null:
            c.cover('no field')
            return error(c, st, out, 'an unknown field')
        c.cover('field')
        c.ok(st, 'a field is found', out[0] == 'ret')
        c.ok(st, 'the field denoted is the one with the name', out[0] == 'ret' and out[1].obj == ev[0]['res'].obj)


def member_contracts(c):
    from .p04 import lookup_contracts
    lookup_contracts(c)


@target('C05 C04 C07', 'PSC::Composite::getMember(std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&)', contracts=member_contracts,
        cover=['variable', 'array', 'none'])
class Member:
    def setup(self, c):
        st = c.state()
        this = c.w.new(st, 'PSC::Composite')
        p, s = str_arg(c, st)
        st.ghost.update(this=this, p=p)
        yield st, [this, p]

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        c.ok(st, 'looking up a field never fails', out[0] == 'ret')
        c.frame(st, 'looking up a field changes nothing', {None})
        ev = [d for k, d in c.events(st, 'lookup')]
        ctx = w.peek(st, g['this'], 'ctx')
        no = lambda x: z3.Not(x) if z3.is_bool(x) else bvt(x, 8) == 0
        for d in ev:
            c.ok(st, 'only the fields of the record are searched', d['ctx'].obj == ctx.obj and d['name'].obj == g['p'].obj)
            c.ok(st, 'variables outside the record are not found', no(d['glob']))
        hit = [d for d in ev if not d['res'].null]
        if not hit:
            c.cover('none')
            c.ok(st, 'both kinds of fields are searched', {d['what'] for d in ev} == {'getVariable', 'getArray'})
            return c.ok(st, 'there is no such field', out[1].null)
        c.cover('variable' if hit[0]['what'] == 'getVariable' else 'array')
        c.ok(st, 'the field found is returned', out[1].obj == hit[0]['res'].obj)


# ---------------------------------------------------------------- constructors: only plain names are ever cached
def ctor(fn, cls, args, props):
    class T:
        def setup(self, c):
            w = c.w
            st = c.state()
            this = c.e.new(st, w.L.size(cls), 'heap')
            st.w(this.obj).cls = cls
            st.w(this.obj).lazy = None
            a = [this]
            for x in args:
                if x == 'token':
                    a.append(w.new(st, 'Token'))
                elif x == 'resolver':
                    r = w.new(st, 'AbstractVariableResolver')
                    u = c.e.new(st, 8, 'alloca')
                    c.e.put(st, u, r, 8)
                    st.ghost['inner'] = r
                    a.append(u)
                elif x == 'indices':
                    h = w.new(st, 'ArrayElementResolver')      # a vector of nodes to take over
                    b = w.peek(st, h, 'indices')
                    st.ghost.update(buf=b.obj)
                    a.append(c.e.gep_off(h, w.L.off('ArrayElementResolver', 'indices')))
            st.ghost.update(this=this, a=a)
            yield st, a

        def post(self, c, st, out):
            w, g = c.w, st.ghost
            c.cover('built')
            c.ok(st, 'the reference is built', out[0] == 'ret')
            if out[0] != 'ret':
                return
            pk = lambda path: w.peek(st, g['this'], path, cls)
            c.ok(st, 'a reference through fields, elements or pointers is never cached', bvt(pk('isDynamic'), 8) == 0)
            c.ok(st, 'nothing is cached yet', pk('cache.cached').null and pk('cache.cacheCtx').null)
            c.ok(st, 'the token is kept', pk('token').obj == g['a'][1].obj)
            if 'inner' in g:
                c.ok(st, 'the inner reference is kept', pk('resolver').obj == g['inner'].obj)
            if 'buf' in g:
                c.ok(st, 'the indices are kept', pk('indices').obj == g['buf'])
            if args[-1] == 'token' and len(args) == 3:
                c.ok(st, 'the field name is kept', pk('member').obj == g['a'][3].obj)
    T.__name__ = 'Ctor' + cls
    target(props, fn, contracts=res_contracts, cover=['built'])(T)


UP = 'std::unique_ptr<AbstractVariableResolver, std::default_delete<AbstractVariableResolver>>&&'
ctor('SimpleVariableSource::SimpleVariableSource(Token const&)', 'SimpleVariableSource', ['token'], 'C05 C09')
ctor('PointerDereferencer::PointerDereferencer(Token const&, %s)' % UP, 'PointerDereferencer', ['token', 'resolver'], 'C09')
ctor('CompositeResolver::CompositeResolver(Token const&, %s, Token const&)' % UP, 'CompositeResolver', ['token', 'resolver', 'token'], 'C05')
ctor('ArrayElementResolver::ArrayElementResolver(Token const&, %s, std::vector<Node*, std::allocator<Node*>>&&)' % UP, 'ArrayElementResolver', ['token', 'resolver', 'indices'], 'C06')


@target('C09 C04', 'ResolverCache::clear()', cover=['cleared'])
class CacheClear:
    def setup(self, c):
        st = c.state()
        this = c.w.new(st, 'ResolverCache')
        st.ghost['this'] = this
        yield st, [this]

    def post(self, c, st, out):
        c.cover('cleared')
        w, t = c.w, st.ghost['this']
        c.ok(st, 'nothing is cached any more', out[0] == 'ret' and w.peek(st, t, 'cached').null and w.peek(st, t, 'cacheCtx').null)


@target('C09 C04', 'PSC::Context::addCache(ResolverCache*)', cover=['added'])
class AddCache:
    def setup(self, c):
        st = c.state()
        this, r = c.w.new(st, 'PSC::Context'), c.w.new(st, 'ResolverCache')
        st.ghost.update(this=this, r=r)
        yield st, [this, r]

    def post(self, c, st, out):
        c.cover('added')
        g = st.ghost
        ev = [d for k, d in c.events(st, 'push')]
        c.ok(st, 'the cache is remembered', out[0] == 'ret' and len(ev) == 1 and ev[0]['vec'].obj == g['this'].obj and ev[0]['vec'].off == c.w.L.off('PSC::Context', 'cache')
             and ev[0]['elem'][0].obj == g['r'].obj)


@target('C04 C09', 'PSC::Context::~Context()', contracts=cache_contracts, cover=['done'])
class ContextEnd:
    """when an activation ends, no resolver keeps what it cached for it"""
    def setup(self, c):
        w = c.w

        def vecfree(e, st, a, ins):
            return None
        c.handler(r'^std::vector<.*>::~vector\(\)', vecfree)
        c.handler(r'^std::unique_ptr<.*>::~unique_ptr\(\)', vecfree)
        st = c.state()
        this = c.w.new(st, 'PSC::Context')
        st.ghost['this'] = this
        yield st, [this]

    def post(self, c, st, out):
        c.cover('done')
        ev = [d for k, d in c.events(st, 'clearcache')]
        c.ok(st, 'everything cached for the context is forgotten', out[0] == 'ret' and len(ev) >= 1 and ev[0]['ctx'].obj == st.ghost['this'].obj)


# ---------------------------------------------------------------- p <- ^v
@target('C09', 'PSC::Variable::getReference()', cover=['done'])
class GetReference:
    def setup(self, c):
        st = c.state()
        v = c.w.variable(st)
        st.ghost['v'] = v
        yield st, [v]

    def post(self, c, st, out):
        c.cover('done')
        r = c.w.peek(st, st.ghost['v'], 'ref')
        c.ok(st, 'the variable referred to', out[0] == 'ret' and out[1].obj == r.obj)
        c.frame(st, 'nothing changes', {None})


def assign_contracts(c):
    res_contracts(c)
    w = c.w

    def pdef(e, st, a, ins):
        d = st.ghost.get('pdef')
        if d is None:
            d = w.new(st, 'PSC::PointerTypeDefinition')
            st.ghost['pdef'] = d
        e.event(st, 'pdef', p=a[0], ctx=a[1], res=d)
        return d
    c.handler(r'^PSC::Pointer::getDefinition\(', pdef)

    def setvalue(e, st, a, ins):
        e.mark(st, a[0])
        e.event(st, 'setptr', p=a[0], v=a[1])
        return None
    c.handler(r'^PSC::Pointer::setValue\(', setvalue)


@target('C09 C05', 'PointerAssignNode::evaluate(PSC::Context&)', contracts=assign_contracts, cover=['taken', 'array', 'no pointer', 'wrong type', 'reference'])
class TakePointer:
    def setup(self, c):
        yield from node_setup(c, 'PointerAssignNode', [None])

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ev = [d for k, d in c.events(st, 'resolve')]
        order = ['pointerResolver', 'valueResolver']
        c.ok(st, 'both references are resolved once, the pointer first', 1 <= len(ev) <= 2
             and all(d['resolver'].obj == w.peek(st, g['node'], m).obj and d['ctx'].obj == g['ctx'].obj for d, m in zip(ev, order)))
        sets = [d for k, d in c.events(st, 'setptr')]
        if not ev:
            return
        if out[0] == 'throw':
            c.ok(st, 'an error changes no pointer', not sets)
            c.frame(st, 'an error changes nothing', {None})
        if ev[-1]['how'] in ('error', 'undefined'):
            return c.ok(st, 'errors of the references are passed on', out[0] == 'throw' and out[2] == (RTE if ev[-1]['how'] == 'error' else NOTDEF))
        if any(d['how'] == 'array' for d in ev):
            c.cover('array')
            return error(c, st, out, 'a pointer to or from an array')
        if len(ev) < 2:
            return error(c, st, out, 'an assignment that is given up')
        pv, vv = ev[0]['holder'], ev[1]['holder']
        k, n = type_of(c, st, pv, 'PSC::Variable')
        if k != 'POINTER':
            c.cover('no pointer')
            return error(c, st, out, 'a pointer stored in a variable of another type')
        p = w.storage(st, pv)
        defs = [d for kk, d in c.events(st, 'pdef')]
        c.ok(st, 'the type of the pointer is looked up in the context', len(defs) == 1 and defs[0]['p'].obj == p.obj and defs[0]['ctx'].obj == g['ctx'].obj)
        if not defs:
            return
        tk, tn = type_of(c, st, defs[0]['res'], 'PSC::PointerTypeDefinition')
        vk, vn = type_of(c, st, vv, 'PSC::Variable')
        same = tk == vk
        if same and tk in USER:
            same = c.e.decide(st, samename(tn, vn))
        if not same:
            c.cover('wrong type')
            return error(c, st, out, 'a pointer to a variable of another type')
        c.ok(st, 'a pointer of the right type is taken', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = w.peek(st, vv, 'ref')
        c.cover('taken' if r.null else 'reference')
        c.ok(st, 'the pointer denotes the variable itself', len(sets) == 1 and sets[0]['p'].obj == p.obj and sets[0]['v'].obj == (vv if r.null else r).obj)
        c.frame(st, 'taking a pointer changes the pointer only', {p.obj})
        none_result(c, st, out)


def define_contracts(c):
    var_contracts(c)

    def create(e, st, a, ins):
        w = c.w
        cls = 'PSC::PointerTypeDefinition'
        k = w.peek(st, a[1], 'type.type', cls)
        e.event(st, 'define', ctx=a[0], name=w.peek(st, a[1], 'name', cls), tk=k, tname=w.peek(st, a[1], 'type.name', cls))
        return None
    c.handler(r'^PSC::Context::createPointerDefinition\(', create)


@target('C09 C05', 'PointerDefineNode::evaluate(PSC::Context&)', contracts=define_contracts, cover=['defined', 'unknown type', 'redefined'])
class DefinePointer:
    def setup(self, c):
        yield from node_setup(c, 'PointerDefineNode', [None])

    def post(self, c, st, out):
        g, w = st.ghost, c.w
        ty = [d for k, d in c.events(st, 'gettype')]
        ist = [d for k, d in c.events(st, 'istype')]
        df = [d for k, d in c.events(st, 'define')]
        c.frame(st, 'a type definition changes no variable', {None})
        tok = w.peek(st, g['node'], 'type')
        name = w.peek(st, g['node'], 'name')
        mine = [d for d in ty if d['token'].obj == tok.obj]
        c.ok(st, 'the target type is looked up', len(mine) == 1)
        if not mine:
            return
        if mine[0]['tk'] == 'NONE':
            c.cover('unknown type')
            c.ok(st, 'nothing is defined', not df)
            return error(c, st, out, 'a pointer to an unknown type')
        used = [d['r'] for d in ist if d['token'].obj == name.obj] + [z3.BoolVal(d['tk'] != 'NONE') for d in ty if d['token'].obj == name.obj]
        if out[0] == 'throw':
            c.cover('redefined')
            c.ok(st, 'nothing is defined', not df)
            c.ok(st, 'only a name in use is refused', z3.Or(*used) if used else False)
            return error(c, st, out, 'a name in use')
        c.cover('defined')
        c.ok(st, 'the name must not be in use, here or outside', z3.And(*[z3.Not(u) for u in used]) if len(used) >= 1 and any(d['token'].obj == name.obj for d in ty) else False)
        c.ok(st, 'one type is defined, in this context', len(df) == 1 and df[0]['ctx'].obj == g['ctx'].obj)
        if df:
            c.ok(st, 'the name is that of the token', lib.seq(df[0]['name'], w.peek(st, name, 'value', 'Token')))
            c.ok(st, 'the target type is the one given', z3.And(bvt(df[0]['tk'], 32) == w.T[mine[0]['tk']], z3.BoolVal(df[0]['tname'].obj == mine[0]['name'].obj)))
        none_result(c, st, out)
