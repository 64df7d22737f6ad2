"""Contexts: what a name denotes (C04, C05, C09, C19)."""
from .base import *
from .base import _Cur
from .p03 import Auto
import re

STR = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'


def lookup_contracts(c):
    """the lookups called by the function under contract are themselves under contract: what they return is named by their arguments"""
    def h(what):
        def f(e, st, a, ins):
            r = z3.BitVecVal(0, 64)
            key = '%s' % what
            if e.decide(st, boolean('found')):
                cls = {'getVariable': 'PSC::Variable', 'getArray': 'PSC::Array', 'getDataHolder': 'PSC::Variable', 'getProcedure': 'PSC::Procedure', 'getFunction': 'PSC::Function',
                       'getEnumDefinition': 'PSC::EnumTypeDefinition', 'getPointerDefinition': 'PSC::PointerTypeDefinition',
                       'getCompositeDefinition': 'PSC::CompositeTypeDefinition', 'getEnumElement': 'PSC::Enum'}[what]
                p = c.w.new(st, cls)
            else:
                p = NULL
            e.event(st, 'lookup', what=what, ctx=a[0], name=a[1], glob=a[2] if len(a) > 2 else None, res=p)
            return p
        return f
    for w in ('getVariable', 'getArray', 'getDataHolder', 'getProcedure', 'getFunction', 'getEnumDefinition', 'getPointerDefinition', 'getCompositeDefinition', 'getEnumElement'):
        c.handler(r'^PSC::Context::%s\(' % w, h(w))

    def glob(e, st, a, ins):
        """the global context of a chain"""
        w = c.w
        w.peek(st, a[0], 'parent')
        m = st.mem[a[0].obj].meta
        if e.decide(st, m['isglobal']):
            return a[0]
        root = m['root']
        g = st.ghost.get('globalctx')
        if g is None:
            g = w.new(st, 'PSC::Context', root=root, isglobal=z3.BoolVal(True))
            st.ghost['globalctx'] = g
        return g
    c.handler(r'^PSC::Context::getGlobalContext\(', glob)

    def scope(e, st, a, ins):
        g = st.ghost.get('typescope')
        if g is None:
            g = st.ghost['typescope'] = c.w.new(st, 'PSC::Context')
        e.event(st, 'typescope', ctx=a[0], res=g)
        return g
    c.handler(r'^PSC::Context::getTypeScope\(', scope)
    c.e.candidate_hooks.append(witness)


def witness(e, loop, A):
    """candidate invariant: the witness has not been passed yet"""
    st = loop.entry
    out = []
    for k in st.ghost.get('witness', ()):
        for l, (kind, arg) in loop.W.items():
            if kind == 'vecptr' and loop.entry.mem[arg[0]].meta.get('vname') != k[1] and k[1] is not None:
                continue
            if kind == 'vecptr' or (kind == 'bv' and arg == 64):
                out.append(('%s before %s' % (l, k[0]), lambda g, l=l, k=k: z3.ULE(loop.scalar(l, g(l)), k[0])))
                for outer in st.ghost['witness']:
                    for q in positions(st, outer[1]) if outer is not k else ():
                        out.append(('%s before %s at %s' % (l, k[0], outer[0]), lambda g, l=l, k=k, q=q, o=outer: z3.Or(q != o[0], z3.ULE(loop.scalar(l, g(l)), k[0]))))
    return out


def positions(st, vname):
    """positions of iterators into a vector"""
    out = []
    for o in list(st.mem.values()):
        for v, z in o.cells.values() if o.kind == 'alloca' else ():
            if isinstance(v, Ptr) and v.obj in st.mem and st.mem[v.obj].meta.get('vname') == vname:
                es = st.mem[v.obj].meta['esize']
                q = exact_div(z3.simplify(v.off), es) if isz(v.off) else z3.BitVecVal(v.off // es, 64)
                if q is not None:
                    out.append(q)
    return out


def named_at(c, st, vecpath, this, path='name'):
    """(length, name as a function of the position) of a vector of owned objects of this context"""
    w = c.w
    b = w.peek(st, this, vecpath)
    o = st.mem[b.obj]
    return o.meta['n'], lambda i: z3.Function('str_%s_%s' % (b.obj, path), z3.BitVecSort(64), lib.STRSORT)(i), b.obj


def lookup_target(fn, vec, elem, glob, props, own):
    """fn(name[, global]): the first element of `vec` with that name, else what `glob` says"""
    class T:
        def setup(self, c):
            for exists in (True, False):
                st = c.state()
                this = c.w.new(st, 'PSC::Context')
                name = Obj('arg', 32, 'heap', lambda e, s, ob, of, ty: None, 'std::string', False)
                s = lib.opaque(st, name='wanted')
                name.lazy = lambda e, s_, ob, of, ty: s
                np = st.add(name)
                n, nm, bo = named_at(c, st, vec, this)
                n = bvt(n)
                if exists:
                    K = bv('witness')
                    st.pc.append(z3.And(z3.ULT(K, n), nm(K) == s.id))
                    st.ghost['witness'] = ((K, None),)
                st.ghost.update(this=this, name=np, s=s, exists=exists, vec=bo)
                a = [this, np]
                if 'bool' in fn:
                    g = boolean('global')
                    st.ghost['g'] = g
                    a.append(g)
                yield st, a

        def post(self, c, st, out):
            g = st.ghost
            w = c.w
            c.ok(st, 'a lookup never fails', out[0] == 'ret')
            c.frame(st, 'a lookup changes nothing', {None})
            if out[0] != 'ret':
                return
            r = out[1]
            ev = [d for k, d in c.events(st, 'lookup')]
            key = None if r.null or r.obj not in st.mem else st.mem[r.obj].meta.get('key')
            if key is not None and key[0] == g['vec'] and not ev:
                c.cover('own')
                nm = z3.Function('str_%s_name' % g['vec'], z3.BitVecSort(64), lib.STRSORT)
                c.ok(st, 'what is returned has the name', nm(key[1]) == g['s'].id)
                if g['exists']:
                    c.ok(st, 'the first element with the name is returned', z3.ULE(key[1], g['witness'][0][0]))
                if own == 'last':
                    par = w.peek(st, g['this'], 'parent')
                    c.ok(st, 'only the global context defines these', par.null)
                return
            par = w.peek(st, g['this'], 'parent')
            if own == 'first':
                c.ok(st, 'an element of the context itself is preferred', not g['exists'])
            if own == 'last':
                if par.null:
                    c.cover('none')
                    c.ok(st, 'an existing element is found', not g['exists'])
                    c.ok(st, 'nothing is found', r.null and not ev)
                else:
                    c.cover('outer')
                    c.ok(st, 'the parent is asked', len(ev) == 1 and ev[0]['what'] == glob and ev[0]['ctx'].obj == par.obj and ev[0]['name'].obj == g['name'].obj
                         and r.obj == ev[0]['res'].obj)
                return
            G = g.get('g')
            use = z3.And(G == (G if z3.is_bool(G) else 1), not par.null) if False else z3.And(G, z3.BoolVal(not par.null))
            if ev:
                c.cover('outer')
                c.ok(st, 'the global context is asked only if allowed and there is one', use)
                tgt = g.get('globalctx') if glob[1] == 'global' else g.get('typescope')
                c.ok(st, 'the outer context is asked for the same name', len(ev) == 1 and ev[0]['what'] == glob[0] and tgt is not None and ev[0]['ctx'].obj == tgt.obj
                     and ev[0]['name'].obj == g['name'].obj)
                c.ok(st, 'including its own outer contexts', ev[0]['glob'] is None or bvt(ev[0]['glob'], 8) == 1 if not isz(ev[0]['glob']) else ev[0]['glob'])
                c.ok(st, 'what it finds is returned', r.obj == ev[0]['res'].obj)
            else:
                c.cover('none')
                c.ok(st, 'nothing is found', r.null)
                c.ok(st, 'the outer contexts are not to be searched', z3.Not(use))
    T.__name__ = 'Lookup'
    target(props, fn, contracts=lookup_contracts, cover=['own', 'none', 'outer'])(T)


for fn, vect, glob, props in (
        ('getVariable', 'variables', ('getVariable', 'global'), 'C04 C05 C09 C01'),
        ('getArray', 'arrays', ('getArray', 'global'), 'C04 C06 C01'),
        ('getEnumDefinition', 'enums', ('getEnumDefinition', 'types'), 'C19 C05 C01'),
        ('getPointerDefinition', 'pointers', ('getPointerDefinition', 'types'), 'C09 C05 C01'),
        ('getCompositeDefinition', 'composites', ('getCompositeDefinition', 'types'), 'C05 C01')):
    lookup_target('PSC::Context::%s(%s, bool)' % (fn, STR), vect, None, glob, props, 'first')
lookup_target('PSC::Context::getProcedure(%s)' % STR, 'procedures', None, 'getProcedure', 'C04 C01', 'last')
lookup_target('PSC::Context::getFunction(%s)' % STR, 'functions', None, 'getFunction', 'C04 C17 C01', 'last')


def ctx_arg(c, *more):
    st = c.state()
    this = c.w.new(st, 'PSC::Context')
    st.ghost['this'] = this
    return st, [this] + list(more)


def str_arg(c, st, s=None):
    s = s or lib.opaque(st, name='wanted')
    return st.add(Obj('arg%s' % number(), 32, 'heap', lambda e, s_, ob, of, ty: s, 'std::string', False)), s


def lookups(c, st):
    return [d for k, d in c.events(st, 'lookup')]


@target('C04 C01', 'PSC::Context::getGlobalContext()', cover=['global', 'local'])
class GlobalContext:
    def setup(self, c):
        st, a = ctx_arg(c)
        st.w(a[0].obj).meta['root'] = bv('root')
        yield st, a

    def post(self, c, st, out):
        c.ok(st, 'the global context is found', out[0] == 'ret')
        c.frame(st, 'a lookup changes nothing', {None})
        if out[0] != 'ret':
            return
        w, this = c.w, st.ghost['this']
        c.ok(st, 'the result has no parent', w.peek(st, out[1], 'parent').null)
        c.ok(st, 'the result is the end of the chain of parents', st.mem[out[1].obj].meta['root'] == st.mem[this.obj].meta['root'])
        if w.peek(st, this, 'parent').null:
            c.cover('global')      # the end of the chain of a global context is itself: it is determined by the root
        else:
            c.cover('local')


@target('C05 C19 C04', 'PSC::Context::getTypeScope()', contracts=lookup_contracts, cover=['record', 'other'])
class TypeScope:
    def setup(self, c):
        del_handler(c, 'getTypeScope')
        st, a = ctx_arg(c)
        yield st, a

    def post(self, c, st, out):
        w, this = c.w, st.ghost['this']
        c.ok(st, 'a lookup never fails', out[0] == 'ret')
        c.frame(st, 'a lookup changes nothing', {None})
        if out[0] != 'ret':
            return
        if c.e.decide(st, bvt(w.peek(st, this, 'isCompositeCtx'), 8) == 1):
            c.cover('record')
            c.ok(st, 'a record sees the types of the context it is declared in', out[1].obj == w.peek(st, this, 'parent').obj)
        else:
            c.cover('other')
            p = w.peek(st, this, 'parent')
            c.ok(st, 'other contexts see the global types', (out[1].obj == this.obj) if p.null else out[1].obj == st.ghost['globalctx'].obj)


def del_handler(c, name):
    pass


def data_holder_contracts(c):
    lookup_contracts(c)


@target('C04 C05 C06 C01', 'PSC::Context::getDataHolder(%s)' % STR, contracts=lookup_contracts, cover=['variable', 'array', 'outer', 'none'])
class DataHolderLookup:
    def setup(self, c):
        st, a = ctx_arg(c)
        p, s = str_arg(c, st)
        st.ghost['name'] = p
        yield st, a + [p]

    def post(self, c, st, out):
        w, this, name = c.w, st.ghost['this'], st.ghost['name']
        c.ok(st, 'a lookup never fails', out[0] == 'ret')
        c.frame(st, 'a lookup changes nothing', {None})
        if out[0] != 'ret':
            return
        ev = lookups(c, st)
        r = out[1]
        here = lambda d, what: d['what'] == what and d['ctx'].obj == this.obj and d['name'].obj == name.obj
        no = lambda x: z3.Not(x) if z3.is_bool(x) else bvt(x, 8) == 0
        loc = [d for d in ev if d['ctx'].obj == this.obj]
        for d in loc:
            c.ok(st, 'the context itself is searched without the global one', no(d['glob']))
        v = next((d for d in loc if d['what'] == 'getVariable'), None)
        a = next((d for d in loc if d['what'] == 'getArray'), None)
        c.ok(st, 'own variables are looked up', v is not None and v['name'].obj == name.obj)
        if v is not None and not v['res'].null:
            c.cover('variable')
            return c.ok(st, 'an own variable is preferred', r.obj == v['res'].obj)
        c.ok(st, 'own arrays are looked up', a is not None and a['name'].obj == name.obj)
        if a is not None and not a['res'].null:
            c.cover('array')
            return c.ok(st, 'an own array comes next', r.obj == a['res'].obj)
        if w.peek(st, this, 'parent').null:
            c.cover('none')
            return c.ok(st, 'nothing is found', r.null)
        c.cover('outer')
        g = ev[-1] if ev else None
        c.ok(st, 'the global context is asked last', g is not None and g['what'] == 'getDataHolder' and g['ctx'].obj == st.ghost['globalctx'].obj and g['name'].obj == name.obj
             and r.obj == g['res'].obj)


BASIC = ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE')


@target('C05 C19 C09 C01', 'PSC::Context::getType(Token const&, bool)', contracts=lookup_contracts, cover=['basic', 'enum', 'pointer', 'record', 'none'])
class TypeLookup:
    def setup(self, c):
        for t in BASIC:
            st, a = ctx_arg(c)
            tok = c.w.new(st, 'Token')
            c.w.poke(st, tok, 'type', c.K['TokenType::DATA_TYPE'], 'Token')
            c.w.poke(st, tok, 'value', lib.lit(t), 'Token')
            st.ghost.update(t=t, g=boolean('g'), tok=tok)
            yield st, a + [tok, st.ghost['g']]
        st, a = ctx_arg(c)
        tok = c.w.new(st, 'Token')
        c.w.poke(st, tok, 'type', c.K['TokenType::IDENTIFIER'], 'Token')
        st.ghost.update(t=None, g=boolean('g'), tok=tok)
        yield st, a + [tok, st.ghost['g']]

    def post(self, c, st, out):
        c.ok(st, 'a lookup never fails', out[0] == 'ret')
        c.frame(st, 'a lookup changes nothing', {None})
        if out[0] != 'ret':
            return
        n, t = out[1][0], out[1][1]
        t = t & 0xffffffff if isinstance(t, int) else t
        g = st.ghost
        if g['t']:
            c.cover('basic')
            c.ok(st, 'a built-in type name denotes that type', bvt(t, 32) == c.w.T[g['t']])
            return c.ok(st, 'a built-in type has no name', isinstance(n, Ptr) and n.null)
        ev = lookups(c, st)
        order = ['getEnumDefinition', 'getPointerDefinition', 'getCompositeDefinition']
        c.ok(st, 'definitions are looked up by the name', all(d['ctx'].obj == g['this'].obj and d['what'] == o for d, o in zip(ev, order)))
        for d in ev:
            c.ok(st, 'in the scope given', d['glob'] == g['g'] if isz(d['glob']) else False)
            s = lib.gets(c.e, st, d['name'])
            c.ok(st, 'the name looked up is that of the token', s is c.w.peek(st, g['tok'], 'value', 'Token') or lib.seq(s, c.w.peek(st, g['tok'], 'value', 'Token')))
        hit = next((i for i, d in enumerate(ev) if not d['res'].null), None)
        if hit is None:
            c.cover('none')
            c.ok(st, 'every kind of definition is looked up', len(ev) == 3)
            return c.ok(st, 'an unknown name is no type', bvt(t, 32) == c.w.T['NONE'])
        c.ok(st, 'the first definition found counts', hit == len(ev) - 1)
        k = ('ENUM', 'POINTER', 'COMPOSITE')[hit]
        c.cover({'ENUM': 'enum', 'POINTER': 'pointer', 'COMPOSITE': 'record'}[k])
        c.ok(st, 'the type is of the kind defined', bvt(t, 32) == c.w.T[k])
        c.ok(st, 'the type carries the name of the definition', n.obj == ev[hit]['res'].obj)


@target('C19 C04 C05', 'PSC::Context::isIdentifierType(Token const&, bool)', contracts=lookup_contracts, cover=['type', 'value', 'no'])
class IdentifierType:
    def setup(self, c):
        def gettype(e, st, a, ins):
            k = w.kindname[e.choose(st, typeterm(st), sorted(w.kindname))]
            e.event(st, 'gettype', token=a[1], glob=a[2], tk=k, ctx=a[0])
            return [NULL, w.T[k]]
        w = c.w

        def typeterm(st):
            t = bv('type', 32)
            st.pc.append(z3.ULE(t, 9))
            return t
        c.handler(r'^PSC::Context::getType\(', gettype)
        st, a = ctx_arg(c)
        tok = c.w.new(st, 'Token')
        st.ghost.update(g=boolean('g'), tok=tok)
        yield st, a + [tok, st.ghost['g']]

    def post(self, c, st, out):
        c.ok(st, 'a lookup never fails', out[0] == 'ret')
        if out[0] != 'ret':
            return
        g = st.ghost
        ty = [d for k, d in c.events(st, 'gettype')]
        el = lookups(c, st)
        r = bvt(out[1], 8) == 1 if not (isz(out[1]) and z3.is_bool(out[1])) else out[1]
        c.ok(st, 'types are looked up', len(ty) == 1 and ty[0]['token'].obj == g['tok'].obj and ty[0]['ctx'].obj == g['this'].obj)
        if ty and ty[0]['tk'] != 'NONE':
            c.cover('type')
            return c.ok(st, 'the name of a type', r)
        c.ok(st, 'enumerated values are looked up', len(el) == 1 and el[0]['what'] == 'getEnumElement' and el[0]['ctx'].obj == g['this'].obj)
        if not el[0]['res'].null:
            c.cover('value')
            c.ok(st, 'the value found is released', not st.mem[el[0]['res'].obj].alive)
            return c.ok(st, 'the name of an enumerated value', r)
        c.cover('no')
        c.ok(st, 'no type', z3.Not(r))


def cache_contracts(c):
    def clear(e, st, a, ins):
        e.event(st, 'uncache', cache=a[0])
        return None
    c.handler(r'^ResolverCache::clear\(\)', clear)

    def cc(e, st, a, ins):
        e.event(st, 'clearcache', ctx=a[0])
        return None
    c.handler(r'^PSC::Context::clearCache\(\)', cc)


class ClearAll(Auto):
    """every cache that names this context is emptied, in some order, and then forgotten"""

    def on(self, eng, st, kind, d):
        c = eng.c
        if kind == 'uncache':
            k = st.mem[d['cache'].obj].meta.get('key')
            c.ok(st, 'the caches are emptied one after the other', z3.And(self.mode == 'run', k[1] == self.t['i']) if k and k[0] == self.buf else False)
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
        elif kind == 'clear':
            c.ok(st, 'every cache has been emptied', self.t['i'] == self.n)
            self.mode = 'cleared'


@target('C04 C09 C05', 'PSC::Context::clearCache()', contracts=cache_contracts, cover=['done'])
class ClearCache:
    def setup(self, c):
        st, a = ctx_arg(c)
        b = c.w.peek(st, a[0], 'cache')
        sp = st.spec = ClearAll('run', i=z3.BitVecVal(0, 64))
        sp.buf, sp.n = b.obj, bvt(st.mem[b.obj].meta['n'])
        yield st, a

    def post(self, c, st, out):
        c.cover('done')
        c.ok(st, 'no resolver keeps what it has cached', out[0] == 'ret' and st.spec.mode == 'cleared')
        b, n = vec.vector_at(c.e, st, c.e.gep_off(st.ghost['this'], c.w.L.off('PSC::Context', 'cache')))
        c.ok(st, 'and none is remembered', n == 0)


def adder(fn, path, props, what):
    class T:
        def setup(self, c):
            st, a = ctx_arg(c)
            b = c.w.peek(st, a[0], path)
            st.ghost['n'] = bvt(st.mem[b.obj].meta['n'])
            st.ghost['b'] = b
            cls = 'PSC::' + what
            if fn.endswith('*)'):
                v = c.w.new(st, cls)
                x = v
            else:
                v = c.w.new(st, cls)
                x = c.e.new(st, 8, 'alloca')
                c.e.put(st, x, v, 8)
                st.ghost['up'] = x
            st.ghost['v'] = v
            yield st, a + [x]

        def post(self, c, st, out):
            c.cover('added')
            g = st.ghost
            c.ok(st, 'it is added', out[0] == 'ret')
            ev = c.events(st, 'push')
            off = c.w.L.off('PSC::Context', path)
            c.ok(st, 'it is appended to the own ones', len(ev) == 1 and ev[0][1]['vec'].obj == g['this'].obj and ev[0][1]['vec'].off == off and ev[0][1]['elem'][0].obj == g['v'].obj)
            b, n = vec.vector_at(c.e, st, c.e.gep_off(g['this'], off))
            c.ok(st, 'there is one more', n == g['n'] + 1)
            if what in ('Variable', 'Array'):
                names = [k for k, d in c.events(st) if k in ('push', 'clearcache')]
                c.ok(st, 'what resolvers have cached is forgotten after it has been added', names == ['push', 'clearcache'])
            if 'up' in g:
                c.ok(st, 'it is owned by the context', c.ptr(st, g['up']).null)
    T.__name__ = 'Add'
    target(props, fn, contracts=cache_contracts, cover=['added'])(T)


adder('PSC::Context::addVariable(PSC::Variable*)', 'variables', 'C04 C05 C09', 'Variable')
adder('PSC::Context::addArray(std::unique_ptr<PSC::Array, std::default_delete<PSC::Array>>&&)', 'arrays', 'C04 C06', 'Array')
adder('PSC::Context::addProcedure(std::unique_ptr<PSC::Procedure, std::default_delete<PSC::Procedure>>&&)', 'procedures', 'C04', 'Procedure')
adder('PSC::Context::addFunction(std::unique_ptr<PSC::Function, std::default_delete<PSC::Function>>&&)', 'functions', 'C04', 'Function')


class Elements(Auto):
    """enumerated values are searched type by type, in the order of definition"""


@target('C19 C01', 'PSC::Context::getEnumElement(%s, bool)' % STR, contracts=lookup_contracts, cover=['own', 'outer', 'none'])
class EnumElement:
    """the first type, and in it the first value, with the name; the witness is a value with the name"""
    def setup(self, c):
        w = c.w
        for exists in (True, False):
            st, a = ctx_arg(c)
            p, s = str_arg(c, st)
            g = boolean('global')
            b = w.peek(st, a[0], 'enums')
            n = bvt(st.mem[b.obj].meta['n'])
            st.ghost.update(name=p, s=s, g=g, exists=exists, buf=b.obj)
            if exists:
                K, J = bv('witness'), bv('witness2')
                d = w.new(st, 'PSC::EnumTypeDefinition', key=(b.obj, K))
                o = st.w(b.obj)
                o.meta['elems'] = {(0, 0, K): d}
                vb = w.peek(st, d, 'values')
                vo = st.mem[vb.obj]
                st.pc.append(z3.And(z3.ULT(K, n), z3.ULT(J, bvt(vo.meta['n'])), z3.Function('elem_%s' % vb.obj, z3.BitVecSort(64), lib.STRSORT)(J) == s.id))
                st.ghost['witness'] = ((K, b.obj and st.mem[b.obj].meta['vname']), (J, vo.meta['vname']))
                st.ghost.update(K=K, J=J, d=d, vb=vb.obj)
            yield st, a + [p, g]

    def post(self, c, st, out):
        w, g = c.w, st.ghost
        c.ok(st, 'a lookup never fails', out[0] == 'ret')
        c.frame(st, 'a lookup changes nothing', {None})
        if out[0] != 'ret':
            return
        ev = lookups(c, st)
        r = out[1]
        if not ev and not r.null:
            c.cover('own')
            c.ok(st, 'a new value is returned', r.obj in st.mem and not st.mem[r.obj].world)
            idx = bvt(w.peek(st, r, 'idx', 'PSC::Enum'))
            nm = w.peek(st, r, 'definitionName', 'PSC::Enum')
            # the definition whose name the value carries
            b = st.mem[g['buf']]
            found = None
            for (k, cc, i), d in b.meta['elems'].items():
                if w.peek(st, d, 'name', 'PSC::EnumTypeDefinition')._id.eq(nm._id):
                    found = (i, d)
            c.ok(st, 'the value is of a type of this context', found is not None)
            if found is None:
                return
            i, d = found
            vb = w.peek(st, d, 'values')
            vo = st.mem[vb.obj]
            c.ok(st, 'the position is one of the type', z3.ULT(idx, bvt(vo.meta['n'])))
            s = c.e.load_cell(st, Ptr(vb.obj, z3.simplify(idx * 32)), 32, ('str',))
            c.ok(st, 'the value at the position has the name', s.id == g['s'].id)
            if g['exists']:
                c.ok(st, 'the first type with such a value counts', z3.ULE(lib.b64(i), g['K']))
                c.ok(st, 'the first such value of a type counts', z3.Or(lib.b64(i) != g['K'], z3.ULE(idx, g['J'])))
            return
        c.ok(st, 'own values are preferred', not g['exists'])
        par = w.peek(st, g['this'], 'parent')
        use = z3.And(g['g'], z3.BoolVal(not par.null))
        if ev:
            c.cover('outer')
            c.ok(st, 'the global context is asked only if allowed and there is one', use)
            c.ok(st, 'the global context is asked for the same name', len(ev) == 1 and ev[0]['what'] == 'getEnumElement' and ev[0]['ctx'].obj == g['globalctx'].obj and ev[0]['name'].obj == g['name'].obj
                 and r.obj == ev[0]['res'].obj)
        else:
            c.cover('none')
            c.ok(st, 'nothing is found', r.null)
            c.ok(st, 'the outer contexts are not to be searched', z3.Not(use))
