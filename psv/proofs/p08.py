"""Calls: arguments, parameters, by value and by reference, the scope of a call, RETURN's result, traceback mark (C01, C04, C05, C08, C09, C11, C19)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, error
from .p03 import Auto, RTE, none_result
from .p05 import var_contracts, type_of, samename, USER
from .p07 import CTX, VAR, as_bool
from .. import vec, world

PARAM, RES, ARGT = 'PSC::Parameter', 'NodeResult', 'PSC::DataType'
UPTR = r'std::unique_ptr<NodeResult, std::default_delete<NodeResult>\s?>'
RETURN = '@_ZTI15ReturnErrSignal'


class Call(Auto):
    """modes: start, args (t.a arguments are evaluated), evaluated (one is, and not yet kept), counted (all are), bind (t.b parameters have
    their variable), casted, typed, made, ran; or how the call failed"""
    cur = ptrs = last = ctx2 = var = how = None
    kept = refset = False

    # what the program text says of argument / parameter i
    def byref(self, eng, st, i):
        return bvt(eng.load_cell(st, self.param(eng, i, 'byRef'), 1, ('i', 8)), 8) == 1

    def param(self, eng, i, path):
        L = eng.c.w.L
        return Ptr(self.params, z3.simplify(i * L.size(PARAM) + L.off(PARAM, path)))

    def isref(self, eng, st, i):
        """the argument is a variable passed by reference"""
        return z3.And(self.byref(eng, st, i), self.access(i)) if eng.decide(st, z3.ULT(i, self.np)) else z3.BoolVal(False)

    @staticmethod
    def access(i):
        return z3.Function('is_access', z3.BitVecSort(64), z3.BoolSort())(i)

    def on(self, eng, st, kind, d):
        c, w, t = eng.c, eng.c.w, self.t
        g = st.ghost
        if self.mode == 'bad':
            return
        if kind == 'getcallee':
            c.ok(st, 'the callee is looked up first, by the name given', z3.And(z3.BoolVal(self.mode == 'start' and d['ctx'].obj == g['ctx'].obj), lib.seq(d['name'], self.name)))
            self.mode = 'unknown' if d['res'].null else 'args'
            if not d['res'].null:
                self.callee = d['res']
                self.params = w.peek(st, d['res'], 'parameters').obj
                if self.fn:
                    tok = w.peek(st, d['res'], 'defToken', 'PSC::Function')
                    st.ghost['otherfault'] = {'RuntimeError': (tok, None)}
                self.np = st.mem[d['res'].obj].meta['len:parameters']
        elif kind in ('eval', 'throw'):
            k = st.mem[d['node'].obj].meta.get('key')
            ok = self.mode == 'args' and k is not None and k[0] == self.args and (kind == 'throw' or d['ctx'].obj == g['ctx'].obj)
            c.ok(st, 'arguments are evaluated', ok)
            if not ok:
                return self.bad(eng, st, 'something else')
            c.ok(st, 'in order, once each', z3.And(k[1] == t['a'], z3.ULT(t['a'], self.n)))
            c.ok(st, 'a variable passed by reference is not read', z3.Not(self.isref(eng, st, t['a'])))
            self.mode, self.cur = ('evaluated', ('value', d['res'])) if kind == 'eval' else ('error', None)
        elif kind == 'resolve':
            k = self.owner(st, d['resolver'])
            ok = self.mode == 'args' and k is not None and k[0] == self.args and d['ctx'].obj == g['ctx'].obj
            c.ok(st, 'arguments are resolved', ok)
            if not ok:
                return self.bad(eng, st, 'something else')
            c.ok(st, 'in order, once each', z3.And(k[1] == t['a'], z3.ULT(t['a'], self.n)))
            c.ok(st, 'only a variable passed by reference is resolved', self.isref(eng, st, t['a']))
            self.mode = {'array': 'array', 'var': 'evaluated'}.get(d['how'], 'error')
            self.cur = ('ref', d['holder'])
        elif kind == 'setref':
            ok = self.mode == 'evaluated' and self.cur[0] == 'ref' and not d['p'].null and d['p'].obj == self.cur[1].obj
            c.ok(st, 'the variable bound is the one the argument names', ok and d['idx'] is not None)
            if not ok or d['idx'] is None:
                return self.bad(eng, st, 'another variable')
            c.ok(st, 'it is bound to its parameter', bvt(d['idx']) == t['a'])
            self.refset = True
        elif kind == 'keep':
            ok = self.mode == 'evaluated' and not self.kept
            c.ok(st, 'a result is kept once', ok)
            if not ok:
                return self.bad(eng, st, 'a result of nothing')
            c.ok(st, 'the result kept is that of the argument', d['p'].null if self.cur[0] == 'ref' else not d['p'].null and d['p'].obj == self.cur[1].obj)
            c.ok(st, 'at its place', d['idx'] == t['a'])
            self.kept = True
        elif kind == 'keeptype':
            ok = self.mode == 'evaluated' and self.kept
            c.ok(st, 'a type is kept with its argument', ok)
            if not ok:
                return self.bad(eng, st, 'a type of nothing')
            h = self.cur[1]
            off = w.L.off(VAR if self.cur[0] == 'ref' else RES, 'type')
            c.ok(st, 'the type kept is that of the argument', d['p'].obj == h.obj and isinstance(d['p'].off, int) and d['p'].off == off)
            c.ok(st, 'at its place', d['idx'] == t['a'])
            if self.cur[0] == 'ref':
                c.ok(st, 'the variable is kept', self.refset)
            self.t = dict(t, a=z3.simplify(t['a'] + 1))
            self.mode, self.cur, self.kept, self.refset = 'args', None, False, False
        elif kind == 'newctx':
            c.ok(st, 'the scope of the call is made once all arguments are evaluated', z3.And(z3.BoolVal(self.mode == 'args'), t['a'] == self.n))
            c.ok(st, 'there are as many arguments as parameters', self.n == self.np)
            c.ok(st, 'it is a scope below the one of the caller', d['parent'].obj == g['ctx'].obj)
            c.ok(st, 'with the name of the callee', lib.seq(d['name'], self.name))
            c.ok(st, 'of a function exactly if a function is called', d['fn'] == self.fn)
            if self.fn:
                c.ok(st, 'with the type the function returns', z3.And(bvt(d['tk'], 32) == bvt(w.peek(st, self.callee, 'returnType.type'), 32), z3.BoolVal(d['tn'].obj == w.peek(st, self.callee, 'returnType.name').obj)))
            self.mode, self.ctx2 = 'bind', d['v']
            if self.fn:
                g['otherfault'] = {'RuntimeError': (g['otherfault']['RuntimeError'][0], d['v'])}
        elif kind == 'cast':
            k = st.mem[d['res'].obj].meta.get('key')
            ok = self.mode == 'bind' and k is not None and k[0] == self.results
            c.ok(st, 'what is converted is an argument', ok)
            if not ok:
                return self.bad(eng, st, 'another result')
            c.ok(st, 'in order', z3.And(k[1] == t['b'], z3.ULT(t['b'], self.n)))
            c.ok(st, 'only values are converted', z3.Not(self.byref(eng, st, t['b'])))
            p = self.param(eng, t['b'], 'type')
            c.ok(st, 'a value is converted to the type of its parameter', bvt(d['tk'], 32) == bvt(eng.load_cell(st, eng.gep_off(p, w.L.off(ARGT, 'type')), 4, ('i', 32)), 32))
            self.mode = 'casted'
        elif kind == 'sametype':
            i = t['b']
            ref = eng.decide(st, self.byref(eng, st, i))
            ok = self.mode == ('bind' if ref else 'casted')
            c.ok(st, 'a type is compared after the conversion', ok)
            if not ok:
                return self.bad(eng, st, 'another comparison')
            want = Ptr(self.types, z3.simplify(i * 16)) if ref else eng.gep_off(self.result(eng, st, i), w.L.off(RES, 'type'))
            x, y = d['x'], d['y']
            if x.obj != self.params:
                x, y = y, x
            p = self.param(eng, i, 'type')
            c.ok(st, 'the type of the parameter', z3.And(z3.BoolVal(x.obj == p.obj), lib.b64(x.off) == lib.b64(p.off)))
            c.ok(st, 'and the type of its argument', z3.And(z3.BoolVal(y.obj == want.obj), lib.b64(y.off) == lib.b64(want.off)))
            self.mode = 'typed' if d['r'] else 'mismatch'
        elif kind in ('createref', 'newvar'):
            i = t['b']
            ref = eng.decide(st, self.byref(eng, st, i))
            ok = self.mode == 'typed' and ref == (kind == 'createref')
            c.ok(st, 'a parameter is bound after its type was compared', ok)
            if not ok:
                return self.bad(eng, st, 'another variable')
            c.ok(st, 'with the name of the parameter', lib.seq(d['name'], lib.gets(eng, st, self.param(eng, i, 'name'))))
            if ref:
                k = st.mem[d['src'].obj].meta.get('key')
                c.ok(st, 'to the variable of its argument', z3.And(k[1] == i) if k is not None and k[0] == self.refs else False)
            else:
                p = self.param(eng, i, 'type')
                c.ok(st, 'with the type of the parameter', z3.And(bvt(d['tk'], 32) == bvt(eng.load_cell(st, eng.gep_off(p, 8), 4, ('i', 32)), 32), z3.BoolVal(d['tn'].obj == eng.load_cell(st, p, 8, ('ptr',)).obj)))
                c.ok(st, 'in the scope of the call', d['ctx'].obj == self.ctx2.obj)
                c.ok(st, 'that can be assigned', z3.Not(d['const']))
                c.ok(st, 'with the value of the argument', d['data'].obj == w.peek(st, self.result(eng, st, i), 'data').obj)
            self.var, self.mode = d['v'], 'made'
        elif kind == 'addvar':
            c.ok(st, 'the variable is added to the scope of the call', self.mode == 'made' and d['v'].obj == self.var.obj and d['ctx'].obj == self.ctx2.obj)
            self.t = dict(t, b=z3.simplify(t['b'] + 1))
            self.var, self.mode = None, 'bind'
        elif kind == 'runcallee':
            c.ok(st, 'the callee runs once every parameter is bound', z3.And(z3.BoolVal(self.mode == 'bind'), t['b'] == self.n))
            c.ok(st, 'it is the callee that runs, in the scope of the call', d['callee'].obj == self.callee.obj and self.ctx2 is not None and d['ctx'].obj == self.ctx2.obj)
            sw = w.peek(st, g['ctx'], 'switchToken')
            c.ok(st, 'while the call is marked as what is executed', not sw.null and sw.obj == w.peek(st, g['node'], 'token').obj)
            self.mode, self.how, self.value = 'ran', d['how'], d['value']
        elif kind == 'invalidargs':
            self.wrong = (d['want'], d['given'])

    def owner(self, st, resolver):
        """the argument a resolver belongs to"""
        for o in st.mem.values():
            k = o.meta.get('key')
            if k is not None and k[0] == self.args and o.cls == 'AccessNode':
                if resolver.obj == st.mem[o.id].cells.get(self.resoff, (NULL,))[0].obj:
                    return k
        return None

    def result(self, eng, st, i):
        """the result kept for argument i"""
        return eng.load_cell(st, Ptr(self.results, z3.simplify(i * 8)), 8, ('ptr',))


def governed(c, st, oid, elem, esize, make, size=None, vstore=None):
    o = Obj(oid, size, 'vec', world.vec_lazy, elem, False)
    o.meta.update(sym=world.vec_lazy, esize=esize, elem=elem, n=None, elems={}, vname=oid, make=make)
    if vstore:
        o.meta['vstore'] = vstore
    st.add(o)
    return oid


def call_contracts(c):
    var_contracts(c)
    e, w, H = c.e, c.w, c.handler
    e.virt[('dynamic_cast', 'Node')] = access_cast

    def callee(e, st, a, ins):
        d = e.dem[e.curname]
        p = w.new(st, 'PSC::Function' if 'getFunction' in d else 'PSC::Procedure') if e.decide(st, boolean('defined')) else NULL
        if not p.null:
            st.w(p.obj).meta['len:parameters'] = n = bv('parameters')
            st.pc.append(z3.ULT(n, lib.BIG))
        e.event(st, 'getcallee', ctx=a[0], name=lib.gets(e, st, a[1]), res=p)
        return p
    H(r'^PSC::Context::get(Function|Procedure)\(', callee)

    # the vectors of a call: what may be kept in them is said by the specification, and is what is found in them later
    def length(e, st, v, es):
        b, end = vec.header(e, st, v)
        if b.null:
            return z3.BitVecVal(0, 64)
        q = end.off // es if isinstance(end.off, int) else exact_div(z3.simplify(end.off), es)
        if q is None:
            raise Unsupported('length of a vector')
        return lib.b64(q)

    def start(e, st, v, which):
        b, end = vec.header(e, st, v)
        if not b.null:
            return b
        sp = st.spec
        if which == 'results':
            def make(e, st, o, i, cc, ty):
                sp = st.spec
                i = lib.b64(i)
                if sp.cur is not None and sp.kept and e.valid(st, i == sp.t['a']):
                    return NULL if sp.cur[0] == 'ref' else sp.cur[1]
                c.ok(st, 'the result of an argument that was evaluated', z3.ULT(i, sp.t['a']))
                if e.decide(st, sp.isref(e, st, i)):
                    return NULL
                r = w.new(st, RES, 'heap', False)
                st.w(r.obj).meta['key'] = (o.id, i)
                return r
            oid = governed(c, st, 'argresults', RES + '*', 8, make)
        else:
            def make(e, st, o, i, cc, ty):
                sp = st.spec
                c.ok(st, 'the type of an argument that was evaluated', z3.ULT(lib.b64(i), sp.t['a']))
                raise Unsupported('type of an argument')
            oid = governed(c, st, 'argtypes', ARGT, 16, make)
        setattr(sp, which, oid)
        b = Ptr(oid, 0)
        e.put(st, v, b, 8)
        e.put(st, e.gep_off(v, 8), b, 8)
        return b

    def reserve(which):
        def h(e, st, a, ins):
            start(e, st, a[0], which)
            return None
        return h
    H(r'^std::vector<%s, .*>::reserve\(' % UPTR, reserve('results'))
    H(r'^std::vector<PSC::DataType, .*>::reserve\(', reserve('types'))

    def push(which, es):
        def h(e, st, a, ins):
            b = start(e, st, a[0], which)
            n = length(e, st, a[0], es)
            p = a[1]
            if which == 'results':
                p = e.load_cell(st, a[1], 8, ('ptr',))
                e.put(st, a[1], NULL, 8)
            e.event(st, 'keep' if which == 'results' else 'keeptype', idx=n, p=p)
            e.put(st, e.gep_off(a[0], 8), Ptr(b.obj, norm(z3.simplify((n + 1) * es), ('i', 64))), 8)
            return None
        return h
    H(r'^std::vector<%s, .*>::push_back\(' % UPTR, push('results', 8))
    H(r'^std::vector<PSC::DataType, .*>::push_back\(', push('types', 16))

    def destroy(e, st, a, ins):
        return None
    H(r'^std::vector<(%s|PSC::DataType|PSC::Variable\*), .*>::~vector\(' % UPTR, destroy)

    def nullrefs(e, st, a, ins):
        """vector(n, nullptr)"""
        c.ok(st, 'no variable is bound before the arguments are resolved', e.load_cell(st, a[2], 8, ('ptr',)).null)
        n = lib.b64(a[1])

        def make(e, st, o, i, cc, ty):
            sp = st.spec
            i = lib.b64(i)
            if sp.mode == 'evaluated' and sp.refset and e.valid(st, i == sp.t['a']):
                return sp.cur[1]
            if e.decide(st, z3.And(z3.ULT(i, sp.t['a']), sp.isref(e, st, i))):
                v = w.new(st, VAR, 'heap', False)
                st.w(v.obj).meta['key'] = (o.id, i)
                return v
            return NULL

        def vstore(e, st, o, off, v, size):
            i = off // 8 if isinstance(off, int) else exact_div(z3.simplify(off), 8)
            e.event(st, 'setref', idx=i, p=v)
            st.w(o.id).meta['elems'] = {}
        oid = governed(c, st, 'references', VAR + '*', 8, make, norm(z3.simplify(n * 8), ('i', 64)), vstore)
        st.spec.refs = oid
        for k, x in ((0, Ptr(oid, 0)), (8, Ptr(oid, norm(z3.simplify(n * 8), ('i', 64)))), (16, Ptr(oid, norm(z3.simplify(n * 8), ('i', 64))))):
            e.put(st, e.gep_off(a[0], k), x, 8)
        return None
    H(r'^std::vector<PSC::Variable\*, .*>::vector\(unsigned long, PSC::Variable\* const&, ', nullrefs)

    def newctx(e, st, a, ins):
        d = e.dem[e.curname]
        fn = ', bool, PSC::DataType)' in d
        p = a[0]
        st.w(p.obj).cls = CTX
        w.poke(st, p, 'returnValue', NULL, CTX)
        e.event(st, 'newctx', v=p, parent=a[1], name=lib.gets(e, st, a[2]), fn=fn and as_bool(a[3]), tn=a[4] if fn else None, tk=a[5] if fn else None)
        return None
    H(r'^PSC::Context::Context\(PSC::Context\*, std::__cxx11::basic_string.*\)', newctx)

    def delctx(e, st, a, ins):
        e.event(st, 'delctx', v=a[1])
        lib.delete(e, st, a[1])
        return None
    H(r'^(void )?std::default_delete<PSC::Context>::operator\(\)', delctx)

    def cast(e, st, a, ins):
        """NodeResult::implicitCast: the result has some type and value afterwards (the conversion: ImplicitCast in p05)"""
        e.event(st, 'cast', res=a[0], tn=a[1], tk=a[2])
        d = st.add(Obj('casted%s' % number(), None, 'heap', None, 'PSC::Value', True))
        w.poke(st, a[0], 'data', d, RES)
        return None
    H(r'^NodeResult::implicitCast\(PSC::DataType\)', cast)

    def same(e, st, a, ins):
        r = e.decide(st, boolean('sametype'))
        e.event(st, 'sametype', x=a[0], y=a[1], r=r)
        return z3.BoolVal(r)
    H(r'^PSC::DataType::operator==\(', same)

    def ref(e, st, a, ins):
        v = w.new(st, VAR, 'heap', False)
        e.event(st, 'createref', src=a[0], name=lib.gets(e, st, a[1]), v=v)
        return v
    H(r'^PSC::Variable::createReference\(', ref)

    def newvar(e, st, a, ins):
        e.event(st, 'newvar', v=a[0], name=lib.gets(e, st, a[1]), tn=a[2], tk=a[3], const=as_bool(a[4]), ctx=a[5], data=a[6])
        return None
    H(r'^PSC::Variable::Variable\(std::__cxx11::basic_string.*, PSC::DataType, bool, PSC::Context\*, PSC::Value const\*\)', newvar)

    def add(e, st, a, ins):
        e.event(st, 'addvar', ctx=a[0], v=a[1])
        return None
    H(r'^PSC::Context::addVariable\(', add)

    def types(e, st, a, ins):
        for k in (0, 8, 16):
            e.put(st, e.gep_off(a[0], k), NULL, 8)
        e.event(st, 'gettypes', dst=a[0], callee=a[1])
        return None
    H(r'^PSC::Procedure::getTypes\(', types)

    def invalid(e, st, a, ins):
        e.event(st, 'invalidargs', want=a[3], given=a[4])
        return None
    H(r'^PSC::InvalidArgsError::InvalidArgsError\(', invalid)

    def run(e, st, a, ins):
        """Procedure::run: the end of the block, RETURN, or an error"""
        out = []
        sp = st.spec
        fn = sp.fn
        for ti in ((RETURN,) if fn else ()) + (RTE,):
            s = st.fork()
            _Cur.st = s
            out += after(e, s, a, ti)
        _Cur.st = st
        return out + after(e, st, a, 'end')

    def after(e, st, a, how):
        out = []
        for given in ([True] if how == RETURN else [False, True] if how == 'end' and st.spec.fn else [False]):
            s = st.fork()
            _Cur.st = s
            v = NULL
            e.event(s, 'runcallee', callee=a[0], ctx=a[1], how=how, value=None)
            c.havoc_world(s)
            if given:
                v = w.new(s, RES, 'heap', False)
            if s.spec.fn:
                w.poke(s, a[1], 'returnValue', v, CTX)
            s.spec.value = v
            out.append(('throw', s, e.new(s, 64, 'exc'), how) if how != 'end' else ('ret', s, None))
        return out
    for k in ('Procedure', 'Function'):
        e.virt[('PSC::' + k, 'run')] = run


def access_cast(e, st, p, dst):
    """dynamic_cast<AccessNode*> of an argument"""
    k = st.mem[p.obj].meta.get('key')
    if 'AccessNode' not in dst or k is None:
        raise Unsupported('dynamic_cast of a node to ' + dst)
    if not e.decide(st, Call.access(lib.b64(k[1]))):
        return NULL
    o = st.w(p.obj)
    o.cls, o.size = 'AccessNode', e.c.w.L.size('AccessNode')
    e.c.w.peek(st, p, 'resolver', 'AccessNode')
    return p


def call_target(cls, names, fn, props):
    class T:
        def setup(self, c):
            for st, a in node_setup(c, cls, [None]):
                w = c.w
                sp = st.spec = Call('start', a=z3.BitVecVal(0, 64), b=z3.BitVecVal(0, 64))
                n = st.w(a[1].obj).meta['len:args'] = bv('n')
                st.pc.append(z3.ULT(n, lib.BIG))
                sp.n, sp.fn, sp.args, sp.name = n, fn, w.peek(st, a[1], 'args').obj, lib.gets(c.e, st, c.e.gep_off(a[1], w.L.off(cls, names)))
                sp.resoff = w.L.off('AccessNode', 'resolver')
                yield st, a

        def post(self, c, st, out):
            sp, g, w = st.spec, st.ghost, c.w
            m = sp.mode
            if m == 'bad':
                return
            new = [d['v'].obj for k, d in c.events(st, 'newctx')]
            c.ok(st, 'the scope of the call ends with it', [d['v'].obj for k, d in c.events(st, 'delctx')] == new)
            if new:
                c.ok(st, 'no call is marked afterwards', w.peek(st, g['ctx'], 'switchToken').null)
            if out[0] == 'ret':
                c.ok(st, 'the callee ran', m == 'ran' and sp.how in ('end', RETURN))
                if m != 'ran':
                    return
                c.cover('ran')
                if not fn:
                    return none_result(c, st, out)
                r = c.e.load_cell(st, g['r'], 8, ('ptr',))
                return c.ok(st, 'the result is the one returned', not r.null and not sp.value.null and r.obj == sp.value.obj)
            if m == 'ran':
                c.cover('fails' if sp.how == RTE else 'no result')
                c.ok(st, 'a call fails only with an error of the callee, or without a result', sp.how == RTE or (fn and sp.value.null))
                return error(c, st, out, 'a call that fails')
            error(c, st, out, 'a call that cannot be made')
            c.ok(st, 'the callee does not run', not c.events(st, 'runcallee'))
            if m in ('unknown', 'error', 'array'):
                return c.cover(m)
            if m == 'args':
                c.cover('count')
                c.ok(st, 'only a wrong number of arguments is refused', z3.And(sp.t['a'] == sp.n, sp.n != sp.np))
            elif m == 'mismatch':
                c.cover('type')
            elif m == 'typed':
                c.cover('not a variable')
                return c.ok(st, 'only a parameter passed by reference needs a variable', z3.And(sp.byref(c.e, st, sp.t['b']), z3.Not(sp.isref(c.e, st, sp.t['b']))))
            else:
                return c.ok(st, 'only a bad call fails', False)
            ev = c.events(st, 'invalidargs')
            gt = [d for k, d in c.events(st, 'gettypes')]
            c.ok(st, 'the message is about the arguments', len(ev) == 1 and len(gt) == 1 and gt[0]['callee'].obj == sp.callee.obj and gt[0]['dst'].obj == ev[0][1]['want'].obj)
    T.__name__ = cls
    target(props, '%s::evaluate(PSC::Context&)' % cls, contracts=call_contracts, budget=200,
           cover=['ran', 'fails', 'unknown', 'error', 'array', 'count', 'type', 'not a variable'] + (['no result'] if fn else []))(T)


call_target('CallNode', 'procedureName', False, 'C04 C05 C01 C09 C11')
call_target('FunctionCallNode', 'functionName', True, 'C04 C05 C01 C09 C11 C19')


# ---------------------------------------------------------------- PROCEDURE and FUNCTION statements
def parameter(e, st, a, sig):
    """Parameter(name, type, byRef): its name, its type, how it is passed"""
    return {0: lib.gets(e, st, a[0]), 32: e.load_cell(st, a[1], 8, ('ptr',)), 40: e.load_cell(st, e.gep_off(a[1], 8), 4, ('i', 32)), 48: e.load_cell(st, a[2], 1, ('i', 8))}


def datatype(e, st, a, sig):
    return {0: e.load_cell(st, a[0], 8, ('ptr',)), 8: e.load_cell(st, e.gep_off(a[0], 8), 4, ('i', 32))}


vec.BUILD[PARAM] = parameter
vec.BUILD[ARGT] = datatype


class Define(Auto):
    """modes: start, free, [returns,] params (t.i parameters are added), typed, built, done; or how it failed"""
    tk = tn = made = None

    def on(self, eng, st, kind, d):
        c, w, t = eng.c, eng.c.w, self.t
        g = st.ghost
        if self.mode == 'bad':
            return
        if kind == 'getcallee':
            c.ok(st, 'the name is looked up first', z3.And(z3.BoolVal(self.mode == 'start' and d['ctx'].obj == g['ctx'].obj), lib.seq(d['name'], self.name)))
            self.mode = 'free' if d['res'].null else 'taken'
        elif kind == 'gettype':
            if self.mode == 'free' and self.fn:
                c.ok(st, 'the type of the result', d['token'].obj == self.rtoken.obj)
                self.rk, self.rn = d['tk'], d['name']
                self.mode = 'params' if d['tk'] != 'NONE' else 'no type'
                return
            ok = self.mode in ('free', 'params')
            k = st.mem[d['token'].obj].meta.get('key')
            ok = ok and k is not None and k[0] == self.tokens
            c.ok(st, 'the type of a parameter is looked up', ok)
            if not ok:
                return self.bad(eng, st, 'another type')
            c.ok(st, 'in order', z3.And(k[1] == t['i'], z3.ULT(t['i'], self.n)))
            self.tk, self.tn = d['tk'], d['name']
            self.mode = 'typed' if d['tk'] != 'NONE' else 'no type'
        elif kind == 'push':
            ok = self.mode == 'typed' and set(d['elem']) == {0, 32, 40, 48}
            c.ok(st, 'a parameter with its type', ok)
            if not ok:
                return self.bad(eng, st, 'another parameter')
            x = d['elem']
            i = t['i']
            c.ok(st, 'at its place', d['idx'] == i)
            c.ok(st, 'with its name', lib.seq(x[0], eng.load_cell(st, Ptr(self.names, z3.simplify(i * 32)), 32, ('str',)) if False else lib.gets(eng, st, Ptr(self.names, z3.simplify(i * 32)))))
            c.ok(st, 'of its type', z3.And(bvt(x[40], 32) == w.T[self.tk], z3.BoolVal(x[32].obj == self.tn.obj)))
            c.ok(st, 'by value or by reference as declared', (bvt(x[48], 8) == 1) == self.passed(i))
            self.t = dict(t, i=z3.simplify(i + 1))
            self.vec, self.tk, self.tn, self.mode = d['vec'], None, None, 'params'
        elif kind == 'newcallee':
            ok = self.mode == 'params' or self.mode == 'free' and not self.fn
            c.ok(st, 'it is made with its parameters', ok)
            if not ok:
                return self.bad(eng, st, 'another definition')
            c.ok(st, 'all of them', z3.And(t['i'] == self.n, d['n'] == self.n))
            c.ok(st, 'with the name given', lib.seq(d['name'], self.name))
            c.ok(st, 'and the block given', d['block'].obj == w.peek(st, g['node'], 'block').obj)
            if self.fn:
                c.ok(st, 'and the type of its result', z3.And(bvt(d['tk'], 32) == w.T[self.rk], z3.BoolVal(d['tn'].obj == self.rn.obj)))
                c.ok(st, 'and the place it is defined at', d['token'].obj == w.peek(st, g['node'], 'token').obj)
            self.made, self.mode = d['v'], 'built'
        elif kind == 'addcallee':
            c.ok(st, 'it is added to the scope', self.mode == 'built' and d['v'].obj == self.made.obj and d['ctx'].obj == g['ctx'].obj)
            self.mode = 'done'

    @staticmethod
    def passed(i):
        return z3.Function('passed_by_reference', z3.BitVecSort(64), z3.BoolSort())(i)


def define_call_contracts(c):
    var_contracts(c)
    e, w, H = c.e, c.w, c.handler

    def callee(e, st, a, ins):
        p = w.new(st, 'PSC::Procedure') if e.decide(st, boolean('defined')) else NULL
        e.event(st, 'getcallee', ctx=a[0], name=lib.gets(e, st, a[1]), res=p)
        return p
    H(r'^PSC::Context::get(Function|Procedure)\(', callee)

    def bit(e, st, a, ins):
        c.ok(st, 'how a parameter is passed is known', z3.ULT(lib.b64(a[1]), st.spec.n))
        return Define.passed(lib.b64(a[1]))
    H(r'^std::vector<bool, std::allocator<bool>\s?>::operator\[\]\(unsigned long\) const', bit)

    def new(e, st, a, ins):
        b, n = vec.vector_at(e, st, a[2])
        fn = 'Function::Function' in e.dem[e.curname]
        e.event(st, 'newcallee', v=a[0], name=lib.gets(e, st, a[1]), n=n, block=a[3], tn=a[4] if fn else None, tk=a[5] if fn else None, token=a[6] if fn else None)
        return None
    H(r'^PSC::(Procedure::Procedure|Function::Function)\(std::__cxx11::basic_string.*const&, std::vector<PSC::Parameter', new)

    def add(e, st, a, ins):
        p = e.load_cell(st, a[1], 8, ('ptr',))
        e.put(st, a[1], NULL, 8)
        e.event(st, 'addcallee', ctx=a[0], v=p)
        return None
    H(r'^PSC::Context::add(Function|Procedure)\(', add)


def define_call(cls, nm, fn, props):
    class T:
        """precondition: a type and a way of passing for every parameter (made so by the parser)"""
        def setup(self, c):
            for st, a in node_setup(c, cls, [None]):
                w = c.w
                sp = st.spec = Define('start', i=z3.BitVecVal(0, 64))
                n = bv('n')
                st.pc.append(z3.ULT(n, lib.BIG))
                m = st.w(a[1].obj).meta
                m['len:parameterNames'] = m['len:parameterTypes'] = n
                sp.n, sp.fn = n, fn
                sp.name = lib.gets(c.e, st, c.e.gep_off(a[1], w.L.off(cls, nm)))
                sp.names, sp.tokens = w.peek(st, a[1], 'parameterNames').obj, w.peek(st, a[1], 'parameterTypes').obj
                if fn:
                    sp.rtoken = w.peek(st, a[1], 'returnType')
                yield st, a

        def post(self, c, st, out):
            m = st.spec.mode
            if m == 'bad':
                return
            c.frame(st, 'a definition changes no variable', {None} | {p for p in st.mem if p.startswith('buf:') or p.startswith('h')})
            if m == 'done':
                c.cover('defined')
                c.ok(st, 'a definition completes', out[0] == 'ret')
                return none_result(c, st, out) if out[0] == 'ret' else None
            error(c, st, out, 'a definition that fails')
            c.ok(st, 'only a name that is taken, or a type that does not exist, fails', m in ('taken', 'no type'))
            c.cover(m)
    T.__name__ = cls
    target(props, '%s::evaluate(PSC::Context&)' % cls, contracts=define_call_contracts, cover=['defined', 'taken', 'no type'])(T)


define_call('ProcedureNode', 'procedureName', False, 'C04 C05 C09 C11')
define_call('FunctionNode', 'functionName', True, 'C04 C05 C09 C11')


# ---------------------------------------------------------------- procedures as objects
@target('C04 C01 C11', 'PSC::Procedure::run(PSC::Context&)', cover=['end', 'BreakErrSignal', 'ContinueErrSignal', 'other'])
class RunProcedure:
    def setup(self, c):
        st = c.state()
        p, ctx = c.w.new(st, 'PSC::Procedure'), c.w.new(st, CTX)
        st.ghost.update(p=p, ctx=ctx)
        yield st, [p, ctx]

    def post(self, c, st, out):
        g = st.ghost
        ev = c.events(st, 'run')
        c.ok(st, 'the block of the procedure runs, once', len(ev) == 1 and ev[0][1]['block'].obj == c.w.peek(st, g['p'], 'block').obj)
        if len(ev) != 1:
            return
        h = ev[0][1]['how']
        if h == 'normal':
            c.cover('end')
            return c.ok(st, 'it ends with its block', out[0] == 'ret')
        for k in ('BreakErrSignal', 'ContinueErrSignal'):
            if h.endswith(k):
                c.cover(k)
                return error(c, st, out, 'BREAK or CONTINUE outside of a loop')
        c.cover('other')
        c.ok(st, 'RETURN and errors are passed on', out[0] == 'throw' and out[2] == h)


def copy_parameter(c):
    def h(e, st, a, ins):
        """the implicit copy constructor: memberwise"""
        lib.puts(e, st, a[0], lib.gets(e, st, a[1]))
        for off, n, ty in ((32, 8, ('ptr',)), (40, 4, ('i', 32)), (48, 1, ('i', 8))):
            e.put(st, e.gep_off(a[0], off), e.load_cell(st, e.gep_off(a[1], off), n, ty), n)
        return None
    c.handler(r'^PSC::Parameter::Parameter\(PSC::Parameter const&\)', h)


@target('C04 C11', 'PSC::Procedure::getTypes() const', contracts=copy_parameter, cover=['all'])
class GetTypes:
    class Types(Auto):
        def on(self, eng, st, kind, d):
            if kind != 'push' or self.mode == 'bad':
                return
            c, w, i = eng.c, eng.c.w, self.t['i']
            x = d['elem']
            p = Ptr(self.params, z3.simplify(i * w.L.size(PARAM) + w.L.off(PARAM, 'type')))
            c.ok(st, 'one type for each parameter, in order', z3.And(z3.ULT(i, self.n), d['idx'] == i))
            c.ok(st, 'the type of the parameter', bvt(x[8], 32) == bvt(eng.load_cell(st, eng.gep_off(p, 8), 4, ('i', 32)), 32))
            y = eng.load_cell(st, p, 8, ('ptr',))
            c.ok(st, 'with its name', x[0].null == y.null and (x[0].null or x[0].obj == y.obj))
            self.t = dict(i=z3.simplify(i + 1))

    def setup(self, c):
        st = c.state()
        w = c.w
        p = w.new(st, 'PSC::Procedure')
        n = st.w(p.obj).meta['len:parameters'] = bv('n')
        st.pc.append(z3.ULT(n, lib.BIG))
        sp = st.spec = self.Types('types', i=z3.BitVecVal(0, 64))
        sp.n, sp.params = n, w.peek(st, p, 'parameters').obj
        r = c.e.new(st, 24, 'alloca', name='types')
        st.ghost['r'] = r
        yield st, [r, p]

    def post(self, c, st, out):
        c.ok(st, 'the types are made', out[0] == 'ret')
        if out[0] == 'ret':
            c.cover('all')
            b, n = vec.vector_at(c.e, st, st.ghost['r'])
            c.ok(st, 'of every parameter', z3.And(st.spec.t['i'] == st.spec.n, n == st.spec.n))


def callee_ctor(cls, sig, kind, props):
    class Ctor:
        def setup(self, c):
            st = c.state()
            w = c.w
            full = 'PSC::' + cls
            p, nm = c.e.new(st, w.L.size(full), 'heap', name='raw'), st.add(Obj('nm', 32, 'heap', lambda e_, s_, ob, of, ty: lib.opaque(s_, name='name'), 'std::string', True))
            src = w.new(st, 'PSC::Procedure')
            n = st.w(src.obj).meta['len:parameters'] = bv('n')
            st.pc.append(z3.ULT(n, lib.BIG))
            ps = c.e.gep_off(src, w.L.off('PSC::Procedure', 'parameters'))
            buf = w.peek(st, src, 'parameters').obj
            block, tn, tk, tok = w.new(st, 'PSC::Block'), st.add(Obj('tn', 32, 'heap', None, 'std::string', True)), bv('tk', 32), w.new(st, 'Token')
            st.ghost.update(p=p, nm=nm, n=n, buf=buf, block=block, tn=tn, tk=tk, tok=tok)
            a = [p, nm]
            if kind == 'defined':
                a += [ps, block]
            if cls == 'Function':
                a += [tn, tk]
                if kind == 'defined':
                    a += [tok]
            yield st, a

        def post(self, c, st, out):
            g, w, full = st.ghost, c.w, 'PSC::' + cls
            c.ok(st, 'it is made', out[0] == 'ret')
            if out[0] != 'ret':
                return
            c.cover('made')
            p = g['p']
            P = lambda x: w.peek(st, p, x, full)
            c.ok(st, 'its name', lib.seq(P('name'), lib.gets(c.e, st, g['nm'])))
            b, n = vec.vector_at(c.e, st, c.e.gep_off(p, w.L.off(full, 'parameters')))
            if kind == 'defined':
                c.ok(st, 'its parameters', z3.And(z3.BoolVal(b is not None and b.obj == g['buf']), n == g['n']))
                c.ok(st, 'its block', P('block').obj == g['block'].obj)
            else:
                c.ok(st, 'no parameters yet', n == 0)
                c.ok(st, 'no block', P('block').null)
            if cls == 'Function':
                c.ok(st, 'the type of its result', z3.And(bvt(P('returnType.type'), 32) == g['tk'], z3.BoolVal(P('returnType.name').obj == g['tn'].obj)))
                if kind == 'defined':
                    c.ok(st, 'where it is defined', P('defToken').obj == g['tok'].obj)
    Ctor.__name__ = cls + kind
    target(props, 'PSC::%s::%s(%s)' % (cls, cls, sig), name='PSC::%s::%s %s' % (cls, cls, kind), cover=['made'])(Ctor)


STRP = 'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'
PV = 'std::vector<PSC::Parameter, std::allocator<PSC::Parameter>>&&'
callee_ctor('Procedure', '%s, %s, PSC::Block*' % (STRP, PV), 'defined', 'C04')
callee_ctor('Procedure', STRP, 'builtin', 'C04 C17')
callee_ctor('Function', '%s, %s, PSC::Block*, PSC::DataType, Token const*' % (STRP, PV), 'defined', 'C04 C05 C11')
callee_ctor('Function', '%s, PSC::DataType' % STRP, 'builtin', 'C04 C17')
