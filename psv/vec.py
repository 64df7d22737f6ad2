"""Contracts of std::vector: the header is executed (begin, end, capacity: three pointers), the elements live in a buffer object.

Trusted: growing a vector keeps its elements and yields one more; memory suffices (std::bad_alloc is raised only where the code
under verification asks for more than max_size, and by the contract of Array::init)."""
import re
import z3
from .exec import *
from .exec import norm, number
from . import lib, world
from .ir import Unsupported

RX = re.compile(r'^(?:.*?[&*] )?std::vector<(.*), std::allocator<.*>\s?>::(~?\w+)(<.*>)?\((.*)\)$')


def args_of(d):
    m = re.match(r'^(?:.*?[&*] )?std::vector<', d)
    i = m.end()
    depth, j = 1, i
    while depth:
        depth += {'<': 1, '>': -1}.get(d[j], 0)
        j += 1
    inner = d[i:j - 1]
    depth = 0
    for k, ch in enumerate(inner):
        depth += {'<': 1, '>': -1}.get(ch, 0)
        if ch == ',' and depth == 0:
            inner = inner[:k]
            break
    m = re.match(r'::(~?\w+)', d[j:])
    name = m.group(1)
    rest = d[j + m.end():]
    if rest.startswith('<'):
        depth, k = 1, 1
        while depth:
            depth += {'<': 1, '>': -1}.get(rest[k], 0)
            k += 1
        rest = rest[k:]
    return inner.strip(), name, rest


def header(e, st, v):
    """(begin, end) of the vector at v"""
    return e.load_cell(st, v, 8, ('ptr',)), e.load_cell(st, e.gep_off(v, 8), 8, ('ptr',))


def shortname(t):
    return t.replace('std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>', 'std::basic_string<char>')


def buffer(e, st, v, elem):
    """the buffer of the vector at v, created if it has none"""
    b, end = header(e, st, v)
    if not b.null:
        return b, end
    es = world.elemsize(e.world, elem)
    oid = 'buf:%s+%s' % (v.obj, v.off)
    if oid in st.mem:
        oid += '#%s' % number()
    o = Obj(oid, None, 'vec', world.vec_lazy, elem, False)
    o.meta.update(sym=world.vec_lazy, esize=es, elem=elem, n=None, elems={}, vname=oid, built=(v.obj, v.off))
    st.add(o)
    b = Ptr(oid, 0)
    e.put(st, v, b, 8)
    e.put(st, e.gep_off(v, 8), b, 8)
    return b, b


def length(e, st, v, es):
    b, end = header(e, st, v)
    if b.null:
        return z3.BitVecVal(0, 64)
    q = end.off if es == 1 else (end.off // es if isinstance(end.off, int) else exact_div(z3.simplify(end.off), es))
    if q is None:
        raise Unsupported('length of a vector')
    return lib.b64(q)


def vector_at(e, st, v):
    """(buffer, length) of the vector at v"""
    b, end = header(e, st, v)
    if b.null:
        return None, z3.BitVecVal(0, 64)
    return b, length(e, st, v, st.mem[b.obj].meta['esize'])


def uf(o, c, sort):
    return z3.Function('elem_%s' % world.vname(o) if not c else 'elem_%s_%d' % (world.vname(o), c), z3.BitVecSort(64), sort)


BUILD = {}     # element class -> function(e, st, args, signature) -> {offset: value}


def build(e, st, elem, a, sig):
    """the element made from the arguments of emplace_back / push_back: {offset: value}"""
    if elem.endswith('*'):
        return {0: e.load_cell(st, a[0], 8, ('ptr',))}
    if 'unique_ptr<' in elem:
        p = e.load_cell(st, a[0], 8, ('ptr',))
        if 'unique_ptr' in sig:
            e.put(st, a[0], NULL, 8)
        return {0: p}
    if elem in ('long', 'int_t'):
        return {0: e.load_cell(st, a[0], 8, ('i', 64))}
    if elem.startswith('std::basic_string'):
        if 'char const' in sig and 'basic_string' not in sig:
            return {0: lib.cstr(e, st, a[0])}
        return {0: lib.gets(e, st, a[0])}
    f = BUILD.get(elem)
    if f is None:
        raise Unsupported('vector element ' + elem)
    return f(e, st, a, sig)


def install(eng):
    def handle(e, st, a, ins):
        d = e.dem[e.curname]
        elem, name, sig = args_of(d)
        elem = shortname(elem)
        v = a[0]
        if elem == 'bool':
            if name in ('push_back',):
                e.event(st, 'push', vec=v, buf=None, idx=None, elem={0: a[1]})
                return None
            if name in ('reserve', 'vector', '~vector'):
                return None
            raise Unsupported('vector<bool>::' + name)
        if name in ('push_back', 'emplace_back'):
            el = build(e, st, elem, a[1:], sig)
            b, end = buffer(e, st, v, elem)
            o = st.w(b.obj)
            if o.meta.get('shared'):
                raise Unsupported('a vector that was copied grows')
            if o.meta.get('popped'):
                world.vec_forget(o)
            es = o.meta['esize']
            n = length(e, st, v, es)
            idx = norm(z3.simplify(n), ('i', 64))
            o.meta['elems'] = dict(o.meta['elems'])
            for c, x in el.items():
                o.meta['elems'][(len(o.meta['elems']), c, idx)] = x
                t = x.id if isinstance(x, lib.S) else x
                if isinstance(x, int):
                    t = z3.BitVecVal(x, 64 if elem in ('long', 'int_t') else 32)
                if isz(t) and not z3.is_bool(t):
                    st.pc.append(uf(o, c, t.sort())(n) == t)
            if o.size is not None:
                o.size = norm(z3.simplify(lib.b64(o.size) + es), ('i', 64))
            e.mark(st, v)
            e.put(st, e.gep_off(v, 8), Ptr(b.obj, norm(z3.simplify((n + 1) * es), ('i', 64))), 8)
            e.event(st, 'push', vec=v, buf=b, idx=n, elem=el)
            return Ptr(b.obj, norm(z3.simplify(n * es), ('i', 64)))
        if name == 'reserve':
            es = world.elemsize(e.world, elem)
            n = lib.b64(a[1])
            out = []
            lim = (2 ** 63 - 1) // es
            if not e.decide(st, z3.ULE(n, lim)):
                return [('throw', st, e.new(st, 16, 'exc'), '@_ZTISt12length_error')]
            b, end = buffer(e, st, v, elem)
            if b.obj.startswith('buf:') and same_off(end.off, 0):
                e.put(st, e.gep_off(v, 16), Ptr(b.obj, norm(z3.simplify(n * es), ('i', 64))), 8)
            e.event(st, 'reserve', vec=v, n=n)
            return None
        if name == 'clear':
            b, end = header(e, st, v)
            e.mark(st, v)
            if not b.null:
                e.put(st, e.gep_off(v, 8), b, 8)
                st.w(b.obj).meta['popped'] = True
            e.event(st, 'clear', vec=v)
            return None
        if name in ('erase', 'pop_back'):
            b, end = header(e, st, v)
            if b.null:
                e.ub(st, 'an element is removed from an empty vector')
            o = st.mem[b.obj]
            es = o.meta['esize']
            n = length(e, st, v, es)
            e.safety(st, 'an element is removed from a vector that has one', z3.UGE(n, 1))
            m = z3.simplify(n - 1)
            e.mark(st, v)
            if name == 'pop_back':
                e.put(st, e.gep_off(v, 8), Ptr(b.obj, norm(z3.simplify(m * es), ('i', 64))), 8)
                o = st.w(b.obj)
                last = [(k, x) for k, x in o.meta['elems'].items() if isinstance(x, Ptr) and e.valid(st, lib.b64(k[2]) == m)]
                if last and ('unique_ptr<' in elem or elem.endswith('*')):
                    # the element was added here: it is gone, the others are as they were
                    o.meta['elems'] = {k: x for k, x in o.meta['elems'].items() if all(k != y for y, z in last)}
                    if 'unique_ptr<' in elem:
                        for k, x in last:
                            lib.delete(e, st, x)
                else:
                    o.meta['popped'] = True
                e.event(st, 'pop', vec=v, buf=b, n=m)
                return None
            if not isinstance(a[1], Ptr) or a[1].obj != b.obj:
                raise Unsupported('erase elsewhere')
            q = z3.simplify(z3.UDiv(lib.b64(a[1].off), z3.BitVecVal(es, 64))) if not isz(a[1].off) else exact_div(z3.simplify(a[1].off), es)
            if q is None:
                raise Unsupported('erase')
            e.safety(st, 'the element removed is one of the vector', z3.ULT(q, n))
            # the elements that are left: not tracked
            oid = 'rest%s' % number()
            r = Obj(oid, norm(z3.simplify(m * es), ('i', 64)), 'vec', world.vec_lazy, o.meta['elem'], False)
            r.meta.update(sym=world.vec_lazy, esize=es, elem=o.meta['elem'], n=m, elems={}, vname=oid)
            st.add(r)
            e.put(st, v, Ptr(oid, 0), 8)
            e.put(st, e.gep_off(v, 8), Ptr(oid, norm(z3.simplify(m * es), ('i', 64))), 8)
            e.event(st, 'erase', vec=v, buf=b, idx=q, n=m)
            return Ptr(oid, norm(z3.simplify(q * es), ('i', 64)))
        if name == '~vector':
            b, end = header(e, st, v)
            e.event(st, 'vecfree', vec=v, buf=b)
            if not b.null:
                st.w(b.obj).alive = False
            return None
        raise Unsupported('call of ' + d[:150])

    def copy_ctor(e, st, a, ins):
        """a copy of a vector: as many elements, each equal (the elements are copied by the contracts of strings and plain values)"""
        d = e.dem[e.curname]
        elem, name, sig = args_of(d)
        elem = shortname(elem)
        b, end = header(e, st, a[1])
        n = length(e, st, a[1], st.mem[b.obj].meta['esize']) if not b.null else None
        for k in (0, 8, 16):
            e.put(st, e.gep_off(a[0], k), NULL, 8)
        e.event(st, 'veccopy', vec=a[0], src=a[1], buf=b)
        if b.null:
            return None
        if 'unique_ptr' in elem:
            raise Unsupported('copy of ' + elem)
        o = st.mem[b.obj]
        oid = 'copy%s' % number()
        q = Obj(oid, norm(z3.simplify(n * o.meta['esize']), ('i', 64)), 'vec', world.vec_lazy, o.cls, False)
        q.meta.update({k: v for k, v in o.meta.items() if k not in ('elems', 'built', 'key')})
        q.meta.update(sym=world.vec_lazy, n=n, elems=dict(o.meta.get('elems', {})), vname=oid, copyof=b, shared=True)
        q.meta['as'] = o.meta.get('as') or o.id
        q.cells, q.log = dict(o.cells), o.log
        st.w(b.obj).meta['shared'] = True
        st.add(q)
        e.put(st, a[0], Ptr(oid, 0), 8)
        e.put(st, e.gep_off(a[0], 8), Ptr(oid, q.size), 8)
        e.put(st, e.gep_off(a[0], 16), Ptr(oid, q.size), 8)
        return None
    eng.patterns.insert(0, (re.compile(r'^std::vector<(.*), std::allocator<.*>\s?>::vector\(std::vector<.*> const&\)$'), copy_ctor))
    eng.patterns.insert(0, (re.compile(r'^std::vector<.*>::(erase|pop_back)\('), handle))
    eng.patterns.insert(0, (re.compile(r'^(.*?[&*] )?std::vector<(?!.*std::__normal_iterator).*>::(push_back|emplace_back|reserve|clear|~vector)(<.*>)?\('), handle))


def same_off(a, b):
    return isinstance(a, int) and a == b


def dimension(e, st, a, sig):
    if 'ArrayDimension' in sig:
        f = lambda d, n: e.load_cell(st, e.gep_off(a[0], d), n, ('i', 8 * n))
        return {0: f(0, 4), 8: f(8, 8), 16: f(16, 8)}
    n = e.load_cell(st, a[0], 8, ('i', 64))
    n = n & 0xffffffff if isinstance(n, int) else z3.simplify(z3.Extract(31, 0, n))
    return {0: n, 8: e.load_cell(st, a[1], 8, ('i', 64)), 16: e.load_cell(st, a[2], 8, ('i', 64))}


BUILD['PSC::ArrayDimension'] = dimension
