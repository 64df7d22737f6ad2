"""Abstract objects of the interpreter: lazily materialised instances of the classes of /repo/src, laid out as the compiler
lays them out (clang's record layouts of the current tree), with every scalar field unconstrained."""
import re, subprocess
import z3
from .exec import *
from .exec import norm, _Cur, number
from . import lib
from .ir import Unsupported

SIZES = {}


def parse_layouts(text):
    """-> {class: (size, [(depth, offset, type, name)])}"""
    out = {}
    for blk in text.split('*** Dumping AST Record Layout')[1:]:
        rows, size = [], None
        for l in blk.splitlines():
            m = re.match(r'\s*(\d+)(?::[\d-]+)? \| (\s*)(.*)$', l)
            if m and '<' in m.group(3):
                l = l[:m.start(3)] + re.sub(r'(?<=[<, ])(class|struct) ', '', m.group(3))
                m = re.match(r'\s*(\d+)(?::[\d-]+)? \| (\s*)(.*)$', l)
            if m:
                rows.append((len(m.group(2)) // 2, int(m.group(1)), m.group(3).rstrip()))
            m = re.search(r'\[sizeof=(\d+)', l)
            if m:
                size = int(m.group(1))
        if not rows:
            continue
        head = re.sub(r'^(class|struct|union) ', '', rows[0][2])
        head = re.sub(r' \(empty\)$', '', head)
        out[head] = (size, rows[1:])
    return out


class Layout:
    def __init__(self, text):
        self.raw = parse_layouts(text)
        self._f = {}

    def size(self, cls):
        return self.raw[cls][0]

    def fields(self, cls):
        """[(offset, kind, type, path)]: outermost members; records that are not library types are flattened"""
        if cls in self._f:
            return self._f[cls]
        if cls not in self.raw:
            raise Unsupported('layout of ' + cls)
        out = []
        rows = self.raw[cls][1]
        skip = None
        path = []
        self.owner = getattr(self, 'owner', {})
        own = [(0, cls, 0)]       # (depth, class, offset) of the enclosing embedded records
        for d, off, txt in rows:
            if skip is not None and d > skip:
                continue
            skip = None
            del path[d:]
            while own[-1][0] >= d and len(own) > 1:
                own.pop()
            self.owner[(cls, off)] = own[-1]
            while len(path) < d:
                path.append('')
            if re.match(r'^\(.* vtable pointer\)$', txt):
                out.append((off, 'vptr', txt, '<vptr>'))
                continue
            m = re.match(r'^(class|struct|union) (.*?)( \((primary )?base\))?( \(empty\))?$', txt)
            if m:
                t, base, empty = m.group(2), m.group(3), m.group(5)
                if empty:
                    skip = d
                    continue
                if base:
                    path.append('')
                    if t.startswith('std::'):
                        out.append((off, 'lib', t, '.'.join(x for x in path if x)))
                        skip = d
                    continue
                # 'type name'
                k = max(t.rfind(' '), t.rfind('>') if not t.endswith('>') else -1)
                ty, name = t[:t.rindex(' ')], t[t.rindex(' ') + 1:]
                path.append(name)
                full = '.'.join(x for x in path if x)
                if ty.startswith('std::') or ty.startswith('const std::'):
                    out.append((off, 'lib', ty, full))
                    skip = d
                elif txt.startswith('union'):
                    out.append((off, 'lib', ty, full))
                    skip = d
                else:
                    c = ty.replace('const ', '').strip()
                    own.append((d, c if c in self.raw else 'PSC::' + c, off))
                continue
            if ' ' in txt:
                ty, name = txt[:txt.rindex(' ')], txt[txt.rindex(' ') + 1:]
            else:
                ty, name = txt, ''
            full = '.'.join([x for x in path if x] + [name])
            out.append((off, 'scalar', ty, full))
        self._f[cls] = out
        return out

    def off(self, cls, path):
        for off, k, t, p in self.fields(cls):
            if p == path:
                return off
        # the start of an embedded record
        for off, k, t, p in self.fields(cls):
            if p.startswith(path + '.'):
                return off
        raise Unsupported('no member %s in %s' % (path, cls))

    def at(self, cls, off):
        best = None
        for f in self.fields(cls):
            if f[0] <= off:
                best = f
        return best


KINDS = ['NONE', 'INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE', 'ENUM', 'POINTER', 'COMPOSITE']
VCLS = {'INTEGER': 'PSC::Integer', 'REAL': 'PSC::Real', 'BOOLEAN': 'PSC::Boolean', 'CHAR': 'PSC::Char', 'STRING': 'PSC::String', 'DATE': 'PSC::Date',
        'ENUM': 'PSC::Enum', 'POINTER': 'PSC::Pointer', 'COMPOSITE': 'PSC::Composite'}
ROOTS = {'Node': 'PSC::', }


class World:
    """factories of abstract objects"""

    def __init__(self, eng, layout, consts):
        self.e, self.L, self.K = eng, layout, consts
        eng.world = self
        self.over = {}        # (class, path) -> factory(st, obj, off, ty)
        self.slots = {}
        self.strict = True
        self.T = {n: consts['DataType::' + n] for n in KINDS}
        self.kindname = {v: k for k, v in self.T.items()}
        over = self.over
        over[('PSC::Integer', 'real')] = lambda st, o, off, ty: 0
        over[('PSC::Real', 'real')] = lambda st, o, off, ty: 1
        over[('PSC::Context', 'parent')] = self.context_parent
        over[('NodeResult', 'data')] = self.result_data
        over[('NodeResult', 'type.type')] = self.datatype_kind
        over[('PSC::Variable', 'data')] = self.variable_data
        over[('PSC::Variable', 'ref')] = self.variable_ref
        for c in ('NodeResult', 'PSC::Variable', 'PSC::Array', 'PSC::DataType', 'PSC::Context', 'PSC::Parameter', 'PSC::Function', 'CastNode', 'PSC::PointerTypeDefinition'):
            for p in ('type', 'returnType', 'target', ''):
                q = p + '.' if p else ''
                if not p and c != 'PSC::DataType':
                    continue
                over.setdefault((c, q + 'type'), self.datatype_kind)
                over.setdefault((c, q + 'name'), self.datatype_name)

    # ----- generic
    def new(self, st, cls, kind='heap', world=True, **meta):
        o = Obj('%s%s' % (cls.split('::')[-1], number()), self.L.size(cls) if cls in self.L.raw else None, kind, lazy_field, cls, world, **meta)
        return st.add(o)

    def peek(self, st, p, path, cls=None):
        """current value of a member (materialised if need be)"""
        cls = cls or st.mem[p.obj].cls
        off = self.L.off(cls, path)
        for f in self.L.fields(cls):
            if f[0] == off and f[3] == path:
                break
        else:
            raise Unsupported('member ' + path)
        q = self.e.gep_off(p, off)
        if f[1] == 'lib' and f[2].endswith('basic_string<char>'):
            return lib.gets(self.e, st, q)
        ty = irtype(f)
        return self.e.load_cell(st, q, self.e.mod.size(ty), ty)

    def poke(self, st, p, path, v, cls=None):
        cls = cls or st.mem[p.obj].cls
        off = self.L.off(cls, path)
        f = next(f for f in self.L.fields(cls) if f[3] == path)
        self.e.put(st, self.e.gep_off(p, off), v, 32 if isinstance(v, lib.S) else self.e.mod.size(irtype(f)))

    def vtable(self, st, cls):
        """vtable of an object whose dynamic class is not known: its slots are virtual methods under contract"""
        key = 'VT:' + cls
        if key not in st.mem:
            o = Obj(key, None, 'vtable', vt_lazy, cls)
            o.alive = True
            st.add(o)
        return Ptr(key, 0)

    def slot(self, cls, off):
        if cls not in self.slots:
            self.slots[cls] = names = {}
            best = None
            for g in self.e.mod.globals:
                if not g.startswith('@_ZTV'):
                    continue
                ti = '@_ZTI' + g[5:]
                root = '@_ZTI' + mangle(cls)
                if ti in self.e.mod.globals and root in self.e.bases(ti):
                    v = self.e.mod.ginit(g)[1]
                    if v and v[0] == 'agg':
                        for k, x in enumerate(v[1][0][1][1][2:]):
                            x = x[1]
                            if x[0] == 'global' and 'pure_virtual' not in x[1]:
                                d = self.e.dem.get(x[1], x[1])
                                m = re.search(r'::(~?)(\w+)(?:\[abi:\w+\])?\(', d)
                                if m:
                                    names.setdefault(8 * k, '~%d' % k if m.group(1) else m.group(2))
            if not names:
                raise Unsupported('virtual methods of ' + cls)
        return self.slots[cls].get(off)

    # ----- values and data types
    def datatype_kind(self, st, o, off, ty):
        k = o.meta.get('tkind')
        if k is not None:
            t = self.T[k] if isinstance(k, str) else k
        else:
            t = bv('type', 32)
            st.pc.append(z3.ULE(t, 9))
            if o.cls in ('PSC::Variable', 'PSC::Array', 'PSC::Parameter'):
                st.pc.append(t != self.T['NONE'])     # invariant: storage has a type
        st.w(o.id).meta['kt'] = t
        return t

    def datatype_name(self, st, o, off, ty):
        """name of a type: set exactly for user-defined types"""
        t = self.e.load_cell(st, Ptr(o.id, off + 8), 4, ('i', 32))
        user = [self.T[n] for n in ('ENUM', 'POINTER', 'COMPOSITE')]
        if isz(t):
            if not self.e.decide(st, z3.Or([t == u for u in user])):
                return NULL
        elif t not in user:
            return NULL
        s = self.typename(st, o.id)
        n = Obj('name%s' % number(), 32, 'heap', lambda e, s_, ob, of, ty: s, 'std::string', True)
        return st.add(n)

    USER = ('ENUM', 'POINTER', 'COMPOSITE')

    def typename(self, st, oid):
        """name of the type of a typed object, when it is user-defined"""
        s = st.mem[oid].meta.get('tn')
        if s is None:
            s = st.w(oid).meta['tn'] = lib.opaque(st, name='tname')
        return s

    def typed_value(self, st, oid, k, world, **meta):
        """value object of a typed container: a user-defined value carries the name of the container's type"""
        d = self.value(st, k, world, **meta)
        if k in self.USER:
            st.mem[d.obj].cells[self.L.off(VCLS[k], 'definitionName')] = (self.typename(st, oid), 32)
        return d

    def kind_of(self, st, p, path='type.type'):
        """concrete kind of a typed object; forks"""
        t = self.peek(st, p, path)
        k = self.e.choose(st, t, sorted(self.kindname))
        return self.kindname[k]

    def value(self, st, kind, world=False, **meta):
        p = self.new(st, VCLS[kind], 'heap', world, **meta)
        return p

    def result(self, st, kind=None, **meta):
        """any evaluation result"""
        p = self.new(st, 'NodeResult', 'heap', False, tkind=kind, **meta)
        return p

    def result_data(self, st, o, off, ty):
        # the kind the result had when it was produced
        o = st.mem[o.id]
        if 'kt' not in o.meta:
            self.peek(st, Ptr(o.id, 0), 'type.type')
            o = st.mem[o.id]
        k = self.kindname[self.e.choose(st, o.meta['kt'], sorted(self.kindname))]
        if 'data' in o.meta:
            return o.meta['data']
        d = NULL if k == 'NONE' else self.typed_value(st, o.id, k, False)
        st.w(o.id).meta['data'] = d
        return d

    def variable(self, st, kind=None, **meta):
        return self.new(st, 'PSC::Variable', tkind=kind, **meta)

    def variable_data(self, st, o, off, ty):
        k = self.kind_of(st, Ptr(o.id, 0))
        if k == 'NONE':
            raise Infeasible()
        return self.typed_value(st, o.id, k, True, cell=o.id)

    def variable_ref(self, st, o, off, ty):
        if o.meta.get('noref'):
            return NULL
        if self.e.decide(st, o.meta.setdefault('isref', boolean('isref'))):
            v = self.new(st, 'PSC::Variable', noref=True, tn=self.typename(st, o.id))
            # a reference has the type and constancy of its target
            for f in ('type.type', 'isConstant'):
                self.poke(st, v, f, self.peek(st, Ptr(o.id, 0), f))
            return v
        return NULL

    def context_parent(self, st, o, off, ty):
        """a context has a parent or is the global one; its chain of parents ends in the global context"""
        root = o.meta.get('root')
        if root is None:
            root = st.w(o.id).meta['root'] = bv('root')
        if self.e.decide(st, o.meta.get('isglobal') if o.meta.get('isglobal') is not None else st.w(o.id).meta.setdefault('isglobal', boolean('isglobal'))):
            return NULL
        return self.new(st, 'PSC::Context', root=root)

    def chain(self, st, onload=None):
        """a context and its parents, outwards: element i+1 is the parent of element i, the last one has none"""
        n = bv('depth')
        st.pc.append(z3.And(n != 0, z3.ULT(n, lib.BIG)))
        es = self.L.size('PSC::Context')
        o = Obj('chain%s' % number(), None, 'vec', vec_lazy, 'PSC::Context', True)
        o.meta.update(sym=vec_lazy, esize=es, elem='PSC::Context', n=n, elems={}, vname='chain', chain=True)
        if onload:
            o.meta['onload'] = onload
        o.size = z3.simplify(n * es)
        self.over[('PSC::Context', 'parent@')] = lambda st, o, idx: Ptr(o.id, norm(z3.simplify((lib.b64(idx) + 1) * es), ('i', 64)))
        return st.add(o)

    def chain_field(self, o, path, n):
        f = self.L.off('PSC::Context', path)
        u = z3.Function('elem_%s_%d' % (o.id if hasattr(o, 'id') else o, f), z3.BitVecSort(64), z3.BitVecSort(n))
        return u

    def storage(self, st, v):
        """the value object a variable denotes, following a reference"""
        r = self.peek(st, v, 'ref')
        return self.peek(st, v if r.null else r, 'data')


    def irtype(self, f):
        return irtype(f)


def mangle(cls):
    parts = cls.split('::')
    s = ''.join('%d%s' % (len(p), p) for p in parts)
    return s if len(parts) == 1 else 'N' + s + 'E'


def vt_lazy(eng, st, o, off, ty):
    n = eng.world.slot(o.cls, off)
    if n is None:
        raise Unsupported('virtual slot %d of %s' % (off, o.cls))
    return FnPtr(None, (o.cls, n))


def irtype(f):
    off, k, t, path = f
    if k == 'vptr' or t.rstrip().endswith(('*', '&', '*const')) or '*' in t or '&' in t:
        return ('ptr',)
    if k == 'lib' and (t.startswith('std::unique_ptr') or t.startswith('std::vector')):
        return ('ptr',)
    t = t.replace('const ', '').strip()
    return {'_Bool': ('i', 8), 'char': ('i', 8), 'int': ('i', 32), 'unsigned int': ('i', 32), 'int_t': ('i', 64), 'long': ('i', 64), 'size_t': ('i', 64), 'std::size_t': ('i', 64),
            'real_t': ('double',), 'double': ('double',), 'Type': ('i', 32), 'TokenType': ('i', 32), 'unsigned char': ('i', 8), 'short': ('i', 16)}.get(t, ('i', 32))


ABSTRACT = {'Node', 'AbstractVariableResolver', 'PSC::Value', 'PSC::DataHolder', 'CaseComponent', 'PSC::Procedure', 'PSC::Function', 'PSC::Block', 'ResolverCache', 'PSC::Primitive', 'PSC::Number'}


def lazy_field(eng, st, o, off, ty):
    w = eng.world
    cls = o.cls
    size = None
    base = 0
    f = w.L.at(cls, off - base)
    if f is None:
        raise Unsupported('offset %d of %s' % (off, cls))
    foff, kind, t, path = f
    h = w.over.get((cls, path))
    if h is not None and (foff == off):
        return h(st, o, off, ty)
    oc, oo = w.L.owner[(cls, foff)][1:]
    if oc != cls and foff == off and oc in w.L.raw:
        # member of an embedded object
        sub = next((p for (fo, k, tt, p) in w.L.fields(oc) if fo == foff - oo and k == kind), None)
        h = w.over.get((oc, sub))
        if h is not None and oc not in ('PSC::DataType',):
            return h(st, o, off, ty)
        if kind == 'vptr':
            return eng.gep_off(eng.gobj(st, '@_ZTV' + mangle(oc)), 16)
    if kind == 'vptr' and off == foff:
        if o.meta.get('vcls'):
            return w.vtable(st, o.meta['vcls'])
        if cls in ABSTRACT:
            return w.vtable(st, cls)
        return eng.gep_off(eng.gobj(st, '@_ZTV' + mangle(cls)), 16)
    if kind == 'lib':
        if t.endswith('basic_string<char>'):
            if off == foff and ty == ('str',):
                key = o.meta.get('key')
                if key is not None and path.split('.')[-1] in ('name', 'definitionName', 'value'):
                    # a member of an element of a vector is a function of the position
                    return lib.opaque(st, id=z3.Function('str_%s_%s' % (key[0], path), z3.BitVecSort(64), lib.STRSORT)(key[1]))
                return lib.opaque(st, name=path.split('.')[-1])
            raise Unsupported('raw access to a std::string')
        if re.match(r'(const )?std::unique_ptr<', t) and off == foff:
            return pointee(w, st, o, re.search(r'unique_ptr<(const )?([\w:]+)', t).group(2), path)
        m = re.search(r'std::vector<(.*)>', t)
        if m:
            return vector_field(w, st, o, foff, off - foff, m.group(1), path)
        if 'year_month_day' in t:
            # invariant of DATE values: a calendar day (established by SETDATE, the literals and load, which are under contract)
            d = off - foff
            v = bv('date', {0: 16, 2: 8, 3: 8}[d])
            if d == 0:
                st.pc.append(v != 0x8000)
            else:
                st.pc.append(z3.And(z3.UGE(v, 1), z3.ULE(v, 12 if d == 2 else 31)))
            return v
        raise Unsupported('member %s of %s' % (path, cls))
    it = irtype(f)
    if off != foff:
        if off >= foff + eng.mod.size(it) and (o.size is None or off < o.size):
            return eng.undef(st, ty)      # padding
        raise Unsupported('access inside member %s of %s' % (path, cls))
    if it[0] == 'ptr':
        m = re.match(r'^(const )?(?:class |struct )?([\w:]+) ?(const)?(\*|&)', t.replace('std::string', 'std::string'))
        if not m:
            raise Unsupported('pointer member %s %s' % (t, path))
        return pointee(w, st, o, m.group(2), path)
    if 'Bool' in t:
        b = bv(path.split('.')[-1], 8)
        st.pc.append(z3.ULE(b, 1))
        return b
    return eng.undef(st, ty)


NAMESPACED = ('Context', 'Variable', 'Value', 'Array', 'DataHolder', 'Block', 'Function', 'Procedure', 'File', 'FileManager', 'Date')


def pointee(w, st, o, cls, path):
    if cls in NAMESPACED:
        cls = 'PSC::' + cls
    if cls in ('std::string',):
        n = Obj('s%s' % number(), 32, 'heap', lambda e, s, ob, of, ty: lib.opaque(s, name=path), 'std::string', True)
        return st.add(n)
    if cls in ('std::basic_ofstream', 'std::basic_ifstream'):
        from . import streams
        p = streams.new_stream(w.e, st, 'out' if 'ofs' in cls else 'in', open=boolean('isopen'))
        st.ghost['text'] = dict(st.ghost.get('text', {}), **{lib.skey(p): (lib.lit(b''), 6)})
        return p
    if cls not in w.L.raw:
        raise Unsupported('pointee ' + cls)
    return w.new(st, cls)


ELEM = {}


def vector_field(w, st, o, foff, d, elem, path):
    """begin / end / capacity of a vector of unknown length"""
    e = w.e
    key = 'vec%d' % foff
    n = o.meta.get(key)
    elem = elem.split(', std::allocator')[0].strip()
    if n is None:
        ln = o.meta.get('len:' + path)
        if ln is None:
            ln = bv('n_' + path)
            st.pc.append(z3.ULT(ln, lib.BIG))
        size = elemsize(w, elem)
        buf = Obj('vec%s' % number(), None, 'vec', None, elem, o.world)
        buf.meta.update(sym=vec_lazy, esize=size, elem=elem, n=ln, elems={}, vname='%s.%s' % (o.id, path))
        buf.lazy = vec_lazy
        buf.size = norm(z3.simplify(ln * size), ('i', 64)) if isz(ln) else ln * size
        st.add(buf)
        n = (buf.id, ln, size)
        st.w(o.id).meta[key] = n
        o = st.mem[o.id]
    bid, ln, size = n
    end = norm(z3.simplify(ln * size), ('i', 64)) if isz(ln) else ln * size
    return Ptr(bid, 0) if d == 0 else Ptr(bid, end)


def elemsize(w, elem):
    if elem.endswith('*') or 'unique_ptr<' in elem:
        return 8
    if elem in ('std::basic_string<char>', 'std::string'):
        return 32
    if elem in ('long', 'int_t', 'PSC::int_t'):
        return 8
    if elem in w.L.raw:
        return w.L.size(elem)
    if 'PSC::' + elem in w.L.raw:
        return w.L.size('PSC::' + elem)
    raise Unsupported('vector of ' + elem)


def split_index(eng, off, size, limit=None):
    """off == size*idx + c with 0 <= c < size"""
    if not isz(off):
        return off // size, off % size
    for c in range(0, size, 1 if size < 8 or size > 64 else 4):
        q = exact_div(z3.simplify(off - c), size)
        if q is not None:
            return norm(z3.simplify(q), ('i', 64)), c
    raise Unsupported('index into a vector')


def vec_lazy(eng, st, o, off, ty):
    return vec_sym(eng, st, o, off, eng.mod.size(ty) if ty[0] != 'str' else 32, ty)


def vname(o):
    """name of the contents of a vector (a new one when they were forgotten)"""
    return (o.meta.get('as') or o.id) + o.meta.get('ver', '')


def vec_forget(o):
    """forgets the elements of a vector of plain values (o: writable)"""
    if o.meta['elem'].endswith('*') or 'unique_ptr<' in o.meta['elem'] or 'make' in o.meta or 'onload' in o.meta:
        raise Unsupported('vector of objects whose elements change')
    o.meta['ver'] = 'v%s' % number()
    o.meta['elems'] = {}
    o.meta.pop('popped', None)
    o.cells.clear()
    o.log = ()


def vec_sym(eng, st, o, off, size, ty):
    """element of an abstract vector"""
    w = eng.world
    es = o.meta['esize']
    idx, c = split_index(eng, off, es)
    o = st.w(o.id)
    elems = o.meta['elems'] = dict(o.meta['elems'])
    def get(i):
        for k, v in elems.items():
            if k[1] != c:
                continue
            j = k[2]
            if not isz(i) and not isz(j):
                if i == j:
                    return v
                continue
            eq = z3.simplify(lib.b64(i) == lib.b64(j))
            if z3.is_true(eq):
                return v
            if z3.is_false(eq):
                continue
            if eng.decide(st, eq):
                return v
        return None
    v = get(idx)
    if v is not None:
        return v
    elem = o.meta['elem']
    mk = o.meta.get('make')
    if mk is not None:
        v = mk(eng, st, o, idx, c, ty)
    elif elem.endswith('*') or 'unique_ptr<' in elem:
        cls = re.search(r'unique_ptr<(const )?([\w:]+)', elem).group(2) if 'unique_ptr' in elem else elem.replace('const', '').replace('*', '').strip()
        v = pointee(w, st, o, cls, o.meta['vname'])
        st.w(v.obj).meta['key'] = (o.id, lib.b64(idx))
    elif elem in ('std::basic_string<char>', 'std::string'):
        uf = z3.Function('elem_%s' % vname(o), z3.BitVecSort(64), lib.STRSORT)
        v = lib.opaque(st, id=uf(lib.b64(idx)))
    elif elem in ('long', 'int_t', 'PSC::int_t'):
        v = z3.Function('elem_%s' % vname(o), z3.BitVecSort(64), z3.BitVecSort(64))(lib.b64(idx))
    else:
        cls = elem if elem in w.L.raw else 'PSC::' + elem
        f = w.L.at(cls, c)
        it = irtype(f)
        if f[1] == 'lib' and f[2].endswith('basic_string<char>'):
            v = lib.opaque(st, id=z3.Function('elem_%s_%d' % (vname(o), c), z3.BitVecSort(64), lib.STRSORT)(lib.b64(idx)))
        elif it[0] == 'ptr':
            h = w.over.get((cls, f[3] + '@'))
            v = h(st, o, idx) if h else pointee(w, st, o, re.match(r'^(?:const )?([\w:]+)', f[2]).group(1), f[3])
            if isinstance(v, Ptr) and not v.null:
                st.w(v.obj).meta.setdefault('key', ('%s+%d' % (o.id, c), lib.b64(idx)))
        elif it[0] == 'double':
            v = z3.Function('elem_%s_%d' % (vname(o), c), z3.BitVecSort(64), F64)(lib.b64(idx))
        else:
            v = z3.Function('elem_%s_%d' % (vname(o), c), z3.BitVecSort(64), z3.BitVecSort(it[1]))(lib.b64(idx))
            if f[2].endswith('_Bool'):
                st.pc.append(z3.ULE(v, 1))
            if f[2] == 'Type':
                st.pc.append(z3.ULE(v, 9))
    o = st.w(o.id)
    o.meta['elems'] = dict(o.meta['elems'])
    o.meta['elems'][(len(o.meta['elems']), c, idx)] = v
    if 'onload' in o.meta:
        o.meta['onload'](eng, st, o, idx, c, v)
    return v
