"""Verification condition generator: forward symbolic execution of LLVM IR with contracts at calls, exceptions, and
loops closed by inferred inductive invariants (widening of what changes + Houdini over candidate relations)."""
import os
import re, subprocess, itertools, time
import z3
from . import ir
from .ir import Unsupported

z3.set_param('rewriter.hi_fp_unspecified', False)
F64 = z3.FPSort(11, 53)
RNE = z3.RNE()
BYTE = z3.BitVecSort(8)
_n = itertools.count()


class _Cur:
    """state being executed: names made on behalf of a path are deterministic, so that a step can be executed again after a fork"""
    st = None


def number():
    if _Cur.st is None:
        return 'g%d' % next(_n)
    _Cur.st.nid += 1
    return str(_Cur.st.nid)


def fresh(name, sort):
    return z3.Const('%s!%s' % (name, number()), sort)


def bv(name, n=64):
    return fresh(name, z3.BitVecSort(n))


def boolean(name):
    return fresh(name, z3.BoolSort())


def fp(name):
    return fresh(name, F64)


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)

    @property
    def null(self):
        return self.obj is None


NULL = Ptr(None, 0)


class PtrInt:
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class FnPtr:
    """address of a function, or of a method of an abstract class"""
    __slots__ = ('name', 'virt')

    def __init__(self, name, virt=None):
        self.name, self.virt = name, virt

    null = False
    obj = 'fn'
    off = 0

    def __repr__(self):
        return 'Fn(%s)' % (self.name or self.virt,)


class Obj:
    __slots__ = ('id', 'size', 'kind', 'cells', 'lazy', 'alive', 'cls', 'meta', 'owner', 'world', 'log')

    def __init__(self, id, size=None, kind='heap', lazy=None, cls=None, world=False, **meta):
        self.id, self.size, self.kind, self.lazy, self.cls, self.world = id, size, kind, lazy, cls, world
        self.cells, self.alive, self.meta, self.owner, self.log = {}, True, meta, None, ()

    def clone(self, owner):
        o = Obj.__new__(Obj)
        for k in ('id', 'size', 'kind', 'lazy', 'alive', 'cls', 'world', 'log'):
            setattr(o, k, getattr(self, k))
        o.cells, o.meta, o.owner = dict(self.cells), dict(self.meta), owner
        return o


class Frame:
    __slots__ = ('fn', 'block', 'prev', 'ip', 'regs', 'retreg', 'inv', 'visits', 'sym')

    def __init__(self, fn):
        self.fn, self.block, self.prev, self.ip, self.regs, self.retreg, self.inv, self.visits, self.sym = fn, None, None, 0, {}, None, None, {}, 0

    def clone(self):
        f = Frame(self.fn)
        f.block, f.prev, f.ip, f.regs, f.retreg, f.inv, f.visits, f.sym = self.block, self.prev, self.ip, dict(self.regs), self.retreg, self.inv, dict(self.visits), self.sym
        return f


class Check:
    __slots__ = ('name', 'pc', 'cond', 'widened', 'approx', 'trace')

    def __init__(self, name, pc, cond, widened, approx, trace):
        self.name, self.pc, self.cond, self.widened, self.approx, self.trace = name, pc, cond, widened, approx, trace


class State:
    def __init__(self):
        self.pc, self.mem, self.frames, self.trace, self.spec, self.ghost = [], {}, [], (), None, {}
        self.exc = None
        self.widened = False
        self.approx = ()
        self.checks = ()
        self.nid = 0
        self.writes = ()
        self.stored = ()
        self.token = object()

    def fork(self):
        s = State.__new__(State)
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.frames = [f.clone() for f in self.frames]
        s.trace, s.exc, s.widened, s.approx, s.checks = self.trace, self.exc, self.widened, self.approx, self.checks
        s.spec = self.spec.clone() if self.spec is not None else None
        s.ghost = dict(self.ghost)
        s.nid = self.nid
        s.writes, s.stored = self.writes, self.stored
        s.token = object()
        self.token = object()
        return s

    def w(self, oid):
        o = self.mem[oid]
        if o.owner is not self.token:
            o = o.clone(self.token)
            self.mem[oid] = o
        return o

    def add(self, o):
        o.owner = self.token
        self.mem[o.id] = o
        return Ptr(o.id, 0)


class Snapshot:
    """state at the entry of a loop"""

    def __init__(self, st):
        self.st, self.closed, self.peel = st, False, False


class ForkOn(Exception):
    def __init__(self, conds):
        self.conds = conds


class Infeasible(Exception):
    pass


class Undecided(Exception):
    pass


class Spec:
    """ghost state: mode (concrete) and terms (name -> z3 term), advanced by events"""

    def __init__(self):
        self.mode = 'start'
        self.t = {}

    def clone(self):
        c = self.__class__.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        c.t = dict(self.t)
        return c

    def on(self, eng, st, kind, data):
        pass


def isz(x):
    return isinstance(x, z3.ExprRef)


def mask(n):
    return (1 << n) - 1


def sgn(x, n):
    return x - (1 << n) if x >> (n - 1) else x


DEBUG = os.environ.get('PSV_DEBUG')


def fpclass(x, m):
    x, t = x, []
    neg = z3.fpIsNegative(x)
    for bits, f in ((0x3, z3.fpIsNaN), (0x204, z3.fpIsInf), (0x108, z3.fpIsNormal), (0x90, z3.fpIsSubnormal), (0x60, z3.fpIsZero)):
        b = m & bits
        if not b:
            continue
        if bits == 0x3:
            if b != 3:
                raise Unsupported('is.fpclass of a signalling NaN')
            t.append(f(x))
        elif b == bits:
            t.append(f(x))
        else:
            t.append(z3.And(f(x), neg if b < 0x40 else z3.Not(neg)))
    return z3.simplify(z3.Or(*t))


class Engine:
    def __init__(self, mod, demangled=None, layouts=None, unroll=None, budget=120.0, max_paths=6000):
        self.mod = mod
        self.handlers, self.patterns = {}, []
        self.virt = {}
        self.dem = demangled or {}
        self.lay = layouts or {}
        self.solver = z3.Solver()
        self.solver.set('timeout', 400)
        self.stack = []
        self.unroll = unroll       # None: close loops by widening; k: at most k iterations
        self.globals = {}
        self._hc = {}
        self.deadline = time.time() + budget
        self.max_paths = max_paths
        self.stats = dict(paths=0, queries=0, steps=0, solver=0.0, inlined=set(), contracts=set())
        self.mulfn = None
        self.cmps = None
        self.loopstack, self.invariants, self.candidate_hooks, self.inductive = [], [], [], []
        self.truncated = 0
        self.no_inline = set()
        self.entry_name = None

    # ---------- solver
    def _sync(self, pc):
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k] is pc[k]:
            k += 1
        if k < len(self.stack):
            self.solver.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in pc[k:]:
            self.solver.push()
            self.solver.add(c)
            self.stack.append(c)

    def check(self, pc, *extra, timeout=None):
        self.stats['queries'] += 1
        t = time.time()
        if t > self.deadline:
            raise Undecided('time budget exhausted')
        self._sync(pc)
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set('timeout', 400)
        self.stats['solver'] += time.time() - t
        return r

    def feasible(self, st, c):
        if c is True or c is False:
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(st.pc, c) != z3.unsat

    def valid(self, st, c):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return self.check(st.pc) == z3.unsat
        r = self.check(st.pc, z3.Not(c))
        if r == z3.unknown:
            s = z3.Solver()
            s.set('timeout', 12000)
            s.set('rlimit', 60000000)
            s.add(*st.pc)
            s.add(z3.Not(c))
            t = time.time()
            r = s.check()
            self.stats['solver'] += time.time() - t
        return r == z3.unsat

    def assume(self, st, c):
        if c is True:
            return
        if c is False:
            raise Infeasible()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Infeasible()
        st.pc.append(c)

    def oblige(self, st, name, cond):
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        st.checks = (st.checks, Check(name, list(st.pc), z3.simplify(cond), st.widened, st.approx, st.trace))

    def event(self, st, kind, **data):
        st.trace = (st.trace, (kind, data))
        if st.spec is not None:
            st.spec.on(self, st, kind, data)

    def decide(self, st, c):
        """truth value of c on this path; forks if both are possible"""
        if isinstance(c, (bool, int)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        a = self.check(st.pc, c)
        if a == z3.unsat:
            return False
        b = self.check(st.pc, z3.Not(c))
        if b == z3.unsat:
            return True
        raise ForkOn([c, z3.Not(c)])

    def choose(self, st, term, values):
        """concrete value of term among values"""
        if not isz(term):
            return term
        term = z3.simplify(term)
        if z3.is_bv_value(term):
            return term.as_long()
        ok = [v for v in values if self.check(st.pc, term == v) != z3.unsat]
        if len(ok) == 1:
            return ok[0]
        if not ok:
            raise Infeasible()
        raise ForkOn([term == v for v in ok])

    # ---------- memory
    def new(self, st, size=None, kind='heap', lazy=None, cls=None, world=False, **meta):
        return st.add(Obj('%s%s' % (kind[:1], number()), size, kind, lazy, cls, world, **meta))

    def gobj(self, st, name):
        name = self.alias(name)
        if name in self.mod.funcs or name in self.mod.decls:
            return FnPtr(name)
        oid = '@' + name
        if oid not in st.mem:
            if name not in self.mod.globals:
                raise Unsupported('global ' + name)
            o = Obj(oid, None, 'global', lazy=global_lazy, cls=name)
            st.add(o)
        return Ptr(oid, 0)

    def alias(self, name):
        while name in self.mod.globals:
            g = self.mod.ginit(name)
            if g[0] == 'alias' and g[1][0] == 'global':
                name = g[1][1]
            else:
                break
        return name

    def load(self, st, p, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'struct':
            return [self.load(st, self.gep_off(p, self.mod.field(ty, i)[0]), e) for i, e in enumerate(ty[1])]
        if ty[0] == 'arr':
            return [self.load(st, self.gep_off(p, self.mod.field(ty, i)[0]), ty[2]) for i in range(ty[1])]
        return self.load_cell(st, p, self.mod.size(ty), ty)

    def load_cell(self, st, p, size, ty):
        if isinstance(p, FnPtr) or not isinstance(p, Ptr):
            raise Unsupported('load from ' + repr(p))
        if p.null:
            self.ub(st, 'null pointer dereference')
        o = st.mem.get(p.obj)
        if o is None:
            raise Unsupported('object ' + str(p.obj))
        if not o.alive:
            self.ub(st, 'use of a dead object')
        off = p.off
        if isz(off):
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                off = off.as_long()
        if 'vload' in o.meta:
            return o.meta['vload'](self, st, o, off, size, ty)
        if isz(off):
            return self.load_sym(st, o, off, size, ty)
        if off in o.cells:
            v, s = o.cells[off]
            if s == size:
                return self.retype(st, v, ty)
        for (woff, v, s) in reversed(o.log):
            if s == size and self.decide(st, woff == off):
                return self.retype(st, v, ty)
        if off not in o.cells or o.cells[off][1] != size:
            r = self.compose(st, o, off, size, ty)
            if r is not None:
                return r
        if o.size is not None and not isz(o.size) and not (0 <= off and off + size <= o.size):
            self.ub(st, 'load outside of an object')
        if o.lazy is None:
            v = self.undef(st, ty)
        else:
            v = o.lazy(self, st, o, off, ty)
        st.w(p.obj).cells[off] = (v, size)
        return v

    def load_sym(self, st, o, off, size, ty):
        for (woff, v, s) in reversed(o.log):
            if s == size and self.decide(st, woff == off):
                return self.retype(st, v, ty)
        for c, (v, s) in list(o.cells.items()):
            if s == size and self.feasible(st, off == c) and self.decide(st, off == c):
                return self.retype(st, v, ty)
        n = o.size
        if n is not None:
            self.safety(st, 'load within the object', z3.And(z3.ULE(off, (z3.BitVecVal(n, 64) if not isz(n) else n) - size)))
        f = o.meta.get('sym')
        if f is None:
            raise Unsupported('symbolic offset in %s' % (o.cls or o.kind))
        return f(self, st, o, off, ty)

    def compose(self, st, o, off, size, ty):
        """integer load that covers several cells, or part of one"""
        if ty[0] != 'i':
            return None
        parts, k = [], off
        while k < off + size:
            c = o.cells.get(k)
            if c is None or c[1] > off + size - k:
                break
            if not (isinstance(c[0], int) or (isz(c[0]) and (z3.is_bv(c[0]) or z3.is_bool(c[0])))):
                return None
            v = c[0]
            if isinstance(v, int):
                v = z3.BitVecVal(v, 8 * c[1])
            elif z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8 * c[1]), z3.BitVecVal(0, 8 * c[1]))
            parts.append(v)
            k += c[1]
        else:
            if parts:
                r = parts[0] if len(parts) == 1 else z3.Concat(*reversed(parts))
                if r.size() > ty[1]:
                    r = z3.Extract(ty[1] - 1, 0, r)
                return norm(z3.simplify(r), ty)
        for c, (v, s) in o.cells.items():
            if c <= off and off + size <= c + s and s > size and (isinstance(v, int) or (isz(v) and z3.is_bv(v))):
                x = z3.BitVecVal(v, 8 * s) if isinstance(v, int) else v
                if x.size() != 8 * s:
                    x = z3.ZeroExt(8 * s - x.size(), x)
                lo = 8 * (off - c)
                return norm(z3.simplify(z3.Extract(lo + ty[1] - 1, lo, x)), ty)
        if any(c < off + size and off < c + s for c, (v, s) in o.cells.items()) and o.lazy is None:
            # some bytes are uninitialised padding
            parts = []
            k = off
            while k < off + size:
                c = o.cells.get(k)
                if c is not None and isinstance(c[0], (int, z3.BitVecRef)):
                    v = c[0] if isz(c[0]) else z3.BitVecVal(c[0], 8 * c[1])
                    parts.append(v); k += c[1]
                else:
                    parts.append(bv('pad', 8)); k += 1
            if sum(x.size() for x in parts) == 8 * size:
                return z3.simplify(z3.Concat(*reversed(parts)))
        return None

    def retype(self, st, v, ty):
        if ty[0] == 'i' and ty[1] == 1 and isz(v) and z3.is_bv(v):
            return z3.simplify(z3.Extract(0, 0, v) == 1)
        return v

    def undef(self, st, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            return boolean('undef') if ty[1] == 1 else bv('undef', ty[1])
        if ty[0] == 'double':
            return fp('undef')
        if ty[0] == 'ptr':
            return Ptr('undef', 0)
        if ty[0] in ('struct',):
            return [self.undef(st, e) for e in ty[1]]
        if ty[0] == 'arr':
            return [self.undef(st, ty[2]) for _ in range(ty[1])]
        raise Unsupported('undef ' + str(ty))

    def store(self, st, p, v, ty):
        ty = self.mod.resolve(ty)
        if ty[0] in ('struct', 'arr'):
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            for i in range(n):
                off, e = self.mod.field(ty, i)
                self.store(st, self.gep_off(p, off), v[i], e)
            return
        self.put(st, p, v, self.mod.size(ty))

    def put(self, st, p, v, size):
        if not isinstance(p, Ptr):
            raise Unsupported('store to ' + repr(p))
        if p.null:
            self.ub(st, 'null pointer dereference')
        if p.obj not in st.mem:
            raise Unsupported('store to object ' + str(p.obj))
        if not st.mem[p.obj].alive:
            self.ub(st, 'store into a dead object')
        o = st.w(p.obj)
        off = p.off
        if isz(off):
            off = z3.simplify(off)
            if z3.is_bv_value(off):
                off = off.as_long()
        if 'vstore' in o.meta:
            return o.meta['vstore'](self, st, o, off, v, size)
        st.writes = (st.writes, (o.id, off, size))
        if o.meta.get('watch'):
            o.meta['watch'](self, st, o, off, v, size)
        if isz(off):
            if o.size is not None:
                n = o.size
                self.safety(st, 'store within the object', z3.ULE(off, (z3.BitVecVal(n, 64) if not isz(n) else n) - size))
            o.log = o.log + ((off, v, size),)
            for c in list(o.cells):
                if self.feasible(st, off == c):
                    raise Unsupported('symbolic store over a known cell')
            return
        if o.size is not None and not isz(o.size) and not (0 <= off and off + size <= o.size):
            self.ub(st, 'store outside of an object')
        for c in [c for c, (x, s) in o.cells.items() if c < off + size and off < c + s and (c != off or s != size)]:
            x, s = o.cells.pop(c)
            if isinstance(x, int) or (isz(x) and z3.is_bv(x)):
                X = z3.BitVecVal(x, 8 * s) if isinstance(x, int) else x
                for k in range(s):
                    if not off <= c + k < off + size:
                        o.cells[c + k] = (z3.simplify(z3.Extract(8 * k + 7, 8 * k, X)), 1)
        o.cells[off] = (v, size)

    def mark(self, st, p):
        """the code (not a contract) writes at p"""
        if isinstance(p, Ptr) and p.obj in st.mem and (st.mem[p.obj].world or st.mem[p.obj].kind == 'global'):
            st.stored = (st.stored, p)

    def gep_off(self, p, d):
        if isinstance(d, int) and d == 0:
            return p
        if isinstance(p, FnPtr):
            raise Unsupported('offset from function %r' % (p,))
        o = p.off
        if isinstance(o, int) and isinstance(d, int):
            return Ptr(p.obj, o + d)
        if isinstance(o, int):
            o = z3.BitVecVal(o, 64)
        if isinstance(d, int):
            d = z3.BitVecVal(d, 64)
        return Ptr(p.obj, z3.simplify(o + d))

    def copy(self, st, d, s, n):
        """memcpy of n bytes (concrete)"""
        if isz(n):
            raise Unsupported('memcpy of symbolic size')
        if n == 0:
            return
        self.mark(st, d)
        so = st.mem[s.obj]
        if isz(s.off) or isz(d.off):
            raise Unsupported('memcpy at a symbolic offset')
        if so.lazy is not None and so.kind != 'global':
            self.materialise(st, s, n)
        if so.kind == 'global':
            for i in range(n):
                v = self.load_cell(st, Ptr(s.obj, s.off + i), 1, ('i', 8))
                self.put(st, Ptr(d.obj, d.off + i), v, 1)
            return
        cells = []
        for o, (v, z) in list(st.mem[s.obj].cells.items()):
            if s.off <= o and o + z <= s.off + n:
                cells.append((o, v, z))
            elif o < s.off + n and s.off < o + z:       # part of a cell
                lo, hi = max(o, s.off), min(o + z, s.off + n)
                for k in range(lo, hi):
                    cells.append((k, self.load_part(st, s.obj, k), 1))
        do = st.w(d.obj)
        for c in [c for c, (x, z) in do.cells.items() if c < d.off + n and d.off < c + z]:
            st.writes = (st.writes, (d.obj, c, do.cells[c][1]))
            del do.cells[c]
        for o, v, z in cells:
            self.put(st, Ptr(d.obj, d.off + o - s.off), v, z)

    def load_part(self, st, obj, off):
        r = self.compose(st, st.mem[obj], off, 1, ('i', 8))
        if r is None:
            raise Unsupported('copy of a part of a cell')
        return r

    def materialise(self, st, p, n):
        """loads every field of an abstract object in the n bytes at p"""
        o = st.mem[p.obj]
        if o.kind == 'vec':
            raise Unsupported('memcpy of vector elements')
        for f in self.world.L.fields(o.cls):
            if p.off <= f[0] < p.off + n:
                if f[1] == 'lib' and 'year_month_day' in f[2]:
                    for d, z in ((0, 2), (2, 1), (3, 1)):
                        self.load_cell(st, Ptr(p.obj, f[0] + d), z, ('i', 8 * z))
                    continue
                if f[1] == 'lib':
                    raise Unsupported('memcpy of %s' % f[2])
                ty = self.world.irtype(f)
                self.load_cell(st, Ptr(p.obj, f[0]), self.mod.size(ty), ty)

    # ---------- safety
    def ub(self, st, what):
        self.safety(st, what, False)
        raise Infeasible()

    def safety(self, st, what, cond):
        fn = st.frames[-1].fn.name if st.frames else ''
        self.oblige(st, 'safety: ' + what, cond)
        if cond is not False:
            self.assume(st, cond)

    # ---------- values
    def val(self, st, v, ty, fr=None):
        k = v[0]
        if k == 'reg':
            return (fr or st.frames[-1]).regs[v[1]]
        if k == 'int':
            ty = self.mod.resolve(ty)
            if ty[0] == 'i':
                return v[1] & mask(ty[1])
            return v[1]
        if k == 'fp':
            return z3.FPVal(v[1], F64)
        if k == 'null':
            return NULL
        if k == 'global':
            return self.gobj(st, v[1])
        if k == 'undef':
            return self.undef(st, ty)
        if k == 'zero':
            return self.zero(st, ty)
        if k == 'gep':
            return self.gep(st, v[1], self.val(st, v[2], ('ptr',)), [(t, self.val(st, x, t)) for t, x in v[3]])
        if k == 'agg':
            return [self.val(st, x, t) for t, x in v[1]]
        if k == 'str':
            return list(v[1])
        if k == 'ccast':
            x = self.val(st, v[3], v[2])
            if v[1] == 'ptrtoint':
                return PtrInt(x)
            if v[1] == 'inttoptr' and isinstance(x, PtrInt):
                return x.p
            if v[1] == 'bitcast':
                return x
        raise Unsupported('value ' + str(v)[:80])

    def zero(self, st, ty):
        ty = self.mod.resolve(ty)
        if ty[0] == 'i':
            return 0
        if ty[0] == 'double':
            return z3.FPVal(0.0, F64)
        if ty[0] == 'ptr':
            return NULL
        if ty[0] == 'struct':
            return [self.zero(st, e) for e in ty[1]]
        if ty[0] == 'arr':
            return [self.zero(st, ty[2]) for _ in range(ty[1])]
        raise Unsupported('zero ' + str(ty))

    def gep(self, st, ty, base, idx):
        p = base
        t = ty
        for n, (it, i) in enumerate(idx):
            if n == 0:
                sz = self.mod.size(t)
            else:
                u = self.mod.resolve(t)
                if u[0] == 'struct':
                    off, t = self.mod.field(t, i)
                    p = self.gep_off(p, off)
                    continue
                t = u[2]
                sz = self.mod.size(t)
            if isinstance(i, int):
                p = self.gep_off(p, sgn(i, self.mod.resolve(it)[1]) * sz)
            else:
                if i.size() < 64:
                    i = z3.SignExt(64 - i.size(), i)
                p = self.gep_off(p, z3.simplify(i * sz))
        return p

    def fresh_string(self, st):
        from . import lib
        return lib.opaque(st, name='w_str')

    def dynclass(self, st, p):
        return st.mem[p.obj].cls

    def sameclass(self, A, a, st, b):
        return self.dynclass(A, a) is not None and self.dynclass(A, a) == self.dynclass(st, b)

    def fresh_object(self, st, arg):
        cls, off, root = arg
        return self.gep_off(self.world.new(st, cls, **({} if root is None else dict(root=root))), off)

    def fieldoff(self, cls, name):
        try:
            return self.lay[cls][name]
        except KeyError:
            raise Unsupported('layout of %s::%s' % (cls, name))

    # ---------- exploration
    def call(self, st, name, args):
        """pushes a frame for a defined function"""
        f = self.mod.funcs[name]
        if len(st.frames) > 60:
            raise Unsupported('recursion in ' + name)
        fr = Frame(f)
        for (t, n), v in zip(f.params, args):
            fr.regs[n] = v
        f.blocks
        fr.block = f.entry
        fr.ip = 0
        st.frames.append(fr)

    def explore(self, states, boundary=None):
        """-> terminals [(state, outcome)], arrivals, exits (the last two for a loop boundary)"""
        work = list(states)
        done, arrivals, exits = [], [], []
        while work:
            st = work.pop()
            _Cur.st = st
            try:
                while True:
                    r = self.step(st, boundary)
                    if r is None:
                        continue
                    k, x = r
                    if k == 'fork':
                        work += x
                        break
                    if k == 'done':
                        self.stats['paths'] += 1
                        if self.stats['paths'] > self.max_paths:
                            raise Undecided('too many paths')
                        done.append((st, x))
                        break
                    if k == 'arrive':
                        arrivals.append(st)
                        break
                    if k == 'exit':
                        exits.append(st)
                        break
                    if k == 'widen':
                        todo = [st]
                        while todo:
                            ex, cl = self.close_loop(todo.pop(), boundary)
                            _Cur.st = None
                            done += cl
                            for e in ex:
                                if boundary is not None and self.left(e, boundary):
                                    exits.append(e)
                                    continue
                                fr = e.frames[-1]
                                r = self.at_header(e, boundary) if fr.ip == 0 and fr.prev is not None else None
                                if r is None:
                                    work.append(e)
                                elif r[0] == 'arrive':
                                    arrivals.append(e)
                                else:
                                    todo.append(e)
                        break
            except Infeasible:
                if st.checks:
                    done.append((st, ('infeasible',)))
        _Cur.st = None
        return done, arrivals, exits

    # ---------- loops
    def close_loop(self, st, boundary):
        """the top frame of st came back to a loop header: -> (states that leave the loop, finished states)"""
        fr = st.frames[-1]
        snap = fr.visits[fr.block][1]
        if not snap.peel:
            if snap.closed:
                return [], []
            try:
                r = Loop(self, snap.st).close()
                snap.closed = True
                return r
            except Peel:
                snap.peel = True
        return Loop(self, st).close()

    def left(self, st, boundary):
        depth, fn, header, body = boundary
        if len(st.frames) < depth:
            return True
        return len(st.frames) == depth and st.frames[-1].block not in body

    def goto(self, st, target, boundary):
        fr = st.frames[-1]
        fn = fr.fn
        b = fn.blocks[target]
        prev = fr.block
        vals = []
        for ph in b.phis:
            for v, frm in ph.a['in']:
                if frm == prev:
                    vals.append((ph.res, self.val(st, v, ph.ty)))
                    break
            else:
                raise ir.IRError('phi')
        for r, v in vals:
            fr.regs[r] = v
        fr.prev, fr.block, fr.ip = prev, target, 0
        if boundary is not None and self.left(st, boundary):
            return ('exit', None)       # at_header is called when the state goes on outside
        return self.at_header(st, boundary)

    def at_header(self, st, boundary):
        """the top frame of st has come to its block: what to do if that is the header of a loop"""
        fr = st.frames[-1]
        fn, target, prev = fr.fn, fr.block, fr.prev
        if target in fn.loops:
            body = fn.loops[target]
            if boundary is not None and len(st.frames) == boundary[0] and target == boundary[2] and fn is boundary[1]:
                return ('arrive', None)
            if prev in body:
                rec = fr.visits[target]
                rec = fr.visits[target] = (rec[0] + 1,) + rec[1:]
                n = rec[0]
                if self.unroll is not None:
                    if n > self.unroll and fr.sym > rec[2]:
                        self.truncated += 1
                        raise Infeasible()
                    if n > 400:
                        raise Unsupported('long loop')
                elif fr.sym > rec[2] or n > 300:
                    return ('widen', None)
            else:
                fr.visits[target] = (0, Snapshot(st.fork()) if self.unroll is None else None, fr.sym)
        return None

    def step(self, st, boundary):
        self.stats['steps'] += 1
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block].ins[fr.ip]
        try:
            return self.execute(st, fr, ins, boundary)
        except ForkOn as e:
            for f in st.frames:
                f.sym += 1
            out = []
            for c in e.conds:
                s = st.fork()
                try:
                    self.assume(s, c)
                except Infeasible:
                    continue
                out.append(s)
            if not out:
                raise Infeasible()
            return ('fork', out)

    def execute(self, st, fr, ins, boundary):
        op, a, R = ins.op, ins.a, fr.regs
        if op == 'load':
            R[ins.res] = self.load(st, self.val(st, a['p'], None), ins.ty)
        elif op == 'store':
            self.mark(st, self.val(st, a['p'], None))
            self.store(st, self.val(st, a['p'], None), self.val(st, a['v'], a['t']), a['t'])
        elif op == 'getelementptr':
            R[ins.res] = self.gep(st, a['t'], self.val(st, a['b'], None), [(t, self.val(st, v, t)) for t, v in a['i']])
        elif op == 'alloca':
            n = self.mod.size(ins.ty)
            if a['n']:
                c = self.val(st, a['n'][1], a['n'][0])
                n = n * c
            R[ins.res] = self.new(st, n, 'alloca', name=ins.res)
        elif op in ('call', 'invoke'):
            return self.do_call(st, fr, ins, boundary)
        elif op == 'br':
            if a['c'] is None:
                return self.goto(st, a['t'], boundary)
            c = self.val(st, a['c'], ('i', 1))
            t = self.decide(st, c if not isinstance(c, int) else bool(c))
            return self.goto(st, a['t'] if t else a['f'], boundary)
        elif op == 'switch':
            x = self.val(st, a['x'], a['t'])
            n = self.mod.resolve(a['t'])[1]
            if not isz(x):
                for v, l in a['cases']:
                    if v & mask(n) == x:
                        return self.goto(st, l, boundary)
                return self.goto(st, a['d'], boundary)
            conds = [x == (v & mask(n)) for v, l in a['cases']]
            conds.append(z3.And([x != (v & mask(n)) for v, l in a['cases']]) if a['cases'] else z3.BoolVal(True))
            ok = [i for i, c in enumerate(conds) if self.feasible(st, z3.simplify(c))]
            if not ok:
                raise Infeasible()
            if len(ok) > 1:
                raise ForkOn([conds[i] for i in ok])
            return self.goto(st, a['cases'][ok[0]][1] if ok[0] < len(a['cases']) else a['d'], boundary)
        elif op == 'ret':
            v = None if a['v'] is None else self.val(st, a['v'], ins.ty)
            return self.do_return(st, v, boundary)
        elif op == 'unreachable':
            self.ub(st, 'unreachable code reached')
        elif op == 'resume':
            return self.unwind(st, boundary)
        elif op == 'landingpad':
            ptr, ti = st.exc
            sel = 0
            for c in a['clauses']:
                if c[0] == 'null':
                    sel = self.typeid('*'); break
                if self.derives(ti, c[1]):
                    sel = self.typeid(c[1]); break
            if sel == 0 and not a['cleanup']:
                st.frames.pop()
                return self.unwind(st, boundary, pop=False)
            R[ins.res] = [ptr, sel]
        elif op == 'extractvalue':
            v = self.val(st, a['x'], a['t'])
            for i in a['i']:
                v = v[i]
            R[ins.res] = v
        elif op == 'insertvalue':
            v = list(self.val(st, a['x'], ins.ty))
            if len(a['i']) != 1:
                raise Unsupported('insertvalue')
            v[a['i'][0]] = self.val(st, a['v'], a['et'])
            R[ins.res] = v
        elif op == 'phi':
            pass
        elif op == 'select':
            c = self.val(st, a['c'], ('i', 1))
            x, y = self.val(st, a['x'], ins.ty), self.val(st, a['y'], ins.ty)
            if isz(c) and not isinstance(x, (Ptr, FnPtr)) and not isinstance(y, (Ptr, FnPtr)):
                ty = self.mod.resolve(ins.ty)
                R[ins.res] = z3.simplify(z3.If(c, self.term(x, ty), self.term(y, ty)))
            else:
                R[ins.res] = x if self.decide(st, c if isz(c) else bool(c)) else y
        elif op == 'freeze':
            R[ins.res] = self.val(st, a['x'], ins.ty)
        elif op in ('icmp', 'fcmp'):
            R[ins.res] = self.compare(st, op, a['p'], self.val(st, a['x'], a['t']), self.val(st, a['y'], a['t']), a['t'])
        elif op in ir.BINOPS:
            R[ins.res] = self.binop(st, op, self.val(st, a['x'], ins.ty), self.val(st, a['y'], ins.ty), self.mod.resolve(ins.ty), a['fl'])
        elif op in ir.CASTS:
            R[ins.res] = self.cast(st, op, self.val(st, a['x'], a['ft']), self.mod.resolve(a['ft']), self.mod.resolve(ins.ty))
        elif op == 'fneg':
            R[ins.res] = z3.fpNeg(self.val(st, a['x'], ins.ty))
        else:
            raise Unsupported('instruction ' + op)
        fr.ip += 1
        return None

    def term(self, x, ty):
        if isz(x):
            return x
        if isinstance(x, (bool, int)):
            return z3.BoolVal(bool(x)) if ty[1] == 1 else z3.BitVecVal(x, ty[1])
        raise Unsupported('term of ' + repr(x))

    def binop(self, st, op, x, y, ty, fl):
        if op[0] == 'f':
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}.get(op)
            if f is None:
                raise Unsupported(op)
            return f(RNE, x, y)
        n = ty[1]
        if isinstance(x, PtrInt) or isinstance(y, PtrInt):
            if op == 'sub' and isinstance(x, PtrInt) and isinstance(y, PtrInt):
                if x.p.obj == y.p.obj:
                    a, b = x.p.off, y.p.off
                    if isinstance(a, int) and isinstance(b, int):
                        return (a - b) & mask(64)
                    return z3.simplify((a if isz(a) else z3.BitVecVal(a, 64)) - (b if isz(b) else z3.BitVecVal(b, 64)))
            raise Unsupported('integer arithmetic on addresses')
        if not isz(x) and not isz(y):
            sx, sy = sgn(x, n), sgn(y, n)
            if op in ('udiv', 'urem', 'sdiv', 'srem') and y == 0:
                self.ub(st, 'division by zero')
            if op == 'add':
                r = x + y
            elif op == 'sub':
                r = x - y
            elif op == 'mul':
                r = x * y
            elif op == 'udiv':
                r = x // y
            elif op == 'urem':
                r = x % y
            elif op == 'sdiv':
                r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            elif op == 'srem':
                r = abs(sx) % abs(sy) * (-1 if sx < 0 else 1)
            elif op == 'shl':
                r = x << y
            elif op == 'lshr':
                r = x >> y
            elif op == 'ashr':
                r = sx >> y
            elif op == 'and':
                r = x & y
            elif op == 'or':
                r = x | y
            else:
                r = x ^ y
            return r & mask(n)
        X, Y = self.term(x, ty), self.term(y, ty)
        if n == 1:
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if r is None:
                raise Unsupported(op + ' i1')
            return z3.simplify(r(X, Y))
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if isz(y):
                self.safety(st, 'no division by zero', Y != 0)
                if op in ('sdiv', 'srem'):
                    self.safety(st, 'no overflow in division', z3.Not(z3.And(Y == mask(n), X == z3.BitVecVal(1 << (n - 1), n))))
            if op in ('sdiv', 'udiv') and not isz(y):
                q = exact_div(X, y)
                if q is not None:
                    return q
        if op == 'mul' and self.mulfn is not None and n == 64 and isz(x) and isz(y):
            return self.mulfn(X, Y)
        r = {'add': lambda: X + Y, 'sub': lambda: X - Y, 'mul': lambda: X * Y, 'udiv': lambda: z3.UDiv(X, Y), 'sdiv': lambda: X / Y,
             'urem': lambda: z3.URem(X, Y), 'srem': lambda: z3.SRem(X, Y), 'shl': lambda: X << Y, 'lshr': lambda: z3.LShR(X, Y), 'ashr': lambda: X >> Y,
             'and': lambda: X & Y, 'or': lambda: X | Y, 'xor': lambda: X ^ Y}[op]()
        return norm(z3.simplify(r), ty)

    def compare(self, st, op, p, x, y, ty):
        if op == 'fcmp':
            a, b = x, y
            un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
            base = {'eq': z3.fpEQ(a, b), 'gt': z3.fpGT(a, b), 'ge': z3.fpGEQ(a, b), 'lt': z3.fpLT(a, b), 'le': z3.fpLEQ(a, b),
                    'ne': z3.And(z3.Not(un), z3.Not(z3.fpEQ(a, b))), 'rd': z3.Not(un), 'no': un}
            if p == 'ord':
                return z3.Not(un)
            if p == 'uno':
                return un
            c = base[p[1:]]
            if p[0] == 'u':
                c = z3.Or(un, c) if p != 'une' else z3.Not(z3.fpEQ(a, b))
            return z3.simplify(c)
        if isinstance(x, PtrInt):
            x = x.p
        if isinstance(y, PtrInt):
            y = y.p
        if isinstance(x, (Ptr, FnPtr)) or isinstance(y, (Ptr, FnPtr)):
            return self.ptrcmp(st, p, x, y)
        ty = self.mod.resolve(ty)
        n = ty[1]
        if not isz(x) and not isz(y):
            sx, sy = sgn(x, n), sgn(y, n)
            return int({'eq': x == y, 'ne': x != y, 'ult': x < y, 'ule': x <= y, 'ugt': x > y, 'uge': x >= y, 'slt': sx < sy, 'sle': sx <= sy, 'sgt': sx > sy, 'sge': sx >= sy}[p])
        X, Y = self.term(x, ty), self.term(y, ty)
        if n == 1:
            r = X == Y if p == 'eq' else X != Y
            return z3.simplify(r)
        if self.cmps is not None:
            self.cmps.append((X, Y))
        r = {'eq': lambda: X == Y, 'ne': lambda: X != Y, 'ult': lambda: z3.ULT(X, Y), 'ule': lambda: z3.ULE(X, Y), 'ugt': lambda: z3.UGT(X, Y), 'uge': lambda: z3.UGE(X, Y),
             'slt': lambda: X < Y, 'sle': lambda: X <= Y, 'sgt': lambda: X > Y, 'sge': lambda: X >= Y}[p]()
        return norm(z3.simplify(r), ('i', 1))

    def ptrcmp(self, st, p, x, y):
        x, y = (NULL if not isz(v) and not isinstance(v, (Ptr, FnPtr)) and v == 0 else v for v in (x, y))
        if not isinstance(x, (Ptr, FnPtr)) or not isinstance(y, (Ptr, FnPtr)):
            raise Unsupported('comparison of pointer and integer')
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            same = isinstance(x, FnPtr) and isinstance(y, FnPtr) and (x.name, x.virt) == (y.name, y.virt)
            return int(same == (p == 'eq'))
        if x.obj == 'undef' or y.obj == 'undef':
            raise Unsupported('comparison of an uninitialised pointer')
        if x.obj == y.obj:
            a, b = x.off, y.off
            if isinstance(a, int) and isinstance(b, int):
                return int({'eq': a == b, 'ne': a != b, 'ult': a < b, 'ugt': a > b, 'ule': a <= b, 'uge': a >= b}[p])
            A = a if isz(a) else z3.BitVecVal(a, 64)
            B = b if isz(b) else z3.BitVecVal(b, 64)
            if self.cmps is not None:
                self.cmps.append((A, B))
            return norm(z3.simplify({'eq': A == B, 'ne': A != B, 'ult': z3.ULT(A, B), 'ugt': z3.UGT(A, B), 'ule': z3.ULE(A, B), 'uge': z3.UGE(A, B)}[p]), ('i', 1))
        if p not in ('eq', 'ne'):
            raise Unsupported('ordering of unrelated pointers')
        ox, oy = st.mem.get(x.obj), st.mem.get(y.obj)
        for a, o, b in ((x, ox, y), (y, oy, x)):
            if b.null and o is not None and o.meta.get('chain'):
                # the position after the last element of a chain stands for the null pointer
                off = a.off if isz(a.off) else z3.BitVecVal(a.off, 64)
                end = o.size if isz(o.size) else z3.BitVecVal(o.size, 64)
                if self.cmps is not None:
                    self.cmps.append((off, end))
                r = z3.simplify(off == end)
                return norm(r if p == 'eq' else z3.simplify(z3.Not(r)), ('i', 1))
        kx = ox.meta.get('key') if ox is not None else None
        ky = oy.meta.get('key') if oy is not None else None
        if kx is not None and ky is not None and kx[0] == ky[0]:
            e = z3.simplify(kx[1] == ky[1])
            return e if p == 'eq' else z3.simplify(z3.Not(e))
        return int(p == 'ne')

    def cast(self, st, op, x, ft, tt):
        if op == 'ptrtoint':
            return PtrInt(x) if not (isinstance(x, Ptr) and x.null) else 0
        if op == 'inttoptr':
            if isinstance(x, PtrInt):
                return x.p
            if x == 0:
                return NULL
            raise Unsupported('inttoptr')
        if op == 'bitcast':
            return x
        if op in ('sitofp', 'uitofp'):
            if not isz(x):
                return z3.FPVal(sgn(x, ft[1]) if op == 'sitofp' else x, F64)
            if z3.is_bool(x):
                x = z3.If(x, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
            return z3.fpSignedToFP(RNE, x, F64) if op == 'sitofp' else z3.fpUnsignedToFP(RNE, x, F64)
        if op == 'fptosi':
            return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(tt[1]))
        if op in ('fpext', 'fptrunc'):
            if ft[0] == 'double' and tt[0] == 'double':
                return x
            raise Unsupported(op)
        if not isz(x):
            if isinstance(x, PtrInt):
                raise Unsupported('cast of an address')
            if op == 'sext':
                return sgn(x, ft[1]) & mask(tt[1])
            return x & mask(tt[1])
        if op == 'trunc':
            if tt[1] == 1:
                return norm(z3.simplify(z3.Extract(0, 0, x) == 1), tt)
            return norm(z3.simplify(z3.Extract(tt[1] - 1, 0, x)), tt)
        if ft[1] == 1:
            if op == 'zext':
                return z3.simplify(z3.If(x, z3.BitVecVal(1, tt[1]), z3.BitVecVal(0, tt[1])))
            return z3.simplify(z3.If(x, z3.BitVecVal(mask(tt[1]), tt[1]), z3.BitVecVal(0, tt[1])))
        return norm(z3.simplify((z3.ZeroExt if op == 'zext' else z3.SignExt)(tt[1] - ft[1], x)), tt)

    # ---------- calls and exceptions
    def typeid(self, name):
        return self._hc.setdefault(('tid', name), len([k for k in self._hc if k[0] == 'tid']) + 1)

    def bases(self, ti):
        r = [ti]
        while ti in self.mod.globals:
            t, v = self.mod.ginit(ti)
            if v is None or v[0] != 'agg' or len(v[1]) < 3:
                break
            b = v[1][2][1]
            if b[0] != 'global':
                break
            ti = b[1]
            r.append(ti)
        return r

    def derives(self, ti, base):
        return base in self.bases(ti)

    def unwind(self, st, boundary, pop=True):
        if pop:
            st.frames.pop()
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn.blocks[fr.block].ins[fr.ip]
            if ins.op == 'invoke':
                r = self.goto(st, ins.a['unwind'], boundary)
                if boundary is not None and r is None and self.left(st, boundary):
                    return ('exit', None)
                return r
            st.frames.pop()
        return ('done', ('throw',) + st.exc)

    def throw(self, st, boundary):
        """the current instruction of the top frame raises st.exc"""
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block].ins[fr.ip]
        if ins.op == 'invoke':
            return self.goto(st, ins.a['unwind'], boundary)
        st.frames.pop()
        return self.unwind(st, boundary, pop=False)

    def do_return(self, st, v, boundary):
        st.frames.pop()
        if not st.frames:
            return ('done', ('ret', v))
        return self.resume_call(st, v, boundary)

    def resume_call(self, st, v, boundary):
        fr = st.frames[-1]
        ins = fr.fn.blocks[fr.block].ins[fr.ip]
        if ins.res:
            fr.regs[ins.res] = v
        if ins.op == 'invoke':
            r = self.goto(st, ins.a['normal'], boundary)
        else:
            fr.ip += 1
            r = None
        if r is None and boundary is not None and self.left(st, boundary):
            return ('exit', None)
        return r

    def do_call(self, st, fr, ins, boundary):
        a = ins.a
        f = a['f']
        if f[0] == 'global':
            name = f[1]
            if name.startswith('@llvm.'):
                return self.intrinsic(st, fr, ins, name, boundary)
            callee = FnPtr(self.alias(name))
        else:
            callee = self.val(st, f, ('ptr',))
        args = [self.val(st, v, t) for t, v in a['args']]
        if not isinstance(callee, FnPtr):
            raise Unsupported('indirect call')
        if callee.virt is not None:
            h = self.virt.get(callee.virt)
            if h is None:
                raise Unsupported('virtual call %s::%s' % callee.virt)
            key = '%s::%s' % callee.virt
        else:
            h = self.handler(callee.name)
            key = callee.name
        if h is not None:
            self.stats['contracts'].add(self.dem.get(key, key))
            self.curname = key
            pre = st.fork()   # a handler may fork after having changed the state
            try:
                r = h(self, st, args, ins)
            except ForkOn:
                st.__dict__.update(pre.__dict__)
                raise
            return self.finish(st, r, boundary)
        if callee.name in self.mod.funcs:
            self.stats['inlined'].add(self.dem.get(callee.name, callee.name))
            self.call(st, callee.name, args)
            return None
        raise Unsupported('call of ' + self.dem.get(callee.name, callee.name))

    def finish(self, st, r, boundary):
        """r: a value, or a list of outcomes ('ret', state, value) / ('throw', state, pointer, typeinfo) / ('end', state, outcome)"""
        if not (isinstance(r, list) and r and isinstance(r[0], tuple) and r[0][0] in ('ret', 'throw', 'end')):
            return self.resume_call(st, r, boundary)
        for o in r:
            o[1].nid = max(o[1].nid, st.nid)
        if len(r) > 1:
            for o in r:
                for f in o[1].frames:
                    f.sym += 1
        if len(r) == 1 and r[0][1] is st:
            return self.deliver(st, r[0], boundary)
        return ('fork', [self.pend(o) for o in r])

    def pend(self, o):
        s = o[1]
        s.ghost['pending'] = (o[0],) + o[2:]
        return s

    def deliver(self, st, o, boundary):
        if o[0] == 'ret':
            return self.resume_call(st, o[2], boundary)
        if o[0] == 'throw':
            st.exc = (o[2], o[3])
            return self.throw(st, boundary)
        return ('done', o[2])

    def handler(self, name):
        if name in self.handlers:
            return self.handlers[name]
        d = self.dem.get(name, name)
        h = None
        for rx, f in self.patterns:
            if rx.search(d):
                h = f
                break
        self.handlers[name] = h
        return h

    def intrinsic(self, st, fr, ins, name, boundary):
        a = ins.a['args']
        v = lambda i: self.val(st, a[i][1], a[i][0])
        n = name[6:]
        r = None
        if n.startswith('lifetime'):
            p = v(1)
            if isinstance(p, Ptr) and p.obj in st.mem and st.mem[p.obj].kind == 'alloca' and st.mem[p.obj].cells:
                o = st.w(p.obj)
                for c, (x, s) in o.cells.items():
                    st.writes = (st.writes, (p.obj, c, s))
                o.cells = {}
        elif n.startswith(('dbg', 'assume', 'experimental.noalias', 'invariant', 'stacksave', 'stackrestore', 'donothing', 'prefetch')):
            pass
        elif n.startswith(('memcpy', 'memmove')):
            self.copy(st, v(0), v(1), v(2))
        elif n.startswith('memset'):
            p, b, k = v(0), v(1), v(2)
            if isz(k):
                raise Unsupported('memset')
            o = st.w(p.obj)
            for c in [c for c in o.cells if p.off <= c < p.off + k]:
                del o.cells[c]
            st.writes = (st.writes, (p.obj, p.off, k))
            i = 0
            while i < k and b == 0:
                if k - i >= 8:
                    o.cells[p.off + i] = (ZERO8, 8); i += 8
                else:
                    o.cells[p.off + i] = (0, 1); i += 1
            if b != 0:
                raise Unsupported('memset')
        elif n.startswith('eh.typeid.for'):
            g = a[0][1][1]
            r = self.typeid(g)
        elif n.startswith('trap'):
            self.ub(st, 'trap')
        elif n.startswith('expect'):
            r = v(0)
        elif n.startswith('is.constant'):
            r = 0
        elif n.startswith('fabs'):
            r = z3.fpAbs(v(0))
        elif n.startswith('floor'):
            r = z3.fpRoundToIntegral(z3.RTN(), v(0))
        elif n.startswith('threadlocal'):
            r = v(0)
        elif n.startswith(('umax', 'umin', 'smax', 'smin')):
            x, y = v(0), v(1)
            ty = self.mod.resolve(ins.ty)
            X, Y = self.term(x, ty), self.term(y, ty)
            c = {'umax': z3.UGE(X, Y), 'umin': z3.ULE(X, Y), 'smax': X >= Y, 'smin': X <= Y}[n[:4]]
            r = norm(z3.simplify(z3.If(c, X, Y)), ty)
        elif re.match(r'[us](add|sub|mul)\.with\.overflow', n):
            x, y = v(0), v(1)
            ty = a[0][0]
            if isz(x) or isz(y):
                ty = self.mod.resolve(ty)
                if n.startswith('umul'):
                    X, Y = self.term(x, ty), self.term(y, ty)
                    if self.mulfn is not None and isz(x) and isz(y):
                        r = [self.mulfn(X, Y), self.mulover(X, Y)]
                    else:
                        r = [norm(z3.simplify(X * Y), ty), z3.simplify(z3.Not(z3.BVMulNoOverflow(X, Y, False)))]
                    if ins.res:
                        fr.regs[ins.res] = r
                    fr.ip += 1
                    return None
                raise Unsupported(n)
            z = {'add': x + y, 'sub': x - y, 'mul': x * y}[n[1:4]]
            r = [z & mask(ty[1]), int(z != z & mask(ty[1]))]
        elif n.startswith('is.fpclass'):
            r = fpclass(self.term(v(0), self.mod.resolve(a[0][0])), v(1))
        else:
            raise Unsupported('intrinsic ' + n)
        if ins.res:
            fr.regs[ins.res] = r
        if ins.op == 'invoke':
            return self.goto(st, ins.a['normal'], boundary)
        fr.ip += 1
        return None


ZERO8 = 0


class Peel(Exception):
    pass


def same(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isz(a) or isz(b):
        return False
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj == b.obj and same(a.off, b.off)
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return (a.name, a.virt) == (b.name, b.virt)
    if hasattr(a, 'lit') and hasattr(b, 'lit'):
        return a.lit is not None and a.lit == b.lit or (a._id is not None and b._id is not None and a._id.eq(b._id))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


def asbv(x, n):
    return x if isz(x) else z3.BitVecVal(x, n)


class Loop:
    """inductive closure of a loop from the state `entry` at its header"""

    def __init__(self, eng, entry):
        self.e, self.entry = eng, entry
        fr = entry.frames[-1]
        self.depth, self.fn, self.header = len(entry.frames), fr.fn, fr.block
        self.body = fr.fn.loops[fr.block]
        self.boundary = (self.depth, self.fn, self.header, self.body)
        self.W = {}         # location -> kind
        self.dropped = set()
        self.cands = None
        self.cmps = []
        self.forgot = set()         # what is known about streams (ghost state) that an iteration changes

    # locations: ('reg', name) ('mem', obj, off, size) ('spec', name)
    def read(self, st, loc):
        if loc[0] == 'reg':
            return st.frames[self.depth - 1].regs[loc[1]]
        if loc[0] == 'spec':
            return st.spec.t[loc[1]]
        if loc[0] == 'buf':
            return None
        o = st.mem[loc[1]]
        c = o.cells.get(loc[2])
        if c is not None and c[1] == loc[3]:
            return c[0]
        return None

    def write(self, st, loc, v):
        if loc[0] == 'reg':
            st.frames[-1].regs[loc[1]] = v
        elif loc[0] == 'spec':
            st.spec.t[loc[1]] = v
        elif loc[0] == 'buf':
            from .world import vec_forget
            o = st.w(loc[1])
            vec_forget(o)
            o.meta['popped'] = True
        else:
            o = st.w(loc[1])
            for c in [c for c, (x, s) in o.cells.items() if c < loc[2] + loc[3] and loc[2] < c + s]:
                del o.cells[c]
            if v is not None:
                o.cells[loc[2]] = (v, loc[3])

    def close(self):
        e = self.e
        if len(e.loopstack) > 6:
            raise Unsupported('deeply nested loops')
        e.loopstack.append(self)
        saved = e.cmps
        try:
            for rnd in range(40):
                A = self.abstract()
                e.cmps = []
                done, arr, exits = e.explore([A.fork()], self.boundary)
                self.cmps = e.cmps
                if self.grow(A, arr):
                    continue
                if self.filter(A, arr):
                    continue
                self.induct([self.entry.fork()] + arr)
                if saved is not None:
                    saved += self.cmps
                return exits, done + [(a, ('loop-closed',)) for a in arr]
            raise Undecided('no loop invariant found')
        finally:
            e.cmps = saved
            e.loopstack.pop()

    def abstract(self):
        """the entry state with every location of W forgotten, the surviving candidate invariants assumed"""
        A = self.entry.fork()
        _Cur.st = A
        A.widened = True
        for kind, k in self.forgot:
            g = dict(A.ghost.get(kind, {}))
            g.pop(k, None)
            A.ghost[kind] = g
        A.writes = ()
        self.vals = {}
        for loc, (kind, arg) in self.W.items():
            v = self.havoc(A, loc, kind, arg)
            self.vals[loc] = v
            self.write(A, loc, v)
        if self.cands is None:
            self.cands = self.candidates(A)
        for name, f in self.cands:
            if name not in self.dropped:
                c = f(lambda loc: self.vals[loc])
                if c is not None:
                    A.pc.append(z3.simplify(c))
        for f in self.e.invariants:
            f(self.e, self, A)
        for f in self.e.inductive:
            A.pc.append(f(self.e, A))
        _Cur.st = None
        return A

    def induct(self, states):
        """the invariants over whole states hold there"""
        for st in states:
            _Cur.st = st
            for f in self.e.inductive:
                if not self.e.valid(st, f(self.e, st)):
                    raise Undecided('a required invariant is not kept by the loop')
        _Cur.st = None

    def havoc(self, A, loc, kind, arg):
        e = self.e
        n = 'w_%s' % '_'.join(str(x) for x in loc[1:3])
        if kind == 'bv':
            return bv(n, arg)
        if kind == 'bool':
            return boolean(n)
        if kind == 'fp':
            return fp(n)
        if kind == 'vecptr':
            obj, es = arg
            return Ptr(obj, z3.simplify(bv(n) * es) if es > 1 else bv(n))
        if kind == 'str':
            return e.fresh_string(A)
        if kind in ('fresh', 'buf'):
            return None
        if kind == 'poison':
            return Ptr('undef', 0)
        if kind == 'obj':
            return e.fresh_object(A, arg)
        raise Unsupported('loop changes a ' + kind)

    def kind(self, a, b, loc, A, st):
        """how to forget a location that held a at entry and b when the loop came back"""
        e = self.e
        if loc[0] == 'mem':
            o = A.mem[loc[1]]
            if a is None and o.lazy is not None:
                return ('fresh', None)
        if b is None:
            return ('fresh', None)
        if hasattr(b, 'lit') or hasattr(a, 'lit'):
            return ('str', None)
        if isinstance(b, Ptr) and isinstance(a, Ptr):
            if a.obj == b.obj and a.obj is not None:
                o = A.mem.get(a.obj)
                return ('vecptr', (a.obj, (o.meta.get('esize') if o is not None else 1) or 1))
            oa, ob = A.mem.get(a.obj), st.mem.get(b.obj)
            if oa is not None and ob is not None and oa.cls and e.sameclass(A, a, st, b):
                root = oa.meta.get('root')
                return ('obj', (e.dynclass(st, b), b.off, root if root is not None and root is ob.meta.get('root') else None))
            if a.null and loc[0] == 'mem' and ob is not None and ob.kind == 'vec' and ob.meta.get('built'):
                if DEBUG: print('PEEL buffer', loc)
                raise Peel()      # the vector has no buffer yet
            return self.poison(loc, A, a, b)
        if isinstance(b, (Ptr, FnPtr, PtrInt)) or isinstance(a, (Ptr, FnPtr, PtrInt)):
            return self.poison(loc, A, a, b)
        for x in (a, b):
            if isz(x):
                if z3.is_fp(x):
                    return ('fp', None)
                if z3.is_bool(x):
                    return ('bool', None)
                if z3.is_bv(x):
                    return ('bv', x.size())
        if isinstance(b, (int, bool)):
            if loc[0] == 'mem':
                return ('bv', 8 * loc[3])
            if loc[0] == 'reg':
                ty = next(self.e.mod.resolve(p.ty) for p in self.fn.blocks[self.header].phis if p.res == loc[1])
                return ('bool', None) if ty[1] == 1 else ('bv', ty[1])
            return ('bv', 64)
        if b is None and a is None:
            return ('fresh', None)
        raise Unsupported('loop changes %r' % (b,))

    def poison(self, loc, A, a, b):
        """a pointer that is not the same in every iteration and must not be used before it is set again"""
        if loc[0] in ('reg', 'spec'):
            return ('poison', None)
        if loc[0] == 'mem' and A.mem[loc[1]].lazy is None:
            return ('poison', None)
        raise Unsupported('loop changes a pointer (%s to %s)' % (a, b))

    def grow(self, A, arrivals):
        new = {}
        forget = set()
        for st in arrivals:
            for kind in ('text', 'fs'):
                g, h = A.ghost.get(kind, {}), st.ghost.get(kind, {})
                for k, x in g.items():
                    y = h.get(k)
                    if x is not y and not (kind == 'fs' and all(same(x.get(n), y.get(n)) for n in set(x) | set(y))):
                        forget.add((kind, k))
            if st.spec is not None and st.spec.mode != A.spec.mode:
                if DEBUG: print('PEEL', self.header, A.spec.mode, st.spec.mode)
                raise Peel()
            for ph in self.fn.blocks[self.header].phis:
                loc = ('reg', ph.res)
                if loc not in self.W:
                    a, b = self.read(A, loc), self.read(st, loc)
                    if not same(a, b):
                        new[loc] = self.kind(a, b, loc, A, st)
            if st.spec is not None:
                for k in st.spec.t:
                    loc = ('spec', k)
                    if loc not in self.W:
                        a, b = A.spec.t.get(k), st.spec.t[k]
                        if a is None:
                            if DEBUG: print('PEEL', self.header, k, st.spec.t[k])
                            raise Peel()
                        if not same(a, b):
                            new[loc] = self.kind(a, b, loc, A, st)
            t = st.writes
            seen = set()
            while t:
                t, (obj, off, size) = t
                if obj not in A.mem or ('buf', obj) in self.W:
                    continue
                if st.mem[obj].kind == 'vec' and st.mem[obj].meta.get('elem') in ('long', 'int_t', 'std::basic_string<char>'):
                    new[('buf', obj)] = ('buf', None)
                    continue
                if isz(off):
                    raise Unsupported('loop stores at a varying offset')
                if (obj, off, size) in seen:
                    continue
                seen.add((obj, off, size))
                loc = ('mem', obj, off, size)
                if loc in self.W or any(w[0] == 'mem' and w[1] == obj and w[2] <= off and off + size <= w[2] + w[3] for w in self.W):
                    continue
                a, b = self.read(A, loc), self.read(st, loc)
                if a is not None and b is not None and same(a, b):
                    continue
                if not st.mem[obj].alive:
                    continue
                new[loc] = self.kind(a, b, loc, A, st)
            for oid, o in A.mem.items():
                if o.kind == 'vec' and st.mem[oid].meta.get('popped') and not o.meta.get('popped') and ('buf', oid) not in self.W:
                    new[('buf', oid)] = ('buf', None)
                if o.alive and not st.mem[oid].alive and o.kind != 'alloca':
                    # an object that existed before the loop is destroyed in it: it must not be reachable any more, which the
                    # pointer to it being forgotten ensures
                    if not any(k == 'obj' for k, x in list(self.W.values()) + list(new.values())):
                        raise Unsupported('loop destroys an object')
        if new or forget:
            self.forgot |= forget
            self.W.update(new)
            self.cands = None
            self.dropped = set()
            return True
        return False

    def scalar(self, loc, v):
        """the bit vector a location stands for in candidate invariants"""
        kind, arg = self.W[loc]
        if kind == 'vecptr':
            o = v.off
            if arg[1] > 1:
                q = exact_div(o, arg[1]) if isz(o) else (z3.BitVecVal(o // arg[1], 64) if o % arg[1] == 0 else None)
                if q is None:
                    raise Unsupported('pointer not at an element')
                return asbv(q, 64)
            return asbv(o, 64)
        if kind == 'bv':
            return asbv(v, arg)
        if kind == 'bool':
            return v if isz(v) else z3.BoolVal(bool(v))
        return v

    def candidates(self, A):
        e, out = self.e, []
        scal = [l for l, (k, a) in self.W.items() if k in ('bv', 'vecptr')]
        entry = {l: self.scalar(l, self.read(self.entry, l)) for l in scal if self.read(self.entry, l) is not None}
        scal = [l for l in scal if l in entry]
        width = lambda l: entry[l].size()
        S = lambda get, l: self.scalar(l, get(l))
        for i, l in enumerate(scal):
            for m in scal[:i]:
                if width(l) == width(m):
                    out.append(('%s-%s step' % (l, m), lambda g, l=l, m=m: S(g, l) - entry[l] == S(g, m) - entry[m]))
            out.append(('%s>=s' % (l,), lambda g, l=l: S(g, l) >= entry[l]))
            out.append(('%s>=u' % (l,), lambda g, l=l: z3.UGE(S(g, l), entry[l])))
            out.append(('%s<=s' % (l,), lambda g, l=l: S(g, l) <= entry[l]))
            if self.W[l][0] == 'vecptr':
                o = self.entry.mem[self.W[l][1][0]]
                n = o.meta.get('n')
                if n is not None:
                    out.append(('%s<=len' % (l,), lambda g, l=l, n=n: z3.ULE(S(g, l), asbv(n, 64))))
        # equal locations (also a memory cell and a term of the specification)
        for i, l in enumerate(self.W):
            for m in list(self.W)[:i]:
                kl, km = self.W[l], self.W[m]
                if kl[0] == km[0] and kl[0] in ('bv', 'fp', 'bool') and kl[1] == km[1]:
                    a, b = self.read(self.entry, l), self.read(self.entry, m)
                    if a is not None and b is not None:
                        out.append(('%s=%s' % (l, m), lambda g, l=l, m=m: self.scalar(l, g(l)) == self.scalar(m, g(m))))
        for l, (k, a) in self.W.items():
            x = self.read(self.entry, l)
            if k in ('bool',) or (k == 'bv' and a <= 8):
                if x is not None:
                    out.append(('%s const' % (l,), lambda g, l=l, x=x: self.scalar(l, g(l)) == self.scalar(l, x)))
            if k == 'bv' and a == 8:
                out.append(('%s bool' % (l,), lambda g, l=l: z3.ULE(self.scalar(l, g(l)), 1)))
        # comparisons made in the loop
        names = {}
        for l in scal:
            if l in self.vals:
                t = self.scalar(l, self.vals[l])
                if z3.is_const(t):
                    names[t.decl().name()] = l
        fresh_names = {v for loc in self.vals for v in consts_of(self.vals[loc])}
        have = set()
        for X, Y in self.cmps:
            for x, y in ((X, Y), (Y, X)):
                if z3.is_const(x) and not z3.is_bv_value(x) and x.decl().name() in names:
                    l = names[x.decl().name()]
                    cy = consts_of(y)
                    if cy & fresh_names:
                        if z3.is_const(y) and y.decl().name() in names:
                            m = names[y.decl().name()]
                            if width(l) == width(m) and (l, m) not in have:
                                have.add((l, m))
                                for n, r in RELS:
                                    out.append(('%s %s %s' % (l, n, m), lambda g, l=l, m=m, r=r: r(S(g, l), S(g, m))))
                        continue
                    if (l, y.get_id()) in have or y.size() != width(l):
                        continue
                    if not self.known(y):
                        continue
                    have.add((l, y.get_id()))
                    for n, r in RELS:
                        out.append(('%s %s #%d' % (l, n, y.get_id()), lambda g, l=l, y=y, r=r: r(S(g, l), y)))
        nr = [str(l) for l in self.entry.ghost.get('norel', ())]      # locations of which only the hooks speak
        if nr:
            out = [(n, f) for n, f in out if not any(l in n for l in nr)]
        for f in self.e.candidate_hooks:
            out += f(self.e, self, A)
        ok = []
        _Cur.st = self.entry
        g0 = lambda loc: self.read(self.entry, loc)
        for name, f in out:
            try:
                c = f(g0)
                if c is not None and self.e.valid(self.entry, c):
                    ok.append((name, f))
            except (Unsupported, TypeError, AttributeError, z3.Z3Exception):
                pass
        return ok

    def known(self, y):
        """every symbol of y exists at the entry"""
        if not hasattr(self, '_names'):
            self._names = set()
            for c in self.entry.pc:
                self._names |= consts_of(c)
            for o in self.entry.mem.values():
                for v, s in o.cells.values():
                    self._names |= consts_of(v)
                n = o.meta.get('n')
                if n is not None:
                    self._names |= consts_of(n)
            for f in self.entry.frames:
                for v in f.regs.values():
                    self._names |= consts_of(v)
        return consts_of(y) <= self._names

    def filter(self, A, arrivals):
        bad = False
        first = not getattr(self, 'seeded', False)
        if first and self.cmps:
            # comparisons are known only after the first exploration
            self.seeded = True
            self.cands = None
            self.dropped = set()
            self.vals = dict(self.vals)
            return True
        for st in arrivals:
            for name, f in self.cands:
                if name in self.dropped:
                    continue
                try:
                    c = f(lambda loc: self.read(st, loc))
                    ok = c is None or self.e.valid(st, c)
                except (Unsupported, TypeError, AttributeError, z3.Z3Exception) as x:
                    ok = False
                    if DEBUG: print('EXC', name, type(x), x)
                if not ok:
                    if DEBUG:
                        print('DROP', self.header, name, [str(x)[:60] for x in st.pc[-4:]])
                        if DEBUG is not True and re.search(DEBUG, name):
                            s = z3.Solver()
                            s.set('timeout', 20000)
                            s.add(*st.pc)
                            s.add(z3.Not(c))
                            print(c, s.check(), [str(x) for x in st.pc])
                            if s.check() == z3.sat: print(s.model())
                    self.dropped.add(name)
                    bad = True
        return bad


RELS = [('<=s', lambda x, y: x <= y), ('<s', lambda x, y: x < y), ('>=s', lambda x, y: x >= y), ('>s', lambda x, y: x > y),
        ('<=u', z3.ULE), ('<u', z3.ULT), ('>=u', z3.UGE), ('>u', z3.UGT)]


_consts = {}


def consts_of(v):
    if isinstance(v, Ptr):
        return consts_of(v.off)
    if not isz(v):
        return set()
    i = v.get_id()
    if i in _consts and _consts[i][0].eq(v):
        return _consts[i][1]
    out, work, seen = set(), [v], set()
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            work += x.children()
    _consts[i] = (v, out)
    return out


_step = Engine.step


def step(self, st, boundary):
    o = st.ghost.pop('pending', None)
    if o is not None:
        return self.deliver(st, (o[0], st) + o[1:], boundary)
    return _step(self, st, boundary)


Engine.step = step


def norm(r, ty):
    if z3.is_bv_value(r):
        return r.as_long()
    if z3.is_true(r):
        return 1
    if z3.is_false(r):
        return 0
    return r


def exact_div(X, y):
    """quotient of a term that is syntactically a multiple of y, for sizes (assumed not to overflow)"""
    if z3.is_app_of(X, z3.Z3_OP_BMUL):
        ch = X.children()
        if z3.is_bv_value(ch[0]) and ch[0].as_long() == y:
            r = ch[1]
            for c in ch[2:]:
                r = r * c
            return r
    if z3.is_app_of(X, z3.Z3_OP_CONCAT):   # simplify turns 8*x into concat(extract(60,0,x), 000)
        ch = X.children()
        if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0 and (1 << ch[-1].size()) == y and len(ch) == 2:
            e = ch[0]
            if z3.is_app_of(e, z3.Z3_OP_EXTRACT) and e.params()[1] == 0 and e.children()[0].size() == X.size():
                return e.children()[0]
    if z3.is_app_of(X, z3.Z3_OP_BADD):
        q = [exact_div(c, y) if not z3.is_bv_value(c) else (z3.BitVecVal((sgn(c.as_long(), c.size()) // y), c.size()) if sgn(c.as_long(), c.size()) % y == 0 else None) for c in X.children()]
        if all(x is not None for x in q):
            r = q[0]
            for c in q[1:]:
                r = r + c
            return r
    return None


FLAGS = ('@REPLMode', '@pedantic', 'REPLMode', 'pedantic')


def global_lazy(eng, st, o, off, ty):
    """initial contents of a constant; other globals are symbolic"""
    name = o.cls
    t, v = eng.mod.ginit(name)
    if not eng.mod.isconst(name):
        r = eng.undef(st, ty)
        if eng.dem.get(name, name) in FLAGS or name in FLAGS:
            st.pc.append(z3.ULE(r, 1))
        return r
    def find(t, v, off):
        u = eng.mod.resolve(t)
        if v is None:
            return None
        if v[0] == 'zero':
            return ('zero', ty)
        if u[0] == 'struct' and v[0] == 'agg':
            for i, e in enumerate(u[1]):
                fo, et = eng.mod.field(t, i)
                if fo <= off < fo + eng.mod.size(et):
                    return find(et, v[1][i][1], off - fo)
            return None
        if u[0] == 'arr':
            es = eng.mod.size(u[2])
            if v[0] == 'str':
                return ('int', v[1][off]) if off < len(v[1]) else None
            if v[0] == 'agg':
                return find(u[2], v[1][off // es][1], off % es)
            return None
        if off == 0:
            return v
        return None
    r = find(t, v, off)
    if r is None:
        return eng.undef(st, ty)
    return eng.val(st, r, ty)
