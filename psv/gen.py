"""Typed random programs.  G(rng, **weights).program() -> list of statements (psv.lang)."""
from .lang import *
from .lang import S
from . import lang

PRIM = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']
ALPHA = 'aZ0 .-#"\'\\x'
DATES = [(1, 1, 2000), (29, 2, 2024), (31, 12, 1999), (15, 6, 2021), (28, 2, 1900), (1, 3, 2000)]


class Ent:
    __slots__ = ('name', 'type', 'bounds', 'const', 'res')

    def __init__(self, name, type, bounds=None, const=False, res=False):
        self.name, self.type, self.bounds, self.const, self.res = name, type, bounds, const, res


class G:
    DEFAULT = dict(size=18, depth=3, edepth=3, err=0.03, procs=2, funcs=2, types=1, arrays=1, files=0, rand_files=0, ptrs=0, loops=1,
                   cases=1, inputs=0, brk=0.15, recursion=1, consts=1, undeclared=0.1, casts=1, elseif=1, prims=PRIM, shadow=0.25, local_types=0.3,
                   pedantic=False)

    def __init__(self, rng, **kw):
        self.r = rng
        self.o = dict(self.DEFAULT, **kw)
        if self.o['pedantic']:
            self.o.update(brk=0, casts=0, elseif=0, undeclared=0)
        self.types = {}          # name -> ('enum', names) | ('ptr', T) | ('rec', [(n, T, bounds)])
        self.glob = {}
        self.loc = None
        self.procs, self.funcs = {}, {}
        self.n = 0
        self.loop = 0
        self.infn = None
        self.openf = {}
        self.pend = []
        self.fuel = 400
        self.hoist = None

    def fresh(self, p):
        self.n += 1
        return p + str(self.n)

    def p(self, x):
        return self.r.random() < x

    def pick(self, l):
        return l[int(self.r.random() * len(l))]

    # ---- types
    def anytype(self, user=True):
        l = list(self.o['prims'])
        u = list(self.types)
        if user and u and self.p(0.4):
            return self.pick(u)
        return self.pick(l)

    def kind(self, t):
        return self.types[t][0] if t in self.types else 'prim'

    def deftype(self, local=False):
        k = self.r.random()
        n = self.fresh('T')
        if k < 0.4:
            names = [self.fresh('E') for _ in range(self.r.randint(1, 5))]
            self.types[n] = ('enum', names)
            return deftype(n, enum=names)
        if k < 0.4 + 0.3 * (self.o['ptrs'] > 0):
            t = self.anytype()
            self.types[n] = ('ptr', t)
            return deftype(n, ptr=t)
        fs, d = [], []
        for i in range(self.r.randint(1, 4)):
            t = self.anytype()
            f = 'f%d' % i
            if self.p(0.3):
                b = [(1, self.r.randint(1, 3))]
                if self.p(0.3):
                    b.append((0, 1))
                fs.append((f, t, b))
                d.append(declarr(f, b, t))
            else:
                fs.append((f, t, None))
                d.append(declare(f, t))
        self.types[n] = ('rec', fs)
        return deftype(n, rec=d)

    # ---- names in scope
    def ents(self):
        if self.loc is None:
            return list(self.glob.values())
        l = list(self.loc.values())
        return l + [e for e in self.glob.values() if e.name not in self.loc]

    def index(self, bounds):
        r = self.r
        out = []
        for l, u in bounds:
            if self.p(self.o['err'] * 0.3):
                out.append(I(self.pick([l - 1, u + 1])))
            elif self.p(0.25):
                c = [e for e in self.ents() if e.res and e.type == 'INTEGER' and e.bounds is None]
                if c and l <= 1 <= u:
                    out.append(B('+', B('MOD', V(self.pick(c).name), I(u - max(l, 0) + 1)), I(max(l, 0))))
                    continue
                out.append(I(r.randint(l, u)))
            else:
                out.append(I(r.randint(l, u)))
        return out

    def paths(self, lv, t, depth=0):
        """lvalues reachable from a value of type t"""
        yield lv, t
        if depth > 2:
            return
        k = self.kind(t)
        if k == 'rec':
            for n, ft, b in self.types[t][1]:
                x = ('fld', lv, n)
                if b:
                    x = ('idx', x, self.index(b))
                for y in self.paths(x, ft, depth + 1):
                    yield y
        elif k == 'ptr' and self.p(0.15):
            for y in self.paths(('deref', lv), self.types[t][1], depth + 1):
                yield y

    def lvs(self, t, write=False):
        out = []
        for e in self.ents():
            if write and (e.const or e.res):
                continue
            base = ('id', e.name)
            if e.bounds:
                base = ('idx', base, self.index(e.bounds))
            if e.type == t:
                out.append(base)
            elif self.kind(e.type) in ('rec', 'ptr'):
                out += [x for x, y in self.paths(base, e.type) if y == t]
        return out

    def lv(self, t, write=False):
        l = self.lvs(t, write)
        return self.pick(l) if l else None

    # ---- expressions
    def lit(self, t):
        r = self.r
        if t == 'INTEGER':
            n = r.choice([0, 1, 2, 3, 5, 7, 10, r.randint(0, 100), r.randint(0, 1 << 40), (1 << 63) - 1]) if self.p(0.3) else r.randint(0, 9)
            return I(n)
        if t == 'REAL':
            return ('real', r.choice(['0.0', '0.5', '1.5', '2.25', '3.0', '10.125', '0.1', '1000000.5', '123456.789']))
        if t == 'BOOLEAN':
            return ('bool', self.p(0.5))
        if t == 'CHAR':
            return ('char', self.pick(ALPHA))
        if t == 'STRING':
            return ('str', ''.join(self.pick(ALPHA) for _ in range(r.randint(0, 5))))
        if t == 'DATE':
            return ('date',) + self.pick(DATES)
        k = self.kind(t)
        if k == 'enum':
            return V(self.pick(self.types[t][1]))
        return None

    def expr(self, t, d=None):
        """expression of type t, or None"""
        d = self.o['edepth'] if d is None else d
        r = self.r
        if self.p(self.o['err'] * 0.05):
            t = self.pick(PRIM)
        k = self.kind(t)
        if k in ('rec', 'ptr'):
            l = self.lvs(t)
            f = [n for n, (ps, rt) in self.funcs.items() if rt == t]
            if f and (not l or self.p(0.3)) and d > 0:
                return self.fncall(self.pick(f), d)
            return ('var', self.pick(l)) if l else None
        x = r.random()
        if d <= 0 or x < 0.35:
            l = self.lv(t) if self.p(0.7) else None
            return ('var', l) if l else self.lit(t)
        f = [n for n, (ps, rt) in self.funcs.items() if rt == t]
        if f and self.p(0.2):
            return self.fncall(self.pick(f), d)
        e = self.expr
        if k == 'enum':
            b = e('INTEGER', d - 1)
            return B(self.pick(['+', '-']), e(t, d - 1) or self.lit(t), b) if self.p(0.8) else B('+', b, e(t, d - 1) or self.lit(t))
        if t == 'INTEGER':
            c = r.random()
            if c < 0.55:
                return B(self.pick('+-*'), e(t, d - 1), e(t, d - 1))
            if c < 0.68:
                dv = I(r.randint(1, 9)) if not self.p(self.o['err']) else I(0)
                a = e(t, d - 1)
                if self.p(0.5):
                    return B(self.pick(['DIV', 'MOD']), a, dv)
                return ('dm', self.pick(['DIV', 'MOD']), a, dv)
            if c < 0.75:
                return ('neg', e(t, d - 1))
            if c < 0.82:
                return ('fn', 'LENGTH', [e('STRING', d - 1)])
            if c < 0.86:
                return ('fn', 'ASC', [e('CHAR', d - 1)])
            if c < 0.9:
                return ('fn', self.pick(['DAY', 'MONTH', 'YEAR', 'DAYINDEX']), [e('DATE', d - 1)]) if 'DATE' in self.o['prims'] else self.lit(t)
            if c < 0.94:
                return ('fn', 'INT', [e('REAL', d - 1)])
            if self.o['casts']:
                return ('cast', 'INTEGER', e(self.pick(['REAL', 'BOOLEAN', 'CHAR', 'STRING']), d - 1))
            return self.lit(t)
        if t == 'REAL':
            c = r.random()
            if c < 0.5:
                a, b = self.pick([('REAL', 'REAL'), ('REAL', 'INTEGER'), ('INTEGER', 'REAL')])
                return B(self.pick('+-*'), e(a, d - 1), e(b, d - 1))
            if c < 0.7:
                return B('/', e(self.pick(['INTEGER', 'REAL']), d - 1), I(r.randint(1, 9)))
            if c < 0.8:
                return ('neg', e(t, d - 1))
            if c < 0.9 and self.o['casts']:
                return ('cast', 'REAL', e(self.pick(['INTEGER', 'BOOLEAN', 'STRING']), d - 1))
            return ('fn', 'STR_TO_NUM', [e('STRING', d - 1)])
        if t == 'BOOLEAN':
            c = r.random()
            if c < 0.5:
                a = self.pick(['INTEGER', 'REAL', 'CHAR', 'DATE', 'STRING', 'BOOLEAN'] + [n for n in self.types if self.kind(n) == 'enum'])
                if a in PRIM and a not in self.o['prims']:
                    a = 'INTEGER'
                b = a
                if a in ('INTEGER', 'REAL') and self.p(0.3):
                    b = self.pick(['INTEGER', 'REAL'])
                ops = ['=', '<>', '<', '<=', '>', '>='] if a in ('INTEGER', 'REAL', 'CHAR', 'DATE') else ['=', '<>']
                x, y = e(a, d - 1), e(b, d - 1)
                return B(self.pick(ops), x, y) if x and y else self.lit(t)
            if c < 0.8:
                return B(self.pick(['AND', 'OR']), e(t, d - 1), e(t, d - 1))
            if c < 0.95:
                return ('not', e(t, d - 1))
            return ('fn', 'IS_NUM', [e('STRING', d - 1)])
        if t == 'CHAR':
            c = r.random()
            if c < 0.5:
                return ('fn', self.pick(['LCASE', 'UCASE']), [e('CHAR', d - 1)])
            if c < 0.8:
                return ('fn', 'CHR', [I(r.randint(32, 126))])
            return self.lit(t)
        if t == 'STRING':
            c = r.random()
            if c < 0.6:
                ts = [self.pick(['STRING', 'STRING', 'CHAR', 'INTEGER', 'BOOLEAN', 'REAL', 'DATE']) for _ in range(2)]
                ts = [x if x in self.o['prims'] else 'STRING' for x in ts]
                return B('&', e(ts[0], d - 1), e(ts[1], d - 1))
            if c < 0.75:
                return ('fn', self.pick(['TO_UPPER', 'TO_LOWER']), [e('STRING', d - 1)])
            if c < 0.85:
                s = B('&', e('STRING', d - 1), ('str', 'abc'))
                f = self.pick(['LEFT', 'RIGHT', 'MID'])
                return ('fn', f, [s, I(r.randint(1, 3))] + ([I(r.randint(0, 1))] if f == 'MID' else []))
            if c < 0.92 and self.o['casts']:
                return ('cast', 'STRING', e(self.pick(['INTEGER', 'REAL', 'BOOLEAN', 'CHAR']), d - 1))
            return ('fn', 'NUM_TO_STR', [e('REAL', d - 1)])
        if t == 'DATE':
            if self.p(0.4):
                return ('fn', 'SETDATE', [I(r.randint(1, 28)), I(r.randint(1, 12)), I(r.randint(1600, 2400))])
            return self.lit(t)
        return self.lit(t)

    def args(self, ps, d):
        out = []
        for mode, n, t in ps:
            if mode == 'BYREF':
                l = self.lv(t, True)
                if l is None:
                    return None
                out.append(('var', l))
            else:
                u = t
                if t == 'REAL' and self.p(0.3):
                    u = 'INTEGER'
                if t == 'STRING' and self.p(0.2):
                    u = 'CHAR'
                x = self.expr(u, d)
                if x is None:
                    return None
                out.append(x)
        if self.p(self.o['err'] * 0.5):
            if out and self.p(0.5):
                out.pop()
            else:
                out.append(I(1))
        return out

    def fncall(self, f, d):
        ps, rt = self.funcs[f]
        a = self.args(ps, d - 1)
        if a is None:
            x = self.lit(rt)
            if x is None:
                l = self.lv(rt)
                x = ('var', l) if l else ('fn', f, [])
            return x
        return ('fn', f, a)

    # ---- statements
    def scope(self):
        return self.glob if self.loc is None else self.loc

    def decl(self, t=None):
        t = t or self.anytype()
        n = self.fresh('v')
        if self.loc is not None and self.p(self.o['shadow']):
            c = [x for x in self.glob if x not in self.loc]
            if c:
                n = self.pick(c)
        if self.hoist is not None and n in self.scope():
            return [self.outstmt()]
        if self.o['arrays'] and self.p(0.25):
            b = [(self.r.randint(-1, 1), self.r.randint(1, 3)) for _ in range(1 + self.p(0.3))]
            s = declarr(n, b, t)
            self.scope()[n] = Ent(n, t, b)
            if self.hoist is not None:
                self.hoist.append(s)
                return [self.outstmt()]
            return [s]
        self.scope()[n] = Ent(n, t)
        out = [declare(n, t)]
        if self.hoist is not None:
            self.hoist += out
            out = []
        if self.p(0.6) or self.kind(t) == 'ptr':
            a = self.assign(('id', n), t)
            if a:
                out.append(a)
        return out or [self.outstmt()]

    def assign(self, lv, t):
        if self.kind(t) == 'ptr' and self.p(0.7):
            v = self.lv(self.types[t][1], True)
            if v and not (v[0] == 'id' and v == lv):
                return ptrassign(lv, v)
        u = t
        if t == 'REAL' and self.p(0.3):
            u = 'INTEGER'
        elif t == 'STRING' and self.p(0.2):
            u = 'CHAR'
        elif self.p(self.o['err'] * 0.4):
            u = self.anytype()
        e = self.expr(u)
        return assign(lv, e) if e else None

    def dump(self, lv, t, limit=8):
        """expressions showing every part of a value"""
        k = self.kind(t)
        if k in ('prim', 'enum'):
            return [('var', lv)]
        if k == 'ptr':
            return []
        out = []
        for n, ft, b in self.types[t][1]:
            x = ('fld', lv, n)
            if b:
                import itertools
                for ix in itertools.product(*[range(l, u + 1) for l, u in b]):
                    out += self.dump(('idx', x, [I(i) for i in ix]), ft, limit)
            else:
                out += self.dump(x, ft, limit)
            if len(out) > limit:
                break
        return out[:limit]

    def block(self, n, d, prefix=()):
        out = list(prefix)
        saved = None
        for _ in range(n):
            if self.fuel <= 0:
                break
            self.fuel -= 1
            out += self.stmt(d)
        if not out:
            out = [self.outstmt()]
        return out

    def outstmt(self):
        es = []
        for _ in range(self.r.randint(1, 3)):
            t = self.pick(list(self.o['prims']) + [n for n in self.types if self.kind(n) == 'enum'])
            e = self.expr(t, 2)
            if e:
                es += [e, ('str', ';')]
        return output(*es) if es else outs('x')

    def cond(self):
        if self.p(self.o['err'] * 0.5):
            return self.expr(self.pick(['INTEGER', 'STRING', 'REAL']), 1)
        return self.expr('BOOLEAN', 2)

    def body(self, d):
        """block in which declarations made stay hidden afterwards (they may not have been executed)"""
        sc = self.scope()
        names = set(sc)
        tn = set(self.types)
        of = dict(self.openf)
        b = self.block(self.r.randint(1, 3), d - 1)
        for n in list(sc):
            if n not in names:
                del sc[n]
        self.openf = of
        return b

    def stmt(self, d):
        o, r = self.o, self.r
        W = [('output', 3), ('assign', 4), ('decl', 1.5), ('if', 1.5 * (d > 0)), ('case', o['cases'] * (d > 0)), ('loop', 1.5 * o['loops'] * (d > 0)),
             ('call', 2 * bool(self.procs)), ('const', 0.4 * o['consts']), ('input', o['inputs']), ('file', o['files']), ('rfile', o['rand_files']),
             ('brk', 4 * o['brk'] * (self.loop > 0)), ('ret', 0.5 * (self.infn is not None)), ('undecl', o['undeclared']), ('err', o['err'] * 10),
             ('dump', 0.7), ('arr', 0.4 * o['arrays']), ('expr', 0.2), ('ptr', o['ptrs'])]
        x = r.random() * sum(w for _, w in W)
        for k, w in W:
            x -= w
            if x < 0:
                break
        s = getattr(self, 's_' + k)(d)
        return s if s else [self.outstmt()]

    def s_output(self, d):
        return [self.outstmt()]

    def s_assign(self, d):
        t = self.anytype()
        c = [e for e in self.ents() if not e.const and not e.res]
        if c and self.p(0.7):
            e = self.pick(c)
            t = e.type
            if self.kind(t) == 'rec' and self.p(0.7):
                ps = [y for y in self.paths(('idx', ('id', e.name), self.index(e.bounds)) if e.bounds else ('id', e.name), t)]
                lv, t = self.pick(ps)
                a = self.assign(lv, t)
                return [a] if a else None
        lv = self.lv(t, True)
        if lv is None:
            return self.decl(t)
        a = self.assign(lv, t)
        return [a] if a else None

    def s_decl(self, d):
        return self.decl()

    def s_if(self, d):
        cs = [(self.cond(), self.body(d))]
        while self.o['elseif'] and self.p(0.3) and len(cs) < 4:
            cs.append((self.cond(), self.body(d)))
        return [if_(cs, self.body(d) if self.p(0.5) else None)]

    def s_case(self, d):
        t = self.pick([x for x in ['INTEGER', 'INTEGER', 'REAL', 'CHAR', 'STRING', 'BOOLEAN', 'DATE'] if x in self.o['prims']] + [n for n in self.types if self.kind(n) == 'enum'])
        sel = [e for e in self.ents() if e.type == t and not e.bounds]
        if not sel:
            return self.decl(t)
        cl = []
        for _ in range(self.r.randint(1, 4)):
            # clause values must not look like the start of another statement
            if self.p(0.35) and t in ('INTEGER', 'REAL', 'CHAR', 'DATE'):
                cl.append(('rng', self.caselit(t), self.caselit(t), self.cbody(d)))
            else:
                cl.append(('eq', self.caselit(t), self.cbody(d)))
        if self.p(0.5):
            cl.append(('other', self.cbody(d)))
        return [case(self.pick(sel).name, cl)]

    def caselit(self, t):
        if t == 'INTEGER':
            e = I(self.r.randint(-2, 9))
            return self.pick([e, e, B('+', e, I(1))])
        if self.p(self.o['err'] * 0.3):
            return self.lit(self.pick(PRIM))
        if t in ('REAL', 'STRING', 'BOOLEAN', 'CHAR', 'DATE'):
            return self.lit(t)
        return self.lit(t)

    def cbody(self, d):
        # a line "x : ..." inside a clause starts the next clause
        return [s for s in self.body(d) if s.k not in ('case',)] or [self.outstmt()]

    def counter(self):
        n = self.fresh('k')
        self.scope()[n] = Ent(n, 'INTEGER', res=True)
        return n

    def s_loop(self, d):
        if self.hoist is not None:
            return self.s_loop1(d, self.hoist)
        self.hoist = h = []
        try:
            s = self.s_loop1(d, h)
        finally:
            self.hoist = None
        return h + s

    def s_loop1(self, d, h):
        k = self.r.random()
        r = self.r
        if k < 0.5:
            v = self.counter()
            pre = []
            if self.o['pedantic'] or self.p(0.5):
                h.append(declare(v, 'INTEGER'))
            a, b = r.randint(-2, 4), r.randint(-2, 5)
            st = None
            if self.p(0.4):
                st = I(r.choice([1, 2, 3, -1, -2]))
                if st[0] == 'neg' and self.p(0.8):
                    a, b = max(a, b), min(a, b)
            elif self.p(0.8):
                a, b = min(a, b), max(a, b)
            self.loop += 1
            body = self.body(d)
            self.loop -= 1
            return pre + [for_(v, I(a), I(b), body, st, v if self.p(0.4) else None), output(V(v))]
        v = self.counter()
        h.append(declare(v, 'INTEGER'))
        init = [assign(v, I(0))]
        self.loop += 1
        body = [assign(v, B('+', V(v), I(1)))] + self.body(d)
        self.loop -= 1
        m = r.randint(0, 4)
        if k < 0.75:
            c = B('<', V(v), I(m))
            if self.p(0.3):
                c = B('AND', c, self.expr('BOOLEAN', 1))
            return init + [while_(c, body, self.p(0.8))]
        c = B('>=', V(v), I(m))
        if self.p(0.3):
            c = B('OR', c, self.expr('BOOLEAN', 1))
        return init + [repeat(body, c)]

    def s_call(self, d):
        if not self.procs:
            return None
        n = self.pick(list(self.procs))
        a = self.args(self.procs[n], 2)
        return [call(n, a)] if a is not None else None

    def s_const(self, d):
        t = self.pick([x for x in ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING') if x in self.o['prims']])
        if self.hoist is not None:
            return None
        n = self.fresh('C')
        e = self.lit(t)
        if t == 'INTEGER' and self.p(0.3) and e[0] == 'int':
            e = ('neg', e)
        self.scope()[n] = Ent(n, t, const=True)
        return [const(n, e)]

    def s_input(self, d):
        t = self.pick([x for x in ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING') if x in self.o['prims']])
        lv = self.lv(t, True)
        return [input_(lv)] if lv else None

    def s_file(self, d):
        r = self.r
        if d < self.o['depth'] or self.loc is not None:
            if not self.openf:
                return None
        f = self.pick(['a.txt', 'b.txt'])
        m = self.openf.get(f)
        if m is None:
            if d < self.o['depth'] or self.loc is not None:
                return None
            m = self.pick(['WRITE', 'WRITE', 'APPEND', 'READ'])
            self.openf[f] = m
            return [openfile(f, m)]
        if self.p(0.15) and d == self.o['depth'] and self.loc is None:
            del self.openf[f]
            return [closefile(f)]
        if m == 'READ':
            n = [e.name for e in self.ents() if e.type == 'STRING' and not e.bounds and not e.const and not e.res]
            if n and self.p(0.6):
                return [readfile(f, self.pick(n))]
            return [output(('fn', 'EOF', [('str', f)]))]
        e = self.expr(self.pick(self.o['prims']), 2)
        return [writefile(f, e)]

    def s_rfile(self, d):
        f = 'r.dat'
        if f not in self.openf:
            if d < self.o['depth'] or self.loc is not None:
                return None
            self.openf[f] = 'RANDOM'
            return [openfile(f, 'RANDOM')]
        c = [e.name for e in self.ents() if not e.const and not e.res and self.noptr(e.type)]
        if not c:
            return None
        x = self.r.random()
        if x < 0.45:
            return [putrec(f, self.pick(c))]
        if x < 0.7:
            return [seek(f, I(1)), getrec(f, self.pick(c))] if self.p(0.3) else [seek(f, I(1))]
        if x < 0.9:
            return [seek(f, I(self.r.randint(1, 2)))]
        if d == self.o['depth'] and self.loc is None:
            del self.openf[f]
            return [closefile(f)]
        return None

    def noptr(self, t):
        k = self.kind(t)
        return k in ('prim', 'enum') or k == 'rec' and all(self.noptr(x) for _, x, _ in self.types[t][1])

    def s_brk(self, d):
        return [if_([(self.expr('BOOLEAN', 1), [self.pick([brk, cont])()])])] if self.p(0.8) else [self.pick([brk, cont])()]

    def s_ret(self, d):
        if d >= self.o['depth']:
            return None
        e = self.expr(self.infn)
        return [ret(e)] if e else None

    def s_undecl(self, d):
        n = self.fresh('u')
        t = self.pick(self.o['prims'])
        e = self.expr(t)
        if e is None or d < self.o['depth']:
            return None
        s = assign(n, e)
        return [s]

    def s_err(self, d):
        k = self.r.randint(0, 9)
        if k == 0:
            return [output(V('undefinedName'))]
        if k == 1:
            return [output(B('DIV', I(1), I(0)))]
        if k == 2:
            return [call('NoSuchProc')]
        if k == 3:
            return [writefile('closed.txt', I(1))]
        if k == 4:
            return [output(B('+', I(1), ('str', 'a')))]
        if k == 5:
            c = [e for e in self.ents() if e.const]
            return [assign(self.pick(c).name, I(5))] if c else None
        if k == 6:
            c = [e for e in self.ents() if e.bounds]
            return [output(('var', ('idx', ('id', self.pick(c).name), [I(99)])))] if c else None
        if k == 7:
            return [declare('q', 'NOTYPE')]
        if k == 8:
            return [output(('fn', 'LEFT', [('str', 'ab'), I(5)]))]
        return [output(('var', ('fld', ('id', 'nothing'), 'x')))]

    def s_dump(self, d):
        c = [e for e in self.ents() if not e.bounds and self.kind(e.type) == 'rec']
        a = [e for e in self.ents() if e.bounds]
        if c and (not a or self.p(0.5)):
            e = self.pick(c)
            x = self.dump(('id', e.name), e.type)
        elif a:
            import itertools
            e = self.pick(a)
            x = []
            for ix in itertools.product(*[range(l, u + 1) for l, u in e.bounds]):
                x += self.dump(('idx', ('id', e.name), [I(i) for i in ix]), e.type, 3)
        else:
            return None
        es = []
        for y in x[:10]:
            es += [y, ('str', ',')]
        return [output(*es)] if es else None

    def s_arr(self, d):
        a = [e for e in self.ents() if e.bounds]
        if not a:
            return None
        x = self.pick(a)
        b = [e for e in a if e.type == x.type and (e.bounds == x.bounds or self.p(self.o['err']))]
        return [assign(x.name, V(self.pick(b).name))]

    def s_expr(self, d):
        e = self.expr('INTEGER', 2)
        return [expr(B('+', I(0), e))] if e else None

    def s_ptr(self, d):
        ts = [n for n in self.types if self.kind(n) == 'ptr']
        if not ts:
            t = self.anytype()
            n = self.fresh('T')
            if self.loc is not None or d < self.o['depth'] or self.hoist is not None:
                return None
            self.types[n] = ('ptr', t)
            v = self.fresh('p')
            self.glob[v] = Ent(v, n)
            return [deftype(n, ptr=t), declare(v, n)]
        t = self.pick(ts)
        p = self.lv(t, True)
        if p is None:
            return self.decl(t)
        if self.p(0.5):
            v = self.lv(self.types[t][1], True)
            return [ptrassign(p, v)] if v else None
        tt = self.types[t][1]
        if self.p(0.5):
            x = self.dump(('deref', p), tt)
            return [output(*x)] if x else None
        a = self.assign(('deref', p), tt)
        return [a] if a else None

    # ---- procedures
    def params(self):
        ps, out = [], []
        mode = None
        n = self.r.randint(0, 4)
        cur = 'BYVAL'
        i = 0
        while i < n:
            m = self.pick([None, None, 'BYREF', 'BYVAL'])
            cur = m or cur
            t = self.anytype()
            k = 1 + self.p(0.2)
            for j in range(k):
                nm = self.fresh('a')
                if self.p(self.o['shadow']) and self.glob:
                    g = self.pick(list(self.glob))
                    if all(x[1] != g for x in out):
                        nm = g
                last = j == k - 1
                out.append((m if j == 0 else None, nm, t if last else None))
                ps.append((cur, nm, t))
            i += k
        return ps, out

    def subprogram(self, isfn):
        o = self.o
        ps, decl = self.params()
        types = dict(self.types)
        name = self.fresh('F' if isfn else 'P')
        rt = None
        if isfn:
            rt = self.anytype()
            if self.kind(rt) in ('ptr', 'rec') and self.p(0.5):
                rt = self.pick(o['prims'])
        rec = o['recursion'] and self.p(0.35)
        if rec:
            ps = [('BYVAL', 'n', 'INTEGER')] + ps
            decl = [('BYVAL', 'n', 'INTEGER')] + ([(decl[0][0] or 'BYVAL',) + decl[0][1:]] + decl[1:] if decl else [])
        self.loc = {n: Ent(n, t, res=(n == 'n')) for m, n, t in ps}
        self.infn = rt
        lp, self.loop = self.loop, 0
        self.hoist = None
        pre = []
        if self.p(o['local_types'] * 0.5):
            pre.append(self.deftype(True))
        if isfn and self.kind(rt) in ('rec', 'ptr'):
            n = self.fresh('w')
            self.loc[n] = Ent(n, rt)
            pre.append(declare(n, rt))
        body = self.block(self.r.randint(2, 5), 2, pre)
        if rec:
            if isfn:
                base = self.expr(rt, 1) or self.lit(rt)
                if base is None:
                    base = I(0)
            guard = if_([(B('<=', V('n'), I(0)), [ret(base)] if isfn else [outs('base')])], None if isfn else None)
            (self.funcs if isfn else self.procs)[name] = (ps, rt) if isfn else ps
            rest = [self.rcall(name, ps, isfn, rt)]
            rest = [x for x in rest if x]
            if isfn:
                body = [guard] + body + rest
            else:
                body = body + [if_([(B('>', V('n'), I(0)), rest or [outs('-')])], [outs('base')])]
        if isfn and not (rec and body[-1].k == 'return') and not self.p(o['err']):
            e = self.expr(rt) or self.lit(rt) or I(0)
            body.append(ret(e))
        self.loc = None
        self.infn = None
        self.loop = lp
        self.types = types
        if isfn:
            self.funcs[name] = (ps, rt)
            return func(name, decl, rt, body)
        self.procs[name] = ps
        return proc(name, decl, body)

    def rcall(self, name, ps, isfn, rt):
        a = self.args(ps[1:], 1)
        if a is None or len(a) != len(ps) - 1:
            return None
        a = [B('-', V('n'), I(1))] + a
        if isfn:
            x = ('fn', name, a)
            if rt == 'INTEGER':
                x = B('+', x, I(1))
            if rt == 'STRING':
                x = B('&', x, ('str', 'r'))
            return ret(x)
        return call(name, a)

    def program(self):
        o, r = self.o, self.r
        out = []
        for _ in range(r.randint(0, 3) if o['types'] else 0):
            out.append(self.deftype())
        for _ in range(r.randint(1, 5)):
            out += self.decl()
        for _ in range(r.randint(0, o['procs'])):
            out.append(self.subprogram(False))
            if self.p(0.3):
                out += self.decl()
        for _ in range(r.randint(0, o['funcs'])):
            out.append(self.subprogram(True))
        # recursion starts with a small n: rewrite calls made with a random first argument
        self.fuel = max(self.fuel, 40)
        out += self.block(r.randint(3, o['size']), o['depth'])
        out += self.final()
        return out

    def final(self):
        out = []
        for e in list(self.glob.values()):
            if e.bounds:
                continue
            x = self.dump(('id', e.name), e.type, 6)
            if x:
                es = []
                for y in x:
                    es += [y, ('str', ' ')]
                out.append(output(*es))
        return out
