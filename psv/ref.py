"""Reference semantics of pseudocode, written from the documentation and the property statements.

run(block, ...) executes a program tree and returns Out(status, stdout, kind, frames, files).  Errors carry the expected
traceback: (name, line) pairs, innermost first.  Whatever the properties leave open raises Unknown."""
import math, calendar

U = 1 << 64


def wrap(n):
    n &= U - 1
    return n - U if n >> 63 else n


ECHO = True     # readline echoes what is read from a non-terminal


class Unknown(Exception):
    """outside what the reference decides (budget, unspecified behaviour)"""


class Err(Exception):
    def __init__(self, frames, why=''):
        self.frames = frames
        self.why = why
        Exception.__init__(self, why)


class Pedantic(Exception):
    def __init__(self, line, what):
        self.line, self.what = line, what


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    pass


PRIM = ('INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE')


class TDef:
    def __init__(self, name, kind, data):
        self.name, self.kind, self.data = name, kind, data


class Var:
    __slots__ = ('name', 'type', 'val', 'const', 'owner')

    def __init__(self, name, type, val, owner, const=False):
        self.name, self.type, self.val, self.owner, self.const = name, type, val, owner, const


class Arr:
    __slots__ = ('name', 'type', 'bounds', 'cells', 'owner')

    def __init__(self, name, type, bounds, cells, owner):
        self.name, self.type, self.bounds, self.cells, self.owner = name, type, bounds, cells, owner


class Rec:
    """record value: ordered fields (Var or Arr)"""
    __slots__ = ('tname', 'vars', 'arrs')

    def __init__(self, tname):
        self.tname, self.vars, self.arrs = tname, {}, {}

    def get(self, n):
        return self.vars.get(n) or self.arrs.get(n)


class Ptr:
    __slots__ = ('target',)

    def __init__(self, target=None):
        self.target = target


class Ctx:
    def __init__(self, parent, name, isfn=False, ret=None):
        self.parent, self.name, self.isfn, self.ret = parent, name, isfn, ret
        self.vars, self.arrs, self.types, self.elems = {}, {}, {}, {}
        self.switch = None
        self.alive = True
        self.result = None
        self.glob = parent.glob if parent else self
        if not parent:
            self.procs, self.funcs, self.files = {}, {}, {}


def fmt_real(x):
    s = '%.10g' % x
    if math.isinf(x) or (not math.isnan(x) and math.modf(x)[0] == 0.0):
        s += '.0'
    return s


def real_str(x):
    s = '%f' % x
    s = s.rstrip('0')
    return s[:-1] if s.endswith('.') else s


def date_str(v):
    return '%d/%d/%d' % v


def valid_date(d, m, y):
    if not (-32767 <= y <= 32767 and 1 <= m <= 12 and d >= 1):
        return False
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return d <= (31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[m - 1]


def is_numeral(s):
    """digits with at most one '.', at least one digit"""
    t = s.replace('.', '', 1)
    return len(t) > 0 and all('0' <= c <= '9' for c in t) and s.count('.') <= 1


def to_real(s):
    if is_numeral(s):
        return float(s)
    if s[:1] in '+-' and is_numeral(s[1:]):
        return float(s)
    st = s.lstrip(' \t\n\r\f\v')
    if not st or not any(c.isdigit() for c in s):
        return 0.0
    if all(c in '0123456789.+-' or c in 'eExXpPabcdfABCDFinfINFtyTYaA \t\n\r\f\v' for c in s):
        raise Unknown('notation of a number')
    return 0.0


def to_int(s):
    t = s[1:] if s[:1] in ('+', '-') else s
    if t and all('0' <= c <= '9' for c in t):
        n = int(s)
        return max(-(1 << 63), min((1 << 63) - 1, n))
    if s[:1].isspace():
        raise Unknown('blank before a numeral')
    return 0


def builtin(name, a, ctx, err):
    """a: list of converted argument values -> (type, value)"""
    def bad():
        raise err(name)
    if name == 'LENGTH':
        return 'INTEGER', len(a[0])
    if name in ('LEFT', 'RIGHT'):
        s, n = a
        if n < 0 or n > len(s):
            bad()
        return 'STRING', s[:n] if name == 'LEFT' else s[len(s) - n:]
    if name == 'MID':
        s, i, n = a
        if i < 1 or i > len(s) or n < 0 or i - 1 + n > len(s):
            bad()
        return 'STRING', s[i - 1:i - 1 + n]
    if name in ('TO_UPPER', 'TO_LOWER', 'UCASE', 'LCASE'):
        up = name in ('TO_UPPER', 'UCASE')
        t = ''.join((c.upper() if up else c.lower()) if ord(c) < 128 else c for c in a[0])
        return ('STRING' if name[:3] == 'TO_' else 'CHAR'), t
    if name == 'NUM_TO_STR':
        return 'STRING', real_str(a[0])
    if name == 'STR_TO_NUM':
        return 'REAL', to_real(a[0])
    if name == 'IS_NUM':
        return 'BOOLEAN', all(c in '0123456789.' for c in a[0]) and a[0].count('.') <= 1
    if name == 'ASC':
        n = ord(a[0])
        return 'INTEGER', n if n < 128 else n - 256
    if name == 'CHR':
        return 'CHAR', chr(a[0] & 255)
    if name == 'DAY':
        return 'INTEGER', a[0][0]
    if name == 'MONTH':
        return 'INTEGER', a[0][1]
    if name == 'YEAR':
        return 'INTEGER', a[0][2]
    if name == 'DAYINDEX':
        d, m, y = a[0]
        if not valid_date(d, m, y) or y < 1:
            raise Unknown('day of no date')
        # days since 1/1/1 (a Monday)
        n = (y - 1) * 365 + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
        leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
        n += sum((31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)[:m - 1]) + d - 1
        return 'INTEGER', (n + 1) % 7 + 1
    if name == 'SETDATE':
        if not valid_date(*a):
            bad()
        return 'DATE', tuple(a)
    if name == 'INT':
        if math.isnan(a[0]) or math.isinf(a[0]) or abs(a[0]) > 9e18:
            raise Unknown('INT of a huge number')
        return 'INTEGER', math.floor(a[0])
    if name == 'POW':
        return 'REAL', a[0] ** a[1]
    if name == 'SQRT':
        if a[0] < 0:
            raise Unknown('SQRT of a negative number')
        return 'REAL', math.sqrt(a[0])
    raise Unknown('built-in ' + name)


SIG = {'LENGTH': ['STRING'], 'LEFT': ['STRING', 'INTEGER'], 'RIGHT': ['STRING', 'INTEGER'], 'MID': ['STRING', 'INTEGER', 'INTEGER'],
       'TO_UPPER': ['STRING'], 'TO_LOWER': ['STRING'], 'UCASE': ['CHAR'], 'LCASE': ['CHAR'], 'NUM_TO_STR': ['REAL'], 'STR_TO_NUM': ['STRING'],
       'IS_NUM': ['STRING'], 'ASC': ['CHAR'], 'CHR': ['INTEGER'], 'DAY': ['DATE'], 'MONTH': ['DATE'], 'YEAR': ['DATE'], 'DAYINDEX': ['DATE'],
       'SETDATE': ['INTEGER'] * 3, 'INT': ['REAL'], 'EOF': ['STRING'], 'RAND': ['INTEGER'], 'SQRT': ['REAL'], 'POW': ['REAL', 'REAL'],
       'TODAY': [], 'TIME': [], 'HOURS': ['STRING'], 'MINUTES': ['STRING'], 'SECONDS': ['STRING']}
for _n in ('EXP', 'SIN', 'COS', 'TAN', 'ASIN', 'ACOS', 'ATAN', 'LOG', 'LN'):
    SIG[_n] = ['REAL']
SIG['ATAN2'] = ['REAL', 'REAL']


class FileH:
    def __init__(self, name, mode):
        self.name, self.mode = name, mode


class Out:
    def __init__(self):
        self.out = []
        self.kind = None        # None | 'runtime' | 'pedantic'
        self.frames = None
        self.line = None
        self.why = ''

    def text(self):
        return ''.join(self.out)


class Ref:
    """one interpreter run; disk: dict name -> text shared between runs (random files: list of records per name kept in .recs)"""

    def __init__(self, disk=None, stdin='', steps=20000, pedantic=False, repl=False, depth=350):
        self.disk = disk if disk is not None else {}
        self.lines = stdin.split('\n') if isinstance(stdin, str) else stdin
        if self.lines and self.lines[-1] == '':
            self.lines = self.lines[:-1]
        self.pos = 0
        self.left = steps
        self.maxdepth = depth
        self.pedantic = pedantic
        self.repl = repl
        self.o = Out()
        self.g = Ctx(None, 'Program')
        self.cells = 200000
        self.evs = 12 * steps
        self.room = 200000

    # ---- errors
    def err(self, ctx, line, why=''):
        fr = [(ctx.name, line)]
        c = ctx.parent
        while c is not None:
            if c.switch is not None:
                fr.append((c.name, c.switch))
            c = c.parent
        return Err(fr, why)

    # ---- types
    def typ(self, ctx, name):
        """declared type -> type key or None.  Types are identified by their definition."""
        if name in PRIM:
            return name
        d = ctx.types.get(name) or ctx.glob.types.get(name)
        return d

    def is_ident_type(self, ctx, name, glob=True):
        if name in ctx.types or name in ctx.elems:
            return True
        return glob and (name in ctx.glob.types or name in ctx.glob.elems)

    @staticmethod
    def same(a, b):
        if isinstance(a, TDef) and isinstance(b, TDef):
            return a.kind == b.kind and a.name == b.name
        return a == b

    def default(self, ctx, t, line, chain=()):
        if t == 'INTEGER':
            return 0
        if t == 'REAL':
            return 0.0
        if t == 'BOOLEAN':
            return False
        if t == 'CHAR':
            return '\0'
        if t == 'STRING':
            return ''
        if t == 'DATE':
            return (0, 0, 0)
        if t.kind == 'enum':
            return 0
        if t.kind == 'ptr':
            return Ptr()
        # record: its declarations run in a scope of their own
        rc = Ctx(ctx, t.name)
        rc.glob = ctx.glob
        rc.types = {}
        r = Rec(t.name)
        rc.rec = r
        rc.isrec = True
        old = ctx.switch
        ctx.switch = line
        rc.chain = chain + (t.name,)
        for s in t.data:
            self.step()
            self.decl_in_record(rc, ctx, s, r)
        ctx.switch = old
        return r

    def decl_in_record(self, rc, outer, s, r):
        # names of a record declaration: fields first, then types of the scope around
        base = outer
        while getattr(base, 'isrec', False):
            base = base.parent
        if s.k == 'declare':
            for n in s.names:
                if n in r.vars:
                    raise self.err(rc, s.line)
                if self.is_ident_type(base, n):
                    raise self.err(rc, s.line)
                t = self.typ(base, s.type)
                if t is None:
                    raise self.err(rc, s.line)
                if isinstance(t, TDef) and t.kind == 'rec' and t.name in rc.chain:
                    raise self.err(rc, s.line)
                r.vars[n] = Var(n, t, self.default(rc, t, s.line, rc.chain) if True else None, base)
        else:
            for n in s.names:
                if n in r.arrs:
                    raise self.err(rc, s.line)
            bounds = self.bounds(rc, s)
            for n in s.names:
                t = self.typ(base, s.type)
                if t is None:
                    raise self.err(rc, s.line)
                if isinstance(t, TDef) and t.kind == 'rec' and t.name in rc.chain:
                    raise self.err(rc, s.line)
                r.arrs[n] = self.mkarr(rc, n, t, bounds, s.line, base, rc.chain)

    def bounds(self, ctx, s):
        b = []
        for lo, hi in s.bounds:
            t, l = self.ev(ctx, lo, s.line)
            if t != 'INTEGER':
                raise self.err(ctx, s.line)
            t, u = self.ev(ctx, hi, s.line)
            if t != 'INTEGER':
                raise self.err(ctx, s.line)
            if u < l:
                raise self.err(ctx, s.line)
            b.append((l, u))
        n = 1
        for l, u in b:
            n *= u - l + 1
        if n >= 1 << 64 or any(u - l + 1 >= 1 << 64 for l, u in b):
            raise self.err(ctx, s.line)
        if n * len(s.names) > 20000:
            raise Unknown('large array')
        return b

    def mkarr(self, ctx, n, t, bounds, line, owner, chain=()):
        size = 1
        for l, u in bounds:
            size *= u - l + 1
        self.cells -= size
        if self.cells < 0:
            raise Unknown('cells')
        return Arr(n, t, bounds, [Var(n, t, self.default(ctx, t, line, chain), owner) for _ in range(size)], owner)

    # ---- values
    def copy(self, t, v, owner):
        if isinstance(v, Rec):
            r = Rec(v.tname)
            for n, x in v.vars.items():
                r.vars[n] = Var(n, x.type, self.copy(x.type, x.val, owner), owner)
            for n, a in v.arrs.items():
                r.arrs[n] = Arr(n, a.type, a.bounds, [Var(n, a.type, self.copy(a.type, c.val, owner), owner) for c in a.cells], owner)
            return r
        if isinstance(v, Ptr):
            return Ptr(v.target)
        return v

    def same_shape(self, a, b):
        for n, x in a.vars.items():
            if isinstance(x.val, Rec) and not self.same_shape(x.val, b.vars[n].val):
                return False
        for n, x in a.arrs.items():
            if not self.arr_shape(x, b.arrs[n]):
                return False
        return True

    def arr_shape(self, a, b):
        if a.bounds != b.bounds:
            return False
        return all(not isinstance(x.val, Rec) or self.same_shape(x.val, y.val) for x, y in zip(a.cells, b.cells))

    def store(self, var, v):
        """assigns in place: references and pointers into the target stay valid"""
        if isinstance(v, Rec):
            for n, x in v.vars.items():
                self.store(var.val.vars[n], x.val)
            for n, a in v.arrs.items():
                for d, c in zip(var.val.arrs[n].cells, a.cells):
                    self.store(d, c.val)
        elif isinstance(v, Ptr):
            var.val = Ptr(v.target)
        else:
            var.val = v

    @staticmethod
    def convert(target, t, v):
        if target == 'REAL' and t == 'INTEGER':
            return 'REAL', float(v)
        if target == 'CHAR' and t == 'STRING' and len(v) == 1:
            return 'CHAR', v
        if target == 'STRING' and t == 'CHAR':
            return 'STRING', v
        return t, v

    # ---- names
    def lookup(self, ctx, name):
        v = ctx.vars.get(name)
        if v is None:
            v = ctx.arrs.get(name)
        if v is None and ctx.parent is not None:
            return self.lookup(ctx.glob, name)
        return v

    def resolve(self, ctx, lv, line):
        """-> Var or Arr; raises KeyError(name) when the leading name is not defined"""
        k = lv[0]
        if k == 'id':
            v = self.lookup(ctx, lv[1])
            if v is None:
                raise KeyError(lv[1])
            return v
        h = self.resolve(ctx, lv[1], line)
        if k == 'fld':
            if isinstance(h, Arr) or not isinstance(h.val, Rec):
                raise self.err(ctx, line, 'not a record')
            f = h.val.get(lv[2])
            if f is None:
                raise self.err(ctx, line, 'no member')
            return f
        if k == 'deref':
            if isinstance(h, Arr) or not isinstance(h.val, Ptr):
                raise self.err(ctx, line, 'not a pointer')
            t = h.val.target
            if t is None or not t.owner.alive:
                raise self.err(ctx, line, 'dead pointer')
            return t
        if not isinstance(h, Arr):
            raise self.err(ctx, line, 'not an array')
        if len(lv[2]) != len(h.bounds):
            raise self.err(ctx, line, 'number of indices')
        pos, mul = 0, 1
        for e, (l, u) in zip(lv[2], h.bounds):
            t, v = self.ev(ctx, e, line)
            if t != 'INTEGER':
                raise self.err(ctx, line, 'index type')
            if not l <= v <= u:
                raise self.err(ctx, line, 'index')
            pos = pos + (v - l) * mul
            mul *= u - l + 1
        return h.cells[pos]

    def holder(self, ctx, lv, line):
        try:
            return self.resolve(ctx, lv, line)
        except KeyError as e:
            raise self.err(ctx, line, 'undefined %s' % e)

    @staticmethod
    def head(lv):
        while lv[0] != 'id':
            lv = lv[1]
        return lv[1]

    # ---- expressions -> (type, value)
    def step(self):
        self.left -= 1
        if self.left < 0:
            raise Unknown('steps')

    def ev(self, ctx, e, line):
        k = e[0]
        self.evs -= 1
        if self.evs < 0:
            raise Unknown('steps')
        if k == 'int':
            return 'INTEGER', e[1]
        if k == 'real':
            return 'REAL', float(e[1])
        if k == 'bool':
            return 'BOOLEAN', e[1]
        if k == 'char':
            return 'CHAR', e[1]
        if k == 'str':
            return 'STRING', e[1]
        if k == 'date':
            v = tuple(int(x) for x in e[1:4])
            if not valid_date(*v):
                raise self.err(ctx, line, 'date')
            return 'DATE', v
        if k == 'var':
            try:
                h = self.resolve(ctx, e[1], line)
            except KeyError:
                n = self.head(e[1])
                d = ctx.elems.get(n) or ctx.glob.elems.get(n)
                if d is not None and e[1][0] == 'id':
                    return d
                if d is not None:
                    raise Unknown('operator on an enumerated name')
                raise self.err(ctx, line, 'undefined ' + n)
            if isinstance(h, Arr):
                raise self.err(ctx, line, 'array')
            return h.type, self.copy(h.type, h.val, ctx)
        if k == 'neg':
            t, v = self.ev(ctx, e[1], line)
            if t == 'INTEGER':
                return t, wrap(-v)
            if t == 'REAL':
                return t, v * -1
            raise self.err(ctx, line, 'neg')
        if k == 'not':
            t, v = self.ev(ctx, e[1], line)
            if t != 'BOOLEAN':
                raise self.err(ctx, line, 'not')
            return t, not v
        if k == 'bin':
            return self.binop(ctx, e[1], e[2], e[3], line)
        if k == 'dm':
            return self.binop(ctx, e[1], e[2], e[3], line)
        if k == 'fn':
            return self.call_fn(ctx, e[1], e[2], line)
        if k == 'cast':
            return self.cast(ctx, e[1], e[2], line)
        raise Unknown(k)

    def cast(self, ctx, T, e, line):
        t, v = self.ev(ctx, e, line)
        if t is None:
            raise self.err(ctx, line, 'cast')
        if t not in PRIM:
            raise self.err(ctx, line, 'cast')
        if t == T:
            return t, v
        if T == 'DATE' or t == 'DATE' and T not in ('INTEGER', 'STRING'):
            raise self.err(ctx, line, 'cast')
        if t == 'DATE':
            if T == 'STRING':
                return T, date_str(v)
            raise Unknown('DATE as INTEGER')
        if T == 'STRING':
            if t == 'INTEGER':
                return T, str(v)
            if t == 'REAL':
                return T, real_str(v)
            if t == 'BOOLEAN':
                return T, 'TRUE' if v else 'FALSE'
            return T, v
        if t == 'STRING':
            if T == 'INTEGER':
                return T, to_int(v)
            if T == 'REAL':
                return T, to_real(v)
            if T == 'BOOLEAN':
                return T, len(v) > 0
            raise Unknown('cast of STRING to ' + T)
        if t == 'CHAR':
            v = ord(v) - (256 if ord(v) > 127 else 0)
        if T == 'INTEGER':
            if t == 'REAL':
                if abs(v) > 9e18 or v != v:
                    raise Unknown('cast')
                return T, int(v)
            return T, int(v)
        if T == 'REAL':
            return T, float(v)
        if T == 'BOOLEAN':
            return T, v != 0
        if T == 'CHAR':
            if t == 'REAL':
                raise Unknown('cast')
            return T, chr(int(v) & 255)
        raise Unknown('cast')

    def binop(self, ctx, op, ea, eb, line):
        ta, a = self.ev(ctx, ea, line)
        if op == 'AND' and ta == 'BOOLEAN' and not a:
            return 'BOOLEAN', False
        tb, b = self.ev(ctx, eb, line)
        if op in ('AND', 'OR'):
            if ta != 'BOOLEAN' or tb != 'BOOLEAN':
                raise self.err(ctx, line, op)
            return 'BOOLEAN', (a and b) if op == 'AND' else (a or b)
        if op == '&':
            for t in (ta, tb):
                if t not in PRIM:
                    raise self.err(ctx, line, '&')
            x = self.text(ta, a) + self.text(tb, b)
            self.room -= len(x)
            if self.room < 0:
                raise Unknown('text')
            return 'STRING', x
        num = ('INTEGER', 'REAL')
        if op in ('=', '<>', '<', '>', '<=', '>='):
            if ta == tb and ta == 'CHAR':
                a, b = [ord(x) - (256 if ord(x) > 127 else 0) for x in (a, b)]
            elif ta == tb and ta == 'DATE':
                a, b = (a[2], a[1], a[0]), (b[2], b[1], b[0])
            elif not (ta in num and tb in num):
                if op not in ('=', '<>'):
                    raise self.err(ctx, line, 'compare')
                if not self.same(ta, tb):
                    return 'BOOLEAN', op == '<>'
                if not (ta in ('BOOLEAN', 'STRING') or isinstance(ta, TDef) and ta.kind == 'enum'):
                    raise self.err(ctx, line, 'compare')
            elif ta != tb:
                a, b = float(a), float(b)
            r = {'=': a == b, '<>': a != b, '<': None, '>': None, '<=': None, '>=': None}[op]
            if r is None:
                r = {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b}[op]()
            return 'BOOLEAN', r
        # arithmetic
        isE = lambda t: isinstance(t, TDef) and t.kind == 'enum'
        if op in ('+', '-') and (isE(ta) and tb == 'INTEGER' or ta == 'INTEGER' and isE(tb)):
            t = ta if isE(ta) else tb
            n = len(t.data)
            return t, (a + b if op == '+' else a - b) % n
        if ta not in num or tb not in num:
            raise self.err(ctx, line, 'arithmetic')
        if op in ('/', 'DIV', 'MOD') and b == 0:
            raise self.err(ctx, line, 'zero')
        if op == '/':
            return 'REAL', self.fdiv(float(a), float(b))
        if ta == tb == 'INTEGER':
            if op == '+':
                return ta, wrap(a + b)
            if op == '-':
                return ta, wrap(a - b)
            if op == '*':
                return ta, wrap(a * b)
            if a < 0 or b < 0:
                if getattr(self, 'signed_div', False):
                    q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                    return ta, wrap(q) if op == 'DIV' else a - b * q
                raise Unknown('DIV/MOD of negative numbers')
            return ta, a // b if op == 'DIV' else a % b
        a, b = float(a), float(b)
        if op == '+':
            return 'REAL', a + b
        if op == '-':
            return 'REAL', a - b
        if op == '*':
            return 'REAL', a * b
        if op == 'DIV':
            q = self.fdiv(a, b)
            if q != q or abs(q) > 9e18:
                raise Unknown('DIV')
            return 'INTEGER', math.floor(q)
        raise Unknown('MOD of REAL')

    @staticmethod
    def fdiv(a, b):
        try:
            return a / b
        except OverflowError:
            raise Unknown('overflow')

    def text(self, t, v):
        if t == 'INTEGER':
            return str(v)
        if t == 'REAL':
            return real_str(v)
        if t == 'BOOLEAN':
            return 'TRUE' if v else 'FALSE'
        if t == 'DATE':
            return date_str(v)
        return v

    def show(self, t, v):
        """OUTPUT"""
        if t == 'REAL':
            return fmt_real(v)
        if isinstance(t, TDef):
            return t.data[v] if t.kind == 'enum' else t.name + ' object'
        return self.text(t, v)

    def echo(self, t, v):
        if t == 'CHAR':
            return "'" + v + "'"
        if t == 'STRING':
            return '"' + v + '"'
        if isinstance(t, TDef):
            if t.kind == 'enum':
                return t.name + ': ' + t.data[v]
            if t.kind == 'rec':
                return t.name + ' object'
            if v.target is None:
                return t.name + ': null'
            return t.name + ': ' + (v.target.name if v.target.owner.alive else '{DELETED}')
        return self.show(t, v)

    # ---- calls
    def args(self, ctx, params, args, line):
        vals = []
        for i, a in enumerate(args):
            byref = i < len(params) and params[i][1]
            if byref and a[0] == 'var':
                h = self.holder(ctx, a[1], line)
                if isinstance(h, Arr):
                    raise self.err(ctx, line, 'array argument')
                vals.append(('ref', h))
            else:
                vals.append(self.ev(ctx, a, line))
        if len(args) != len(params):
            raise self.err(ctx, line, 'arguments')
        return vals

    def bind(self, ctx, c, params, vals, line):
        for (name, byref, type), v in zip(params, vals):
            if byref:
                if v[0] == 'ref':
                    if not self.same(type, v[1].type):
                        raise self.err(ctx, line, 'argument type')
                else:
                    if not self.same(type, v[0]):
                        raise self.err(ctx, line, 'argument type')
                    raise self.err(ctx, line, 'BYREF')
                c.vars.setdefault(name, v[1])
            else:
                t, x = self.convert(type, *v)
                if not self.same(t, type):
                    raise self.err(ctx, line, 'argument type')
                c.vars.setdefault(name, Var(name, type, self.copy(type, x, c), c))

    def enter(self, ctx, c, line):
        n, x = 0, ctx
        while x is not None:
            n += 1
            x = x.parent
        if n > self.maxdepth:
            raise Unknown('depth')

    def call_proc(self, ctx, s):
        p = ctx.glob.procs.get(s.name)
        if p is None:
            raise self.err(ctx, s.line, 'no procedure')
        vals = self.args(ctx, p.ps, s.args, s.line)
        c = Ctx(ctx, s.name)
        self.enter(ctx, c, s.line)
        old = ctx.switch
        ctx.switch = s.line
        try:
            self.bind(ctx, c, p.ps, vals, s.line)
            try:
                self.block(c, p.body)
            except _Break as e:
                raise self.err(c, e.args[0], 'break')
            except _Continue as e:
                raise self.err(c, e.args[0], 'continue')
        finally:
            ctx.switch = old
            c.alive = False

    def call_fn(self, ctx, name, args, line):
        f = ctx.glob.funcs.get(name)
        if f is None and name in SIG:
            params = [(('p%d' % i), False, t) for i, t in enumerate(SIG[name])]
            vals = self.args(ctx, params, args, line)
            old = ctx.switch
            ctx.switch = line
            try:
                conv = []
                for (_, _, T), v in zip(params, vals):
                    t, x = self.convert(T, *v)
                    if t != T:
                        raise self.err(ctx, line, 'argument type')
                    conv.append(x)
                c = Ctx(ctx, name)
                if name == 'EOF':
                    h = self.g.files.get(conv[0])
                    if h is None or h.mode != 'READ':
                        raise self.err(c, 0, 'EOF')
                    return 'BOOLEAN', h.pos >= len(h.lines)
                return builtin(name, conv, ctx, lambda n: self.err(c, 0, n))
            finally:
                ctx.switch = old
        if f is None:
            raise self.err(ctx, line, 'no function')
        vals = self.args(ctx, f.ps, args, line)
        c = Ctx(ctx, name, True, f.rt)
        self.enter(ctx, c, line)
        old = ctx.switch
        ctx.switch = line
        try:
            self.bind(ctx, c, f.ps, vals, line)
            try:
                self.block(c, f.body)
            except _Return:
                return c.result
            except _Break as e:
                raise self.err(c, e.args[0], 'break')
            except _Continue as e:
                raise self.err(c, e.args[0], 'continue')
            raise self.err(c, f.line, 'no RETURN')
        finally:
            ctx.switch = old
            c.alive = False

    # ---- statements
    def block(self, ctx, b):
        for s in b:
            self.step()
            self.stmt(ctx, s)

    def cond(self, ctx, e, line, alt=None):
        t, v = self.ev(ctx, e, line)
        if t != 'BOOLEAN':
            # of a statement over several lines: the clause's line or the statement's
            raise self.err(ctx, line if alt in (None, line) else (line, alt), 'condition')
        return v

    def params(self, ctx, s):
        """name, byref, type of every parameter; a mode carries over, a type may follow several names"""
        out, ref, pend = [], False, []
        for mode, name, type in s.params:
            if mode:
                ref = mode == 'BYREF'
            pend.append((name, ref))
            if type is not None:
                t = self.typ(ctx, type)
                if t is None:
                    raise self.err(ctx, s.line, 'type')
                out += [(n, r, t) for n, r in pend]
                pend = []
        return out

    def stmt(self, ctx, s):
        k, line = s.k, s.line
        if k == 'output':
            buf = []
            for e in s.es:
                try:
                    t, v = self.ev(ctx, e, line)
                except (Err, Unknown):
                    self.o.out.append(''.join(buf))
                    raise
                buf.append(self.show(t, v))
                self.room -= len(buf[-1]) / 8
                if self.room < 0:
                    raise Unknown('output')
                # what was printed before a failing part stays printed
                self.o.out.append(buf.pop())
            self.o.out.append('\n')
        elif k == 'assign':
            self.assign(ctx, s)
        elif k == 'declare':
            for n in s.names:
                if n in ctx.vars:
                    raise self.err(ctx, line, 'redeclaration')
                if self.is_ident_type(ctx, n):
                    raise self.err(ctx, line, 'type name')
                t = self.typ(ctx, s.type)
                if t is None:
                    raise self.err(ctx, line, 'type')
                ctx.vars[n] = Var(n, t, self.default(ctx, t, line), ctx)
        elif k == 'declarr':
            for n in s.names:
                if n in ctx.arrs:
                    raise self.err(ctx, line, 'redeclaration')
            b = self.bounds(ctx, s)
            for n in s.names:
                t = self.typ(ctx, s.type)
                if t is None:
                    raise self.err(ctx, line, 'type')
                ctx.arrs.setdefault(n, self.mkarr(ctx, n, t, b, line, ctx))
        elif k == 'const':
            t, v = self.ev(ctx, s.e, line)
            if s.name in ctx.vars:
                raise self.err(ctx, line, 'redeclaration')
            ctx.vars[s.name] = Var(s.name, t, v, ctx, True)
        elif k == 'if':
            for c, b, l in s.conds:
                if self.cond(ctx, c, l, line):
                    self.block(ctx, b)
                    return
            if s.els is not None:
                self.block(ctx, s.els)
        elif k == 'case':
            self.case(ctx, s)
        elif k == 'while':
            while self.cond(ctx, s.c, line):
                self.step()
                try:
                    self.block(ctx, s.body)
                except _Break:
                    break
                except _Continue:
                    pass
        elif k == 'repeat':
            while True:
                self.step()
                try:
                    self.block(ctx, s.body)
                except _Break:
                    break
                except _Continue:
                    pass
                t, v = self.ev(ctx, s.c, s.endline)
                if t != 'BOOLEAN':
                    raise self.err(ctx, (line, s.endline), 'condition')
                if v:
                    break
        elif k == 'for':
            self.for_(ctx, s)
        elif k == 'break':
            raise _Break(line)
        elif k == 'continue':
            raise _Continue(line)
        elif k == 'proc':
            if s.name in ctx.glob.procs:
                raise self.err(ctx, line, 'redefinition')
            s.ps = self.params(ctx, s)
            ctx.glob.procs[s.name] = s
        elif k == 'func':
            if s.name in ctx.glob.funcs or s.name in SIG:
                raise self.err(ctx, line, 'redefinition')
            s.rt = self.typ(ctx, s.ret)
            if s.rt is None:
                raise self.err(ctx, line, 'type')
            s.ps = self.params(ctx, s)
            ctx.glob.funcs[s.name] = s
        elif k == 'call':
            self.call_proc(ctx, s)
        elif k == 'return':
            if not ctx.isfn:
                raise self.err(ctx, line, 'RETURN')
            t, v = self.convert(ctx.ret, *self.ev(ctx, s.e, line))
            if not self.same(t, ctx.ret):
                raise self.err(ctx, line, 'RETURN type')
            ctx.result = (ctx.ret, v)
            raise _Return()
        elif k == 'expr':
            t, v = self.ev(ctx, s.e, line)
            if self.repl:
                self.o.out.append(self.echo(t, v) + '\n')
        elif k == 'type':
            if self.is_ident_type(ctx, s.name, False) or self.typ(ctx, s.name) is not None:
                if hasattr(s, 'ptr') and self.typ(ctx, s.ptr) is None:
                    pass
                raise self.err(ctx, line, 'redefinition')
            if hasattr(s, 'enum'):
                d = TDef(s.name, 'enum', list(s.enum))
                ctx.types[s.name] = d
                for i, n in enumerate(s.enum):
                    ctx.elems.setdefault(n, (d, i))
            elif hasattr(s, 'ptr'):
                t = self.typ(ctx, s.ptr)
                if t is None:
                    raise self.err(ctx, line, 'type')
                ctx.types[s.name] = TDef(s.name, 'ptr', t)
            else:
                ctx.types[s.name] = TDef(s.name, 'rec', s.rec)
        elif k == 'ptrassign':
            p = self.holder(ctx, s.lv, line)
            if isinstance(p, Arr):
                raise self.err(ctx, line, 'array')
            v = self.holder(ctx, s.v, line)
            if isinstance(v, Arr) or not isinstance(p.val, Ptr) or not self.same(p.type.data, v.type):
                raise self.err(ctx, line, 'pointer')
            p.val = Ptr(v)
        elif k == 'input':
            self.input(ctx, s)
        elif k in ('open', 'close', 'readfile', 'writefile', 'seek', 'get', 'put'):
            self.file(ctx, s)
        else:
            raise Unknown(k)

    def assign(self, ctx, s):
        line = s.line
        # whole arrays
        if s.e[0] == 'var':
            try:
                h = self.resolve(ctx, s.e[1], line)
            except KeyError:
                h = None
            if isinstance(h, Arr):
                t = self.holder(ctx, s.lv, line)
                if not isinstance(t, Arr) or not self.same(t.type, h.type) or not self.arr_shape(t, h):
                    raise self.err(ctx, line, 'array assignment')
                for d, c in zip(t.cells, [self.copy(x.type, x.val, ctx) for x in h.cells]):
                    self.store(d, c)
                return
        t, v = self.ev(ctx, s.e, line)
        try:
            h = self.resolve(ctx, s.lv, line)
        except KeyError:
            n = self.head(s.lv)
            if s.lv[0] != 'id' or self.is_ident_type(ctx, n):
                raise self.err(ctx, line, 'undefined')
            if self.pedantic:
                raise Pedantic(line, 'assign')
            ctx.vars[n] = Var(n, t, self.copy(t, v, ctx), ctx)
            return
        if isinstance(h, Arr):
            raise self.err(ctx, line, 'array')
        if h.const:
            raise self.err(ctx, line, 'constant')
        t, v = self.convert(h.type, t, v)
        if not self.same(t, h.type):
            raise self.err(ctx, line, 'type')
        if isinstance(v, Rec) and not self.same_shape(h.val, v):
            raise self.err(ctx, line, 'shape')
        self.store(h, v)

    def case(self, ctx, s):
        t, v = self.ev(ctx, ('var', ('id', s.name)), s.line)
        num = ('INTEGER', 'REAL')
        for c, l in s.clauses:
            if c[0] == 'other':
                self.block(ctx, c[1])
                return
            if c[0] == 'eq':
                t2, v2 = self.ev(ctx, c[1], l)
                if t in num and t2 in num:
                    hit = v == v2 if t == t2 else float(v) == float(v2)
                elif not self.same(t, t2):
                    hit = False
                elif isinstance(v, (Rec, Ptr)):
                    raise Unknown('CASE of ' + t.kind)
                else:
                    hit = v == v2
                body = c[2]
            else:
                body = c[3]
                if t in num or t in ('CHAR', 'DATE'):
                    ta, a = self.ev(ctx, c[1], l)
                    if t in num and ta not in num:
                        raise self.err(ctx, (l, s.line), 'bound')
                    tb, b = self.ev(ctx, c[2], l)
                    if t in num:
                        if tb not in num:
                            raise self.err(ctx, (l, s.line), 'bound')
                        ge = a <= v if ta == t else float(a) <= float(v)
                        le = v <= b if tb == t else float(v) <= float(b)
                        hit = ge and le
                    elif ta != t or tb != t:
                        hit = False
                    elif t == 'CHAR':
                        sg = lambda ch: ord(ch) - (256 if ord(ch) > 127 else 0)
                        hit = sg(a) <= sg(v) <= sg(b)
                    else:
                        key = lambda d: (d[2], d[1], d[0])
                        hit = key(a) <= key(v) <= key(b)
                else:
                    hit = False
            if hit:
                self.block(ctx, body)
                return

    def for_(self, ctx, s):
        line = s.line
        it = ctx.vars.get(s.v) or ctx.glob.vars.get(s.v)
        if it is None:
            it = ctx.vars[s.v] = Var(s.v, 'INTEGER', 0, ctx)
        if it.type != 'INTEGER' or it.const:
            raise self.err(ctx, line, 'iterator')
        ta, a = self.ev(ctx, s.a, line)
        if ta != 'INTEGER':
            raise self.err(ctx, line, 'start')
        tb, b = self.ev(ctx, s.b, line)
        if tb != 'INTEGER':
            raise self.err(ctx, line, 'stop')
        st = 1
        if s.step is not None:
            ts, st = self.ev(ctx, s.step, line)
            if ts != 'INTEGER':
                raise self.err(ctx, line, 'step')
        if st == 0:
            raise Unknown('STEP 0')
        it.val = a
        while (it.val <= b) if st > 0 else (it.val >= b):
            self.step()
            try:
                self.block(ctx, s.body)
            except _Break:
                break
            except _Continue:
                pass
            n = it.val + st
            if n != wrap(n):
                raise Unknown('FOR overflow')
            it.val = n

    def line_in(self):
        if self.pos < len(self.lines):
            self.pos += 1
            if ECHO:
                self.o.out.append(self.lines[self.pos - 1] + '\n')
            return self.lines[self.pos - 1]
        return ''

    def input(self, ctx, s):
        line = s.line
        try:
            h = self.resolve(ctx, s.lv, line)
        except KeyError:
            n = self.head(s.lv)
            if s.lv[0] != 'id' or self.is_ident_type(ctx, n):
                raise self.err(ctx, line, 'undefined')
            if self.pedantic:
                raise Pedantic(line, 'input')
            h = ctx.vars[n] = Var(n, 'STRING', '', ctx)
        if isinstance(h, Arr):
            raise self.err(ctx, line, 'array')
        if h.const:
            raise self.err(ctx, line, 'constant')
        x = self.line_in()
        if h.type == 'INTEGER':
            h.val = to_int(x)
        elif h.type == 'REAL':
            h.val = to_real(x)
        elif h.type == 'BOOLEAN':
            h.val = x == 'TRUE'
        elif h.type == 'CHAR':
            h.val = x[0] if x else '\0'
        elif h.type == 'STRING':
            h.val = x
        else:
            raise self.err(ctx, line, 'INPUT type')

    # ---- files.  disk: name -> str (text) or list (records: (type key, value)); None: directory / unwritable
    def file(self, ctx, s):
        line, k = s.line, s.k
        files = self.g.files

        def fname():
            t, f = self.ev(ctx, s.f, line)
            if t != 'STRING':
                raise self.err(ctx, line, 'file name')
            return f
        if k == 'seek':
            t, n = self.ev(ctx, s.e, line)
            if t != 'INTEGER' or n < 1:
                raise self.err(ctx, line, 'address')
            h = files.get(fname())
            if h is None or h.mode != 'RANDOM' or n > len(h.recs) + 1:
                raise self.err(ctx, line, 'SEEK')
            h.ptr = n - 1
            return
        f = fname()
        if k == 'open':
            if f in files:
                raise self.err(ctx, line, 'open twice')
            d = self.disk.get(f, 0)
            if d is None:
                raise self.err(ctx, line, 'cannot open')
            if '/' in f or f == '' or '\0' in f:
                if f not in self.disk:
                    raise self.err(ctx, line, 'cannot open')
            if d == 0 and s.mode in ('READ', 'APPEND'):
                raise self.err(ctx, line, 'missing file')
            h = FileH(f, s.mode)
            if s.mode == 'RANDOM':
                if isinstance(d, str) and d != '':
                    raise Unknown('text file opened FOR RANDOM')
                h.recs = list(d) if isinstance(d, list) else []
                h.ptr = 0
                h.dirty = False
                if d == 0:
                    self.disk[f] = []
            else:
                if isinstance(d, list):
                    if s.mode == 'WRITE' or not d:
                        d = ''
                        if s.mode == 'APPEND':
                            self.disk[f] = ''
                    else:
                        raise Unknown('random file as text')
                if s.mode == 'READ':
                    h.lines = d.split('\n')
                    if h.lines[-1] == '':
                        h.lines.pop()
                    h.pos = 0
                elif s.mode == 'WRITE':
                    self.disk[f] = ''
                else:
                    h.unfinished = d != '' and not d.endswith('\n')
                if any(x is not h and x.name == f for x in files.values()):
                    raise Unknown('aliased file')
            files[f] = h
            return
        if k == 'writefile':
            t, v = self.ev(ctx, s.e, line)
        h = files.get(f)
        if h is None:
            raise self.err(ctx, line, 'not open')
        if k == 'close':
            self.flush(h)
            del files[f]
        elif k == 'readfile':
            if h.mode != 'READ':
                raise self.err(ctx, line, 'READFILE mode')
            v = self.lookup(ctx, s.name)
            if isinstance(v, Arr):
                raise self.err(ctx, line, 'array')
            if v is None:
                if self.is_ident_type(ctx, s.name):
                    raise self.err(ctx, line, 'undefined')
                v = ctx.vars[s.name] = Var(s.name, 'STRING', '', ctx)
            elif v.type != 'STRING' or v.const:
                raise self.err(ctx, line, 'READFILE target')
            if h.pos < len(h.lines):
                v.val = h.lines[h.pos]
                h.pos += 1
            else:
                v.val = ''
        elif k == 'writefile':
            if h.mode not in ('WRITE', 'APPEND'):
                raise self.err(ctx, line, 'WRITEFILE mode')
            if t not in PRIM:
                raise self.err(ctx, line, 'WRITEFILE type')
            if getattr(h, 'unfinished', False):
                self.disk[f] += '\n'
                h.unfinished = False
            self.disk[f] += self.text(t, v) + '\n'
        else:
            if h.mode != 'RANDOM':
                raise self.err(ctx, line, 'record mode')
            v = self.lookup(ctx, s.name)
            if v is None:
                raise self.err(ctx, line, 'undefined')
            if isinstance(v.type, TDef) and v.type.kind == 'ptr':
                raise self.err(ctx, line, 'pointer')
            if self.hasptr(v):
                raise Unknown('record with a pointer')
            if k == 'put':
                r = self.snap(v)
                if h.ptr == len(h.recs):
                    h.recs.append(r)
                else:
                    h.recs[h.ptr] = r
                h.dirty = True
            else:
                if isinstance(v, Var) and v.const:
                    raise self.err(ctx, line, 'constant')
                if h.ptr >= len(h.recs):
                    raise self.err(ctx, line, 'no record')
                r = h.recs[h.ptr]
                if not self.fits(v, r):
                    raise self.err(ctx, line, 'record type')
                self.unsnap(v, r)

    def hasptr(self, v):
        if isinstance(v, Arr):
            return any(self.hasptr(c) for c in v.cells[:1])
        if isinstance(v.val, Rec):
            return any(self.hasptr(x) for x in list(v.val.vars.values()) + list(v.val.arrs.values()))
        return isinstance(v.val, Ptr)

    def snap(self, v):
        """stored form: nested tuples, as independent of the program's types as the file is"""
        if isinstance(v, Arr):
            return ('ARRAY', [self.snap(c) for c in v.cells])
        if isinstance(v.val, Rec):
            return ('REC', v.val.tname, [self.snap(x) for x in v.val.vars.values()], [self.snap(a) for a in v.val.arrs.values()])
        if isinstance(v.type, TDef):
            return ('ENUM', v.type.name, v.val)
        return (v.type, v.val)

    def fits(self, v, r):
        if isinstance(v, Arr):
            return r[0] == 'ARRAY' and len(r[1]) == len(v.cells) and all(self.fits(c, x) for c, x in zip(v.cells, r[1]))
        if isinstance(v.val, Rec):
            return (r[0] == 'REC' and r[1] == v.val.tname and len(r[2]) == len(v.val.vars) and len(r[3]) == len(v.val.arrs)
                    and all(self.fits(c, x) for c, x in zip(v.val.vars.values(), r[2])) and all(self.fits(c, x) for c, x in zip(v.val.arrs.values(), r[3])))
        if isinstance(v.type, TDef):
            return r[0] == 'ENUM' and r[1] == v.type.name and r[2] < len(v.type.data)
        return r[0] == v.type

    def unsnap(self, v, r):
        if isinstance(v, Arr):
            for c, x in zip(v.cells, r[1]):
                self.unsnap(c, x)
        elif isinstance(v.val, Rec):
            for c, x in zip(v.val.vars.values(), r[2]):
                self.unsnap(c, x)
            for c, x in zip(v.val.arrs.values(), r[3]):
                self.unsnap(c, x)
        else:
            v.val = r[-1]

    def flush(self, h):
        if h.mode == 'RANDOM' and h.dirty:
            self.disk[h.name] = list(h.recs)

    # ---- programs
    def guarded(self, block):
        """runs statements in the global scope -> True when they completed"""
        try:
            try:
                self.block(self.g, block)
            except _Break as e:
                raise self.err(self.g, e.args[0], 'break')
            except _Continue as e:
                raise self.err(self.g, e.args[0], 'continue')
            return True
        except Err as e:
            self.o.kind, self.o.frames, self.o.why = 'runtime', e.frames, e.why
        except Pedantic as e:
            self.o.kind, self.o.line, self.o.why = 'pedantic', e.line, e.what
        return False

    def finish(self):
        for h in self.g.files.values():
            self.flush(h)


def run(block, disk=None, stdin='', **kw):
    """program from a file: Out; disk is updated in place"""
    r = Ref(disk, stdin, **kw)
    try:
        ok = r.guarded(block)
    except RecursionError:
        raise Unknown('recursion')
    r.finish()
    r.o.ok = ok
    if not ok:
        r.o.out.append('\n')
    r.o.consumed = r.pos
    return r.o
