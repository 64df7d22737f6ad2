"""Abstract syntax of pseudocode programs and their printing.  Programs are made as trees, never parsed: the reference
(ref.py) does not share a parser with the interpreter under test.

Expressions are tuples:
  ('int',n) ('real',text) ('bool',b) ('char',c) ('str',s) ('date',d,m,y) ('var',lv) ('neg',e) ('not',e)
  ('bin',op,a,b) ('fn',name,[args]) ('cast',T,e) ('dm',op,a,b)  ('raw',text) - text the reference cannot evaluate
lvalues: ('id',name) ('fld',lv,name) ('idx',lv,[e..]) ('deref',lv)
Types: 'INTEGER' .. 'DATE' or the name of a defined type.
"""

LEVEL = {'*': 7, '/': 7, 'DIV': 7, 'MOD': 7, '+': 6, '-': 6, '&': 5, '=': 4, '<>': 4, '<': 4, '<=': 4, '>': 4, '>=': 4, 'AND': 3, 'OR': 3}
ESC = {'\n': '\\n', '\t': '\\t', "'": "\\'", '"': '\\"', '\\': '\\\\'}


def I(n):
    return ('int', n) if n >= 0 else ('neg', ('int', -n)) if n > -(1 << 63) else ('bin', '-', ('neg', ('int', (1 << 63) - 1)), ('int', 1))


def R(x):
    """REAL literal for a float"""
    t = format(abs(x), 'f') if abs(x) < 1e15 and abs(x) * 1e6 == int(abs(x) * 1e6) else None
    if t is None:
        from decimal import Decimal
        t = format(Decimal(abs(x)), 'f')
        if '.' not in t:
            t += '.0'
    else:
        t = t.rstrip('0')
        t = t + '0' if t.endswith('.') else t
    e = ('real', t)
    return ('neg', e) if x < 0 else e


def V(n):
    return ('var', ('id', n)) if isinstance(n, str) else ('var', n)


def B(op, a, b):
    return ('bin', op, a, b)


def qstr(s, q='"'):
    return q + ''.join(ESC.get(c, c) for c in s) + q


def qchar(c):
    return "'" + ESC.get(c, c) + "'"


class Printer:
    """redundant: probability function deciding on extra parentheses; rnd() in [0,1)"""

    def __init__(self, paren=None):
        self.paren = paren

    def lv(self, l):
        k = l[0]
        if k == 'id':
            return l[1]
        if k == 'fld':
            return self.lv(l[1]) + '.' + l[2]
        if k == 'deref':
            return self.lv(l[1]) + '^'
        return self.lv(l[1]) + '[' + ', '.join(self.e(x, 6) for x in l[2]) + ']'

    def e(self, x, lvl=0):
        s, l = self._e(x)
        if l < lvl or (self.paren and self.paren()):
            return '(' + s + ')'
        return s

    def _e(self, x):
        k = x[0]
        if k == 'int':
            return str(x[1]), 9
        if k == 'real' or k == 'raw':
            return x[1], 9
        if k == 'bool':
            return ('TRUE' if x[1] else 'FALSE'), 9
        if k == 'char':
            return qchar(x[1]), 9
        if k == 'str':
            return qstr(x[1]), 9
        if k == 'date':
            return '%s/%s/%s' % x[1:4], 9
        if k == 'var':
            return self.lv(x[1]), 9
        if k == 'neg':
            return '-' + self.e(x[1], 9), 8
        if k == 'not':
            return 'NOT ' + self.e(x[1], 4), 3.5
        if k == 'bin':
            op = x[1]
            l = LEVEL[op]
            a, b = x[2], x[3]
            # NOT binds like a comparison: it may only start an operand of AND / OR
            ll = 3.5 if l == 3 else l
            left = self.e(a, l if l != 3 else 3)
            if l == 3 and a[0] == 'bin' and a[1] in ('AND', 'OR') and a[1] != op and not left.startswith('('):
                left = '(' + left + ')'
            elif l == 3 and a[0] == 'bin' and a[1] in ('AND', 'OR') and a[1] != op and not self._whole(left):
                left = '(' + left + ')'
            right = self.e(b, 3.5 if l == 3 else l + 1)
            return left + ' ' + op + ' ' + right, l
        if k == 'dm':
            return '%s(%s, %s)' % (x[1], self.e(x[2]), self.e(x[3])), 9
        if k == 'fn':
            return '%s(%s)' % (x[1], ', '.join(self.e(a) for a in x[2])), 9
        if k == 'cast':
            return '%s(%s)' % (x[1], self.e(x[2])), 9
        raise ValueError(k)

    @staticmethod
    def _whole(s):
        """s is one parenthesised expression"""
        if not s.startswith('('):
            return False
        d = 0
        for i, c in enumerate(s):
            if c == '(':
                d += 1
            elif c == ')':
                d -= 1
                if d == 0:
                    return i == len(s) - 1
        return False


class S:
    """statement: kind and attributes; line is set by the printer"""

    def __init__(self, kind, **kw):
        self.k = kind
        self.line = None
        self.__dict__.update(kw)


def declare(names, type):
    return S('declare', names=[names] if isinstance(names, str) else names, type=type)


def declarr(names, bounds, type):
    b = [(I(l) if isinstance(l, int) else l, I(u) if isinstance(u, int) else u) for l, u in bounds]
    return S('declarr', names=[names] if isinstance(names, str) else names, bounds=b, type=type)


def const(name, e):
    return S('const', name=name, e=e)


def lvl(x):
    return ('id', x) if isinstance(x, str) else x


def assign(lv, e):
    return S('assign', lv=lvl(lv), e=e)


def ptrassign(lv, v):
    return S('ptrassign', lv=lvl(lv), v=lvl(v))


def output(*es):
    return S('output', es=list(es))


def outs(*xs):
    return S('output', es=[('str', x) if isinstance(x, str) else x for x in xs])


def if_(conds, els=None):
    return S('if', conds=[[c, b, None] for c, b in conds], els=els)


def case(name, clauses):
    """clauses: ('eq', e, block) ('rng', a, b, block) ('other', block)"""
    return S('case', name=name, clauses=[[c, None] for c in clauses])


def while_(c, body, do=True):
    return S('while', c=c, body=body, do=do)


def repeat(body, c):
    return S('repeat', body=body, c=c)


def for_(v, a, b, body, step=None, next=None):
    return S('for', v=v, a=a, b=b, step=step, body=body, next=next)


def proc(name, params, body):
    """params: (mode or None, name, type or None); type None = same as the next one with a type"""
    return S('proc', name=name, params=params, body=body)


def func(name, params, ret, body):
    return S('func', name=name, params=params, ret=ret, body=body)


def call(name, args=()):
    return S('call', name=name, args=list(args))


def ret(e):
    return S('return', e=e)


def expr(e):
    return S('expr', e=e)


def deftype(name, **kw):
    """enum=[names] | ptr=type | rec=[declare/declarr ...]"""
    return S('type', name=name, **kw)


def input_(lv):
    return S('input', lv=lvl(lv))


def F(s):
    return ('str', s) if isinstance(s, str) else s


def openfile(f, mode):
    return S('open', f=F(f), mode=mode)


def closefile(f):
    return S('close', f=F(f))


def readfile(f, name):
    return S('readfile', f=F(f), name=name)


def writefile(f, e):
    return S('writefile', f=F(f), e=e)


def seek(f, e):
    return S('seek', f=F(f), e=e if isinstance(e, tuple) else I(e))


def getrec(f, name):
    return S('get', f=F(f), name=name)


def putrec(f, name):
    return S('put', f=F(f), name=name)


BREAK, CONTINUE = 'break', 'continue'


def brk():
    return S('break')


def cont():
    return S('continue')


def raw(text):
    """source text the reference does not execute"""
    return S('raw', text=text)


class Layout:
    """prints a block of statements; lines[i] is source line i+1"""

    def __init__(self, printer=None, indent='    ', first=1):
        self.p = printer or Printer()
        self.lines = []
        self.ind = indent
        self.first = first

    def put(self, d, s):
        self.lines.append(self.ind * d + s)
        return len(self.lines) + self.first - 1

    def block(self, b, d=0):
        for s in b:
            self.stmt(s, d)

    def params(self, ps):
        o = []
        for mode, name, type in ps:
            o.append((mode + ' ' if mode else '') + name + (' : ' + type if type else ''))
        return ', '.join(o)

    def stmt(self, s, d):
        p, e, put = self.p, self.p.e, self.put
        k = s.k
        if k == 'declare':
            s.line = put(d, 'DECLARE %s : %s' % (', '.join(s.names), s.type))
        elif k == 'declarr':
            s.line = put(d, 'DECLARE %s : ARRAY[%s] OF %s' % (', '.join(s.names), ', '.join('%s:%s' % (e(a, 6), e(b, 6)) for a, b in s.bounds), s.type))
        elif k == 'const':
            s.line = put(d, 'CONSTANT %s = %s' % (s.name, Printer().e(s.e)))
        elif k == 'assign':
            s.line = put(d, '%s <- %s' % (p.lv(s.lv), e(s.e)))
        elif k == 'ptrassign':
            s.line = put(d, '%s <- ^%s' % (p.lv(s.lv), p.lv(s.v)))
        elif k == 'output':
            s.line = put(d, 'OUTPUT ' + ', '.join(e(x) for x in s.es))
        elif k == 'if':
            for i, c in enumerate(s.conds):
                c[2] = put(d, ('IF ' if i == 0 else 'ELSE IF ') + e(c[0]) + ' THEN')
                if i == 0:
                    s.line = c[2]
                self.block(c[1], d + 1)
            if s.els is not None:
                put(d, 'ELSE')
                self.block(s.els, d + 1)
            put(d, 'ENDIF')
        elif k == 'case':
            s.line = put(d, 'CASE OF ' + s.name)
            for c in s.clauses:
                cl = c[0]
                if cl[0] == 'eq':
                    c[1] = put(d + 1, e(cl[1]) + ' :')
                    self.block(cl[2], d + 2)
                elif cl[0] == 'rng':
                    c[1] = put(d + 1, e(cl[1]) + ' TO ' + e(cl[2]) + ' :')
                    self.block(cl[3], d + 2)
                else:
                    c[1] = put(d + 1, 'OTHERWISE :')
                    self.block(cl[1], d + 2)
            put(d, 'ENDCASE')
        elif k == 'while':
            s.line = put(d, 'WHILE ' + e(s.c) + (' DO' if s.do else ''))
            self.block(s.body, d + 1)
            put(d, 'ENDWHILE')
        elif k == 'repeat':
            s.line = put(d, 'REPEAT')
            self.block(s.body, d + 1)
            s.endline = put(d, 'UNTIL ' + e(s.c))
        elif k == 'for':
            s.line = put(d, 'FOR %s <- %s TO %s' % (s.v, e(s.a, 6), e(s.b, 6)) + (' STEP ' + e(s.step, 6) if s.step is not None else ''))
            self.block(s.body, d + 1)
            put(d, 'NEXT' + (' ' + s.next if s.next else ''))
        elif k == 'proc':
            s.line = put(d, 'PROCEDURE %s' % s.name + ('(%s)' % self.params(s.params) if s.params else ''))
            self.block(s.body, d + 1)
            put(d, 'ENDPROCEDURE')
        elif k == 'func':
            s.line = put(d, 'FUNCTION %s' % s.name + '(%s)' % self.params(s.params) + ' RETURNS ' + s.ret)
            self.block(s.body, d + 1)
            put(d, 'ENDFUNCTION')
        elif k == 'call':
            s.line = put(d, 'CALL ' + s.name + ('(%s)' % ', '.join(e(a) for a in s.args) if s.args else ''))
        elif k == 'return':
            s.line = put(d, 'RETURN ' + e(s.e))
        elif k == 'expr':
            s.line = put(d, e(s.e))
        elif k == 'type':
            if hasattr(s, 'enum'):
                s.line = put(d, 'TYPE %s = (%s)' % (s.name, ', '.join(s.enum)))
            elif hasattr(s, 'ptr'):
                s.line = put(d, 'TYPE %s = ^%s' % (s.name, s.ptr))
            else:
                s.line = put(d, 'TYPE ' + s.name)
                self.block(s.rec, d + 1)
                put(d, 'ENDTYPE')
        elif k == 'input':
            s.line = put(d, 'INPUT ' + p.lv(s.lv))
        elif k == 'open':
            s.line = put(d, 'OPENFILE %s FOR %s' % (e(s.f, 5), s.mode))
        elif k == 'close':
            s.line = put(d, 'CLOSEFILE ' + e(s.f, 5))
        elif k == 'readfile':
            s.line = put(d, 'READFILE %s, %s' % (e(s.f, 5), s.name))
        elif k == 'writefile':
            s.line = put(d, 'WRITEFILE %s, %s' % (e(s.f, 5), e(s.e)))
        elif k == 'seek':
            s.line = put(d, 'SEEK %s, %s' % (e(s.f, 5), e(s.e)))
        elif k == 'get':
            s.line = put(d, 'GETRECORD %s, %s' % (e(s.f, 5), s.name))
        elif k == 'put':
            s.line = put(d, 'PUTRECORD %s, %s' % (e(s.f, 5), s.name))
        elif k == 'break':
            s.line = put(d, 'BREAK')
        elif k == 'continue':
            s.line = put(d, 'CONTINUE')
        elif k == 'raw':
            s.line = put(d, s.text)
        else:
            raise ValueError(k)


def show(block, printer=None):
    """source text of a program"""
    l = Layout(printer)
    l.block(block)
    return '\n'.join(l.lines) + '\n'
