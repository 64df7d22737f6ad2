"""Reader of textual LLVM IR (LLVM 18, opaque pointers): the part of the language clang emits for this code base."""
import re, struct

TOK = re.compile(r'''%"[^"]*"|@"[^"]*"|%[\w.$-]+|@[\w.$-]+|c"[^"]*"|"[^"]*"|![\w.]*|\#\d+|-?\d+\.\d+e[+-]\d+|0x[HKLMR]?[0-9A-Fa-f]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|[{}\[\]()<>,=*:|]''')
ATTR = {'noundef', 'nonnull', 'noalias', 'zeroext', 'signext', 'writable', 'dead_on_unwind', 'nocapture', 'readonly', 'writeonly', 'readnone',
        'immarg', 'returned', 'inreg', 'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'range', 'nofree', 'allocptr', 'allocalign',
        'noreturn', 'nounwind', 'swiftself', 'nest', 'inalloca', 'preallocated', 'elementtype', 'initializes', 'captures', 'dso_local', 'cold', 'speculatable', 'hidden', 'weak', 'extern_weak', 'nofpclass'}
CCS = {'fastcc', 'ccc', 'coldcc'}


class IRError(Exception):
    pass


class Unsupported(Exception):
    pass


class P:
    def __init__(self, s, mod):
        self.t = TOK.findall(s)
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        if not self.accept(x):
            raise IRError('expected %s at %s' % (x, ' '.join(self.t[max(0, self.i - 6):self.i + 6])))

    def skip_paren(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def attrs(self):
        while self.peek() in ATTR or self.peek().startswith('#'):
            x = self.next()
            if self.peek() == '(':
                self.skip_paren()
            elif x == 'align' and self.peek().lstrip('-').isdigit():
                self.next()

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = ('ptr',)
            if self.peek() == 'addrspace':
                self.next(); self.skip_paren()
        elif re.fullmatch(r'i\d+', x):
            t = ('i', int(x[1:]))
        elif x in ('double', 'float', 'void', 'x86_fp80', 'metadata', 'label', 'token', 'half', 'fp128'):
            t = (x,)
        elif x[0] == '%':
            t = ('named', x)
        elif x == '[':
            n = int(self.next()); self.expect('x')
            t = ('arr', n, self.type()); self.expect(']')
        elif x == '<':
            if self.peek() == '{':
                t = self.type()
                t = ('struct', t[1], True)
            else:
                n = int(self.next()); self.expect('x')
                t = ('vec', n, self.type())
            self.expect('>')
        elif x == '{':
            l = []
            while not self.accept('}'):
                l.append(self.type()); self.accept(',')
            t = ('struct', l, False)
        else:
            raise IRError('type? ' + x + ' in ' + ' '.join(self.t[:20]))
        while self.peek() == '(':   # function type
            self.next()
            a = []
            while not self.accept(')'):
                if self.accept('...'):
                    continue
                a.append(self.type()); self.attrs(); self.accept(',')
            t = ('func', t, a)
        return t

    def value(self, ty):
        x = self.next()
        if x[0] == '%':
            return ('reg', x)
        if x[0] == '@':
            return ('global', x)
        if x == 'true':
            return ('int', 1)
        if x == 'false':
            return ('int', 0)
        if x == 'null':
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef', ty)
        if x == 'zeroinitializer':
            return ('zero', ty)
        if re.fullmatch(r'-?\d+', x):
            return ('int', int(x))
        if re.fullmatch(r'-?\d+\.\d+e[+-]\d+', x):
            return ('fp', float(x))
        if x.startswith('0x'):
            if x[2] in 'HKLMR':
                return ('fpx', x)
            return ('fp', struct.unpack('>d', bytes.fromhex(x[2:].rjust(16, '0')))[0])
        if x.startswith('c"'):
            b = bytearray()
            s = x[2:-1]
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16)); i += 3
                else:
                    b += s[i].encode('utf8', 'surrogateescape'); i += 1
            return ('str', bytes(b))
        if x == 'getelementptr':
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                self.next()
                if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                    self.skip_paren()
            self.expect('(')
            t = self.type(); self.expect(',')
            bt = self.type(); b = self.value(bt)
            idx = []
            while self.accept(','):
                self.accept('inrange')
                it = self.type(); idx.append((it, self.value(it)))
            self.expect(')')
            return ('gep', t, b, idx)
        if x in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast'):
            self.expect('(')
            ft = self.type(); v = self.value(ft); self.expect('to'); tt = self.type(); self.expect(')')
            return ('ccast', x, ft, v, tt)
        if x in ('{', '[', '<'):
            close = {'{': '}', '[': ']', '<': '>'}[x]
            if x == '<' and self.accept('{'):
                close = '}>'
            l = []
            while self.peek() != close[0]:
                t = self.type(); l.append((t, self.value(t))); self.accept(',')
            for c in close:
                self.expect(c)
            return ('agg', l)
        if x in ('add', 'sub', 'mul', 'icmp', 'xor', 'and', 'or'):
            raise IRError('constant expression ' + x)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return self.value(ty)
        if x == 'none':
            return ('undef', ty)
        raise IRError('value? %s in %s' % (x, ' '.join(self.t[:30])))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'text')

    def __init__(self, op, res, ty, a, text):
        self.op, self.res, self.ty, self.a, self.text = op, res, ty, a, text


class Block:
    __slots__ = ('name', 'ins', 'phis')

    def __init__(self, name):
        self.name, self.ins, self.phis = name, [], []


class Func:
    def __init__(self, name, ret, params, lines, mod):
        self.name, self.ret, self.params, self._lines, self.mod = name, ret, params, lines, mod
        self._blocks = None
        self._loops = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        merged = []
        for l in self._lines:
            if l.startswith('          ') or l.startswith('    ') or l.startswith('  ]'):
                merged[-1] += ' ' + l.strip()
            else:
                merged.append(l)
        blocks = {}
        cur = None
        entry = None
        for l in merged:
            l = l.split(' ; ')[0] if ' ; preds' in l else l
            m = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if m:
                cur = Block('%' + m[1])
                blocks[cur.name] = cur
            elif l.strip():
                if cur is None:
                    cur = Block('%' + str(len(self.params)))
                    blocks[cur.name] = cur
                i = parse_ins(l.strip(), self.mod)
                if i.op == 'phi':
                    cur.phis.append(i)
                else:
                    cur.ins.append(i)
            if entry is None and cur is not None:
                entry = cur.name
        self.entry = entry
        self._blocks = blocks

    def succs(self, b):
        i = self.blocks[b].ins[-1]
        if i.op == 'br':
            return [i.a['t']] if i.a.get('c') is None else [i.a['t'], i.a['f']]
        if i.op == 'switch':
            return [i.a['d']] + [x for _, x in i.a['cases']]
        if i.op == 'invoke':
            return [i.a['normal'], i.a['unwind']]
        return []

    @property
    def loops(self):
        """header -> set of blocks of its natural loop (headers = targets of retreating edges)"""
        if self._loops is None:
            self._loops = {}
            color = {}
            preds = {}
            back = []
            st = [(self.blocks and self.entry, iter(self.succs(self.entry)))]
            color[self.entry] = 1
            while st:
                b, it = st[-1]
                for s in it:
                    preds.setdefault(s, set()).add(b)
                    if color.get(s, 0) == 0:
                        color[s] = 1
                        st.append((s, iter(self.succs(s))))
                        break
                    elif color[s] == 1:
                        back.append((b, s))
                else:
                    color[b] = 2
                    st.pop()
            for b, h in back:
                body = self._loops.setdefault(h, {h})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += preds.get(x, ())
        return self._loops


def strip_meta(s):
    k = s.find(', !')
    return s[:k] if k >= 0 else s


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'zext', 'sext', 'trunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'bitcast', 'fpext', 'fptrunc'}
FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast', 'nneg', 'disjoint', 'nusw', 'samesign'}


def parse_ins(s, mod):
    text = s
    s = strip_meta(s)
    p = P(s, mod)
    res = None
    if p.peek(1) == '=':
        res = p.next(); p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    a = {}
    ty = None
    if op in BINOPS:
        fl = set()
        while p.peek() in FLAGS:
            fl.add(p.next())
        ty = p.type()
        a = dict(x=p.value(ty)); p.expect(',')
        a['y'] = p.value(ty); a['fl'] = fl
    elif op == 'fneg':
        while p.peek() in FLAGS:
            p.next()
        ty, a['x'] = p.tv()
    elif op in CASTS:
        while p.peek() in FLAGS:
            p.next()
        a['ft'], a['x'] = p.tv(); p.expect('to'); ty = p.type()
    elif op in ('icmp', 'fcmp'):
        while p.peek() in FLAGS:
            p.next()
        a['p'] = p.next(); a['t'] = p.type(); a['x'] = p.value(a['t']); p.expect(','); a['y'] = p.value(a['t'])
        ty = ('i', 1)
    elif op == 'alloca':
        ty = p.type()
        a['n'] = None
        if p.accept(','):
            if p.peek() != 'align':
                a['n'] = p.tv()
    elif op == 'load':
        p.accept('volatile'); p.accept('atomic')
        ty = p.type(); p.expect(','); a['p'] = p.tv()[1]
    elif op == 'store':
        p.accept('volatile'); p.accept('atomic')
        a['t'], a['v'] = p.tv(); p.expect(','); a['p'] = p.tv()[1]
    elif op == 'getelementptr':
        while p.peek() in FLAGS:
            p.next()
        a['t'] = p.type(); p.expect(','); a['b'] = p.tv()[1]
        a['i'] = []
        while p.accept(','):
            a['i'].append(p.tv())
        ty = ('ptr',)
    elif op in ('call', 'invoke'):
        while p.peek() in FLAGS or p.peek() in CCS or p.peek() in ATTR:
            x = p.next()
            if p.peek() == '(' and x in ATTR:
                p.skip_paren()
            elif x == 'align':
                p.next()
        ty = p.type()
        if ty[0] == 'func':
            ty = ty[1]
        a['f'] = p.value(('ptr',))
        p.expect('(')
        a['args'] = []
        while not p.accept(')'):
            t = p.type()
            if t == ('metadata',):
                while p.peek() not in (',', ')'):
                    if p.next() == '(':
                        p.i -= 1; p.skip_paren()
                a['args'].append((t, ('undef', t)))
            else:
                p.attrs()
                a['args'].append((t, p.value(t)))
            p.accept(',')
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.next(); p.expect('label'); a['normal'] = p.next(); p.expect('unwind'); p.expect('label'); a['unwind'] = p.next()
    elif op == 'br':
        if p.accept('label'):
            a['t'] = p.next(); a['c'] = None
        else:
            p.type(); a['c'] = p.value(('i', 1)); p.expect(','); p.expect('label'); a['t'] = p.next(); p.expect(','); p.expect('label'); a['f'] = p.next()
    elif op == 'switch':
        a['t'], a['x'] = p.tv(); p.expect(','); p.expect('label'); a['d'] = p.next()
        p.expect('[')
        a['cases'] = []
        while not p.accept(']'):
            t, v = p.tv(); p.expect(','); p.expect('label'); a['cases'].append((v[1], p.next()))
    elif op == 'ret':
        ty = p.type()
        a['v'] = None if ty == ('void',) else p.value(ty)
    elif op == 'phi':
        while p.peek() in FLAGS:
            p.next()
        ty = p.type()
        a['in'] = []
        while p.accept('['):
            v = p.value(ty); p.expect(','); a['in'].append((v, p.next())); p.expect(']'); p.accept(',')
    elif op == 'select':
        while p.peek() in FLAGS:
            p.next()
        a['c'] = p.tv()[1]; p.expect(','); ty, a['x'] = p.tv(); p.expect(','); a['y'] = p.tv()[1]
    elif op == 'extractvalue':
        a['t'], a['x'] = p.tv()
        a['i'] = []
        while p.accept(','):
            a['i'].append(int(p.next()))
    elif op == 'insertvalue':
        ty, a['x'] = p.tv(); p.expect(','); a['et'], a['v'] = p.tv()
        a['i'] = []
        while p.accept(','):
            a['i'].append(int(p.next()))
    elif op == 'landingpad':
        ty = p.type()
        a['cleanup'] = False
        a['clauses'] = []
        while p.peek():
            x = p.next()
            if x == 'cleanup':
                a['cleanup'] = True
            elif x == 'catch':
                a['clauses'].append(p.tv()[1])
            else:
                raise IRError('landingpad ' + x)
    elif op == 'resume':
        ty, a['x'] = p.tv()
    elif op == 'unreachable':
        pass
    elif op == 'freeze':
        ty, a['x'] = p.tv()
    else:
        a = None
    return Ins(op, res, ty, a, text)


class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs, self.decls = {}, {}, {}, set()
        self.consts = set()
        body = None
        with open(path, errors='surrogateescape') as f:
            for l in f:
                l = l.rstrip('\n')
                if body is not None:
                    if l == '}':
                        body = None
                    else:
                        body.append(l)
                    continue
                if l.startswith('define '):
                    body = []
                    self._define(l, body)
                elif l.startswith('@'):
                    self._global(l)
                elif l.startswith('%') and ' = type ' in l:
                    n, t = l.split(' = type ', 1)
                    if t != 'opaque':
                        self.types[n] = t
                elif l.startswith('declare '):
                    m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
                    self.decls.add(m[1])
        self._lay = {}

    def _define(self, l, body):
        m = re.search(r'(@"[^"]*"|@[\w.$-]+)\(', l)
        name = m[1]
        head = l[7:m.start()]
        params = []
        p = P(l[m.end():], self)
        while not p.accept(')'):
            if p.accept('...'):
                continue
            t = p.type(); p.attrs()
            params.append((t, p.next()))
            p.accept(',')
        hp = head.split()
        # the return type is what remains after the attributes
        q = P(head, self)
        while q.peek() in ATTR or q.peek() in ('linkonce_odr', 'dso_local', 'internal', 'available_externally', 'weak_odr', 'private', 'hidden', 'fastcc', 'protected', 'local_unnamed_addr', 'mustprogress', 'linkonce', 'weak', 'comdat'):
            x = q.next()
            if q.peek() == '(':
                q.skip_paren()
            elif x == 'align':
                q.next()
        ret = q.type()
        self.funcs[name] = Func(name, ret, params, body, self)

    def _global(self, l):
        m = re.match(r'(@"[^"]*"|@[\w.$-]+) = ', l)
        self.globals[m[1]] = l[m.end():]

    def ginit(self, name):
        """-> (type, initialiser or None)"""
        s = self.globals[name]
        if isinstance(s, tuple):
            return s
        m = re.search(r'(?:^|\s)(constant|global|alias)\s', ' ' + s)
        k = s.find(m[1]) + len(m[1])
        ext = bool(re.search(r'\bexternal\b', s[:k]))
        p = P(strip_meta(s[k:]), self)
        t = p.type()
        if m[1] == 'alias':
            p.expect(',')
            v = p.tv()[1]
            r = ('alias', v)
        else:
            r = (t, None if ext else p.value(t))
        self.globals[name] = r
        if m[1] == 'constant':
            self.consts.add(name)
        return r

    def isconst(self, name):
        self.ginit(name)
        return name in self.consts

    # layout
    def resolve(self, t):
        while t[0] == 'named':
            d = self.types.get(t[1])
            if d is None:
                raise IRError('opaque type ' + t[1])
            if isinstance(d, str):
                d = P(d, self).type()
                self.types[t[1]] = d
            t = d
        return t

    def size_align(self, t):
        k = str(t)
        r = self._lay.get(k)
        if r is not None:
            return r
        u = self.resolve(t)
        o = u[0]
        if o == 'ptr':
            r = (8, 8)
        elif o == 'i':
            n = (u[1] + 7) // 8
            s = 1
            while s < n:
                s *= 2
            r = (s, min(s, 16))
        elif o == 'double':
            r = (8, 8)
        elif o == 'float':
            r = (4, 4)
        elif o in ('x86_fp80', 'fp128'):
            r = (16, 16)
        elif o == 'arr':
            s, a = self.size_align(u[2])
            r = (s * u[1], a)
        elif o == 'struct':
            off, al = 0, 1
            for e in u[1]:
                s, a = self.size_align(e)
                if u[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            r = ((off + al - 1) // al * al, al)
        elif o == 'vec':
            s, a = self.size_align(u[2])
            r = (s * u[1], s * u[1])
        else:
            raise IRError('size of ' + str(t))
        self._lay[k] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def field(self, t, i):
        """offset and type of member i"""
        u = self.resolve(t)
        if u[0] == 'arr' or u[0] == 'vec':
            return self.size(u[2]) * i, u[2]
        off = 0
        for j, e in enumerate(u[1]):
            s, a = self.size_align(e)
            if u[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise IRError('field')
