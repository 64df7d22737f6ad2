from .common import *

BOUND = BIG


def laws_item(pairs):
    """DIV / MOD laws and + - * on pairs of integers, values printed and judged here"""
    b = []
    for x, y in pairs:
        if y == 0:
            continue
        X, Y = I(x), I(y)
        b.append(output(*sum([[B(o, X, Y), ('str', ' ')] for o in ('DIV', 'MOD', '+', '-', '*')], []), ('dm', 'DIV', X, Y), ('str', ' '), ('dm', 'MOD', X, Y)))
    src = lang.show(b)
    pr = [(x, y) for x, y in pairs if y != 0]

    def check(rs, fs):
        r = rs[0]
        if r.crashed() or r.kind == 2 or r.code != 0:
            return 'status %s' % r.status(), 'every line prints'
        ls = r.out.decode('latin1').split('\n')
        for (x, y), l in zip(pr, ls):
            try:
                q, m, s, d, p, q2, m2 = [int(t) for t in l.split()]
            except ValueError:
                return 'output %r for %d, %d' % (l, x, y), ''
            w = ref.wrap
            if (w(q * y + m) != x or abs(m) >= abs(y) or s != w(x + y) or d != w(x - y) or p != w(x * y) or q != q2 or m != m2
                    or (abs(q * y + m) <= (1 << 64) and q * y + m != x and not (x == -(1 << 63) and y == -1))):
                return 'law broken for %d and %d: %s' % (x, y, l), 'a = (a DIV b)*b + (a MOD b), |a MOD b| < |b|, exact + - *'
        return None
    return Test(Case(src), check, len(pr))


def laws(rng):
    for x in range(-40, 41):
        yield [(x, y) for y in range(-40, 41)]
    for x in BOUND:
        yield [(x, y) for y in BOUND] + [(y, x) for y in range(-9, 10)] + [(x, y) for y in range(-9, 10)]


FAM = {'*': 'n', '/': 'n', 'DIV': 'n', 'MOD': 'n', '+': 'n', '-': 'n', '&': 's', '=': 'c', '<>': 'c', '<': 'n', '<=': 'n', '>': 'n', '>=': 'n', 'AND': 'b', 'OR': 'b'}


def lits_for(rng, tree):
    """fills the holes of a tree with literals; types by what the nearest operator takes"""
    def fill(t, want):
        if t is None:
            if want == 'n':
                return rng.choice([I(rng.randint(1, 9)), I(rng.randint(1, 9)), ('real', rng.choice(['0.5', '2.5', '4.0']))])
            if want == 's':
                return rng.choice([('str', 'a'), I(rng.randint(1, 9)), ('char', 'c')])
            if want == 'b':
                return ('bool', rng.random() < 0.5)
            return rng.choice([I(rng.randint(1, 4)), ('bool', True), ('bool', False), ('str', '3')])
        if t[0] == 'bin':
            f = FAM[t[1]]
            w = f if f != 'c' else rng.choice('nbs')
            if t[1] in ('DIV', 'MOD'):
                return ('bin', t[1], fill(t[2], 'n'), fill(t[3], 'n'))
            return ('bin', t[1], fill(t[2], w), fill(t[3], w))
        return (t[0], fill(t[1], 'b' if t[0] == 'not' else 'n'))
    return fill(tree, 'n')


def shapes2():
    for a in OPS:
        for b in OPS:
            yield ('bin', a, ('bin', b, None, None), None)
            yield ('bin', a, None, ('bin', b, None, None))
    for a in OPS:
        for u in ('neg', 'not'):
            yield ('bin', a, (u, None), None)
            yield ('bin', a, None, (u, None))
            yield (u, ('bin', a, None, None))


def shapes3():
    for a in OPS:
        for b in OPS:
            for c in OPS:
                yield ('bin', a, ('bin', b, ('bin', c, None, None), None), None)
                yield ('bin', a, ('bin', b, None, None), ('bin', c, None, None))
                yield ('bin', a, None, ('bin', b, None, ('bin', c, None, None)))


def mixed(e):
    """unparenthesised mixtures of AND and OR are outside the property: the printer parenthesises them"""
    return False


def trees(es, rng, paren=None, **kw):
    """one REPL session evaluating many independent expressions, each echoed or rejected"""
    s = Session(**kw)
    n = 0
    for e in es:
        old = (list(s.lines), list(s.out), list(s.kinds))
        try:
            blk = [output(e)]
            if paren:
                # the printed text is fixed first so that both sides see one tree
                p = lang.Printer(lambda: rng.random() < paren)
                t = p.e(e)
                blk = [RawOut(t, e)]
            s.add(Entry(blk))
            n += 1
        except ref.Unknown:
            s.lines, s.out, s.kinds = old
    if not n:
        return None
    t = s.test()
    t.n = n
    return t


class RawOut(S):
    """OUTPUT of an expression whose text was printed before"""

    def __init__(self, text, e):
        S.__init__(self, 'output', es=[e])
        self.es = [e]
        self.text = text


# the layout prints RawOut by its text
_stmt = lang.Layout.stmt


def _stmt2(self, s, d):
    if isinstance(s, RawOut):
        s.line = self.put(d, 'OUTPUT ' + s.text)
    else:
        _stmt(self, s, d)


lang.Layout.stmt = _stmt2


def prec_make(shapes, rng):
    es = []
    for sh in shapes:
        for _ in range(10):
            es.append(lits_for(rng, sh))
    return trees(es, rng, rng.choice([None, None, 0.4]))


def accept_items(rng):
    n = len(operands())
    for i in range(n):
        yield i


def accept_make(i, rng):
    """every operator on operand i and every other operand"""
    ops = operands()
    s = Session()
    for x in WORLD_TYPES():
        s.add(Entry(x))
    done = set()
    for name, pre, e in ops:
        for st in pre:
            key = (st.k, getattr(st, 'name', getattr(st, 'names', [None])[0] if hasattr(st, 'names') else None) if st.k in ('declare', 'declarr', 'const', 'func') else id(st))
            if key in done:
                continue
            done.add(key)
            s.add(Entry(st))
    n = 0
    for name, pre, e in ops:
        for op in OPS:
            for x in ([B(op, ops[i][2], e)] if op not in ('DIV', 'MOD') else [B(op, ops[i][2], e), ('dm', op, ops[i][2], e)]):
                old = (list(s.lines), list(s.out), list(s.kinds))
                try:
                    s.add(Entry(output(x)))
                    n += 1
                except ref.Unknown:
                    s.lines, s.out, s.kinds = old
    for x in (('neg', ops[i][2]), ('not', ops[i][2]), ('neg', ('neg', ops[i][2]))):
        s.add(Entry(output(x)))
    t = s.test()
    t.n = n
    return t


def edge_items(rng):
    return itertools.product(range(len(BOUND)), ('+', '-', '*', '/', '=', '<>', '<', '<=', '>', '>=', 'DIV', 'MOD', '&'))


RB = ['0.0', '0.5', '1.0', '2.0', '3.25', '9007199254740992.0', '9007199254740993.0', '123456.789', '0.1']


def edge_make(it, rng):
    i, op = it
    es = []
    for y in BOUND:
        es.append(B(op, I(BOUND[i]), I(y)))
    for y in RB:
        for z in (('real', y), ('neg', ('real', y))):
            es += [B(op, I(BOUND[i]), z), B(op, z, I(BOUND[i]))]
    if i < len(RB):
        for y in RB:
            es.append(B(op, ('real', RB[i]), ('real', y)))
    return trees(es, rng)


def typed_make(seed, rng):
    """REAL and INTEGER results told apart: the result is stored in a variable of the expected type and shown"""
    r = random.Random(seed)
    g = gen.G(r, err=0.01, types=0, edepth=6, prims=PRIM)
    b = []
    for k in range(3):
        for T in PRIM:
            n = 'v%s%d' % (T[0], k)
            g.glob[n] = gen.Ent(n, T)
            b += [declare(n, T), assign(n, g.lit(T))]
    for _ in range(12):
        T = r.choice(PRIM)
        e = g.expr(T, r.randint(2, 6))
        if e:
            b.append(output(e))
    # one decision per parenthesis site: print once
    ps = r.choice([0, 0, 0.15, 0.4])
    out = []
    pr = lang.Printer((lambda: r.random() < ps) if ps else None)
    for s in b:
        out.append(RawOut(pr.e(s.es[0]), s.es[0]) if s.k == 'output' else s)
    return test(out)


def tasks(tier):
    deep = tier == 'thorough'
    t = [Task('DIV/MOD laws', laws, lambda it, rng: laws_item(it), bound='every pair of [-40,40]^2 and of the boundary integers'),
         Task('operator pairs', lambda rng: chunks(shapes2(), 20), prec_make, bound='every ordered pair of operators, both tree shapes'),
         Task('operand acceptance', accept_items, accept_make, bound='every operator on every pair of operand kinds'),
         Task('boundary operands', edge_items, edge_make, bound='every operator on boundary INTEGER and REAL operands'),
         Task('expression trees', seeds, typed_make, False, weight=3, bound='random well-typed trees up to depth 6'),
         rand_task(types=0, procs=1, funcs=2, edepth=5)]
    t.append(Task('operator triples', lambda rng: chunks(shapes3() if deep else rng.sample(list(shapes3()), 1500), 25), prec_make, bound='triples of operators, three tree shapes' + ('' if deep else ' (sample of 1500)')))
    return t
