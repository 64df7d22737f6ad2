"""Numeric operators, comparison, logic, negation, concatenation and casts (C02)."""
from .base import *

NUM = ('INTEGER', 'REAL')


def to_real(k, v):
    return z3.fpSignedToFP(RNE, bvt(v), F64) if k == 'INTEGER' else v


def modreal(x, y):
    z = z3.fpDiv(RNE, x, y)
    return z3.fpMul(RNE, z3.fpSub(RNE, z, z3.fpRoundToIntegral(z3.RTN(), z)), y)


def number_op(op):
    class T:
        def setup(self, c):
            for lk in NUM:
                for rk in NUM:
                    st = c.state()
                    a, b, r = c.w.value(st, lk), c.w.value(st, rk), c.sret(st)
                    st.ghost.update(a=(lk, c.payload(st, a, VCLS[lk])), b=(rk, c.payload(st, b, VCLS[rk])), r=r, objs=(a, b))
                    if op in ('%', '|', '/'):
                        k, v = st.ghost['b']
                        c.e.assume(st, v != 0 if k == 'INTEGER' else z3.Not(z3.fpEQ(v, z3.FPVal(0.0, F64))))
                    yield st, [r, a, b]

        def post(self, c, st, out):
            (lk, x), (rk, y) = st.ghost['a'], st.ghost['b']
            c.cover(lk + rk)
            c.ok(st, 'returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            p = c.ptr(st, st.ghost['r'])
            k, v = c.value(st, p)
            fl = c.w.peek(st, p, 'real', VCLS[k])
            c.ok(st, 'tag matches the class', bvt(fl, 8) == (1 if k == 'REAL' else 0))
            c.ok(st, 'operands unchanged', z3.And(*[c.payload(st, o, VCLS[q]) == w for o, (q, w) in zip(st.ghost['objs'], (st.ghost['a'], st.ghost['b']))]))
            if op == '/':
                c.ok(st, "'/' yields REAL", k == 'REAL')
                if k == 'REAL':
                    c.ok(st, 'quotient', v == z3.fpDiv(RNE, to_real(lk, x), to_real(rk, y)))
                return
            if op == '|':
                c.ok(st, 'DIV yields INTEGER', k == 'INTEGER')
                if k != 'INTEGER':
                    return
                if lk == rk == 'INTEGER':
                    # a = q*b + r with |r| < |b| for r = a - q*b (the remainder MOD yields is shown separately)
                    c.ok(st, 'integer quotient', z3.Or(bvt(v) == x / y, bvt(v) == floordiv(x, y)))
                return
            if lk == rk == 'INTEGER':
                c.ok(st, 'exact INTEGER', k == 'INTEGER')
                if k != 'INTEGER':
                    return
                if op == '%':
                    c.ok(st, 'remainder', z3.Or(bvt(v) == z3.SRem(x, y), bvt(v) == x - floordiv(x, y) * y))
                else:
                    c.ok(st, 'value', bvt(v) == {'+': x + y, '-': x - y, '*': x * y}[op])
            else:
                c.ok(st, 'REAL if an operand is', k == 'REAL')
                if k != 'REAL':
                    return
                X, Y = to_real(lk, x), to_real(rk, y)
                if op != '%':
                    c.ok(st, 'value', v == {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul}[op](RNE, X, Y))
    return T


def floordiv(x, y):
    q, r = x / y, z3.SRem(x, y)
    return z3.If(z3.And(r != 0, (r < 0) != (y < 0)), q - 1, q)


CMP = {'==': lambda x, y: x == y, '!=': lambda x, y: x != y, '<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y, '>=': lambda x, y: x >= y}
FCMP = {'==': z3.fpEQ, '!=': lambda x, y: z3.Not(z3.fpEQ(x, y)), '<': z3.fpLT, '<=': z3.fpLEQ, '>': z3.fpGT, '>=': z3.fpGEQ}


def number_cmp(op):
    class T:
        def setup(self, c):
            for lk in NUM:
                for rk in NUM:
                    st = c.state()
                    a, b, r = c.w.value(st, lk), c.w.value(st, rk), c.sret(st)
                    st.ghost.update(a=(lk, c.payload(st, a, VCLS[lk])), b=(rk, c.payload(st, b, VCLS[rk])), r=r)
                    yield st, [r, a, b]

        def post(self, c, st, out):
            (lk, x), (rk, y) = st.ghost['a'], st.ghost['b']
            c.cover(lk + rk)
            c.ok(st, 'returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            k, v = c.value(st, c.ptr(st, st.ghost['r']))
            c.ok(st, 'BOOLEAN', k == 'BOOLEAN')
            if k == 'BOOLEAN':
                w = CMP[op](x, y) if lk == rk == 'INTEGER' else FCMP[op](to_real(lk, x), to_real(rk, y))
                c.ok(st, 'truth value', (bvt(v, 8) == 1) == w)
                c.ok(st, 'well-formed', z3.ULE(bvt(v, 8), 1))
    return T


COV = ('INTEGERINTEGER', 'INTEGERREAL', 'REALINTEGER', 'REALREAL')
for _op in '+-*/%|':
    target('C02', 'PSC::Number::operator%s(PSC::Number const&) const' % _op, cover=COV)(number_op(_op))
for _op in CMP:
    target('C02', 'PSC::Number::operator%s(PSC::Number const&) const' % _op, cover=COV)(number_cmp(_op))


# ---------- operator nodes: the Number operators are used through the contracts shown above
def num_contracts(c):
    for op in '+-*/%|':
        c.handler(r'^PSC::Number::operator%s\(PSC::Number const&\) const$' % re.escape(op), number_contract(op))
    for op in CMP:
        c.handler(r'^PSC::Number::operator%s\(PSC::Number const&\) const$' % re.escape(op), compare_contract(op))


import re


def build(c, st, kind, term):
    p = c.w.new(st, VCLS[kind], 'heap', False)
    c.w.poke(st, p, 'value', term)
    return p


def num_of(c, st, p):
    """a Number reached through a reference: its tag and value"""
    k, v = c.value(st, p)
    return k, v


def number_contract(op):
    def h(e, st, a, ins):
        c = e.c
        (lk, x), (rk, y) = c.value(st, a[1]), c.value(st, a[2])
        if lk not in NUM or rk not in NUM:
            e.safety(st, 'operands of Number::operator%s are Numbers' % op, False)
            raise Infeasible()
        if op in '/%|':
            e.safety(st, 'divisor of Number::operator%s is not zero' % op, bvt(y) != 0 if rk == 'INTEGER' else z3.Not(z3.fpEQ(y, z3.FPVal(0.0, F64))))
        k, v = number_result(op, lk, x, rk, y)
        e.put(st, a[0], build(c, st, k, v), 8)
        return None
    return h


def number_result(op, lk, x, rk, y):
    if op == '/':
        return 'REAL', z3.fpDiv(RNE, to_real(lk, x), to_real(rk, y))
    if op == '|':
        return 'INTEGER', INTDIV(bvt(x), bvt(y)) if lk == rk == 'INTEGER' else bv('div')
    if lk == rk == 'INTEGER':
        x, y = bvt(x), bvt(y)
        return 'INTEGER', {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '%': lambda: INTMOD(x, y)}[op]()
    if op == '%':
        return 'REAL', fp('mod')
    return 'REAL', {'+': z3.fpAdd, '-': z3.fpSub, '*': z3.fpMul}[op](RNE, to_real(lk, x), to_real(rk, y))


INTDIV = z3.Function('integer_quotient', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))   # as specified by Number::operator|
INTMOD = z3.Function('integer_remainder', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def truth(op, lk, x, rk, y):
    return CMP[op](bvt(x), bvt(y)) if lk == rk == 'INTEGER' else FCMP[op](to_real(lk, x), to_real(rk, y))


def compare_contract(op):
    def h(e, st, a, ins):
        c = e.c
        (lk, x), (rk, y) = c.value(st, a[1]), c.value(st, a[2])
        if lk not in NUM or rk not in NUM:
            e.safety(st, 'operands of Number::operator%s are Numbers' % op, False)
            raise Infeasible()
        e.put(st, a[0], build(c, st, 'BOOLEAN', z3.If(truth(op, lk, x, rk, y), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), 8)
        return None
    return h


OPS = {'PLUS': '+', 'MINUS': '-', 'STAR': '*', 'SLASH': '/', 'MOD': '%', 'DIV': '|'}
RELS = {'EQUALS': '==', 'NOT_EQUALS': '!=', 'GREATER': '>', 'LESSER': '<', 'GREATER_EQUAL': '>=', 'LESSER_EQUAL': '<='}


def node_setup(c, cls, tokens):
    """evaluate(sret, this, ctx) of a node whose token is one of those its constructor accepts"""
    for t in tokens:
        st = c.state()
        n, ctx, r = c.w.new(st, cls), c.w.new(st, 'PSC::Context'), c.sret(st)
        if t:
            tok = c.w.peek(st, n, 'token')
            c.w.poke(st, tok, 'type', c.K['TokenType::' + t], 'Token')
        st.ghost.update(node=n, ctx=ctx, r=r, tok=t)
        yield st, [r, n, ctx]


def evals(c, st, out, members):
    """operands are evaluated in order, each once, an error of one of them is passed on; -> their results, or None"""
    ev = [x for x in c.events(st) if x[0] in ('eval', 'throw')]
    res = []
    for i, (k, d) in enumerate(ev):
        ok = i < len(members) and d['node'].obj == c.w.peek(st, st.ghost['node'], members[i]).obj
        c.ok(st, 'operands evaluated once, in order', ok)
        if k == 'throw':
            c.ok(st, 'an error of an operand is passed on', out[0] == 'throw' and i == len(ev) - 1)
            return None
        res.append(d['res'])
    if not res:
        c.ok(st, 'operands evaluated once, in order', False)
        return None
    return res


def yields(c, st, out, kind, what):
    """the result is a value of the given kind; -> its payload"""
    c.ok(st, what + ' yields a value', out[0] == 'ret')
    if out[0] != 'ret':
        return None
    t, d, r = c.result(st, st.ghost['r'])
    c.ok(st, what + ' has type ' + kind, bvt(t, 32) == c.w.T[kind])
    c.ok(st, what + ' has a value', not d.null)
    if d.null:
        return None
    k, v = c.value(st, d)
    c.ok(st, what + ' has a value of its type', k == kind)
    return v if k == kind else None


def error(c, st, out, what):
    c.ok(st, what + ' is a runtime error', c.is_runtime_error(out))


def iszero(k, y):
    return bvt(y) == 0 if k == 'INTEGER' else z3.fpEQ(y, z3.FPVal(0.0, F64))


@target('C02 C19', 'ArithmeticOperationNode::evaluate(PSC::Context&)', contracts=num_contracts,
        cover=['zero divisor', 'numbers', 'bad operands', 'enum'])
class Arithmetic:
    def setup(self, c):
        return node_setup(c, 'ArithmeticOperationNode', list(OPS))

    def post(self, c, st, out):
        rs = evals(c, st, out, ['left', 'right'])
        if rs is None:
            return
        c.ok(st, 'both operands evaluated', len(rs) == 2)
        (lk, x), (rk, y) = c.orig(st, rs[0]), c.orig(st, rs[1])
        op = OPS[st.ghost['tok']]
        if lk in NUM and rk in NUM:
            if op in '/%|' and c.e.decide(st, iszero(rk, y)):
                c.cover('zero divisor')
                return error(c, st, out, 'division by zero')
            c.cover('numbers')
            k, v = number_result(op, lk, x, rk, y)
            w = yields(c, st, out, k, 'arithmetic')
            if w is not None and not (op in '%|' and 'REAL' in (lk, rk)):
                c.ok(st, 'arithmetic value', bvt(w) == v if k == 'INTEGER' else w == v)
        elif op in '+-' and {lk, rk} == {'ENUM', 'INTEGER'} and (lk == 'ENUM' or op == '+'):
            c.cover('enum')
            (name, idx), k = (x, y) if lk == 'ENUM' else (y, x)
            w = yields(c, st, out, 'ENUM', 'enum arithmetic')
            if w is None:
                return
            c.ok(st, 'enum type kept', w[0] is name or lib.seq(w[0], name))
            t, d, r = c.result(st, st.ghost['r'])
            tn = c.w.peek(st, r, 'type.name', 'NodeResult')
            c.ok(st, 'enum type named', not tn.null and lib.seq(lib.gets(c.e, st, tn), name))
            n = next(c.def_size(st, d) for nm, d in st.ghost['enumdefs'] if nm is name)
            k, idx = bvt(k), bvt(idx)
            wide = lambda v: z3.SignExt(64, v)
            p = wide(idx) + wide(k) if op == '+' else wide(idx) - wide(k)
            res = wide(bvt(w[1]))
            c.ok(st, 'enum position within the type', z3.ULT(bvt(w[1]), n))
            d = p - res
            c.ok(st, 'enum position is cyclic', z3.SRem(d, wide(n)) == 0, hint=lambda pc: multiple(pc, d, n))
        elif {lk, rk} == {'ENUM', 'INTEGER'} and op == '-':
            pass   # INTEGER - enum value: the property does not say
        else:
            c.cover('bad operands')
            error(c, st, out, 'arithmetic on other types')


def subterms(ts):
    out, work, seen = [], list(ts), set()
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        work += x.children()
    return out


def multiple(pc, d, n):
    """sufficient condition for 'the 128-bit d is a multiple of n': every remainder x srem n is replaced by a number r with
    x = r + m, |r| < n, |m| <= |x|, the signs of x, and m a multiple of n; d is then shown to be a sum of such m and of n"""
    rems = [t for t in subterms(pc + [d]) if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and t.children()[1].eq(n)]
    sub, extra, ms = [], [], []
    wide = lambda v: z3.SignExt(64, v)
    rems.sort(key=lambda t: len(str(t)))
    for k, t in enumerate(rems):
        x = z3.substitute(t.children()[0], *sub) if sub else t.children()[0]
        r, m = z3.BitVec('rem!%d' % k, 64), z3.BitVec('mul!%d' % k, 64)
        sub.append((t, r))
        ms.append(m)
        extra += [x == r + m, z3.If(x >= 0, z3.And(r >= 0, r < n, m >= 0, r <= x, m <= x), z3.And(r <= 0, r > -n, m <= 0, r >= x, m >= x))]
    rw = lambda t: z3.substitute(t, *sub) if sub else t
    import itertools
    goals = []
    for cs in itertools.product((1, 0, -1), repeat=min(len(ms), 2)):
        for j in (0, 1, -1):
            goals.append(rw(d) == sum((c * wide(m) for c, m in zip(cs, ms) if c), z3.BitVecVal(0, 128)) + j * wide(n))
    return [rw(c) for c in pc] + extra, z3.Or(*goals)


@target('C02 C18 C19', 'ComparisonNode::evaluate(PSC::Context&)', contracts=num_contracts, cover=['numbers', 'bad operands', 'eq', 'char', 'date'])
class Comparison:
    def setup(self, c):
        return node_setup(c, 'ComparisonNode', list(RELS))

    def post(self, c, st, out):
        rs = evals(c, st, out, ['left', 'right'])
        if rs is None:
            return
        c.ok(st, 'both operands evaluated', len(rs) == 2)
        (lk, x), (rk, y) = c.orig(st, rs[0]), c.orig(st, rs[1])
        op = RELS[st.ghost['tok']]
        if lk in NUM and rk in NUM:
            c.cover('numbers')
            want = truth(op, lk, x, rk, y)
        elif lk == rk == 'CHAR':
            c.cover('char')
            want = CMP[op](bvt(x, 8), bvt(y, 8))
        elif lk == rk == 'DATE':
            c.cover('date')
            want = date_cmp(op, x, y)
        elif op not in ('==', '!='):
            c.cover('bad operands')
            return error(c, st, out, 'ordering other types')
        elif lk == rk == 'BOOLEAN':
            want = (bvt(x, 8) == bvt(y, 8)) == (op == '==')
        elif lk == rk == 'STRING':
            want = lib.seq(x, y) == (op == '==')
        elif lk == rk == 'ENUM':
            same = lib.seq(x[0], y[0])
            # values of one type compare by position; nothing is required of values of different types
            v = yields(c, st, out, 'BOOLEAN', 'comparison') if out[0] == 'ret' else None
            if v is not None:
                c.ok(st, 'enum comparison', z3.Implies(tname_same(c, st, rs), (bvt(v, 8) == 1) == ((bvt(x[1]) == bvt(y[1])) == (op == '=='))))
            else:
                c.ok(st, 'enum comparison', z3.Not(tname_same(c, st, rs)))
            return
        else:
            return   # operands of unrelated types: the property does not say
        c.cover('eq')
        v = yields(c, st, out, 'BOOLEAN', 'comparison')
        if v is not None:
            c.ok(st, 'comparison value', (bvt(v, 8) == 1) == want)
            c.ok(st, 'comparison well-formed', z3.ULE(bvt(v, 8), 1))


def tname_same(c, st, rs):
    """same type name of two results"""
    ns = []
    for r in rs:
        off = c.w.L.off('NodeResult', 'type.name')
        cell = st.mem[r.obj].cells.get(off)
        if cell is None:
            return z3.BoolVal(True)
        ns.append(lib.gets(c.e, st, cell[0]))
    r = lib.seq(*ns)
    return r


def date_key(d):
    y, m, dd = d
    return z3.Concat(y ^ 0x8000, m, dd)


def date_cmp(op, a, b):
    x, y = date_key(a), date_key(b)
    return {'==': x == y, '!=': x != y, '<': z3.ULT(x, y), '<=': z3.ULE(x, y), '>': z3.UGT(x, y), '>=': z3.UGE(x, y)}[op]


@target('C02', 'LogicNode::evaluate(PSC::Context&)', cover=['short', 'both', 'bad operands'])
class Logic:
    def setup(self, c):
        return node_setup(c, 'LogicNode', ['AND', 'OR'])

    def post(self, c, st, out):
        rs = evals(c, st, out, ['left', 'right'])
        if rs is None:
            return
        lk, x = c.orig(st, rs[0])
        conj = st.ghost['tok'] == 'AND'
        if len(rs) == 1:
            # the second operand may be skipped only if the first decides
            c.cover('short')
            c.ok(st, 'second operand skipped only if the first decides', lk == 'BOOLEAN' and bvt(x, 8) == (0 if conj else 1))
            if lk != 'BOOLEAN':
                return
            want = z3.BoolVal(not conj)
        else:
            rk, y = c.orig(st, rs[1])
            if lk != 'BOOLEAN' or rk != 'BOOLEAN':
                c.cover('bad operands')
                return error(c, st, out, 'logic on other types')
            c.cover('both')
            X, Y = bvt(x, 8) == 1, bvt(y, 8) == 1
            want = z3.And(X, Y) if conj else z3.Or(X, Y)
        v = yields(c, st, out, 'BOOLEAN', 'logic')
        if v is not None:
            c.ok(st, 'logic value', (bvt(v, 8) == 1) == want)
            c.ok(st, 'logic well-formed', z3.ULE(bvt(v, 8), 1))


@target('C02', 'NotNode::evaluate(PSC::Context&)', cover=['ok', 'bad operand'])
class Not:
    def setup(self, c):
        return node_setup(c, 'NotNode', [None])

    def post(self, c, st, out):
        rs = evals(c, st, out, ['node'])
        if rs is None:
            return
        k, x = c.orig(st, rs[0])
        if k != 'BOOLEAN':
            c.cover('bad operand')
            return error(c, st, out, 'NOT of another type')
        c.cover('ok')
        v = yields(c, st, out, 'BOOLEAN', 'NOT')
        if v is not None:
            c.ok(st, 'NOT value', (bvt(v, 8) == 1) == (bvt(x, 8) == 0))


@target('C02', 'NegateNode::evaluate(PSC::Context&)', contracts=num_contracts, cover=['ok', 'bad operand'])
class Negate:
    def setup(self, c):
        return node_setup(c, 'NegateNode', [None])

    def post(self, c, st, out):
        rs = evals(c, st, out, ['node'])
        if rs is None:
            return
        k, x = c.orig(st, rs[0])
        if k not in NUM:
            c.cover('bad operand')
            return error(c, st, out, 'negation of another type')
        c.cover('ok')
        v = yields(c, st, out, k, 'negation')
        if v is not None:
            c.ok(st, 'negation value', bvt(v) == -bvt(x) if k == 'INTEGER' else z3.Or(v == z3.fpNeg(x), z3.fpIsNaN(x)))


LITERALS = {'IntegerNode': ('INTEGER', 'valueInt.value'), 'RealNode': ('REAL', 'valueReal.value'), 'CharNode': ('CHAR', 'valueChar.value'), 'BooleanNode': ('BOOLEAN', 'value.value'), 'StringNode': ('STRING', 'valueStr.value')}


def literal(cls, kind, member):
    class T:
        def setup(self, c):
            return node_setup(c, cls, [None])

        def post(self, c, st, out):
            v = yields(c, st, out, kind, 'literal')
            if v is None:
                return
            m = c.w.peek(st, st.ghost['node'], member)
            n = {'CHAR': 8, 'BOOLEAN': 8}.get(kind, 64)
            c.ok(st, 'literal value', lib.seq(v, m) if kind == 'STRING' else v == m if kind == 'REAL' else bvt(v, n) == bvt(m, n))
    return T


for _c, (_k, _m) in LITERALS.items():
    target('C02', _c + '::evaluate(PSC::Context&)')(literal(_c, _k, _m))
