"""Built-in functions: what each one computes from its parameters, and the parameters it registers (C17, C18)."""
from .base import *
from .p02 import to_real
from .p05 import same

STRN = r'std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>> const&'


# ---------------------------------------------------------------- strings built by a loop
def built_strings(e, loop, A):
    """candidate invariants of loops that build or rewrite a string character by character (at one arbitrary position)"""
    st = loop.entry
    K = st.ghost.get('K')
    if K is None:
        return []
    out = []
    scal = [l for l, (k, a) in loop.W.items() if (k == 'vecptr' and a[1] == 1) or (k == 'bv' and a == 64)]
    for s in [l for l, (k, a) in loop.W.items() if k == 'str']:
        s0 = loop.read(loop.entry, s)
        if not isinstance(s0, lib.S):
            continue
        out.append(('%s same length' % (s,), lambda g, s=s, s0=s0: g(s).length() == s0.length()))
        for l in scal:
            x0 = loop.read(loop.entry, l)
            if x0 is None:
                continue
            x0 = loop.scalar(l, x0)
            pos = lambda g, l=l: loop.scalar(l, g(l))
            out.append(('%s grows with %s' % (s, l), lambda g, s=s, s0=s0, p=pos, x0=x0: g(s).length() == s0.length() + (p(g) - x0)))
            for src in st.ghost.get('strings', ()):
                out.append(('%s copies from %s' % (s, l), lambda g, s=s, s0=s0, p=pos, x0=x0, src=src:
                            z3.Implies(z3.And(z3.UGE(K, s0.length()), z3.ULT(K, g(s).length())), g(s).char(K) == src.char(x0 + (K - s0.length())))))
                for nm, f in (('up', up8), ('lo', lo8)):
                    out.append(('%s is %s until %s' % (s, nm, l), lambda g, s=s, p=pos, src=src, f=f:
                                g(s).char(K) == z3.If(z3.ULT(K, p(g)), f(src.char(K)), src.char(K))))
    return out


def up8(c):
    return z3.If(z3.And(c >= 97, c <= 122), c - 32, c)


def lo8(c):
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


# ---------------------------------------------------------------- contracts
def builtin_contracts(c):
    e, w = c.e, c.w

    def getvar(e, st, a, ins):
        """Context::getVariable in the activation of a built-in: its parameters, by name"""
        s = lib.gets(e, st, a[1])
        if s.lit is None:
            raise Unsupported('parameter name')
        for n, v in st.ghost['params']:
            if n.encode() == s.lit:
                return v
        return NULL
    c.handler(r'^PSC::Context::getVariable\(', getvar)
    e.candidate_hooks.append(built_strings)
    e.candidate_hooks.append(count_candidates)
    e.invariants.append(prefix_counts)

    def clock(e, st, a, ins):
        return bv('clock', 64)
    c.handler(r'^std::chrono::_V2::system_clock::now\(\)', clock)

    def rnd(e, st, a, ins):
        r = bv('rand', 32)
        st.pc.append(z3.And(r >= 0, r <= 0x7fffffff))
        st.ghost['rands'] = st.ghost.get('rands', ()) + (r,)
        return r
    c.e.handlers['@rand'] = rnd

    def localtime(e, st, a, ins):
        o = Obj('tm%s' % number(), 56, 'heap', lambda eng, s, ob, off, ty: tmfield(st, s, ob, off), 'tm', True)
        return st.add(o)
    c.e.handlers['@localtime'] = localtime


TM = {0: (0, 60), 4: (0, 59), 8: (0, 23), 12: (1, 31), 16: (0, 11), 20: (-1900 - 32767, 30000)}


def tmfield(st0, st, o, off):
    lo, hi = TM.get(off, (-(1 << 31), (1 << 31) - 1))
    v = bv('tm%d' % off, 32)
    st.pc.append(z3.And(v >= lo, v <= hi))
    return v


def builtin(cls, name, params, ret, spec, props, cover=('value',), budget=60, contracts=None):
    """registers the targets `run` and constructor of a built-in function.
    spec(c, st, values) -> (condition under which the call is an error, check(c, st, result payload))"""
    class Run:
        def setup(self, c):
            st = c.state()
            w = c.w
            this, ctx = w.new(st, 'PSC::Context'), None      # `this` is not used by a built-in
            ctx = w.new(st, 'PSC::Context')
            w.poke(st, ctx, 'returnValue', NULL)
            ps, vals, strs = [], [], []
            for n, k in params:
                v = w.variable(st, k, noref=True)
                d = w.peek(st, v, 'data')
                x = c.payload(st, d, VCLS[k])
                ps.append((n, v))
                vals.append(x)
                if k == 'STRING':
                    strs.append(x)
                    st.pc.append(z3.ULT(x.length(), lib.BIG))
            if cls == 'IsNum':
                st.pc += [count_facts(strs[0], z3.BitVecVal(0, 64)), count_facts(strs[0], z3.BitVecVal(1, 64))]
            st.ghost.update(params=tuple(ps), vals=vals, ctx=ctx, K=bv('K'), strings=tuple(strs))
            yield st, [this, ctx]

        def post(self, c, st, out):
            w, ctx, vals = c.w, st.ghost['ctx'], st.ghost['vals']
            bad, check = spec(c, st, vals)
            if not z3.is_false(z3.simplify(bad)) and c.e.decide(st, bad):
                c.cover('error')
                c.ok(st, 'arguments outside of the domain are a runtime error', c.is_runtime_error(out))
                c.frame(st, 'nothing is changed', {ctx.obj})
                return
            c.ok(st, 'the call returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            c.cover('value')
            r = w.peek(st, ctx, 'returnValue')
            c.ok(st, 'a value is returned', not r.null)
            if r.null:
                return
            d = w.peek(st, r, 'data', 'NodeResult')
            c.ok(st, 'the type of the value', bvt(w.peek(st, r, 'type.type', 'NodeResult'), 32) == w.T[ret])
            c.ok(st, 'the class of the value', not d.null and c.value(st, d)[0] == ret)
            if d.null or c.value(st, d)[0] != ret:
                return
            check(c, st, c.value(st, d)[1])
            c.frame(st, 'only the return value changes', {ctx.obj})

    fn = 'PSC::BuiltinFn%s::run(PSC::Context&)' % cls
    REGISTRY.append(Target(props.split(), fn, Run().setup, Run().post, name='BuiltinFn%s::run' % cls, contracts=contracts or builtin_contracts, cover=cover, budget=budget))

    class Ctor:
        def setup(self, c):
            st = c.state()
            o = Obj('fn', c.w.L.size('PSC::Function'), 'heap')
            st.ghost['this'] = st.add(o)
            yield st, [st.ghost['this']]

        def post(self, c, st, out):
            w, this = c.w, st.ghost['this']
            c.ok(st, 'the function is made', out[0] == 'ret')
            if out[0] != 'ret':
                return
            c.cover('made')
            nm = w.peek(st, this, 'name', 'PSC::Function')
            c.ok(st, 'its name', lib.seq(nm, lib.lit(name)))
            c.ok(st, 'its type', bvt(w.peek(st, this, 'returnType.type', 'PSC::Function'), 32) == w.T[ret])
            c.ok(st, 'it is a built-in', w.peek(st, this, 'defToken', 'PSC::Function').null and w.peek(st, this, 'block', 'PSC::Function').null)
            pv = [x[1] for x in c.events(st, 'param')]
            c.ok(st, 'the number of parameters', len(pv) == len(params))
            for x, (n, k) in zip(pv, params):
                c.ok(st, 'a parameter: name, type, passed by value', z3.And(z3.BoolVal(x['vec'].obj == this.obj), lib.seq(x['name'], lib.lit(n)), bvt(x['type'], 32) == w.T[k], z3.Not(asb(x['byref']))))

    d = 'PSC::BuiltinFn%s::BuiltinFn%s()' % (cls, cls)
    REGISTRY.append(Target(props.split(), d, Ctor().setup, Ctor().post, name='BuiltinFn%s::BuiltinFn%s' % (cls, cls), contracts=ctor_contracts, cover=['made']))


def asb(v):
    return v if isz(v) and z3.is_bool(v) else (v != 0 if isz(v) else z3.BoolVal(bool(v)))


def ctor_contracts(c):
    def param(e, st, a, ins):
        """std::vector<Parameter>::emplace_back: the parameter made from (name, type, byRef)"""
        e.event(st, 'param', vec=a[0], name=lib.cstr(e, st, a[1]), type=e.load_cell(st, a[2], 4, ('i', 32)), byref=e.load_cell(st, a[3], 1, ('i', 8)))
        return Ptr('undef', 0)
    c.handler(r'std::vector<PSC::Parameter, .*>::emplace_back<', param)
    c.handler(r'std::vector<PSC::Parameter, .*>::reserve\(', lambda e, st, a, ins: None)


NEVER = z3.BoolVal(False)


def text(x, n, at):
    """check: the result is the string of length n whose character i is at(i)"""
    def check(c, st, r):
        K = st.ghost['K']
        c.ok(st, 'the length of the result', r.length() == n)
        c.ok(st, 'the characters of the result', z3.Implies(z3.ULT(K, n), r.char(K) == at(K)))
    return check


def eq(f):
    def check(c, st, r):
        v = f
        if isinstance(v, lib.S):
            c.ok(st, 'the value', lib.seq(r, v))
        elif z3.is_fp(v):
            c.ok(st, 'the value', r == v)
        else:
            c.ok(st, 'the value', bvt(r, v.size()) == v)
    return check


# ---------------------------------------------------------------- strings
def length(c, st, a):
    return NEVER, eq(a[0].length())


def left(c, st, a):
    s, n = a
    return z3.Or(n < 0, n > s.length()), text(s, n, lambda i: s.char(i))


def right(c, st, a):
    s, n = a
    return z3.Or(n < 0, n > s.length()), text(s, n, lambda i: s.char(s.length() - n + i))


def mid(c, st, a):
    s, i, n = a
    L = s.length()
    # positions are 1..L; written without a sum that could leave the machine range
    return z3.Or(i < 1, i > L, n < 0, n > L - (i - 1)), text(s, n, lambda k: s.char(i - 1 + k))


def mapped(f):
    def spec(c, st, a):
        s = a[0]
        return NEVER, text(s, s.length(), lambda i: f(s.char(i)))
    return spec


SS, II, RR, CC, DD, BB = 'STRING', 'INTEGER', 'REAL', 'CHAR', 'DATE', 'BOOLEAN'
builtin('Length', 'LENGTH', [('String', SS)], II, length, 'C17 C01')
builtin('Left', 'LEFT', [('String', SS), ('x', II)], SS, left, 'C17 C01', ['value', 'error'])
builtin('Right', 'RIGHT', [('String', SS), ('x', II)], SS, right, 'C17 C01', ['value', 'error'])
builtin('Mid', 'MID', [('String', SS), ('x', II), ('y', II)], SS, mid, 'C17 C01', ['value', 'error'])
builtin('ToUpper', 'TO_UPPER', [('String', SS)], SS, mapped(up8), 'C17 C01')
builtin('ToLower', 'TO_LOWER', [('String', SS)], SS, mapped(lo8), 'C17 C01')


def trimmed(x):
    """text of a REAL: its decimal notation without trailing zeros of the fraction"""
    s = lib.opaque(id=lib.FTOS(x))
    last = lib.FLNO(s.id, z3.BitVecVal(48, 8))
    dot = s.char(last) == 46
    return lib.S(z3.simplify(z3.If(dot, last, last + 1)), s.at)


def num_to_str(c, st, a):
    t = trimmed(a[0])
    return NEVER, text(t, t.length(), t.char)


def str_to_num(c, st, a):
    from .p05 import text_real
    return NEVER, eq(text_real(a[0]))


builtin('NumToStr', 'NUM_TO_STR', [('x', RR)], SS, num_to_str, 'C17 C01')
builtin('StrToNum', 'STR_TO_NUM', [('String', SS)], RR, str_to_num, 'C17 C01')


# IS_NUM: counts of the characters that matter, defined by recursion on the prefix
NDOT = z3.Function('dots_before', z3.BitVecSort(64), z3.BitVecSort(64))
NBAD = z3.Function('others_before', z3.BitVecSort(64), z3.BitVecSort(64))


def prefix_counts(e, loop, A):
    """definition of the counts at the positions the loop is at; a count grows with the prefix"""
    strs = A.ghost.get('strings', ())
    if len(strs) != 1:
        return
    s = strs[0]
    for l, (k, a) in loop.W.items():
        if (k == 'vecptr' and a[1] == 1) or (k == 'bv' and a == 64):
            i = loop.scalar(l, loop.vals[l])
            A.pc.append(count_facts(s, i))


def count_facts(s, i):
    c, n = s.char(i), s.length()
    one = lambda b: z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    other = z3.And(c != 46, z3.Or(c < 48, c > 57))
    out = []
    for f, b in ((NDOT, c == 46), (NBAD, other)):
        out += [f(z3.BitVecVal(0, 64)) == 0, z3.Implies(z3.ULT(i, n), z3.And(f(i + 1) == f(i) + one(b), z3.ULE(f(i), i), z3.ULE(f(i + 1), f(n)), z3.ULE(f(n), n)))]
    return z3.And(*out)


def count_candidates(e, loop, A):
    out = []
    if len(loop.entry.ghost.get('strings', ())) != 1:
        return out
    one = lambda b: z3.If(b, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
    T = lambda x: x if z3.is_bool(x) else x != 0
    for l in [l for l, (k, a) in loop.W.items() if (k == 'vecptr' and a[1] == 1) or (k == 'bv' and a == 64)]:
        p = lambda g, l=l: loop.scalar(l, g(l))
        out.append(('%s nbad' % (l,), lambda g, p=p: NBAD(p(g)) == 0))
        for b in [b for b, (k, a) in loop.W.items() if k == 'bool' or (k == 'bv' and a <= 8)]:
            out.append(('%s %s ndot' % (l, b), lambda g, p=p, b=b: NDOT(p(g)) == one(T(loop.scalar(b, g(b))))))
    return out


def is_num(c, st, a):
    s = a[0]
    n = s.length()

    def check(c, st, r):
        if not c.e.decide(st, n == 0):      # the empty text and '.' are not settled by the property
            c.ok(st, "TRUE iff the characters are digits and at most one '.'", z3.Implies(n != 1, (bvt(r, 8) != 0) == z3.And(NBAD(n) == 0, z3.ULE(NDOT(n), 1))))
            K = st.ghost['K']
            c.ok(st, 'a single character is a digit or the point', z3.Implies(n == 1, (bvt(r, 8) != 0) == z3.And(NBAD(n) == 0, z3.ULE(NDOT(n), 1))))
    return NEVER, check


builtin('IsNum', 'IS_NUM', [('String', SS)], BB, is_num, 'C17 C01')


# ---------------------------------------------------------------- characters
def case(f):
    return lambda c, st, a: (NEVER, eq(z3.simplify(f(bvt(a[0], 8)))))


def asc(c, st, a):
    def check(c, st, r):
        x = bvt(a[0], 8)
        c.ok(st, 'the code of the character', z3.Implies(x >= 0, bvt(r) == z3.ZeroExt(56, x)))
    return NEVER, check


def chr_(c, st, a):
    def check(c, st, r):
        c.ok(st, 'the character of the code', z3.Implies(z3.ULE(a[0], 255), bvt(r, 8) == z3.Extract(7, 0, a[0])))
    return NEVER, check


builtin('LCase', 'LCASE', [('Char', CC)], CC, case(lo8), 'C17 C01')
builtin('UCase', 'UCASE', [('Char', CC)], CC, case(up8), 'C17 C01')
builtin('ASC', 'ASC', [('Char', CC)], II, asc, 'C17 C01')
builtin('CHR', 'CHR', [('x', II)], CC, chr_, 'C17 C01')


@target('C17', None, name='lemma: strings and codes')
class StringLemmas:
    """the laws the property states, from the contracts of LEFT, RIGHT, ASC and CHR"""
    def setup(self, c):
        s = lib.opaque(name='s')
        n, k, L = bv('n'), bv('k'), s.length()
        l = lib.S(n, s.char)
        r = lib.S(z3.simplify(L - n), lambda i: s.char(L - (L - n) + i))
        j = lib.concat(l, r)
        hyp = [n >= 0, n <= L, z3.ULT(L, lib.BIG)]
        c.lemma('LEFT(s, n) & RIGHT(s, LENGTH(s) - n) has the length of s', j.length() == L, hyp)
        c.lemma('LEFT(s, n) & RIGHT(s, LENGTH(s) - n) has the characters of s', j.char(k) == s.char(k), hyp + [z3.ULT(k, L)])
        ch = z3.Extract(7, 0, n)
        c.lemma('ASC(CHR(n)) = n for 0 <= n <= 127', z3.And(ch >= 0, z3.ZeroExt(56, ch) == n), [n >= 0, n <= 127])
        return []


# ---------------------------------------------------------------- numbers
def int_(c, st, a):
    x = a[0]

    def check(c, st, r):
        f = z3.fpRoundToIntegral(z3.RTN(), x)
        lo, hi = z3.FPVal(-2.0 ** 63, F64), z3.FPVal(2.0 ** 63, F64)
        c.ok(st, 'the largest integer not above the argument', z3.Implies(z3.And(z3.fpGEQ(f, lo), z3.fpLT(f, hi)), bvt(r) == z3.fpToSBV(z3.RTN(), x, z3.BitVecSort(64))))
    return NEVER, check


def ieee(r, x=None):
    """the sum of an integer below x and a fraction a/c: laws of IEEE arithmetic (rounding is monotone; small integers are exact) at the terms of r"""
    def hint(pc):
        facts, z, one = [], z3.FPVal(0.0, F64), z3.FPVal(1.0, F64)
        seen, todo = set(), [r]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            todo += t.children()
            k = t.decl().kind()
            if k == z3.Z3_OP_FPA_DIV:
                p, q = t.arg(1), t.arg(2)
                facts.append(z3.Implies(z3.And(z3.fpGT(q, z), z3.fpGEQ(p, z)), z3.fpGEQ(t, z)))
                facts.append(z3.Implies(z3.And(z3.fpGT(q, z), z3.fpGEQ(p, z), z3.fpLEQ(p, q)), z3.fpLEQ(t, one)))
            elif k == z3.Z3_OP_FPA_ADD:
                p, q = t.arg(1), t.arg(2)
                facts.append(z3.Implies(z3.And(z3.fpGEQ(p, z), z3.fpGEQ(q, z)), z3.fpGEQ(t, z)))
                if x is not None:
                    for u, f in ((p, q), (q, p)):
                        if u.decl().kind() == z3.Z3_OP_FPA_TO_FP and z3.is_bv(u.arg(1)):
                            i = u.arg(1)
                            i = i if i.size() == 64 else z3.SignExt(64 - i.size(), i)
                            # i < x and i small: fl(i) + 1 is fl(i + 1), which is not above fl(x); f <= 1
                            facts.append(z3.Implies(z3.And(i >= 0, i < x, i < 1 << 52, z3.fpLEQ(f, one)), z3.fpLEQ(t, to_real(II, x))))
            elif k == z3.Z3_OP_FPA_TO_FP and z3.is_bv(t.arg(1)):
                facts.append(z3.Implies(t.arg(1) >= 0, z3.fpGEQ(t, z)))
                facts.append(z3.Implies(t.arg(1) <= 0x7fffffff, z3.fpLEQ(t, z3.FPVal(2147483647.0, F64))))
        # the terms as unknowns
        sub = [(t, fp('u')) for t in subterms(z3.And(*facts)) if z3.is_fp(t) and t.decl().kind() in (z3.Z3_OP_FPA_DIV, z3.Z3_OP_FPA_ADD, z3.Z3_OP_FPA_TO_FP) and not z3.is_fp_value(z3.simplify(t))]
        sub += [(t, bv('u', t.size())) for t in subterms(r) if z3.is_bv(t) and t.decl().kind() in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)]
        g = z3.fpGEQ(r, z) if x is None else z3.Implies(x >= 0, z3.fpLEQ(r, to_real(II, x)))
        rems = [t for t in subterms(r) if z3.is_bv(t) and t.decl().kind() in (z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I)]
        for t in rems:
            p, q = t.arg(0), t.arg(1)
            facts.append(z3.Implies(z3.And(p >= 0, q > 0), z3.And(t >= 0, t < q, t <= p)))
        sub.sort(key=lambda p: -depth(p[0]))
        S = lambda t: substitute_all(t, sub)
        return [S(p) for p in list(pc) + facts], S(g)
    return hint


def depth(t, memo=None):
    return 1 + max([depth(c) for c in t.children()] or [0])


def substitute_all(t, sub):
    for a, b in sub:
        t = z3.substitute(t, (a, b))
    return t


def subterms(t):
    seen, todo = {}, [t]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen[x.get_id()] = x
            todo += x.children()
    return list(seen.values())


def rand(c, st, a):
    x = a[0]

    def check(c, st, r):
        X = to_real(II, x)
        z = z3.FPVal(0.0, F64)
        c.ok(st, 'not negative', z3.fpGEQ(r, z), hint=ieee(r))
        c.ok(st, 'at most x', z3.Implies(x >= 0, z3.fpLEQ(r, X)), hint=ieee(r, x))
    return NEVER, check


builtin('Int', 'INT', [('x', RR)], II, int_, 'C17 C01')
builtin('Rand', 'RAND', [('x', II)], RR, rand, 'C17 C01', budget=120)


def libm(name, order=(0,)):
    f = z3.Function('libm_' + name, *([F64] * (len(order) + 1)))
    return lambda c, st, a: (NEVER, eq(f(*[a[i] for i in order])))


for cls, nm, f in (('Exp', 'EXP', 'exp'), ('Sin', 'SIN', 'sin'), ('Cos', 'COS', 'cos'), ('Tan', 'TAN', 'tan'), ('ASin', 'ASIN', 'asin'), ('ACos', 'ACOS', 'acos'), ('ATan', 'ATAN', 'atan'),
                   ('Sqrt', 'SQRT', 'sqrt'), ('Log', 'LOG', 'log10'), ('Ln', 'LN', 'log')):
    builtin(cls, nm, [('x', RR)], RR, libm(f), 'C17 C01')
builtin('Pow', 'POW', [('x', RR), ('y', RR)], RR, libm('pow', (0, 1)), 'C17 C01')
builtin('ATan2', 'ATAN2', [('y', RR), ('x', RR)], RR, libm('atan2', (0, 1)), 'C17 C01')


# ---------------------------------------------------------------- dates
def part(k, ext):
    def spec(c, st, a):
        v = a[0][k]
        return NEVER, eq(z3.SignExt(64 - v.size(), v) if ext else z3.ZeroExt(64 - v.size(), v))
    return spec


def leap(y):
    """y: a signed bit vector"""
    return z3.And(z3.SRem(y, z3.BitVecVal(4, y.size())) == 0, z3.Or(z3.SRem(y, z3.BitVecVal(100, y.size())) != 0, z3.SRem(y, z3.BitVecVal(400, y.size())) == 0))


def days_in(y, m):
    m = m if m.size() == 64 else z3.ZeroExt(64 - m.size(), m)
    n = z3.BitVecVal(31, 64)
    for k in (4, 6, 9, 11):
        n = z3.If(m == k, z3.BitVecVal(30, 64), n)
    return z3.If(m == 2, z3.If(leap(y), z3.BitVecVal(29, 64), z3.BitVecVal(28, 64)), n)


def valid_date(d, m, y):
    """a day of the Gregorian calendar (of a year DATE can hold)"""
    y16 = z3.Extract(15, 0, y)
    inr = z3.And(y >= -32767, y <= 32767)
    return z3.And(inr, m >= 1, m <= 12, d >= 1, d <= days_in(y16, m))


def setdate(c, st, a):
    d, m, y = a

    def check(c, st, r):
        c.ok(st, 'the date has the day, month and year given', z3.And(r[0] == z3.Extract(15, 0, y), r[1] == z3.Extract(7, 0, m), r[2] == z3.Extract(7, 0, d)))
    return z3.Not(valid_date(d, m, y)), check


def dayindex(c, st, a):
    y, m, d = a[0]

    def check(c, st, r):
        c.ok(st, 'the day of the week', z3.Implies(real_date(a[0]), bvt(r) == weekday(y, m, d)),
             domain={y: range(65536), m: range(1, 13), d: range(1, 32)})
    return NEVER, check


def real_date(v):
    y, m, d = v
    return valid_date(z3.ZeroExt(56, d), z3.ZeroExt(56, m), z3.SignExt(48, y))


CUM = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def weekday(y, m, d):
    """Sunday = 1 .. Saturday = 7: days since 1 January of year -32800 (a multiple of 400 years before year 0)"""
    n = 32
    B = lambda k: z3.BitVecVal(k, n)
    Y = z3.SignExt(n - 16, y) + B(32800)      # 82 cycles of 400 years: same calendar
    P = Y - 1                                # complete years before
    cum = B(0)
    for k in range(12, 0, -1):
        cum = z3.If(z3.ZeroExt(n - 8, m) == k, B(CUM[k]), cum)
    lp = z3.And(z3.URem(Y, B(4)) == 0, z3.Or(z3.URem(Y, B(100)) != 0, z3.URem(Y, B(400)) == 0))
    doy = cum + z3.If(z3.And(lp, z3.UGT(m, 2)), B(1), B(0)) + z3.ZeroExt(n - 8, d)
    days = P * B(365) + z3.UDiv(P, B(4)) - z3.UDiv(P, B(100)) + z3.UDiv(P, B(400)) + doy      # 1 January of year 1 is day 1, a Monday
    return z3.ZeroExt(64 - n, z3.URem(days, B(7)) + 1)


builtin('DAY', 'DAY', [('Date', DD)], II, part(2, False), 'C18 C01')
builtin('MONTH', 'MONTH', [('Date', DD)], II, part(1, False), 'C18 C01')
builtin('YEAR', 'YEAR', [('Date', DD)], II, part(0, True), 'C18 C01')
builtin('SETDATE', 'SETDATE', [('Day', II), ('Month', II), ('Year', II)], DD, setdate, 'C18 C01', ['value', 'error'])
builtin('DAYINDEX', 'DAYINDEX', [('Date', DD)], II, dayindex, 'C18 C01', budget=200)


def anything(c, st, a):
    return NEVER, lambda c, st, r: None


builtin('TODAY', 'TODAY', [], DD, anything, 'C01')
for nm in ('TIME', 'HOURS', 'MINUTES', 'SECONDS'):
    builtin(nm, nm, [], II, anything, 'C01')
