"""Conversions between the primitive types, dates, casts and concatenation (C02, C05, C17, C18)."""
from .base import *
from .p02 import to_real, evals, yields, error, node_setup
from .p05 import text_integer, text_real, DATETEXT, same
from .p17 import trimmed, real_date, days_in, valid_date

II, RR, BB, CC, SS, DD = 'INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE'
ONE8, Z8 = z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)


def truncated(x, n):
    """REAL to an n-bit integer, and when that is defined"""
    r = z3.fpRoundToIntegral(z3.RTZ(), x)
    lo, hi = z3.FPVal(-2.0 ** (n - 1), F64), z3.FPVal(2.0 ** (n - 1), F64)
    return z3.And(z3.fpGEQ(r, lo), z3.fpLT(r, hi)), z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(n))


def date_text(st, v):
    y, m, d = v
    D = lambda x: lib.item_string(st, ('long', x))
    return lib.concat(lib.concat(lib.concat(lib.concat(D(z3.ZeroExt(56, d)), lib.lit('/')), D(z3.ZeroExt(56, m))), lib.lit('/')), D(z3.SignExt(48, y)))


def converted(c, st, k, v, t):
    """(when the result is settled, value v of kind k converted to kind t)"""
    T = z3.BoolVal(True)
    if k == t:
        return T, v
    if t == II:
        if k == RR:
            return truncated(v, 64)
        if k == BB:
            return T, z3.ZeroExt(56, bvt(v, 8))
        if k == CC:
            return bvt(v, 8) >= 0, z3.ZeroExt(56, bvt(v, 8))
        if k == SS:
            return T, text_integer(v)
    if t == RR:
        if k == II:
            return T, to_real(II, v)
        if k == BB:
            return T, z3.If(bvt(v, 8) == 1, z3.FPVal(1.0, F64), z3.FPVal(0.0, F64))
        if k == CC:
            return bvt(v, 8) >= 0, z3.fpSignedToFP(RNE, bvt(v, 8), F64)
        if k == SS:
            return T, text_real(v)
    if t == BB:
        b = {II: lambda: bvt(v) != 0, RR: lambda: z3.Not(z3.fpEQ(v, z3.FPVal(0.0, F64))), CC: lambda: bvt(v, 8) != 0, SS: lambda: v.length() != 0}[k]()
        return T, z3.If(b, ONE8, Z8)
    if t == CC:
        if k == II:
            return T, z3.Extract(7, 0, bvt(v))
        if k == RR:
            return truncated(v, 8)
        if k == BB:
            return T, bvt(v, 8)
        if k == SS:
            return T, Z8
    if t == SS:
        if k == II:
            return T, lib.item_string(st, ('long', v))
        if k == RR:
            return T, trimmed(v)
        if k == BB:
            return T, lib.lit('TRUE') if c.e.decide(st, bvt(v, 8) == 1) else lib.lit('FALSE')
        if k == CC:
            return T, lib.char1(v)
        if k == DD:
            return T, date_text(st, v)
    raise Unsupported('conversion of %s to %s' % (k, t))


def equal_value(c, st, name, when, t, v, w):
    if isinstance(w, lib.S):
        K = st.ghost['K']
        c.ok(st, name + ': length', z3.Implies(when, v.length() == w.length()))
        c.ok(st, name + ': characters', z3.Implies(z3.And(when, z3.ULT(K, w.length())), v.char(K) == w.char(K)))
    elif isinstance(w, tuple):
        c.ok(st, name, z3.Implies(when, z3.And(*[a == b for a, b in zip(v, w)])))
    elif z3.is_fp(w):
        c.ok(st, name, z3.Implies(when, v == w))
    else:
        c.ok(st, name, z3.Implies(when, bvt(v, w.size()) == w))


NAMES = {II: 'toInteger', RR: 'toReal', BB: 'toBoolean', CC: 'toChar', SS: 'toString'}


def conversion(k, t):
    class Conv:
        def setup(self, c):
            st = c.state()
            a, r = c.w.value(st, k), c.sret(st)
            v = c.payload(st, a, VCLS[k])
            if k == SS:
                st.pc.append(z3.ULT(v.length(), lib.BIG))
            st.ghost.update(a=a, v=v, r=r, K=bv('K'), strings=(v,) if k == SS else ())
            yield st, [r, a]

        def post(self, c, st, out):
            c.ok(st, 'the conversion returns', out[0] == 'ret')
            if out[0] != 'ret':
                return
            c.cover('converted')
            p = c.ptr(st, st.ghost['r'])
            c.ok(st, 'a value is made', not p.null and st.mem[p.obj].kind == 'heap')
            kk, v = c.value(st, p)
            c.ok(st, 'the class of the value', kk == t)
            if kk != t:
                return
            if t in (II, RR):
                c.ok(st, 'the tag of a number', bvt(c.w.peek(st, p, 'real', VCLS[t]), 8) == (1 if t == RR else 0))
            if (k, t) == (DD, II):
                return key_order(c, st, v)
            when, w = converted(c, st, k, st.ghost['v'], t)
            equal_value(c, st, 'the value', when, t, v, w)
            c.frame(st, 'the operand is not changed', set())

    props = {SS: 'C02 C17', RR: 'C02 C17'}.get(k, 'C02') + (' C15' if t == SS else '') + (' C05' if (k, t) in ((II, RR), (CC, SS), (SS, CC)) else '')
    if k == DD:
        props = 'C18' + (' C15' if t == SS else '')
    fn = 'PSC::%s::%s() const' % (VCLS[k].split('::')[1], NAMES[t])
    REGISTRY.append(Target(props.split() + ['C01'], fn, Conv().setup, Conv().post, name=fn[:-8], cover=['converted']))


def key_order(c, st, v):
    """the key of a date orders dates chronologically: the result, as a function of the date, at two arbitrary dates"""
    a = st.ghost['v']
    y, m, d = a
    v = bvt(v)
    c.ok(st, 'the key depends on the date alone', all(str(x) in [str(z) for z in a] for x in consts(v)))
    lastday, lastmonth = d == z3.Extract(7, 0, days_in(y, m)), m == 12
    # chronological order is generated by "next day"; keys are compared as integers, so increasing at every step is order preserving
    nxt = (z3.If(z3.And(lastday, lastmonth), y + 1, y), z3.If(lastday, z3.If(lastmonth, z3.BitVecVal(1, 8), m + 1), m), z3.If(lastday, z3.BitVecVal(1, 8), d + 1))
    w = z3.substitute(v, *zip(a, nxt))
    c.ok(st, 'the next day has a larger key', z3.Implies(z3.And(real_date(a), z3.Not(z3.And(y == 32767, lastmonth, lastday))), v < w),
         domain={y: range(65536), m: range(1, 13), d: range(1, 32)})


def consts(t):
    return [x for x in consts_terms(t)]


def consts_terms(t):
    seen, todo, out = set(), [t], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo += x.children()
    return out


for _k in (II, RR, BB, CC, SS):
    for _t in (II, RR, BB, CC, SS):
        conversion(_k, _t)
conversion(DD, SS)
conversion(DD, II)


# ---------------------------------------------------------------- nodes that convert
def conversion_contracts(c):
    """the conversions, through the contracts shown above"""
    def conv(t):
        def h(e, st, a, ins):
            k, v = c.value(st, a[1])
            e.safety(st, 'a DATE is converted to INTEGER or STRING only', not (k == DD and t not in (II, SS)))
            p = c.w.new(st, VCLS[t], 'heap', False)
            if t in (II, RR):
                c.w.poke(st, p, 'real', 1 if t == RR else 0)
            if (k, t) == (DD, II):
                w = DATEKEY(*v)
            elif (k, t) == (DD, SS):
                w = lib.opaque(st, id=DATETEXT(*v))
            else:
                when, w = converted(c, st, k, v, t)
                if not z3.is_true(z3.simplify(when)):
                    w = z3.If(when, w, fresh('unsettled', w.sort()))
            c.w.poke(st, p, 'value', w)
            e.event(st, 'conv', src=a[1], k=k, t=t, v=v, res=p, w=w)
            e.put(st, a[0], p, 8)
            return None
        return h
    for t, n in NAMES.items():
        c.handler(r'^PSC::\w+::%s\(\) const$' % n, conv(t))


DATEKEY = z3.Function('datekey', z3.BitVecSort(16), BYTE, BYTE, z3.BitVecSort(64))


def primitive(k):
    return k in (II, RR, BB, CC, SS, DD)


@target('C02 C17 C01', 'CastNode::evaluate(PSC::Context&)', contracts=conversion_contracts, cover=['no value', 'same', 'DATE', 'converted', 'bad target', 'no primitive'], budget=120)
class Cast:
    def setup(self, c):
        for st, a in node_setup(c, 'CastNode', [None]):
            w, n = c.w, a[1]
            t = bv('target', 32)
            st.pc.append(z3.Or(*[t == w.T[k] for k in KINDS if k != 'NONE']))      # a cast names a type
            w.poke(st, n, 'target.type', t)
            w.poke(st, n, 'target.name', NULL)
            st.ghost.update(target=t, K=bv('K'))
            yield st, a

    def post(self, c, st, out):
        w = c.w
        rs = evals(c, st, out, ['node'])
        if rs is None:
            return
        k, v = c.orig(st, rs[0])
        t = w.kindname[c.e.choose(st, st.ghost['target'], [w.T[x] for x in KINDS if x != 'NONE'])]
        conv = [x[1] for x in c.events(st, 'conv')]
        if k == 'NONE':
            c.cover('no value')
            return error(c, st, out, 'a cast of no value')
        if not primitive(k):
            c.cover('no primitive')
            return error(c, st, out, 'a cast of a value of a user-defined type')
        if k == t:
            c.cover('same')
            x = yields(c, st, out, t, 'a cast to the type of the value')
            if x is not None:
                c.ok(st, 'the value itself', same(t, v, x))
            return
        if k == DD and t not in (II, SS):
            c.cover('DATE')
            return error(c, st, out, 'a cast of a DATE to another type')
        if not primitive(t) or t == DD:
            c.cover('bad target')
            return error(c, st, out, 'a cast to a type without conversion')
        c.cover('converted')
        x = yields(c, st, out, t, 'a cast')
        if x is None:
            return
        f = [e for e in conv if e['t'] == t and e['k'] == k]
        c.ok(st, 'the value is converted', bool(f))
        if f:
            c.ok(st, 'the converted value is the result', z3.And(same(k, f[0]['v'], v), same(t, f[0]['w'], x)))


@target('C02 C18 C01', 'StringConcatenationNode::evaluate(PSC::Context&)', contracts=conversion_contracts, cover=['joined', 'bad operands', 'no value'])
class Concatenation:
    def setup(self, c):
        for st, a in node_setup(c, 'StringConcatenationNode', [None]):
            st.ghost['K'] = bv('K')
            yield st, a

    def post(self, c, st, out):
        rs = evals(c, st, out, ['left', 'right'])
        if rs is None:
            return
        c.ok(st, 'both operands evaluated', len(rs) == 2)
        ops = [c.orig(st, r) for r in rs]
        if any(not primitive(k) for k, v in ops):
            c.cover('no value' if any(k == 'NONE' for k, v in ops) else 'bad operands')
            return error(c, st, out, 'concatenation of other types')
        c.cover('joined')
        x = yields(c, st, out, SS, 'concatenation')
        if x is None:
            return
        texts = []
        for k, v in ops:
            f = [e[1] for e in c.events(st, 'conv') if e[1]['k'] == k and e[1]['t'] == SS and c.e.decide(st, same(k, e[1]['v'], v))]
            texts.append(f[0]['w'] if f else v if k == SS else None)
        c.ok(st, 'the operands are converted to STRING', None not in texts)
        if None not in texts:
            equal_value(c, st, 'the texts joined', z3.BoolVal(True), SS, x, lib.concat(*texts))


@target('C02', 'PSC::String::operator&(PSC::String const&) const', cover=['joined'])
class Join:
    def setup(self, c):
        st = c.state()
        a, b, r = c.w.value(st, SS), c.w.value(st, SS), c.sret(st)
        st.ghost.update(a=c.payload(st, a, 'PSC::String'), b=c.payload(st, b, 'PSC::String'), r=r, K=bv('K'))
        st.pc += [z3.ULT(st.ghost[x].length(), lib.BIG) for x in 'ab']
        yield st, [r, a, b]

    def post(self, c, st, out):
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('joined')
        k, v = c.value(st, c.ptr(st, st.ghost['r']))
        c.ok(st, 'a STRING', k == SS)
        if k == SS:
            equal_value(c, st, 'the texts joined', z3.BoolVal(True), SS, v, lib.concat(st.ghost['a'], st.ghost['b']))
        c.frame(st, 'the operands are not changed', set())


# ---------------------------------------------------------------- date literals
@target('C18 C01', 'PSC::Date::fromComponents(long, long, long)', cover=['date', 'no date'])
class FromComponents:
    def setup(self, c):
        st = c.state()
        d, m, y = bv('day'), bv('month'), bv('year')
        st.ghost['v'] = (d, m, y)
        yield st, [d, m, y]

    def post(self, c, st, out):
        d, m, y = st.ghost['v']
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = bvt(out[1], 32)
        Y, M, D = z3.Extract(15, 0, r), z3.Extract(23, 16, r), z3.Extract(31, 24, r)
        if c.e.decide(st, valid_date(d, m, y)):
            c.cover('date')
            c.ok(st, 'the components are kept', z3.And(z3.SignExt(48, Y) == y, z3.ZeroExt(56, M) == m, z3.ZeroExt(56, D) == d))
        else:
            c.cover('no date')
            c.ok(st, 'what is no date is not made one', z3.Not(real_date((Y, M, D))))
            c.ok(st, 'the components of a DATE that was never set are kept', z3.Implies(z3.And(d == 0, m == 0, y == 0), r == 0))


def date_contracts(c):
    def h(e, st, a, ins):
        """fromComponents: the date of valid components, otherwise no date at all"""
        Y, M, D = bv('year', 16), bv('month', 8), bv('day', 8)
        ok = valid_date(*a)
        st.pc.append(z3.If(ok, z3.And(z3.SignExt(48, Y) == a[2], z3.ZeroExt(56, M) == a[1], z3.ZeroExt(56, D) == a[0]), z3.And(z3.Not(real_date((Y, M, D))), z3.Implies(z3.And(*[lib.b64(x) == 0 for x in a]), z3.And(Y == 0, M == 0, D == 0)))))
        e.event(st, 'components', day=a[0], month=a[1], year=a[2], date=(Y, M, D))
        return z3.Concat(D, M, Y)
    c.handler(r'^PSC::Date::fromComponents\(', h)


@target('C18 C01', 'DateNode::evaluate(PSC::Context&)', cover=['date', 'no date'])
class DateLiteral:
    def setup(self, c):
        return node_setup(c, 'DateNode', [None])

    def post(self, c, st, out):
        w, n = c.w, st.ghost['node']
        o = w.L.off('DateNode', 'valueDate.date')
        ld = lambda k, s, b: bvt(c.e.load_cell(st, Ptr(n.obj, o + k), s, ('i', b)), b)
        v = (ld(0, 2, 16), ld(2, 1, 8), ld(3, 1, 8))
        if c.e.decide(st, real_date(v)):
            c.cover('date')
            x = yields(c, st, out, DD, 'a date literal')
            if x is not None:
                c.ok(st, 'the date of the literal', same(DD, x, v))
        else:
            c.cover('no date')
            error(c, st, out, 'a literal that is no date')


def built_parts(e, loop, A):
    """candidate invariants: each string the loop builds is the part of the text already passed that lies in one component"""
    st = loop.entry
    if 'parts' not in st.ghost:
        return []
    K, text, parts = st.ghost['K'], st.ghost['literal'], st.ghost['parts']
    out = []
    scal = [l for l, (k, a) in loop.W.items() if (k == 'vecptr' and a[1] == 1) or (k == 'bv' and a == 64)]
    for l in scal:
        p = lambda g, l=l: loop.scalar(l, g(l))
        out.append(('%s in the text' % (l,), lambda g, p=p: z3.ULE(p(g), text.length())))
        for s in [s for s, (k, a) in loop.W.items() if k == 'str']:
            for j, (o, n) in enumerate(parts):
                out.append(('%s is %d long at %s' % (s, j, l), lambda g, s=s, p=p, o=o, n=n: g(s).length() == z3.If(z3.ULE(p(g), o), z3.BitVecVal(0, 64), z3.If(z3.ULE(p(g), o + n), p(g) - o, n))))
                if l == scal[0]:
                    out.append(('%s has part %d' % (s, j), lambda g, s=s, o=o: z3.Implies(z3.ULT(K, g(s).length()), g(s).char(K) == text.char(o + K))))
        for x in [x for x, (k, a) in loop.W.items() if k == 'bv' and a == 32]:
            out.append(('%s counts separators at %s' % (x, l), lambda g, p=p, x=x: loop.scalar(x, g(x)) == z3.If(z3.UGT(p(g), parts[1][0] - 1), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)) + z3.If(z3.UGT(p(g), parts[2][0] - 1), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))))
    return out


def separators(e, loop, A):
    """where the separators of the date literal are, at the positions the loop is at"""
    if 'parts' not in A.ghost:
        return
    text, parts = A.ghost['literal'], A.ghost['parts']
    for l, (k, a) in loop.W.items():
        if (k == 'vecptr' and a[1] == 1) or (k == 'bv' and a == 64):
            A.pc.append(separator_at(text, parts, loop.scalar(l, loop.vals[l])))


def separator_at(text, parts, i):
    return z3.Implies(z3.ULT(i, text.length()), (text.char(i) == 47) == z3.Or(i == parts[1][0] - 1, i == parts[2][0] - 1))


def literal_contracts(c):
    date_contracts(c)
    c.e.candidate_hooks.append(built_parts)
    c.e.invariants.append(separators)

    def strtol(e, st, a, ins):
        s = lib.cstr(e, st, a[0])
        r = bv('number')
        e.event(st, 'strtol', s=s, r=r, base=a[2])
        return r
    for n in ('strtol', '__isoc23_strtol'):
        c.e.handlers['@' + n] = strtol


@target('C18', 'DateNode::DateNode(Token const&)', contracts=literal_contracts, cover=['made'])
class DateLiteralNode:
    """the lexer makes d/m/y tokens of three digit sequences"""
    def setup(self, c):
        st = c.state()
        w = c.w
        n = st.add(Obj('node', w.L.size('DateNode'), 'heap'))
        t = w.new(st, 'Token')
        text = lib.opaque(st, name='literal')
        s1, s2 = bv('first'), bv('second')               # where the two separators are
        st.pc += [z3.UGE(s1, 1), z3.UGT(s2, s1 + 1), z3.UGT(text.length(), s2 + 1), z3.ULT(s1, 1 << 40), z3.ULT(s2, 1 << 40), text.char(s1) == 47, text.char(s2) == 47]
        parts = ((z3.BitVecVal(0, 64), s1), (s1 + 1, s2 - s1 - 1), (s2 + 1, text.length() - s2 - 1))
        s = [lib.substr(text, o, n_) for o, n_ in parts]
        st.ghost.update(node=n, tok=t, K=bv('K'), parts=parts, literal=text, strs=s)
        st.pc.append(separator_at(text, parts, z3.BitVecVal(0, 64)))
        w.poke(st, t, 'value', text)
        yield st, [n, t]

    def post(self, c, st, out):
        w, n, K = c.w, st.ghost['node'], st.ghost['K']
        c.ok(st, 'the node is made', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('made')
        ev = [x[1] for x in c.events(st, 'components')]
        nums = [x[1] for x in c.events(st, 'strtol')]
        c.ok(st, 'one date is made of the literal', len(ev) == 1)
        if len(ev) != 1:
            return
        for k, x in zip(('day', 'month', 'year'), st.ghost['strs']):
            f = [e for e in nums if isz(ev[0][k]) and e['r'].eq(ev[0][k])]
            c.ok(st, 'the %s is a number of the literal' % k, bool(f))
            if f:
                s = f[0]['s']
                c.ok(st, 'the %s: length' % k, s.length() == x.length())
                c.ok(st, 'the %s: digits' % k, z3.Implies(z3.ULT(K, x.length()), s.char(K) == x.char(K)))
                c.ok(st, 'the %s is decimal' % k, not isz(f[0]['base']) and f[0]['base'] == 10)
        o = w.L.off('DateNode', 'valueDate.date')
        ld = lambda k, s, b: bvt(c.e.load_cell(st, Ptr(n.obj, o + k), s, ('i', b)), b)
        c.ok(st, 'the node holds that date', z3.And(*[x == y for x, y in zip((ld(0, 2, 16), ld(2, 1, 8), ld(3, 1, 8)), ev[0]['date'])]))
