"""Discharging an obligation over a finite domain by evaluating it at every point (a complete case split)."""
import itertools
import numpy as np
import z3

U = np.uint64


def sx(v, n):
    """signed value (int64) of an n-bit unsigned array"""
    if n == 64:
        return v.astype(np.int64)
    s = U(1) << U(n - 1)
    return ((v ^ s).astype(np.int64)) - np.int64(s)


def mask(v, n):
    return v if n == 64 else v & U((1 << n) - 1)


class Evaluator:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def __call__(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            if x.get_id() in self.memo:
                stack.pop()
                continue
            todo = [c for c in x.children() if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[x.get_id()] = (x, self.apply(x, [self.memo[c.get_id()][1] for c in x.children()]))
            stack.pop()
        return self.memo[t.get_id()][1]

    def apply(self, x, a):
        k = x.decl().kind()
        Z = z3
        if z3.is_bv_value(x):
            return U(x.as_long())
        if k == Z.Z3_OP_TRUE:
            return np.bool_(True)
        if k == Z.Z3_OP_FALSE:
            return np.bool_(False)
        if k == Z.Z3_OP_UNINTERPRETED and not a:
            return self.env[str(x)]
        n = x.size() if z3.is_bv(x) else None
        c = x.children()
        if k == Z.Z3_OP_AND:
            return np.logical_and.reduce(np.broadcast_arrays(*a))
        if k == Z.Z3_OP_OR:
            return np.logical_or.reduce(np.broadcast_arrays(*a))
        if k == Z.Z3_OP_NOT:
            return np.logical_not(a[0])
        if k == Z.Z3_OP_IMPLIES:
            return np.logical_or(np.logical_not(a[0]), a[1])
        if k == Z.Z3_OP_XOR:
            return np.logical_xor(a[0], a[1])
        if k in (Z.Z3_OP_EQ, Z.Z3_OP_IFF):
            return a[0] == a[1]
        if k == Z.Z3_OP_DISTINCT and len(a) == 2:
            return a[0] != a[1]
        if k == Z.Z3_OP_ITE:
            return np.where(a[0], a[1], a[2])
        m = c[0].size()
        if k in (Z.Z3_OP_ULEQ, Z.Z3_OP_ULT, Z.Z3_OP_UGEQ, Z.Z3_OP_UGT):
            return {Z.Z3_OP_ULEQ: np.less_equal, Z.Z3_OP_ULT: np.less, Z.Z3_OP_UGEQ: np.greater_equal, Z.Z3_OP_UGT: np.greater}[k](a[0], a[1])
        if k in (Z.Z3_OP_SLEQ, Z.Z3_OP_SLT, Z.Z3_OP_SGEQ, Z.Z3_OP_SGT):
            return {Z.Z3_OP_SLEQ: np.less_equal, Z.Z3_OP_SLT: np.less, Z.Z3_OP_SGEQ: np.greater_equal, Z.Z3_OP_SGT: np.greater}[k](sx(a[0], m), sx(a[1], m))
        if k == Z.Z3_OP_BADD:
            r = a[0]
            for y in a[1:]:
                r = r + y
            return mask(r, n)
        if k == Z.Z3_OP_BMUL:
            r = a[0]
            for y in a[1:]:
                r = r * y
            return mask(r, n)
        if k == Z.Z3_OP_BSUB:
            return mask(a[0] - a[1], n)
        if k == Z.Z3_OP_BNEG:
            return mask(U(0) - a[0], n)
        if k == Z.Z3_OP_BNOT:
            return mask(~a[0], n)
        if k == Z.Z3_OP_BAND:
            return a[0] & a[1]
        if k == Z.Z3_OP_BOR:
            return np.bitwise_or.reduce(np.broadcast_arrays(*a))
        if k == Z.Z3_OP_BXOR:
            return a[0] ^ a[1]
        if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
            x, y = np.broadcast_arrays(a[0], a[1])
            if (y == 0).any():
                raise NotImplementedError('division by zero')
            return x // y if k in (Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I) else x % y
        if k in (Z.Z3_OP_BSDIV, Z.Z3_OP_BSDIV_I, Z.Z3_OP_BSREM, Z.Z3_OP_BSREM_I):
            x, y = np.broadcast_arrays(sx(a[0], n), sx(a[1], n))
            if (y == 0).any():
                raise NotImplementedError('division by zero')
            r = np.fmod(x, y)
            return mask((r if k in (Z.Z3_OP_BSREM, Z.Z3_OP_BSREM_I) else (x - r) // y).astype(U), n)
        if k == Z.Z3_OP_EXTRACT:
            hi, lo = x.params()
            return mask(a[0] >> U(lo), hi - lo + 1)
        if k == Z.Z3_OP_CONCAT:
            r = a[0]
            for y, t in zip(a[1:], c[1:]):
                r = (r << U(t.size())) | y
            return r
        if k == Z.Z3_OP_ZERO_EXT:
            return a[0]
        if k == Z.Z3_OP_SIGN_EXT:
            return mask(sx(a[0], m).astype(U), n)
        if k == Z.Z3_OP_BSHL and z3.is_bv_value(c[1]) and c[1].as_long() < n:
            return mask(a[0] << a[1], n)
        if k == Z.Z3_OP_BLSHR and z3.is_bv_value(c[1]) and c[1].as_long() < n:
            return a[0] >> a[1]
        if k == Z.Z3_OP_BASHR and z3.is_bv_value(c[1]) and c[1].as_long() < n:
            return mask((sx(a[0], m) >> np.int64(c[1].as_long())).astype(U), n)
        raise NotImplementedError('%s' % x.decl())


def decide(pc, cond, domain, solve):
    """-> 'proved' | ('cex', {name: value}) | ('unknown', why).   domain: {constant: iterable of unsigned values}"""
    names = list(domain)
    inside = z3.And(*[z3.Or(*ranges(v, domain[v])) for v in names])
    if solve(list(pc) + [z3.Not(cond)], z3.Not(inside))[0] != 'unsat':
        return ('unknown', 'the domain to enumerate is not complete')
    lists = [np.array(sorted(domain[v]), dtype=U) for v in names]
    rest = np.meshgrid(*lists[1:], indexing='ij') if len(lists) > 1 else []
    rest = [r.reshape(1, -1) for r in rest]
    per = max(1, int(4e6) // (rest[0].size if rest else 1))
    try:
        for k in range(0, len(lists[0]), per):
            env = {str(names[0]): lists[0][k:k + per].reshape(-1, 1)}
            for v, r in zip(names[1:], rest):
                env[str(v)] = r
            with np.errstate(over='ignore'):
                bad = np.logical_not(Evaluator(env)(cond))
            if np.any(bad):
                shape = (len(lists[0][k:k + per]), rest[0].size if rest else 1)
                i, j = np.argwhere(np.broadcast_to(bad, shape))[0]
                at = [v == z3.BitVecVal(int(x), v.size()) for v, x in zip(names, [lists[0][k + i]] + [r[0, j] for r in rest])]
                r = solve(list(pc) + at, z3.Not(cond))
                if r[0] == 'sat':
                    return ('cex', r[1])
                return ('unknown', 'fails outside of the path condition')
    except (NotImplementedError, KeyError) as x:
        return ('unknown', 'enumeration: %r' % (x,))
    return 'proved'


def ranges(v, vals):
    """the values as intervals of unsigned numbers"""
    vals = sorted(vals)
    out, lo, prev = [], vals[0], vals[0]
    for x in vals[1:] + [None]:
        if x is None or x != prev + 1:
            out.append(z3.And(z3.UGE(v, lo), z3.ULE(v, prev)))
            lo = x
        prev = x
    return out
