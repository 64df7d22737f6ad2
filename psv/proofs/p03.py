"""Selection, loops, blocks (C03)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, num_contracts, truth, date_cmp, NUM, error

BREAK, CONT, RETURN, RTE = '@_ZTI14BreakErrSignal', '@_ZTI17ContinueErrSignal', '@_ZTI15ReturnErrSignal', '@_ZTIN3PSC12RuntimeErrorE'


class Auto(Spec):
    """automaton over the events of one execution; step(kind, data) returns the next mode"""

    def __init__(self, mode='start', **t):
        super().__init__()
        self.mode, self.t = mode, dict(t)

    def bad(self, eng, st, what):
        eng.c.ok(st, what, False)
        self.mode = 'bad'


def none_result(c, st, out):
    t, d, r = c.result(st, st.ghost['r'])
    c.ok(st, 'the statement yields no value', bvt(t, 32) == c.w.T['NONE'])


# ---------------------------------------------------------------- WHILE and REPEAT
class CondLoop(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind in ('eval', 'throw') and 'node' in d:
            c.ok(st, 'the condition is what is evaluated', d['node'].obj == self.cond.obj)
            c.ok(st, 'the condition is tested exactly once per iteration', self.mode == 'test')
            self.mode = 'tested' if kind == 'eval' else 'error'
            self.res = d.get('res')
        elif kind == 'run':
            c.ok(st, 'the body is what runs', d['block'].obj == self.block.obj)
            if self.mode == 'tested':
                k, v = c.orig(st, self.res)
                c.ok(st, 'the body runs only after a BOOLEAN test', k == 'BOOLEAN')
                if k == 'BOOLEAN':
                    c.ok(st, 'the body runs only while the condition says so', bvt(v, 8) == self.go)
            else:
                c.ok(st, 'the body runs in its turn', self.mode == 'run')
            h = d['how']
            self.mode = 'test' if h in ('normal', CONT) else 'broken' if h == BREAK else 'signal'
            self.sig = h


def cond_loop(cls, first, go):
    class T:
        def setup(self, c):
            for st, a in node_setup(c, cls, [None]):
                sp = st.spec = CondLoop(first)
                sp.cond = c.w.peek(st, a[1], 'node')
                sp.block = c.w.peek(st, a[1], 'block')
                sp.go = go
                st.ghost['cut'] = True
                yield st, a

        def post(self, c, st, out):
            sp = st.spec
            if out[0] == 'ret':
                if sp.mode == 'tested':
                    k, v = c.orig(st, sp.res)
                    c.ok(st, 'the loop ends after a BOOLEAN test', k == 'BOOLEAN')
                    if k == 'BOOLEAN':
                        c.cover('ends')
                        c.ok(st, 'the loop ends only when the condition says so', bvt(v, 8) != go)
                else:
                    c.cover('break')
                    c.ok(st, 'the loop ends by its condition or by BREAK', sp.mode == 'broken')
                return none_result(c, st, out)
            if sp.mode == 'tested':
                k, v = c.orig(st, sp.res)
                c.cover('bad condition')
                c.ok(st, 'only a non-BOOLEAN condition is an error', k != 'BOOLEAN')
                return error(c, st, out, 'a non-BOOLEAN condition')
            if sp.mode == 'signal':
                c.cover('signal')
                return c.ok(st, 'errors and RETURN in the body pass through', out[2] == sp.sig)
            c.ok(st, 'only errors leave the loop abnormally', sp.mode == 'error')
    return T


COV = ['ends', 'break', 'bad condition', 'signal']
target('C03 C01', 'WhileLoopNode::evaluate(PSC::Context&)', cover=COV)(cond_loop('WhileLoopNode', 'test', 1))
target('C03 C01', 'RepeatUntilNode::evaluate(PSC::Context&)', cover=COV)(cond_loop('RepeatUntilNode', 'run', 0))


class RepeatLoop(CondLoop):
    pass


# REPEAT: after a test that did not end the loop the body runs, without a further test


# ---------------------------------------------------------------- FOR
class For(Auto):
    def on(self, eng, st, kind, d):
        c, w = eng.c, eng.c.w
        if self.mode == 'bad':
            return
        if kind in ('eval', 'throw') and 'node' in d:
            who = next((n for n, p in self.parts.items() if p.obj == d['node'].obj), None)
            c.ok(st, 'only start, stop and step are evaluated', who is not None)
            c.ok(st, 'start, stop and step are evaluated once, before the loop', self.mode == 'start' and who not in self.res)
            if kind == 'throw':
                self.mode = 'error'
            self.res = dict(self.res)
            self.res[who] = d.get('res')
        elif kind == 'addvar':
            c.ok(st, 'a variable is created only if the name is unknown', self.var is None)
            self.var = d['var']
            t = w.peek(st, d['var'], 'type.type', 'PSC::Variable')
            c.ok(st, 'a created iterator is an INTEGER variable', bvt(t, 32) == w.T['INTEGER'])
            c.ok(st, 'a created iterator is not constant', bvt(w.peek(st, d['var'], 'isConstant', 'PSC::Variable'), 8) == 0)
            n = lib.seq(lib.gets(eng, st, eng.gep_off(d['var'], w.L.off('PSC::Variable', 'name'))), self.name)
            c.ok(st, 'a created iterator has the name given', n)
        elif kind == 'getvar':
            self.var = d['var'] if not d['var'].null else None
        elif kind == 'run':
            c.ok(st, 'the body is what runs', d['block'].obj == self.block.obj)
            if self.mode == 'start':
                self.begin(eng, st)
            v = self.cell(eng, st, pre=True)
            c.ok(st, 'the body runs for the value due', v == self.t['due'])
            c.ok(st, 'the body runs only while the iterator has not passed stop', self.guard())
            h = d['how']
            if h in ('normal', CONT):
                self.mode = 'head'
                if self.intact:
                    eng.assume(st, d['cell'] == v)     # this case: the body does not assign the iterator
                self.t['due'] = z3.simplify(bvt(d['cell']) + self.t['step'])
            else:
                self.mode = 'broken' if h == BREAK else 'signal'
                self.t['due'] = d['cell']
                self.sig = h

    def guard(self):
        t = self.t
        return z3.If(t['step'] < 0, t['due'] >= t['stop'], t['due'] <= t['stop'])

    def cell(self, eng, st, pre=False):
        return eng.c.precell if pre else eng.c.w.peek(st, eng.c.w.storage(st, self.var), 'value', 'PSC::Integer')

    def begin(self, eng, st):
        c = eng.c
        vals = {}
        for n in self.parts:
            c.ok(st, n + ' is evaluated', n in self.res)
            if n in self.res:
                k, v = c.orig(st, self.res[n])
                c.ok(st, n + ' is an INTEGER', k == 'INTEGER')
                vals[n] = bvt(v) if k == 'INTEGER' else None
        if len(vals) < len(self.parts) or None in vals.values():
            raise Infeasible()
        c.ok(st, 'there is an iterator', self.var is not None)
        if self.var is None:
            raise Infeasible()
        w = c.w
        c.ok(st, 'the iterator is an INTEGER variable', bvt(w.peek(st, self.var, 'type.type', 'PSC::Variable'), 32) == w.T['INTEGER'])
        c.ok(st, 'the iterator is not a CONSTANT', bvt(w.peek(st, self.var, 'isConstant', 'PSC::Variable'), 8) == 0)
        self.t = dict(due=vals['start'], stop=vals['stop'], step=vals.get('step', z3.BitVecVal(1, 64)))
        self.mode = 'head'


def get_variable(c):
    def h(e, st, a, ins):
        w = c.w
        name = lib.gets(e, st, a[1])
        glob = c.e.decide(st, hit(a[2]))
        if not e.decide(st, boolean('known')):
            e.event(st, 'getvar', var=NULL, name=name, glob=glob)
            return NULL
        v = w.variable(st)
        off = w.L.off('PSC::Variable', 'name')
        e.put(st, e.gep_off(v, off), name, 32)
        e.event(st, 'getvar', var=v, name=name, glob=glob)
        return v
    return h


def adopt(c, st, v):
    """an object built by the code becomes part of the world"""
    o = st.w(v.obj)
    o.world = True
    if o.cls is None:
        o.cls = c.cls_of(st, v)
    if o.cls == 'PSC::Variable':
        d = c.w.peek(st, v, 'data')
        if not d.null:
            x = st.w(d.obj)
            x.world = True
            if x.cls is None:
                x.cls = c.cls_of(st, d)


def scope_contracts(c):
    num_contracts(c)
    c.handler(r'^PSC::Context::getVariable\(', get_variable(c))

    def add(e, st, a, ins):
        adopt(c, st, a[1])
        e.event(st, 'addvar', var=a[1], ctx=a[0])
        return None
    c.handler(r'^PSC::Context::addVariable\(', add)


def for_contracts(c):
    scope_contracts(c)
    run = c.run_block

    def run_cell(e, st, a, ins):
        sp = st.spec
        w = c.w
        if sp.var is None:
            c.ok(st, 'there is an iterator', False)
            raise Infeasible()
        s = w.storage(st, sp.var)
        c.precell = w.peek(st, s, 'value', 'PSC::Integer')
        out = []
        for how in ('normal', BREAK, CONT, RETURN, RTE):
            x = st.fork() if how != 'normal' else st
            c.havoc_world(x)
            if how == 'normal':
                keep = x
            cell = w.peek(x, s, 'value', 'PSC::Integer')
            out.append((x, how, cell))
        res = []
        for x, how, cell in out:
            _Cur.st = x
            try:
                e.event(x, 'run', block=a[0], how=how, cell=cell)
            except Infeasible:
                continue
            res.append(('ret', x, None) if how == 'normal' else ('throw', x, e.new(x, 64, 'exc'), how))
        _Cur.st = st
        return res
    c.e.virt[('PSC::Block', 'run')] = run_cell


@target('C03 C08 C05 C01', 'ForLoopNode::evaluate(PSC::Context&)', contracts=for_contracts, cover=['ends', 'break', 'bad', 'signal'])
class ForLoop:
    def setup(self, c):
        for has_step in (False, True):
            for intact in (True, False):
                for st, a in node_setup(c, 'ForLoopNode', [None]):
                    n = a[1]
                    if not has_step:
                        c.w.poke(st, n, 'step', NULL)
                    sp = st.spec = For()
                    sp.parts = {x: c.w.peek(st, n, x) for x in ('start', 'stop') + (('step',) if has_step else ())}
                    sp.block = c.w.peek(st, n, 'block')
                    tok = c.w.peek(st, n, 'identifier')
                    sp.name = c.w.peek(st, tok, 'value', 'Token')
                    sp.res, sp.var, sp.intact = {}, None, intact
                    yield st, a

    def post(self, c, st, out):
        sp = st.spec
        w = c.w
        if out[0] == 'ret':
            if sp.mode == 'start':
                sp.begin(c.e, st)
            if sp.mode == 'head':
                c.cover('ends')
                c.ok(st, 'the loop ends only when the iterator has passed stop', z3.Not(sp.guard()))
            else:
                c.cover('break')
                c.ok(st, 'the loop ends by its bounds or by BREAK', sp.mode == 'broken')
            c.ok(st, 'the iterator is left at the value due', bvt(sp.cell(c.e, st)) == sp.t['due'])
            return none_result(c, st, out)
        if sp.mode == 'signal':
            c.cover('signal')
            return c.ok(st, 'errors and RETURN in the body pass through', out[2] == sp.sig)
        if sp.mode == 'error':
            return c.ok(st, 'an error of a bound is passed on', c.is_runtime_error(out))
        c.cover('bad')
        error(c, st, out, 'a bad FOR header')
        c.ok(st, 'a FOR header is refused before the loop', sp.mode == 'start')
        bad = []
        for n, r in sp.res.items():
            k, v = c.orig(st, r)
            bad.append(z3.BoolVal(k != 'INTEGER'))
        if sp.var is not None:
            bad.append(bvt(w.peek(st, sp.var, 'type.type', 'PSC::Variable'), 32) != w.T['INTEGER'])
            bad.append(bvt(w.peek(st, sp.var, 'isConstant', 'PSC::Variable'), 8) != 0)
        c.ok(st, 'only a bad FOR header is refused', z3.Or(bad) if bad else False)


# ---------------------------------------------------------------- IF
class If(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind in ('eval', 'throw') and 'node' in d:
            key = self.key(st, d['node'])
            c.ok(st, 'what is evaluated is a condition', key is not None)
            if key is None:
                self.mode = 'bad'
                return
            self.advance(eng, st)
            c.ok(st, 'conditions are tested in order, after the previous one was FALSE', z3.And(key == self.t['i'], self.mode == 'test'))
            self.mode = 'tested' if kind == 'eval' else 'error'
            self.res = d.get('res')
            self.keys = (c.e.c.w, )
        elif kind == 'run':
            key = self.key(st, d['block'])
            c.ok(st, 'what runs is a branch', key is not None)
            if key is None:
                self.mode = 'bad'
                return
            if self.mode == 'tested':
                k, v = c.orig(st, self.res)
                c.ok(st, 'a branch runs after a BOOLEAN condition', k == 'BOOLEAN')
                if k != 'BOOLEAN':
                    raise Infeasible()
                taken = z3.And(key == self.t['i'], bvt(v, 8) == 1)
                nxt = z3.And(key == self.t['i'] + 1, bvt(v, 8) == 0, self.isnull(key))
                c.ok(st, 'the branch run is the first whose condition is TRUE, or ELSE', z3.Or(taken, nxt))
            else:
                c.ok(st, 'one branch runs', self.mode == 'test')
                c.ok(st, 'the branch run is the first whose condition is TRUE, or ELSE', z3.And(key == self.t['i'], self.isnull(key)))
            h = d['how']
            self.mode = 'done' if h == 'normal' else 'signal'
            self.sig = h

    def isnull(self, i):
        return self.nullfn(i)

    def advance(self, eng, st):
        """the previous condition was FALSE"""
        if self.mode == 'tested':
            k, v = eng.c.orig(st, self.res)
            eng.c.ok(st, 'the next condition is tested only if the previous one was BOOLEAN', k == 'BOOLEAN')
            if k != 'BOOLEAN':
                raise Infeasible()
            eng.c.ok(st, 'the next condition is tested only if the previous one was FALSE', bvt(v, 8) == 0)
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
            self.mode = 'test'

    def key(self, st, p):
        k = st.mem[p.obj].meta.get('key')
        return None if k is None else k[1]


def index_of(st, p):
    k = st.mem[p.obj].meta.get('key')
    return None if k is None else k[1]


ELSE = z3.Function('is_else', z3.BitVecSort(64), z3.BoolSort())


def if_contracts(c):
    def cond(st, o, idx):
        return NULL if c.e.decide(st, ELSE(bvt(idx))) else c.w.new(st, 'Node')
    c.w.over[('IfConditionComponent', 'condition@')] = cond


@target('C03 C01', 'IfStatementNode::evaluate(PSC::Context&)', contracts=if_contracts, cover=['no branch', 'branch', 'bad condition'])
class IfStatement:
    def setup(self, c):
        for st, a in node_setup(c, 'IfStatementNode', [None]):
            sp = st.spec = If('test', i=z3.BitVecVal(0, 64))
            sp.nullfn = ELSE
            n = st.w(a[1].obj).meta['len:components'] = bv('n')
            st.pc.append(z3.ULT(n, lib.BIG))
            yield st, a

    def post(self, c, st, out):
        sp = st.spec
        n = st.mem[st.ghost['node'].obj].meta['len:components']
        if sp.mode == 'error':
            return c.ok(st, 'an error of a condition is passed on', c.is_runtime_error(out))
        if sp.mode == 'signal':
            return c.ok(st, 'BREAK, CONTINUE, RETURN and errors in the branch pass through', out[0] == 'throw' and out[2] == sp.sig)
        if out[0] == 'throw':
            c.cover('bad condition')
            c.ok(st, 'a refused condition was evaluated', sp.mode == 'tested')
            if sp.mode == 'tested':
                k, v = c.orig(st, sp.res)
                c.ok(st, 'only a non-BOOLEAN condition is an error', k != 'BOOLEAN')
            return error(c, st, out, 'a non-BOOLEAN condition')
        if sp.mode != 'done':
            c.cover('no branch')
            sp.advance(c.e, st)
            c.ok(st, 'no branch runs only if no condition is TRUE and there is no ELSE', sp.t['i'] == n)
        else:
            c.cover('branch')
        none_result(c, st, out)


# ---------------------------------------------------------------- CASE
class Case(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad':
            return
        if kind in ('eval', 'throw') and 'node' in d:
            c.ok(st, 'the CASE value is evaluated once, first', z3.And(self.mode == 'start', d['node'].obj == self.node.obj))
            self.mode = 'match' if kind == 'eval' else 'error'
            self.res = d.get('res')
        elif kind == 'match':
            k = index_of(st, d['case'])
            c.ok(st, 'clauses are tried in order', z3.And(self.mode == 'match', k == self.t['i']))
            c.ok(st, 'clauses are tried with the value of the CASE expression', self.mode == 'match' and d['value'].obj == self.res.obj)
            self.case = d['case']
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
            self.mode = {True: 'hit', False: 'match', None: 'error'}[d['hit']]
        elif kind == 'run':
            c.ok(st, 'a clause runs only if it is the first to match', self.mode == 'hit')
            if self.mode == 'hit':
                b = eng.load_cell(st, eng.gep_off(self.case, c.w.L.off('CaseComponent', 'block')), 8, ('ptr',))
                c.ok(st, 'what runs is the clause that matched', b.obj == d['block'].obj)
            self.mode = 'done' if d['how'] == 'normal' else 'signal'
            self.sig = d['how']


def case_contracts(c):
    def match(e, st, a, ins):
        out = c.raise_any(st)
        for o in out:
            c.havoc_world(o[1])
            e.event(o[1], 'match', case=a[0], value=a[1], hit=None)
        c.havoc_world(st)
        s = st.fork()
        e.event(s, 'match', case=a[0], value=a[1], hit=False)
        e.event(st, 'match', case=a[0], value=a[1], hit=True)
        return out + [('ret', s, 0), ('ret', st, 1)]
    c.e.virt[('CaseComponent', 'match')] = match


@target('C03 C01', 'CaseNode::evaluate(PSC::Context&)', contracts=case_contracts, cover=['no clause', 'clause'])
class CaseStatement:
    def setup(self, c):
        for st, a in node_setup(c, 'CaseNode', [None]):
            sp = st.spec = Case('start', i=z3.BitVecVal(0, 64))
            sp.node = c.w.peek(st, a[1], 'node')
            n = st.w(a[1].obj).meta['len:cases'] = bv('n')
            st.pc.append(z3.ULT(n, lib.BIG))
            yield st, a

    def post(self, c, st, out):
        sp = st.spec
        n = st.mem[st.ghost['node'].obj].meta['len:cases']
        if sp.mode == 'error':
            return c.ok(st, 'an error is passed on', c.is_runtime_error(out))
        if sp.mode == 'signal':
            return c.ok(st, 'BREAK, CONTINUE, RETURN and errors in the clause pass through', out[0] == 'throw' and out[2] == sp.sig)
        c.ok(st, 'CASE completes', out[0] == 'ret')
        if sp.mode == 'done':
            c.cover('clause')
        else:
            c.cover('no clause')
            c.ok(st, 'no clause runs only if none matches', z3.And(sp.mode == 'match', sp.t['i'] == n))
        if out[0] == 'ret':
            none_result(c, st, out)


def match_setup(c, cls, kinds):
    for k in kinds:
        st = c.state()
        n, v, ctx = c.w.new(st, cls), c.w.result(st, k), c.w.new(st, 'PSC::Context')
        st.ghost.update(node=n, value=v, kind=k, ctx=ctx)
        if k:
            c.orig(st, v)
        yield st, [n, v, ctx]


VALUES = [k for k in KINDS if k != 'NONE']


@target('C03 C19 C18 C01', 'EqualsCaseComponent::match(NodeResult const&, PSC::Context&)', contracts=num_contracts, cover=VALUES)
class EqualsCase:
    def setup(self, c):
        # the value is that of a variable access (Parser::parseCaseStatement), never NONE
        return match_setup(c, 'EqualsCaseComponent', VALUES)

    def post(self, c, st, out):
        ev = [x for x in c.events(st) if x[0] in ('eval', 'throw')]
        c.ok(st, 'the label is evaluated once', len(ev) == 1 and ev[0][1]['node'].obj == c.w.peek(st, st.ghost['node'], 'node').obj)
        if ev and ev[-1][0] == 'throw':
            return c.ok(st, 'an error of the label is passed on', c.is_runtime_error(out))
        lk, x = c.orig(st, st.ghost['value'])
        rk, y = c.orig(st, ev[0][1]['res'])
        c.cover(lk)
        if lk == 'NONE' or rk == 'NONE':
            return
        c.ok(st, 'matching completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = hit(out[1])
        if lk in NUM and rk in NUM:
            c.ok(st, 'numeric label', r == truth('==', lk, x, rk, y))
        elif lk != rk:
            c.ok(st, 'a label of another type does not match', z3.Not(r))
        elif lk in ('BOOLEAN', 'CHAR'):
            c.ok(st, lk + ' label', r == (bvt(x, 8) == bvt(y, 8)))
        elif lk == 'STRING':
            c.ok(st, 'STRING label', r == lib.seq(x, y))
        elif lk == 'DATE':
            c.ok(st, 'DATE label', r == date_cmp('==', x, y))
        elif lk == 'ENUM':
            same = named_same(c, st, st.ghost['value'], ev[0][1]['res'])
            c.ok(st, 'enumerated label', z3.Implies(same, r == (bvt(x[1]) == bvt(y[1]))))


def named_same(c, st, a, b):
    ns = []
    for r in (a, b):
        cell = st.mem[r.obj].cells.get(c.w.L.off('NodeResult', 'type.name'))
        if cell is None:
            return z3.BoolVal(False)
        ns.append(lib.gets(c.e, st, cell[0]))
    return lib.seq(*ns)


def hit(v):
    if isz(v) and z3.is_bool(v):
        return v
    return (v == 1) if isz(v) else z3.BoolVal(bool(v))


@target('C03 C18 C01', 'RangeCaseComponent::match(NodeResult const&, PSC::Context&)', contracts=num_contracts, cover=['numbers', 'CHAR', 'DATE', 'other'])
class RangeCase:
    def setup(self, c):
        return match_setup(c, 'RangeCaseComponent', KINDS)

    def post(self, c, st, out):
        ev = [x for x in c.events(st) if x[0] in ('eval', 'throw')]
        lo, hi = (c.w.peek(st, st.ghost['node'], m) for m in ('lowerBound', 'upperBound'))
        who = ['lo' if x[1]['node'].obj == lo.obj else 'hi' if x[1]['node'].obj == hi.obj else '?' for x in ev]
        c.ok(st, 'the bounds are evaluated at most once each', len(set(who)) == len(who) and '?' not in who)
        if ev and ev[-1][0] == 'throw':
            return c.ok(st, 'an error of a bound is passed on', c.is_runtime_error(out))
        vk, v = c.orig(st, st.ghost['value'])
        if vk == 'NONE':
            return
        res = {w: c.orig(st, x[1]['res']) for w, x in zip(who, ev)}
        if out[0] == 'throw':
            # the only reason for refusing is a bound of a wrong type
            c.ok(st, 'only bounds of a wrong type are refused', c.is_runtime_error(out) and any(not (k == vk or (k in NUM and vk in NUM)) for k, _ in res.values()))
            return
        r = hit(out[1])
        if vk not in NUM + ('CHAR', 'DATE'):
            c.cover('other')
            return c.ok(st, 'a value of another type matches no range', z3.Not(r))
        c.ok(st, 'both bounds are evaluated before a match', z3.Implies(r, len(res) == 2))
        if len(res) < 2:
            return
        (lk, x), (hk, y) = res['lo'], res['hi']
        if vk in NUM:
            if lk in NUM and hk in NUM:
                c.cover('numbers')
                c.ok(st, 'numeric range', r == z3.And(truth('<=', lk, x, vk, v), truth('<=', vk, v, hk, y)))
            else:
                c.ok(st, 'bounds of a wrong type do not match', z3.Not(r))
        elif lk == hk == vk:
            c.cover(vk)
            if vk == 'CHAR':
                c.ok(st, 'CHAR range', r == z3.And(bvt(x, 8) <= bvt(v, 8), bvt(v, 8) <= bvt(y, 8)))
            else:
                c.ok(st, 'DATE range', r == z3.And(date_cmp('<=', x, v), date_cmp('<=', v, y)))
        else:
            c.ok(st, 'bounds of another type do not match', z3.Not(r))


@target('C03', 'OtherwiseCaseComponent::match(NodeResult const&, PSC::Context&)')
class Otherwise:
    def setup(self, c):
        return match_setup(c, 'OtherwiseCaseComponent', [None])

    def post(self, c, st, out):
        c.ok(st, 'OTHERWISE always matches', out[0] == 'ret' and out[1] == 1)


# ---------------------------------------------------------------- BREAK, CONTINUE, blocks
def signal_node(cls, ti):
    class T:
        def setup(self, c):
            return node_setup(c, cls, [None])

        def post(self, c, st, out):
            c.ok(st, 'raises its signal', out[0] == 'throw' and out[2] == ti)
    return T


target('C03', 'BreakNode::evaluate(PSC::Context&)')(signal_node('BreakNode', BREAK))
target('C03', 'ContinueNode::evaluate(PSC::Context&)')(signal_node('ContinueNode', CONT))

STATEMENT = (BREAK, CONT, RETURN, RTE)


class Seq(Auto):
    """statements run in order, each once; whatever one of them raises ends the block"""

    def on(self, eng, st, kind, d):
        c = eng.c
        if kind in ('eval', 'throw') and 'node' in d:
            k = index_of(st, d['node'])
            c.ok(st, 'what is evaluated is a statement of the block', k is not None)
            c.ok(st, 'statements run in order, once each', z3.And(self.mode == 'next', k == self.t['i']) if k is not None else False)
            self.t = dict(self.t)
            self.t['i'] = z3.simplify(self.t['i'] + 1)
            if kind == 'throw':
                self.mode, self.sig = 'thrown', d['ti']


def block_contracts(c):
    def ev(e, st, a, ins):
        sret, node, ctx = a
        out = c.raise_any(st, STATEMENT)
        for o in out:
            c.havoc_world(o[1])
            e.event(o[1], 'throw', node=node, ti=o[3])
        r = c.w.result(st)
        c.havoc_world(st)
        e.event(st, 'eval', node=node, res=r, ctx=ctx)
        e.put(st, sret, r, 8)
        out.append(('ret', st, None))
        return out
    c.e.virt[('Node', 'evaluate')] = ev
    # showing the value of a statement in a REPL session (its own contract)
    c.handler(r'^PSC::Block::runNodeREPL\(', lambda e, st, a, ins: shown(c, st, a))


def shown(c, st, a):
    out = c.raise_any(st, STATEMENT)
    for o in out:
        c.havoc_world(o[1])
        c.e.event(o[1], 'throw', node=a[1], ti=o[3], repl=True)
    c.havoc_world(st)
    c.e.event(st, 'eval', node=a[1], repl=True)
    return out + [('ret', st, None)]


def block(main):
    class T:
        def setup(self, c):
            st = c.state()
            b, ctx = c.w.new(st, 'PSC::Block'), c.w.new(st, 'PSC::Context')
            n = st.w(b.obj).meta['len:nodes'] = bv('n')
            st.pc.append(z3.ULT(n, lib.BIG))
            st.ghost.update(n=n, node=b)
            st.spec = Seq('next', i=z3.BitVecVal(0, 64))
            yield st, [b, ctx]

        def post(self, c, st, out):
            sp = st.spec
            if sp.mode == 'thrown':
                if main and sp.sig in (BREAK, CONT):
                    c.cover('stray')
                    return error(c, st, out, 'a stray BREAK or CONTINUE')
                c.cover('thrown')
                return c.ok(st, 'what a statement raises passes through', out[0] == 'throw' and out[2] == sp.sig)
            c.cover('all')
            c.ok(st, 'the block completes', out[0] == 'ret')
            c.ok(st, 'every statement has run', sp.t['i'] == st.ghost['n'])
            flag = c.e.load_cell(st, c.e.gobj(st, '@REPLMode'), 1, ('i', 8))
            for k, d in c.events(st, 'eval'):
                c.ok(st, 'values are shown in a REPL session only', (bvt(flag, 8) == 1) == bool(d.get('repl')))
    return T


target('C03 C01 C12', 'PSC::Block::run(PSC::Context&)', contracts=block_contracts, cover=['thrown', 'all'])(block(False))
target('C03 C01 C11', 'PSC::MainBlock::run(PSC::Context&)', contracts=block_contracts, cover=['thrown', 'all', 'stray'])(block(True))
