"""Functions under contract: description of a target, and the contracts shared by the targets."""
import re, subprocess, tempfile, time, traceback
import z3
from ..exec import *
from ..exec import norm, _Cur, number, consts_of, Peel
from .. import lib, vec, enum, streams
from ..world import World, KINDS, VCLS, mangle
from ..ir import Unsupported, IRError

REGISTRY = []


class Target:
    """one function of /repo under contract: `fn` is its demangled name"""

    def __init__(self, props, fn, setup, post, name=None, cover=(), spec=None, contracts=None, bounded=None, budget=60, note=''):
        self.props, self.fn, self.setup, self.post = props, fn, setup, post
        self.name = name or (fn or setup.__self__.__class__.__name__).split('(')[0]
        self.mod = setup.__module__.split('.')[-1]
        self.cover, self.contracts, self.bounded, self.budget, self.note = cover, contracts, bounded, budget, note


def target(props, fn, **kw):
    """decorator of a class with setup(c) -> list of (state, args) and post(c, st, outcome)"""
    def d(cls):
        t = cls()
        p = props.split()
        if fn is not None and fn.endswith(('::evaluate(PSC::Context&)', 'Resolver::resolve(PSC::Context&)', 'Source::resolve(PSC::Context&)', 'Dereferencer::resolve(PSC::Context&)')) and 'C11' not in p:
            p.append('C11')         # C.fault
        REGISTRY.append(Target(p, fn, t.setup, getattr(t, "post", None), **kw))
        return cls
    return d


class C:
    """context of one verification: engine, world, helpers for contracts"""

    def __init__(self, mod, dem, layout, consts, unroll=None, budget=60, fast=False):
        self.mod, self.dem, self.K = mod, dem, consts
        self.e = Engine(mod, dem, unroll=unroll, budget=budget)
        lib.install(self.e)
        vec.install(self.e)
        streams.install(self.e)
        self.w = World(self.e, layout, consts)
        self.e.c = self
        self.names = names_of(mod, dem)
        self.covered = set()
        self.lemmas = {}
        self.install()

    # ----- functions
    def find(self, fn):
        if fn not in self.names:
            raise Unsupported('no function ' + fn)
        return self.names[fn]

    def state(self):
        return State()

    def handler(self, rx, f):
        self.e.patterns.insert(0, (re.compile(rx), f))

    # ----- shared contracts
    def install(self):
        e, w = self.e, self.w
        e.virt[('Node', 'evaluate')] = self.evaluate
        e.virt[('PSC::Block', 'run')] = self.run_block
        self.handler(r'^PSC::Enum::getDefinition\(PSC::Context&\) const$', self.enum_definition)
        self.havoc = True
        for g in ('@pedantic', '@REPLMode'):
            pass

    def raise_any(self, st, classes=('@_ZTIN3PSC12RuntimeErrorE',)):
        out = []
        for ti in classes:
            s = st.fork()
            out.append(('throw', s, self.e.new(s, 64, 'exc'), ti))
        return out

    ANYERR = ('@_ZTIN3PSC12RuntimeErrorE',)

    def evaluate(self, e, st, a, ins):
        """Node::evaluate: any result, or any error; may change any variable"""
        sret, node, ctx = a
        out = self.raise_any(st, self.ANYERR)
        for o in out:
            e.event(o[1], 'throw', node=node)
        r = self.w.result(st)
        self.havoc_world(st)
        e.event(st, 'eval', node=node, res=r, ctx=ctx)
        e.put(st, sret, r, 8)
        out.append(('ret', st, None))
        return out

    def run_block(self, e, st, a, ins):
        """Block::run: normal completion, BREAK, CONTINUE, or any error; may change any variable"""
        out = []
        for ti in ('@_ZTI14BreakErrSignal', '@_ZTI17ContinueErrSignal') + self.ANYERR:
            s = st.fork()
            self.havoc_world(s)
            e.event(s, 'run', block=a[0], how=ti)
            out.append(('throw', s, e.new(s, 64, 'exc'), ti))
        self.havoc_world(st)
        e.event(st, 'run', block=a[0], how='normal')
        out.append(('ret', st, None))
        return out

    def enum_definition(self, e, st, a, ins):
        '''Enum::getDefinition: the definition named by the value's type; the position is within it (invariant of enumerated values)'''
        w = self.w
        name = self.payload_any(st, a[0], 'definitionName', 'PSC::Enum')
        defs = st.ghost.get('enumdefs', ())
        for n, d in defs:
            if n is name:
                break
        else:
            d = self.enum_def(st, name)
        n = self.def_size(st, d)
        idx = w.peek(st, a[0], 'idx', 'PSC::Enum')
        e.assume(st, z3.ULT(bvt(idx), n))
        return d

    def enum_def(self, st, name):
        d = self.w.new(st, 'PSC::EnumTypeDefinition')
        self.w.poke(st, d, 'name', name)
        n = bv('enumsize')
        st.pc.append(z3.And(n != 0, z3.ULT(n, lib.BIG)))
        st.w(d.obj).meta['len:values'] = n
        st.ghost['enumdefs'] = st.ghost.get('enumdefs', ()) + ((name, d),)
        return d

    def def_size(self, st, d):
        return st.mem[d.obj].meta['len:values']

    def payload_any(self, st, p, path, cls):
        return self.w.peek(st, p, path, cls)

    MUTABLE = {'PSC::Integer': ('value',), 'PSC::Real': ('value',), 'PSC::Boolean': ('value',), 'PSC::Char': ('value',), 'PSC::String': ('value',), 'PSC::Date': ('date',),
               'PSC::Enum': ('idx',), 'PSC::Pointer': ('ptr', 'ctxId'), 'PSC::Context': ('*',)}

    def havoc_world(self, st):
        self.forget(st)
        f = st.ghost.get('onhavoc')
        if f is not None:
            f(st)

    def frame(self, st, what, allowed):
        """the code writes no object of the world other than the allowed ones"""
        t, bad = st.stored, None
        while t:
            t, p = t
            if p.obj not in allowed:
                bad = p
        self.ok(st, what, bad is None)

    def forget(self, st):
        """forget the contents of every value cell reachable by other code"""
        for oid, o in list(st.mem.items()):
            if not o.world or o.cls not in self.MUTABLE:
                continue
            o = st.w(oid)
            for path in self.MUTABLE[o.cls]:
                if path == '*':
                    continue
                off = self.w.L.off(o.cls, path)
                for c in [c for c in o.cells if not isz(c) and (c == off or (path == 'date' and off <= c < off + 4))]:
                    st.writes = (st.writes, (oid, c, o.cells[c][1]))
                    del o.cells[c]

    # ----- reading results
    def ptr(self, st, p):
        return self.e.load_cell(st, p, 8, ('ptr',))

    def cls_of(self, st, p):
        o = st.mem[p.obj]
        vt = self.e.load_cell(st, Ptr(p.obj, p.off), 8, ('ptr',))
        if isinstance(vt, Ptr) and isinstance(vt.obj, str) and vt.obj.startswith('@@_ZTV'):
            d = self.dem.get(vt.obj[1:], '')
            return d.replace('vtable for ', '')
        return o.cls

    def value(self, st, p, kind=None):
        """(kind, term) of a value object"""
        cls = self.cls_of(st, p)
        kind = next((k for k, c in VCLS.items() if c == cls), None)
        if kind is None:
            raise Unsupported('value of class %s' % cls)
        return kind, self.payload(st, p, cls)

    def payload(self, st, p, cls):
        w = self.w
        o = st.mem[p.obj]
        g = lambda path: w.peek(st, p, path, cls)
        if cls in ('PSC::Integer', 'PSC::Real', 'PSC::Char', 'PSC::String'):
            return g('value')
        if cls == 'PSC::Boolean':
            return g('value')
        if cls == 'PSC::Enum':
            return (g('definitionName'), g('idx'))
        if cls == 'PSC::Date':
            return self.date(st, p)
        if cls == 'PSC::Pointer':
            return (g('definitionName'), g('ptr'))
        if cls == 'PSC::Composite':
            return (g('definitionName'),)
        raise Unsupported('payload of ' + cls)

    def date(self, st, p):
        off = self.w.L.off('PSC::Date', 'date')
        y = self.e.load_cell(st, self.e.gep_off(p, off), 2, ('i', 16))
        m = self.e.load_cell(st, self.e.gep_off(p, off + 2), 1, ('i', 8))
        d = self.e.load_cell(st, self.e.gep_off(p, off + 3), 1, ('i', 8))
        t = lambda x, n: x if isz(x) else z3.BitVecVal(x, n)
        return (t(y, 16), t(m, 8), t(d, 8))

    def orig(self, st, r):
        """kind and payload an abstract evaluation result had when it was produced"""
        o = st.mem[r.obj]
        if 'kt' not in o.meta:
            alive = st.w(r.obj).alive
            st.w(r.obj).alive = True
            self.w.peek(st, r, 'type.type')
            st.w(r.obj).alive = alive
            o = st.mem[r.obj]
        k = self.w.kindname[self.e.choose(st, o.meta['kt'], sorted(self.w.kindname))]
        d = o.meta.get('data')
        if d is None:
            d = self.w.result_data(st, o, 0, ('ptr',))
        return k, (None if d.null else self.payload_dead(st, d))

    def payload_dead(self, st, d):
        """payload of an object that may have been destroyed meanwhile"""
        o = st.w(d.obj)
        alive, o.alive = o.alive, True
        try:
            return self.payload(st, d, o.cls)
        finally:
            st.w(d.obj).alive = alive

    def result(self, st, sret):
        """(kind term or concrete, value pointer, NodeResult pointer) of a returned unique_ptr<NodeResult>"""
        r = self.ptr(st, sret)
        if r.null:
            return None
        cls = 'NodeResult'
        t = self.w.peek(st, r, 'type.type', cls)
        d = self.w.peek(st, r, 'data', cls)
        return t, d, r

    def events(self, st, kind=None):
        out, t = [], st.trace
        while t:
            t, x = t
            if kind is None or x[0] == kind:
                out.append(x)
        return out[::-1]

    def ok(self, st, name, cond, hint=None, domain=None):
        """obligation.  hint(pc) -> (pc', goal'): a simpler sufficient form, tried first;
        domain {constant: values}: decided by evaluation at every point, once the solver shows that no other point matters"""
        self.e.oblige(st, name, cond)
        if hint is not None or domain is not None:
            c = st.checks[1].cond
            HINTS[c.get_id()] = (c, hint, domain)

    def cover(self, name):
        self.covered.add(name)

    def lemma(self, name, goal, hyp=()):
        r = solve(list(hyp), z3.Not(goal))
        self.lemmas[name] = dict(n=1, discharged=int(r[0] == 'unsat'), refuted=int(r[0] == 'sat'), undecided=int(r[0] not in ('unsat', 'sat')), detail=None if r[0] == 'unsat' else str(r[1]))

    def is_runtime_error(self, out):
        return out[0] == 'throw' and self.e.derives(out[2], '@_ZTIN3PSC12RuntimeErrorE')

    def fault(self, st, out):
        """an error raised by a statement or expression itself carries a token of its own text and the scope it ran in"""
        g = st.ghost
        if out[0] != 'throw' or 'node' not in g or 'ctx' not in g or not isinstance(out[1], Ptr) or 'err' not in st.mem[out[1].obj].meta:
            return
        name, d, a = st.mem[out[1].obj].meta['err']
        if '(Token const&' not in d:
            return
        objs, new = {g['node'].obj}, {g['node'].obj}
        for _ in range(4):
            new = {v.obj for oid in new if oid in st.mem for v, n in st.mem[oid].cells.values() if isinstance(v, Ptr) and not v.null}
            new |= {oid for oid, o in st.mem.items() if 'key' in o.meta and o.meta['key'][0] in objs | new}
            new -= objs | {g['ctx'].obj}
            objs |= new
        tok = a[1]
        other = g.get('otherfault', {}).get(name)
        if other is not None and tok.obj == other[0].obj:
            ctx = other[1]
        else:
            self.ok(st, 'an error names a place of the statement that fails', tok.obj in objs)
            ctx = g['ctx']
        if 'PSC::Context const&' in d:
            self.ok(st, 'and the scope it ran in', a[2].obj == ctx.obj)
        self.covered.add('fault')

    def sret(self, st):
        return self.e.new(st, 8, 'alloca', name='sret')


_names = {}


def names_of(mod, dem):
    if id(mod) not in _names:
        d = {}
        for n in mod.funcs:
            d[dem.get(n, n)] = n
        for g in mod.globals:
            x = dem.get(g, g)
            if '(' in x and x not in d:
                v = mod.ginit(g)
                if v[0] == 'alias' and v[1][0] == 'global':
                    d[x] = v[1][1]
        _names[id(mod)] = d
    return _names[id(mod)]


def bvt(x, n=64):
    return x if isz(x) else z3.BitVecVal(x, n)


def fpt(x):
    return x


def feq(a, b):
    """the same REAL (bitwise, NaNs identified)"""
    return a == b


def check_all(c, terminals):
    """decides the obligations met on the explored paths -> {name: [discharged, refuted, undecided, detail]}"""
    seen, obl = set(), {}
    for st, out in terminals:
        t = st.checks
        while t:
            if id(t) in seen:
                break
            seen.add(id(t))
            t, ck = t
            o = obl.setdefault(ck.name, dict(n=0, discharged=0, refuted=0, undecided=0, detail=None))
            o['n'] += 1
            if z3.is_true(ck.cond):
                o['discharged'] += 1
                continue
            r = decide_vc(c.e, ck)
            if r == 'proved':
                o['discharged'] += 1
            elif r[0] == 'cex' and not ck.widened and not ck.approx:
                o['refuted'] += 1
                o['detail'] = r[1]
            else:
                o['undecided'] += 1
                o['detail'] = o['detail'] or (r[1] if r[0] != 'cex' else 'counterexample only on an approximated path (%s)' % (', '.join(ck.approx) or 'widened loop'))
    return obl


HINTS = {}       # condition -> equivalent formulation to try when the solver gives up


def decide_vc(e, ck):
    goal = z3.Not(ck.cond)
    t0 = time.time()
    parts = [goal]
    h = HINTS.get(ck.cond.get_id())
    if h is not None and h[0].eq(ck.cond) and h[2] is not None:
        r = enum.decide(ck.pc, ck.cond, h[2], solve)
        if r == 'proved' or r[0] == 'cex':
            e.stats['solver'] += time.time() - t0
            return r if r == 'proved' else ('cex', model_text(r[1], ck))
    if h is not None and h[0].eq(ck.cond) and h[1] is not None:
        pc, g = h[1](ck.pc)
        if solve(pc, z3.Not(g))[0] == 'unsat':
            e.stats['solver'] += time.time() - t0
            return 'proved'
    if z3.is_and(ck.cond):
        parts = [z3.Not(x) for x in ck.cond.children()]
    bad = None
    for g in parts:
        r = solve(ck.pc, g)
        e.stats['queries'] += 1
        if r[0] == 'unsat':
            continue
        if r[0] == 'sat':
            e.stats['solver'] += time.time() - t0
            return ('cex', model_text(r[1], ck))
        bad = ('unknown', 'solver: ' + str(r[1]))
    e.stats['solver'] += time.time() - t0
    return bad or 'proved'


def relevant(pc, g):
    """the conjuncts that share symbols with g, transitively (a smaller unsatisfiable set suffices)"""
    names = set(consts_of(g))
    rest = [(c, consts_of(c)) for c in pc]
    out, changed = [], True
    while changed:
        changed = False
        keep = []
        for c, n in rest:
            if n & names or not n:
                out.append(c)
                names |= n
                changed = True
            else:
                keep.append((c, n))
        rest = keep
    return out


def solve(pc, g):
    """portfolio: z3, then bit-blasting, cvc5 with bit vectors as integers, and cvc5"""
    r = relevant(pc, g)
    if len(r) < len(pc):
        s = z3.Solver()
        s.set('timeout', 1000)
        s.add(*r)
        s.add(g)
        if s.check() == z3.unsat:
            return ('unsat',)
    s = z3.Solver()
    s.set('timeout', 2000)
    s.add(*pc)
    s.add(g)
    r = s.check()
    if r == z3.unsat:
        return ('unsat',)
    if r == z3.sat:
        return ('sat', s.model())
    texts = [s.to_smt2()]     # printed after a check, a solver shows what its preprocessing left
    s = z3.Solver()
    s.add(*pc)
    s.add(g)
    texts.append(s.to_smt2())
    if external(['(set-logic ALL)\n' + t.replace('(check-sat)', '') for t in texts]):
        return ('unsat',)
    try:
        t = z3.TryFor(z3.Then('simplify', 'propagate-values', 'solve-eqs', 'fpa2bv', 'simplify', 'bit-blast', 'sat'), 8000)
        s = t.solver()
        s.add(*pc)
        s.add(g)
        r = s.check()
        if r == z3.unsat:
            return ('unsat',)
        if r == z3.sat:
            return ('sat', s.model())
    except z3.Z3Exception:
        pass
    return ('unknown', 'timeout')


def external(texts):
    """unsatisfiable according to one of the command-line solvers"""
    cmds = [(t, ['cvc5', '--solve-bv-as-int=sum', '--tlimit=10000']) for t in texts] + [(texts[-1], ['cvc5', '--tlimit=10000'])]
    ps = []
    for text, c in cmds:
        f = tempfile.TemporaryFile('w+')
        f.write(text + '\n(check-sat)\n')
        f.seek(0)
        try:
            ps.append(subprocess.Popen(c + (['-'] if c[0] == 'cvc5' else []), stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True))
        except OSError:
            pass
        f.close()
    got = False
    end = time.time() + 12
    live = list(ps)
    while live and not got and time.time() < end:
        for p in list(live):
            if p.poll() is not None:
                live.remove(p)
                o = p.stdout.read().split()
                if o and o[0] == 'unsat':
                    got = True
                elif o and o[0] == 'sat':
                    live = []
                    break
        time.sleep(.01)
    for p in ps:
        if p.poll() is None:
            p.kill()
        p.stdout.close()
        p.wait()
    return got


def model_text(m, ck):
    out = ['violated condition: ' + str(ck.cond)[:300], 'values:']
    for d in sorted(m.decls(), key=lambda d: d.name())[:60]:
        out.append('  %s = %s' % (d.name(), str(m[d])[:120]))
    tr, t = [], ck.trace
    while t:
        t, x = t
        tr.append(x[0] + ' ' + ', '.join('%s=%s' % (k, str(v)[:60]) for k, v in x[1].items()))
    if tr:
        out.append('events on the path:')
        out += ['  ' + x for x in tr[::-1][:40]]
    return '\n'.join(out)


def run_target(t, mod, dem, layout, consts, unroll=None):
    """verifies one function; -> report"""
    t0 = time.time()
    rep = dict(name=t.name, fn=t.fn, props=t.props, status='ok', obligations={}, paths=0)
    c = None
    try:
        c = C(mod, dem, layout, consts, unroll, t.budget)
        if t.fn is None:
            # lemmas over the contracts: no function is executed
            for x in t.setup(c):
                pass
            rep['obligations'] = c.lemmas
            rep['paths'] = 1
            rep['time'] = round(time.time() - t0, 2)
            rep['queries'] = len(c.lemmas)
            rep['inlined'] = rep['contracts'] = []
            return rep
        fname = c.find(t.fn)
        c.target = t
        if t.contracts:
            t.contracts(c)
        c.e.entry_name = fname
        terms = []
        for st, args in t.setup(c):
            c.e.call(st, fname, args)
            done, arr, ex = c.e.explore([st])
            terms += done
        final = []
        for st, out in terms:
            if out[0] == 'infeasible' or out[0] == 'loop-closed':
                final.append((st, out))
                continue
            work = [st]
            while work:
                s = work.pop()
                pre = s.fork()
                _Cur.st = s
                try:
                    t.post(c, s, out)
                    c.fault(s, out)
                    final.append((s, out))
                except ForkOn as f:
                    for cond in f.conds:
                        x = pre.fork()
                        try:
                            c.e.assume(x, cond)
                        except Infeasible:
                            continue
                        work.append(x)
                except Infeasible:
                    pass
        _Cur.st = None
        rep['paths'] = len(final)
        rep['obligations'] = check_all(c, final)
        miss = [x for x in t.cover if x not in c.covered]
        if miss:
            rep['status'] = 'undecided'
            rep['why'] = 'cases never reached: ' + ', '.join(miss)
        if c.e.truncated:
            rep['truncated'] = c.e.truncated
    except (Unsupported, Undecided, IRError, Peel) as x:
        rep['status'] = 'undecided'
        rep['why'] = str(x)
        rep['trace'] = traceback.format_exc()
    except (KeyError, AttributeError, TypeError, IndexError, AssertionError, z3.Z3Exception, ForkOn, Infeasible, RecursionError, ValueError) as x:
        rep['status'] = 'undecided'
        rep['why'] = 'verifier: %s %s' % (type(x).__name__, str(x)[:200])
        rep['trace'] = traceback.format_exc()
    _Cur.st = None
    rep['time'] = round(time.time() - t0, 2)
    if c is not None:
        rep['solver'] = round(c.e.stats['solver'], 2)
        rep['queries'] = c.e.stats['queries']
        rep['inlined'] = sorted(c.e.stats['inlined'])
        rep['contracts'] = sorted(c.e.stats['contracts'])
    return rep
