"""One file and the files of a program (C13, C14, C15, C16): what is read, written and opened of the system is recorded by the
contracts of the streams."""
from .base import *
from .base import _Cur
from .p03 import Auto
from .p05 import var_contracts
from .p04 import witness
from .p14 import FILE
from .. import streams, vec

STRING_ARG = 'PSC::String const&'


def stream_contracts(c):
    var_contracts(c)
    e, w, H = c.e, c.w, c.handler
    e.candidate_hooks.append(witness)
    e.candidate_hooks.append(flags)

    def close(e, st, a, ins):
        r = boolean('closed')
        e.event(st, 'close', file=a[0], r=r)
        return r
    H(r'^PSC::File::close\(\)', close)


def text_of(st, p):
    return st.ghost.get('text', {}).get(lib.skey(Ptr(p.obj, 0)))


class FileCall:
    """a member function of an open file"""
    modes = ('READ', 'WRITE', 'APPEND', 'RANDOM')

    def setup(self, c):
        for m in self.modes:
            st = c.state()
            f = c.w.new(st, FILE)
            c.w.poke(st, f, 'mode', c.K['FileMode::' + m])
            c.w.poke(st, f, 'open', 1)
            if m == 'RANDOM':
                c.w.poke(st, f, 'ofile', NULL)
            if m in ('READ', 'RANDOM'):
                c.w.poke(st, f, 'unfinishedLine', 0)
            st.ghost.update(file=f, mode=m)
            st.ghost['node'] = f
            for a in self.args(c, st, f):
                yield st, a

    def args(self, c, st, f):
        yield [f]

    def get(self, c, st, path):
        return c.w.peek(st, st.ghost['file'], path)


CLOSED = ('fopen', 'fclose', 'fstate', 'out')


class Records(Auto):
    """the records of the file, in order, one per line"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if self.mode == 'bad' or kind not in CLOSED:
            return
        if kind == 'fopen':
            c.ok(st, 'the file is opened once, before anything is written', self.mode == 'start')
            c.ok(st, 'the file of that name is opened for writing', z3.And(lib.seq(d['name'], self.name), z3.BoolVal(d['how'] == 'out'), bvt(d['mode'], 32) & (streams.APP | streams.IN) == 0))
            self.stream, self.mode = d['stream'].obj, 'record'
            return
        if self.mode == 'start' or d['stream'].obj != self.stream:
            return self.bad(eng, st, 'only the file is written')
        if kind == 'out':
            it = d['item']
            x = lib.item_string(st, it, 6)
            if it[0] == 'manip' or x is None:
                return self.bad(eng, st, 'only records are written')
            if self.mode == 'record':
                c.ok(st, 'the records are written in order', z3.And(z3.ULT(self.t['i'], self.n), x.id == self.rec(self.t['i'])))
                self.mode = 'end'
            elif self.mode == 'end':
                c.ok(st, 'each record is a line', lib.seq(x, lib.lit(b'\n')))
                self.mode = 'record'
                self.t = dict(self.t)
                self.t['i'] = z3.simplify(self.t['i'] + 1)
            else:
                self.bad(eng, st, 'nothing is written to a closed file')
        elif kind == 'fclose':
            c.ok(st, 'the file is closed after the last record', z3.And(self.mode == 'record', self.t['i'] == self.n) if self.mode == 'record' else self.mode == 'done')
            if self.mode == 'record':
                self.mode = 'closed'
        elif kind == 'fstate':
            c.ok(st, 'success is known when the file is closed', self.mode == 'closed')
            self.mode, self.r = 'done', d['r'] if d['what'] in ('good', 'operator bool') else z3.Not(d['r'])


@target('C13 C14 C16 C01', 'PSC::File::close()', contracts=stream_contracts, cover=['READ', 'WRITE', 'APPEND', 'RANDOM', 'unchanged'])
class Close(FileCall):
    def setup(self, c):
        for st, a in FileCall.setup(self, c):
            c.e.patterns[:] = [x for x in c.e.patterns if 'File::close' not in x[0].pattern]
            sp = st.spec = Records('start', i=z3.BitVecVal(0, 64))
            f = st.ghost['file']
            b = c.w.peek(st, f, 'records')
            sp.n = bvt(st.mem[b.obj].meta['n'])
            sp.rec = lambda i, b=b.obj: z3.Function('str_%s_' % b, z3.BitVecSort(64), lib.STRSORT)(i)
            sp.rec = lambda i, b=b.obj: record(b)(i)
            sp.name = c.w.peek(st, f, 'name.value')
            st.ghost['modified'] = c.w.peek(st, f, 'modified')
            st.ghost['streams'] = {'READ': c.w.peek(st, f, 'ifile'), 'RANDOM': None}.get(st.ghost['mode'], c.w.peek(st, f, 'ofile') if st.ghost['mode'] != 'RANDOM' else None)
            st.spec = sp if st.ghost['mode'] == 'RANDOM' else None
            yield st, a

    def post(self, c, st, out):
        g, m = st.ghost, st.ghost['mode']
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = out[1]
        c.ok(st, 'the file is closed', bvt(self.get(c, st, 'open'), 8) == 0)
        ev = [x for x in c.events(st) if x[0] in CLOSED]
        kinds = [k for k, d in ev]
        if m in ('READ', 'WRITE', 'APPEND'):
            c.cover(m)
            want = ['fclose'] if m == 'READ' else ['fclose', 'fstate']
            c.ok(st, 'the stream is closed, and nothing else happens to it', kinds == want and all(d['stream'].obj == g['streams'].obj for k, d in ev))
            if kinds != want:
                return
            if m == 'READ':
                c.ok(st, 'success', z3.BoolVal(True) == r if not isinstance(r, int) else bool(r))
            else:
                ok = ev[1][1]['r']
                ok = ok if ev[1][1]['what'] in ('good', 'operator bool') else z3.Not(ok)
                c.ok(st, 'success exactly if everything could be written', iff(r, ok))
            return
        sp = st.spec
        mod = c.e.decide(st, g['modified'] != 0) if not isinstance(g['modified'], int) else bool(g['modified'])
        if not mod:
            c.cover('unchanged')
            c.ok(st, 'a file without new records is not touched', sp.mode == 'start' and not ev)
            c.ok(st, 'success', as_bool(r))
            return
        c.cover('RANDOM')
        c.ok(st, 'the file is written completely', sp.mode == 'done')
        if sp.mode == 'done':
            c.ok(st, 'success exactly if everything could be written', iff(r, sp.r))


def as_bool(r):
    if isinstance(r, (int, bool)):
        return z3.BoolVal(bool(r))
    return r if z3.is_bool(r) else r != 0


def iff(a, b):
    return as_bool(a) == as_bool(b)


def record(buf):
    return lambda i: z3.Function('elem_%s' % buf, z3.BitVecSort(64), lib.STRSORT)(i)


@target('C15 C16 C01', 'PSC::File::write(PSC::String const&)', contracts=stream_contracts, cover=['plain', 'after an unfinished line'])
class Write(FileCall):
    modes = ('WRITE', 'APPEND')

    def args(self, c, st, f):
        s = c.w.new(st, 'PSC::String')
        st.ghost.update(data=c.w.peek(st, s, 'value'), unf=c.w.peek(st, f, 'unfinishedLine'), of=c.w.peek(st, f, 'ofile'))
        yield [f, s]

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        x = text_of(st, g['of'])
        c.ok(st, 'the text written is known', x is not None)
        if x is None:
            return
        want = lib.concat(g['data'], lib.lit(b'\n'))
        if c.e.decide(st, as_bool(g['unf'])):
            c.cover('after an unfinished line')
            want = lib.concat(lib.lit(b'\n'), want)
            c.ok(st, 'the line is finished', bvt(self.get(c, st, 'unfinishedLine'), 8) == 0)
        else:
            c.cover('plain')
        c.ok(st, 'one line is added', lib.textgoal(st, x[0], want))
        ev = [(k, d) for k, d in c.events(st) if k in CLOSED]
        c.ok(st, 'only this file is written', all(d['stream'].obj == g['of'].obj for k, d in ev))
        fs = [d for k, d in ev if k == 'fstate']
        c.ok(st, 'the state of the stream tells', len(fs) == 1 and ev[-1][0] == 'fstate')
        if len(fs) == 1:
            ok = fs[0]['r'] if fs[0]['what'] in ('good', 'operator bool') else z3.Not(fs[0]['r'])
            c.ok(st, 'success exactly if the line could be written', iff(out[1], ok))
        c.frame(st, 'nothing else changes', {g['file'].obj, g['of'].obj, None})


@target('C15 C16 C01', 'PSC::File::read()', contracts=stream_contracts, cover=['read'])
class Read(FileCall):
    modes = ('READ',)

    def args(self, c, st, f):
        st.ghost['if'] = c.w.peek(st, f, 'ifile')
        sret = c.e.new(st, 40, 'alloca', name='sret')
        st.ghost['r'] = sret
        yield [sret, f]

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        gl = [d for k, d in c.events(st, 'getline')]
        c.ok(st, 'one line is read from the file', len(gl) == 1 and gl[0]['stream'].obj == g['if'].obj)
        if len(gl) == 1:
            c.cover('read')
            c.ok(st, 'exactly that line is the result', lib.seq(c.w.peek(st, g['r'], 'value', 'PSC::String'), gl[0]['s']))
        c.ok(st, 'nothing else is read', not [1 for k, d in c.events(st) if k in ('peek', 'get', 'seekg', 'ignore', 'fopen', 'fclose')])


@target('C15 C16 C01', 'PSC::File::eof()', contracts=stream_contracts, cover=['eof'])
class Eof(FileCall):
    modes = ('READ',)

    def args(self, c, st, f):
        st.ghost['if'] = c.w.peek(st, f, 'ifile')
        yield [f]

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        ev = [(k, d) for k, d in c.events(st) if k in ('peek', 'get', 'seekg', 'getline', 'fopen', 'fclose')]
        ok = len(ev) == 1 and ev[0][0] == 'peek' and ev[0][1]['stream'].obj == g['if'].obj
        c.ok(st, 'looks at the next character and reads nothing', ok)
        if ok:
            c.cover('eof')
            c.ok(st, 'the end is where no character follows', iff(out[1], ev[0][1]['r'] == -1))
        c.frame(st, 'nothing changes', {g['if'].obj})


@target('C14 C16 C01', 'PSC::File::seek(PSC::Integer const&)', contracts=stream_contracts, cover=['in', 'out'])
class Seek(FileCall):
    modes = ('RANDOM',)

    def args(self, c, st, f):
        i = c.w.new(st, 'PSC::Integer')
        x = c.w.peek(st, i, 'value')
        st.pc.append(bvt(x) >= 1)
        b = c.w.peek(st, f, 'records')
        st.ghost.update(x=x, n=bvt(st.mem[b.obj].meta['n']), ptr=c.w.peek(st, f, 'ptr'))
        yield [f, i]

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        inr = z3.ULE(bvt(g['x']), g['n'] + 1)
        c.ok(st, 'an address is valid up to one past the last record', iff(out[1], inr))
        p = bvt(self.get(c, st, 'ptr'))
        if c.e.decide(st, inr):
            c.cover('in')
            c.ok(st, 'record n is at position n - 1', p == bvt(g['x']) - 1)
            c.frame(st, 'only the position changes', {g['file'].obj})
        else:
            c.cover('out')
            c.frame(st, 'an invalid address changes nothing', set())


def record_contracts(c):
    stream_contracts(c)
    e, w, H = c.e, c.w, c.handler

    def dump(e, st, a, ins):
        """the text of the value"""
        s = lib.opaque(st, name='dumped')
        e.event(st, 'dump', holder=a[0], s=s)
        lib.written(e, st, a[1], ('str', s))
        return None
    for cls in ('PSC::DataHolder', 'PSC::Variable', 'PSC::Array'):
        e.virt[(cls, 'dump')] = dump
    H(r'^PSC::(DataHolder|Variable|Array)::dump\(', dump)

    def load(e, st, a, ins):
        """reads the value from the text; runtime errors of the types involved may end it"""
        r = boolean('loaded')
        out = c.raise_any(st)
        e.event(st, 'load', holder=a[0], stream=a[1], ctx=a[2], r=r)
        return out + [('ret', st, r)]
    H(r'^PSC::(DataHolder|Variable|Array)::load\(', load)

    def atend(e, st, a, ins):
        r = boolean('atend')
        e.event(st, 'atend', stream=a[0], r=r)
        return r
    H(r'^atEnd\(std::istream&\)', atend)

    def copy(e, st, a, ins):
        e.event(st, 'copied', to=a[0], of=a[1], ctx=a[2])
        st.mem[a[0].obj].meta
        return None
    H(r'^PSC::Array::Array\(PSC::Array const&, PSC::Context\*\)', copy)

    def newvar(e, st, a, ins):
        e.event(st, 'newvar', to=a[0], name=lib.gets(e, st, a[1]), type=a[3], const=a[4], parent=a[5], val=a[6])
        return None
    H(r'^PSC::Variable::Variable\(std::__cxx11::basic_string.*bool, PSC::Context\*, PSC::Value const\*\)', newvar)
    H(r'^PSC::(Variable|Array)::~(Variable|Array)\(', lambda e, st, a, ins: None)

    def val(e, st, a, ins):
        d = st.ghost.setdefault('vals', {})
        k = (a[0].obj, str(a[0].off))
        if k not in d:
            n = dict(d)
            n[k] = st.add(Obj('val%s' % len(d), 64, 'heap', None, None))
            st.ghost['vals'] = n
        return st.ghost['vals'][k]
    H(r'^PSC::Value& PSC::Variable::get<PSC::Value>\(\)', val)
    H(r'^PSC::Value const& PSC::Variable::get<PSC::Value>\(\) const', val)

    def copydata(e, st, a, ins):
        e.mark(st, a[0])
        e.event(st, 'copydata', to=a[0], of=a[1])
        return None
    H(r'^PSC::Array::copyData\(', copydata)

    def setv(e, st, a, ins):
        e.mark(st, a[0])
        e.event(st, 'setvar', to=a[0], val=a[1])
        return None
    H(r'^PSC::Variable::set\(PSC::Value const\*', setv)


class RecordCall(FileCall):
    modes = ('RANDOM',)

    def setup(self, c):
        for kind in ('var', 'array'):
            for st, a in FileCall.setup(self, c):
                f = st.ghost['file']
                w = c.w
                h = w.variable(st) if kind == 'var' else w.new(st, 'PSC::Array')
                b = w.peek(st, f, 'records')
                n = bvt(st.mem[b.obj].meta['n'])
                p = bvt(w.peek(st, f, 'ptr'))
                st.pc.append(z3.ULE(p, n))
                st.ghost.update(holder=h, n=n, ptr=p, buf=b.obj, kind=kind)
                yield st, self.more(c, st, [f, h])


@target('C13 C14 C16 C01', 'PSC::File::putRecord(PSC::DataHolder&)', contracts=record_contracts, cover=['added', 'replaced'])
class PutRecord(RecordCall):
    def more(self, c, st, a):
        return a

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        ev = c.events(st)
        du = [d for k, d in ev if k == 'dump']
        c.ok(st, 'the value is written out once', len(du) == 1 and du[0]['holder'].obj == g['holder'].obj)
        c.ok(st, 'the file is to be written when it is closed', bvt(self.get(c, st, 'modified'), 8) == 1)
        c.ok(st, 'the position stays', bvt(self.get(c, st, 'ptr')) == g['ptr'])
        if len(du) != 1:
            return
        s = du[0]['s']
        pu = [d for k, d in ev if k == 'push']
        b, n = vec.vector_at(c.e, st, c.e.gep_off(g['file'], c.w.L.off(FILE, 'records')))
        if c.e.decide(st, g['ptr'] == g['n']):
            c.cover('added')
            c.ok(st, 'a record is added at the end', len(pu) == 1 and pu[0]['buf'].obj == g['buf'])
            if len(pu) == 1:
                c.ok(st, 'it is the text of the value', z3.And(pu[0]['idx'] == g['n'], lib.seq(pu[0]['elem'][0], s)))
            c.ok(st, 'there is one record more', n == g['n'] + 1)
        else:
            c.cover('replaced')
            c.ok(st, 'no record is added', not pu and n is not None)
            c.ok(st, 'the number of records stays', n == g['n'])
            x = lib.gets(c.e, st, Ptr(g['buf'], z3.simplify(g['ptr'] * 32)))
            c.ok(st, 'the record at the position is the text of the value', lib.seq(x, s))
            j = bv('other')
            st.pc.append(z3.And(z3.ULT(j, g['n']), j != g['ptr']))
            y = lib.gets(c.e, st, Ptr(g['buf'], z3.simplify(j * 32)))
            c.ok(st, 'the other records stay', y.id == record(g['buf'])(j))
        c.frame(st, 'nothing but the records of the file changes', {g['file'].obj, g['buf']})


@target('C13 C14 C16 C01', 'PSC::File::getRecord(PSC::DataHolder&, PSC::Context&)', contracts=record_contracts, cover=['read', 'unreadable', 'past the end'])
class GetRecord(RecordCall):
    def more(self, c, st, a):
        st.ghost['ctx'] = c.w.new(st, 'PSC::Context')
        h = a[1]
        if st.ghost['kind'] == 'var':
            st.ghost.update(name=c.w.peek(st, h, 'name'), parent=c.w.peek(st, h, 'parent'))
        return a + [st.ghost['ctx']]

    def post(self, c, st, out):
        g = st.ghost
        ev = c.events(st)
        h = g['holder'].obj
        by = lambda k: [d for q, d in ev if q == k]
        eff = by('copydata') + by('setvar')
        if out[0] == 'throw':
            c.ok(st, 'only loading fails', c.is_runtime_error(out) and not eff)
            c.frame(st, 'an error changes nothing', set())
            return
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = as_bool(out[1])
        if c.e.decide(st, g['ptr'] == g['n']):
            c.cover('past the end')
            c.ok(st, 'there is no record past the last', z3.Not(r))
            c.ok(st, 'nothing is read', not by('load') and not eff)
            c.frame(st, 'nothing changes', set())
            return
        ins, lo, at = by('instring'), by('load'), by('atend')
        c.ok(st, 'the record at the position is read', len(ins) == 1 and ins[0]['s'].id == record(g['buf'])(g['ptr']) if ins else False)
        made = by('copied') if g['kind'] == 'array' else by('newvar')
        c.ok(st, 'a copy of the variable is made', len(made) == 1)
        c.ok(st, 'the record is read once', len(lo) == 1 and len(ins) == 1 and lo[0]['stream'].obj == ins[0]['stream'].obj)
        if len(made) != 1 or len(lo) != 1 or len(ins) != 1:
            return
        copy = made[0]['to']
        c.ok(st, 'it is read into the copy, not the variable', lo[0]['holder'].obj == copy.obj and copy.obj != h and lo[0]['ctx'].obj == g['ctx'].obj)
        if g['kind'] == 'array':
            c.ok(st, 'the copy is one of the array', made[0]['of'].obj == h)
        else:
            V = g['vals'].get((h, '0'))
            c.ok(st, 'the copy has the type and the value of the variable', z3.And(V is not None and made[0]['val'].obj == V.obj, lib.seq(made[0]['name'], g['name']), bvt(made[0]['type'], 32) == bvt(c.w.peek(st, g['holder'], 'type.type'), 32), z3.BoolVal(made[0]['parent'].obj == g['parent'].obj)))
        ok = lo[0]['r']
        if at:
            c.ok(st, 'the whole record is used', len(at) == 1 and at[0]['stream'].obj == ins[0]['stream'].obj)
            ok = z3.And(ok, at[0]['r'])
            full = True
        else:
            c.ok(st, 'what follows the value is looked at', z3.Not(lo[0]['r']))
            full = False
        c.ok(st, 'success exactly if the record is one of the variable', iff(r, ok))
        if c.e.decide(st, r):
            c.cover('read')
            good = len(eff) == 1 and eff[0]['to'].obj == h
            c.ok(st, 'the variable gets the value read', good)
            if good:
                src = eff[0]['of'].obj == copy.obj if g['kind'] == 'array' else g['vals'].get((copy.obj, '0')) is not None and eff[0]['val'].obj == g['vals'][(copy.obj, '0')].obj
                c.ok(st, 'that of the copy', src)
                i = {id(d): n for n, (k, d) in enumerate(ev)}
                c.ok(st, 'after it is known to be complete', full and i[id(eff[0])] > i[id(at[0])])
            c.frame(st, 'nothing else changes', {h})
        else:
            c.cover('unreadable')
            c.ok(st, 'the variable is unchanged', not eff)
            c.frame(st, 'nothing changes', set())


@target('C13 C14 C01', 'atEnd(std::istream&)', contracts=stream_contracts, cover=['end'])
class AtEnd:
    def setup(self, c):
        st = c.state()
        p = streams.new_stream(c.e, st, 'in')
        st.ghost['p'] = p
        yield st, [p]

    def post(self, c, st, out):
        c.ok(st, 'returns', out[0] == 'ret')
        ev = [(k, d) for k, d in c.events(st) if k in ('inmanip', 'fstate', 'get', 'peek', 'getline')]
        p = st.ghost['p']
        ok = [k for k, d in ev] == ['inmanip', 'fstate'] and all(d['stream'].obj == p.obj for k, d in ev) and 'ws' in ev[0][1]['how'] and ev[1][1]['what'] == 'eof'
        c.ok(st, 'skips what separates and asks for the end', ok)
        if ok:
            c.cover('end')
            c.ok(st, 'the answer is that of the stream', iff(out[1], ev[1][1]['r']))


# ---------------------------------------------------------------- the open files of a program
def files_setup(c, exists, st):
    """an instance of the manager, a name, and whether a file of that name is open"""
    w = c.w
    m = w.new(st, 'PSC::FileManager')
    s = w.new(st, 'PSC::String')
    name = w.peek(st, s, 'value')
    b = w.peek(st, m, 'files')
    n = bvt(st.mem[b.obj].meta['n'])
    nm = lambda i: z3.Function('str_%s_name.value' % b.obj, z3.BitVecSort(64), lib.STRSORT)(i)
    if exists:
        K = bv('witness')
        st.pc.append(z3.And(z3.ULT(K, n), nm(K) == name.id))
        st.ghost['witness'] = ((K, None),)
    st.ghost.update(mgr=m, name=name, n=n, buf=b.obj, nm=nm, exists=exists)
    return [m, s]


class Files:
    def setup(self, c):
        for exists in (True, False):
            st = c.state()
            a = files_setup(c, exists, st)
            st.ghost['node'] = a[0]
            yield st, a

    def key(self, st, p):
        k = st.mem[p.obj].meta.get('key') if p.obj in st.mem else None
        return k if k is not None and k[0] == st.ghost['buf'] else None


@target('C16 C14 C15 C01', 'PSC::FileManager::getFile(PSC::String const&)', contracts=stream_contracts, cover=['found', 'none'])
class GetFile(Files):
    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.frame(st, 'a lookup changes nothing', {None})
        r = out[1]
        if r.null:
            c.cover('none')
            return c.ok(st, 'an open file is found', not g['exists'])
        c.cover('found')
        k = self.key(st, r)
        c.ok(st, 'what is found is an open file', k is not None)
        if k:
            c.ok(st, 'it has the name', z3.And(z3.ULT(k[1], g['n']), g['nm'](k[1]) == g['name'].id))


@target('C16 C14 C15 C01', 'PSC::FileManager::closeFile(PSC::String const&)', contracts=stream_contracts, cover=['closed', 'none'])
class CloseNamed(Files):
    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        cl = [d for k, d in c.events(st, 'close')]
        er = [d for k, d in c.events(st, 'erase')]
        if not cl:
            c.cover('none')
            c.ok(st, 'an open file is closed', not g['exists'])
            c.ok(st, 'nothing is closed if no such file is open', not er)
            c.frame(st, 'nothing changes', {None})
            return c.ok(st, 'failure', z3.Not(as_bool(out[1])))
        c.cover('closed')
        k = self.key(st, cl[0]['file'])
        c.ok(st, 'one open file is closed', len(cl) == 1 and k is not None)
        if not k:
            return
        c.ok(st, 'the one of that name', z3.And(z3.ULT(k[1], g['n']), g['nm'](k[1]) == g['name'].id))
        c.ok(st, 'and it is not open any more', len(er) == 1 and er[0]['buf'].obj == g['buf'] and er[0]['vec'].obj == g['mgr'].obj)
        if len(er) == 1:
            c.ok(st, 'it and no other', er[0]['idx'] == k[1])
        c.ok(st, 'success is that of closing it', iff(out[1], cl[0]['r']))


def flags(e, loop, A):
    """candidate invariants: a flag of the program is a flag of the specification"""
    out = []
    B = [l for l, (k, a) in loop.W.items() if k == 'bool']
    for l, (k, a) in loop.W.items():
        for m in B:
            if k == 'bv' and a == 8:
                out.append(('%s is flag %s' % (l, m), lambda g, l=l, m=m: (loop.scalar(l, g(l)) if not isinstance(g(l), int) else z3.BitVecVal(g(l), 8)) == z3.If(as_bool(g(m)), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))))
            elif k == 'bool' and str(l) < str(m):
                out.append(('%s is flag %s' % (l, m), lambda g, l=l, m=m: as_bool(g(l)) == as_bool(g(m))))
    return out


class AllFiles(Auto):
    def on(self, eng, st, kind, d):
        c = eng.c
        if kind == 'close':
            k = st.mem[d['file'].obj].meta.get('key')
            c.ok(st, 'the files are closed in order, once each', z3.And(z3.BoolVal(k[0] == self.buf), k[1] == self.t['i']) if k else False)
            t = dict(self.t)
            t['i'] = z3.simplify(t['i'] + 1)
            t['ok'] = z3.simplify(z3.And(t['ok'], d['r']))
            self.t = t
        elif kind == 'clear':
            c.ok(st, 'the files are forgotten when all are closed', z3.And(self.t['i'] == self.n, self.mode == 'closing'))
            self.mode = 'cleared'
        elif kind == 'out':
            c.ok(st, 'messages are about a failure', z3.Not(self.t['ok']))
            c.ok(st, 'messages go to the error output', d['stream'].obj == '@@_ZSt4cerr')


@target('C13 C14 C15 C16 C11 C01', 'PSC::FileManager::closeAll()', contracts=stream_contracts, cover=['all'])
class CloseAll(Files):
    def setup(self, c):
        st = c.state()
        a = files_setup(c, False, st)
        st.ghost['node'] = a[0]
        sp = st.spec = AllFiles('closing', i=z3.BitVecVal(0, 64), ok=z3.BoolVal(True))
        sp.buf, sp.n = st.ghost['buf'], st.ghost['n']
        yield st, a[:1]

    def post(self, c, st, out):
        sp = st.spec
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover('all')
        c.ok(st, 'every file is closed', sp.mode == 'cleared')
        c.ok(st, 'success exactly if every file could be written', iff(out[1], sp.t['ok']))


def fs_contracts(c):
    stream_contracts(c)
    e, w, H = c.e, c.w, c.handler
    H(r'^std::filesystem::__cxx11::path::path<', lambda e, st, a, ins: (e.event(st, 'path', p=a[0], s=lib.gets(e, st, a[1])), None)[1])
    H(r'^std::filesystem::__cxx11::path::~path', lambda e, st, a, ins: None)

    def ask(what):
        def f(e, st, a, ins):
            r = boolean(what)
            e.event(st, 'fs', what=what, path=a[0], r=r)
            return r
        return f
    H(r'^std::filesystem::is_directory\(', ask('dir'))
    H(r'^std::filesystem::exists\(', ask('exists'))
    H(r'^std::error_code::error_code\(\)', lambda e, st, a, ins: None)

    def make(e, st, a, ins):
        """std::make_unique<File>(name, mode): the constructor opens the file"""
        f = w.new(st, FILE)
        o = boolean('isopen')
        w.poke(st, f, 'mode', e.load_cell(st, a[2], 4, ('i', 32)))
        w.poke(st, f, 'open', z3.If(o, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        w.poke(st, f, 'name.value', w.peek(st, a[1], 'value', 'PSC::String'))
        e.event(st, 'newfile', file=f, name=w.peek(st, a[1], 'value', 'PSC::String'), mode=e.load_cell(st, a[2], 4, ('i', 32)), r=o)
        e.put(st, a[0], f, 8)
        return None
    H(r'^std::__detail::_MakeUniq<PSC::File>::', make)
    H(r'^PSC::File::~File\(\)', lambda e, st, a, ins: (e.event(st, 'delfile', file=a[0]), None)[1])


@target('C16 C14 C15 C01', 'PSC::FileManager::createFile(PSC::String const&, PSC::FileMode)', contracts=fs_contracts,
        cover=['bad name', 'directory', 'missing', 'not created', 'not opened', 'opened', 'created'])
class CreateFile(Files):
    def setup(self, c):
        for m in ('READ', 'WRITE', 'APPEND', 'RANDOM'):
            st = c.state()
            a = files_setup(c, False, st)
            st.ghost['node'] = a[0]
            st.ghost['mode'] = m
            st.ghost['K'] = bv('anywhere')
            yield st, a + [c.K['FileMode::' + m]]

    def post(self, c, st, out):
        g, m = st.ghost, st.ghost['mode']
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        r = as_bool(out[1])
        ev = [(k, d) for k, d in c.events(st) if k in ('path', 'fs', 'fopen', 'fclose', 'fstate', 'newfile', 'push')]
        by = lambda k, **q: [d for x, d in ev if x == k and all(d[n] == v for n, v in q.items())]
        pu, nf = by('push'), by('newfile')
        c.ok(st, 'a file is among the open ones exactly if it could be opened', r == z3.BoolVal(len(pu) == 1) if len(pu) < 2 else False)
        for d in by('path'):
            c.ok(st, 'the path is the name given', lib.seq(d['s'], g['name']))
        for d in by('fs'):
            c.ok(st, 'the path asked for is the one', len(by('path')) == 1 and d['path'].obj == by('path')[0]['p'].obj)
        for d in by('fopen') + nf:
            c.ok(st, 'the file is the one named', lib.seq(d['name'], g['name']))
        if not ev:
            c.cover('bad name')
            j = z3.BitVec('some', 64)
            c.ok(st, 'only a name with a NUL is refused for what it is', z3.Exists([j], z3.And(z3.ULT(j, g['name'].length()), g['name'].char(j) == 0)))
            return c.ok(st, 'failure', z3.Not(r))
        i = g['K']
        c.ok(st, 'no name with a NUL is used', z3.Implies(z3.ULT(i, g['name'].length()), g['name'].char(i) != 0))
        di, ex = by('fs', what='dir'), by('fs', what='exists')
        c.ok(st, 'directories are told from files', len(di) == 1)
        if len(di) != 1:
            return
        if c.e.decide(st, di[0]['r']):
            c.cover('directory')
            c.ok(st, 'a directory is not opened', [k for k, d in ev] == ['path', 'fs'])
            return
        c.ok(st, 'whether the file exists is looked at', len(ex) == 1)
        if len(ex) != 1:
            return
        there = c.e.decide(st, ex[0]['r'])
        op = by('fopen')
        if there or m == 'WRITE':
            c.ok(st, 'an existing file is not touched before it is opened', not op)
        elif m != 'RANDOM':
            c.cover('missing')
            return c.ok(st, 'a missing file is not made up', not op and not nf)
        else:
            ok = len(op) == 1 and op[0]['how'] == 'out' and not isz(op[0]['mode']) and op[0]['mode'] & (streams.APP | streams.IN) == 0
            ok = ok and [k for k, d in ev if k in ('fopen', 'fclose', 'fstate', 'newfile')][:3] == ['fopen', 'fclose', 'fstate'] and all(d['stream'].obj == op[0]['stream'].obj for d in by('fclose') + by('fstate'))
            c.ok(st, 'a missing random file is created, empty', ok)
            if not ok:
                return
            fs = by('fstate')[0]
            good = z3.Not(fs['r']) if fs['what'] in ('fail', 'operator!') else fs['r']
            if not c.e.decide(st, good):
                c.cover('not created')
                return c.ok(st, 'what cannot be created is not opened', not nf)
            c.cover('created')
        c.ok(st, 'the file is opened', len(nf) == 1)
        if len(nf) != 1:
            return
        c.ok(st, 'in the mode given', bvt(nf[0]['mode'], 32) == c.K['FileMode::' + m])
        if c.e.decide(st, nf[0]['r']):
            c.cover('opened')
            c.ok(st, 'an opened file is among the open ones', len(pu) == 1 and pu[0]['elem'][0].obj == nf[0]['file'].obj and pu[0]['vec'].obj == g['mgr'].obj)
        else:
            c.cover('not opened')
            c.ok(st, 'what cannot be opened is not', not pu)


# ---------------------------------------------------------------- opening
class Lines(Auto):
    """the lines of a random file become its records; a line that starts with # continues the record before it"""
    def on(self, eng, st, kind, d):
        c = eng.c
        if kind == 'fopen':
            self.stream = d['stream'].obj
        elif kind == 'getline':
            c.ok(st, 'every line is used before the next is read', self.mode == 'ready')
            self.line = d['s']
            self.mode = 'line'
            c.ok(st, 'lines are read from the file', d['stream'].obj == self.stream)
        elif kind == 'fclose':
            c.ok(st, 'every line is used', self.mode == 'ready')
            self.mode = 'closed'
        elif kind in ('push', 'strappend'):
            if self.mode not in ('line', 'continued'):
                return self.bad(eng, st, 'only lines of the file become records')
            b, n = vec.vector_at(eng, st, eng.gep_off(st.ghost['file'], c.w.L.off(FILE, 'records')))
            if kind == 'push':
                n = d['idx']
            more = z3.And(n != 0, self.line.length() != 0, self.line.char(0) == 35)
            if kind == 'push':
                c.ok(st, 'a line becomes one record', z3.And(self.mode == 'line', lib.seq(d['elem'][0], self.line)))
                c.ok(st, 'unless it continues one', z3.Not(more))
                self.mode = 'ready'
            else:
                c.ok(st, 'only a line that starts with # continues a record', more)
                c.ok(st, 'it continues the last', d['at'].obj == b.obj and lib.b64(d['at'].off) == (n - 1) * 32)
                c.ok(st, 'the end of the line and the line are added', lib.textgoal(st, d['what'], self.line if self.mode == 'continued' else lib.lit(b'\n')))
                self.mode = 'continued' if self.mode == 'line' else 'ready'
        elif kind == 'pop':
            x = lib.gets(eng, st, Ptr(d['buf'].obj, z3.simplify(d['n'] * 32)))
            c.ok(st, 'only empty records at the end are dropped', z3.And(self.mode == 'closed', x.length() == 0) if self.mode == 'closed' else False)


class NewFile:
    modes = ('READ', 'WRITE', 'APPEND')

    def setup(self, c):
        for m in self.modes:
            st = c.state()
            f = c.e.new(st, c.w.L.size(FILE), 'heap', FILE)
            s = c.w.new(st, 'PSC::String')
            st.ghost.update(file=f, mode=m, name=c.w.peek(st, s, 'value'), node=f)
            if m == 'RANDOM':
                st.spec = Lines('ready')
                st.spec.line = st.spec.stream = None
            yield st, [f, s, c.K['FileMode::' + m]]

    def post(self, c, st, out):
        g, m, w = st.ghost, st.ghost['mode'], c.w
        c.ok(st, 'returns', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.cover(m)
        P = lambda x: w.peek(st, g['file'], x, FILE)
        c.ok(st, 'the file has the name and the mode given', z3.And(lib.seq(P('name.value'), g['name']), bvt(P('mode'), 32) == c.K['FileMode::' + m]))
        ev = [(k, d) for k, d in c.events(st) if k in CLOSED + ('seekg', 'get', 'peek')]
        op = [d for k, d in ev if k == 'fopen']
        for d in op:
            c.ok(st, 'only the file of the name is opened', lib.seq(d['name'], g['name']))
        how = {'READ': ['in'], 'WRITE': ['out'], 'APPEND': ['in', 'out'], 'RANDOM': ['in']}[m]
        ok = [d['how'] for d in op] == how
        c.ok(st, 'it is opened for what the mode is for', ok)
        if not ok:
            return
        last = op[-1]
        c.ok(st, 'the file is open if the system says so', iff(P('open'), last['r']))
        if m == 'WRITE':
            c.ok(st, 'what it held is gone', bvt(last['mode'], 32) & (streams.APP | streams.IN) == 0)
        if m == 'APPEND':
            c.ok(st, 'what it held stays', bvt(last['mode'], 32) & streams.APP != 0)
        if m == 'RANDOM':
            c.ok(st, 'the file is read and closed', st.spec.mode == 'closed')
            c.ok(st, 'nothing is written', all(d['how'] == 'in' for d in op))
            c.ok(st, 'records are at their first', bvt(P('ptr')) == 0)
            c.ok(st, 'nothing is to be written', bvt(P('modified'), 8) == 0)
        else:
            p = P({'READ': 'ifile'}.get(m, 'ofile'))
            c.ok(st, 'the stream of the file is the one opened', p.obj == last['stream'].obj)
            still = [k for k, d in ev if k == 'fclose' and d['stream'].obj == p.obj]
            c.ok(st, 'and it stays open', not still)
            b, n = vec.vector_at(c.e, st, c.e.gep_off(g['file'], w.L.off(FILE, 'records')))
            c.ok(st, 'there are no records', n == 0)
        if m == 'APPEND':
            mine = [(k, d) for k, d in ev if d['stream'].obj == op[0]['stream'].obj and k not in ('fopen', 'fclose')]
            kinds = [k for k, d in mine]
            ok = kinds[:2] == ['seekg', 'fstate'] and kinds[2:] in ([], ['get'])
            c.ok(st, 'the last character is looked at', ok)
            if not ok:
                return
            at = mine[0][1]['at']
            c.ok(st, 'that is the one before the end', len(at) == 2 and bvt(at[0], 64) == -1 and bvt(at[1], 32) == 2)
            found = mine[1][1]['r'] if mine[1][1]['what'] in ('operator bool', 'good') else z3.Not(mine[1][1]['r'])
            unf = z3.And(found, mine[2][1]['r'] != 10) if len(kinds) == 3 else z3.BoolVal(False)
            if len(kinds) == 2:
                c.ok(st, 'without a last character none is read', z3.Not(found))
            c.ok(st, 'a last line without an end is one to finish', iff(P('unfinishedLine'), unf))
        else:
            c.ok(st, 'there is no line to finish', bvt(P('unfinishedLine'), 8) == 0)


CTOR = 'PSC::File::File(PSC::String const&, PSC::FileMode)'
target('C15 C16 C01', CTOR, name='PSC::File::File (text)', contracts=stream_contracts, cover=['READ', 'WRITE', 'APPEND'])(NewFile)


@target('C13 C14 C16 C01', CTOR, name='PSC::File::File (RANDOM)', contracts=stream_contracts, cover=['RANDOM'], budget=60)
class NewRandom(NewFile):
    modes = ('RANDOM',)


@target('C11 C15 C16 C01', 'PSC::File::~File()', contracts=stream_contracts, cover=['closed before', 'closed', 'failed'])
class DeleteFile(FileCall):
    def setup(self, c):
        for st, a in FileCall.setup(self, c):
            for o in (0, 1):
                s = st.fork()
                c.w.poke(s, a[0], 'open', o)
                s.ghost['open'] = o
                yield s, a

    def post(self, c, st, out):
        g = st.ghost
        c.ok(st, 'returns', out[0] == 'ret')
        cl = [d for k, d in c.events(st, 'close')]
        msg = [d for k, d in c.events(st, 'out')]
        if not g['open']:
            c.cover('closed before')
            return c.ok(st, 'a closed file is left alone', not cl and not msg)
        c.ok(st, 'an open file is closed', len(cl) == 1 and cl[0]['file'].obj == g['file'].obj)
        if len(cl) == 1:
            if c.e.decide(st, cl[0]['r']):
                c.cover('closed')
                c.ok(st, 'success is not reported', not msg)
            else:
                c.cover('failed')
                c.ok(st, 'failure is reported', len(msg) > 0 and all(d['stream'].obj == '@@_ZSt4cerr' for d in msg))
