"""Files: the statements, the file manager, and one file (C08, C13, C14, C15, C16)."""
from .base import *
from .base import _Cur
from .p02 import node_setup, error
from .p03 import none_result, RTE
from .p05 import var_contracts, type_of, new_var, same, full, USER
from .p18 import conversion_contracts, primitive

FILE = 'PSC::File'
READ, WRITE, APPEND, RANDOM = 'READ', 'WRITE', 'APPEND', 'RANDOM'


def mode_of(c):
    return lambda m: c.K['FileMode::' + m]


def file_object(c, st):
    """any open file"""
    f = c.w.new(st, FILE)
    m = c.w.peek(st, f, 'mode')
    st.pc.append(z3.ULE(m, 3))
    return f


def file_contracts(c):
    var_contracts(c)
    conversion_contracts(c)
    e, w, H = c.e, c.w, c.handler

    def manager(e, st, a, ins):
        m = st.ghost.get('manager')
        if m is None:
            m = st.ghost['manager'] = w.new(st, 'PSC::FileManager')
        return m
    H(r'^PSC::Context::getFileManager\(\)', manager)

    def getfile(e, st, a, ins):
        """the open file of that name, if there is one"""
        p = file_object(c, st) if e.decide(st, boolean('open')) else NULL
        e.event(st, 'getfile', name=w.peek(st, a[1], 'value', 'PSC::String'), res=p, mgr=a[0])
        return p
    H(r'^PSC::FileManager::getFile\(', getfile)

    def create(e, st, a, ins):
        r = boolean('opened')
        e.event(st, 'createfile', name=w.peek(st, a[1], 'value', 'PSC::String'), mode=a[2], r=r, mgr=a[0])
        return r
    H(r'^PSC::FileManager::createFile\(', create)

    def close(e, st, a, ins):
        r = boolean('closed')
        e.event(st, 'closefile', name=w.peek(st, a[1], 'value', 'PSC::String'), r=r, mgr=a[0])
        return r
    H(r'^PSC::FileManager::closeFile\(', close)

    def read(e, st, a, ins):
        e.safety(st, 'a file is read in the mode for it', w.peek(st, a[1], 'mode', FILE) == c.K['FileMode::READ'])
        s = lib.opaque(st, name='line')
        e.put(st, a[0], e.gep_off(e.gobj(st, '@_ZTVN3PSC6StringE'), 16), 8)
        w.poke(st, a[0], 'value', s, 'PSC::String')
        e.event(st, 'read', file=a[1], s=s)
        return None
    H(r'^PSC::File::read\(\)', read)

    def write(e, st, a, ins):
        m = w.peek(st, a[0], 'mode', FILE)
        e.safety(st, 'a file is written in a mode for it', z3.Or(m == c.K['FileMode::WRITE'], m == c.K['FileMode::APPEND']))
        r = boolean('written')
        e.event(st, 'write', file=a[0], s=w.peek(st, a[1], 'value', 'PSC::String'), r=r)
        return r
    H(r'^PSC::File::write\(', write)

    def seek(e, st, a, ins):
        e.safety(st, 'a position is set in a random file', w.peek(st, a[0], 'mode', FILE) == c.K['FileMode::RANDOM'])
        r = boolean('inrange')
        e.event(st, 'seek', file=a[0], at=w.peek(st, a[1], 'value', 'PSC::Integer'), r=r)
        return r
    H(r'^PSC::File::seek\(', seek)

    def getrec(e, st, a, ins):
        """reads the record into the variable; an unreadable record leaves it as it was"""
        e.safety(st, 'a record is read from a random file', w.peek(st, a[0], 'mode', FILE) == c.K['FileMode::RANDOM'])
        out = c.raise_any(st)
        for o in out:
            e.event(o[1], 'getrecord', file=a[0], holder=a[1], r=None)
        if e.decide(st, boolean('loaded')):
            e.mark(st, a[1])
            r = z3.BoolVal(True)
        else:
            r = z3.BoolVal(False)
        e.event(st, 'getrecord', file=a[0], holder=a[1], r=r)
        return out + [('ret', st, r)]
    H(r'^PSC::File::getRecord\(', getrec)

    def putrec(e, st, a, ins):
        e.safety(st, 'a record is written to a random file', w.peek(st, a[0], 'mode', FILE) == c.K['FileMode::RANDOM'])
        e.event(st, 'putrecord', file=a[0], holder=a[1])
        return None
    H(r'^PSC::File::putRecord\(', putrec)

    def holder(e, st, a, ins):
        if not e.decide(st, boolean('declared')):
            p, k = NULL, None
        elif e.decide(st, boolean('isarray')):
            p, k = w.new(st, 'PSC::Array'), 'array'
        else:
            p, k = w.variable(st), 'var'
        e.event(st, 'holder', ctx=a[0], name=lib.gets(e, st, a[1]), res=p, k=k)
        return p
    H(r'^PSC::Context::getDataHolder\(', holder)


EFFECTS = ('createfile', 'closefile', 'read', 'write', 'seek', 'getrecord', 'putrecord', 'addvar')


class FileNode:
    """a statement on files: names the operands, when it is refused, and what it does otherwise"""
    members = ('filename',)
    cls = None

    def setup(self, c):
        return node_setup(c, self.cls, [None])

    def post(self, c, st, out):
        w, n = c.w, st.ghost['node']
        evs = c.events(st)
        ev = [x for x in evs if x[0] in ('eval', 'throw')]
        did = [x for x in evs if x[0] in EFFECTS]
        res = {}
        for i, (k, d) in enumerate(ev):
            ok = i < len(self.members) and d['node'].obj == w.peek(st, n, self.members[i]).obj
            c.ok(st, 'operands evaluated once, in order', ok)
            if not ok:
                return
            if k == 'throw':
                c.ok(st, 'an error of an operand is passed on', out[0] == 'throw' and i == len(ev) - 1)
                return self.nothing(c, st, did)
            res[self.members[i]] = d['res']
        # everything about files and names is looked up after the operands are evaluated, as that may open and close files
        look = [i for i, x in enumerate(evs) if x[0] in ('getfile', 'holder') or x in did]
        last = max([i for i, x in enumerate(evs) if x[0] == 'eval'], default=-1)
        if self.fresh:
            c.ok(st, 'files are looked up after the operands are evaluated', all(i > last for i in look))
        gf = [x[1] for x in evs if x[0] == 'getfile']
        hd = [x[1] for x in evs if x[0] == 'holder']
        nk, name = c.orig(st, res['filename']) if 'filename' in res else (None, None)
        errs = []
        if nk is not None and nk != 'STRING':
            errs.append(z3.BoolVal(True))
        if nk == 'STRING':
            for d in gf:
                c.ok(st, 'the file is the one named', lib.seq(d['name'], name))
        for d in hd:
            c.ok(st, 'the variable is the one named', z3.And(lib.seq(d['name'], w.peek(st, w.peek(st, n, 'identifier'), 'value', 'Token')), z3.BoolVal(d['ctx'].obj == st.ghost['ctx'].obj)))
        f = gf[0]['res'] if gf else None
        errs += self.refused(c, st, f, hd[0] if hd else None, res)
        bad = z3.simplify(z3.Or(*errs)) if errs else z3.BoolVal(False)
        failed = [x for x in did if x[0] != 'addvar' and 'r' in x[1] and (x[1]['r'] is None or not c.e.decide(st, x[1]['r']))]
        if out[0] == 'throw':
            c.ok(st, 'a failure is a runtime error', c.is_runtime_error(out))
            if failed:
                c.cover('failed')
                return self.failed(c, st, did)
            c.ok(st, 'refused with a reason', bad)
            c.cover('refused')
            return self.nothing(c, st, did)
        c.ok(st, 'completes', out[0] == 'ret')
        if out[0] != 'ret':
            return
        c.ok(st, 'refused when it must be', z3.Not(bad))
        c.ok(st, 'a failure is reported', not failed)
        c.ok(st, 'all operands are evaluated', all(m in res for m in self.members))
        c.ok(st, 'the file is looked up', bool(gf))
        if not gf or nk != 'STRING' or not all(m in res for m in self.members):
            return
        c.cover('done')
        self.done(c, st, f, hd[0] if hd else None, res, name, did)
        none_result(c, st, out)

    fresh = True

    def nothing(self, c, st, did):
        c.ok(st, 'a statement that is refused does nothing', not did)
        c.frame(st, 'a statement that is refused changes nothing', set())

    failed = nothing

    def one(self, c, st, did, what):
        """the only effect is one of this kind"""
        ok = len(did) == 1 and did[0][0] == what
        c.ok(st, 'does what it is for, once, and nothing else', ok)
        return did[0][1] if ok else None

    def ismode(self, c, st, f, *modes):
        m = c.w.peek(st, f, 'mode', FILE)
        return z3.Or(*[bvt(m, 32) == c.K['FileMode::' + x] for x in modes])


def notopen(f):
    return [z3.BoolVal(True)] if f is not None and f.null else []


COV = ['failed', 'refused', 'done']


@target('C16 C01', 'OpenFileNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=COV)
class OpenFile(FileNode):
    cls = 'OpenFileNode'

    def refused(self, c, st, f, h, res):
        return [z3.BoolVal(True)] if f is not None and not f.null else []

    def done(self, c, st, f, h, res, name, did):
        d = self.one(c, st, did, 'createfile')
        if d:
            c.ok(st, 'the file named is opened', lib.seq(d['name'], name))
            c.ok(st, 'in the mode given', bvt(d['mode'], 32) == bvt(c.w.peek(st, st.ghost['node'], 'mode'), 32))
            c.ok(st, 'among the files of the program', d['mgr'].obj == st.ghost['manager'].obj)
        c.frame(st, 'opening a file changes no variable', set())

    def failed(self, c, st, did):
        self.one(c, st, did, 'createfile')
        c.frame(st, 'a failure changes no variable', set())


@target('C16 C01', 'CloseFileNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=COV)
class CloseFile(FileNode):
    cls = 'CloseFileNode'

    def refused(self, c, st, f, h, res):
        return notopen(f)

    def done(self, c, st, f, h, res, name, did):
        d = self.one(c, st, did, 'closefile')
        if d:
            c.ok(st, 'the file named is closed', lib.seq(d['name'], name))
            c.ok(st, 'among the files of the program', d['mgr'].obj == st.ghost['manager'].obj)
        c.frame(st, 'closing a file changes no variable', set())

    def failed(self, c, st, did):
        self.one(c, st, did, 'closefile')
        c.frame(st, 'a failure changes no variable', set())


@target('C15 C16 C08 C05 C04 C01', 'ReadFileNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=['refused', 'done', 'new'])
class ReadFile(FileNode):
    cls = 'ReadFileNode'

    def refused(self, c, st, f, h, res):
        errs = notopen(f)
        if f is not None and not f.null:
            errs.append(z3.Not(self.ismode(c, st, f, READ)))
        if h is not None and not h['res'].null:
            if h['k'] == 'array':
                errs.append(z3.BoolVal(True))
            else:
                errs.append(bvt(c.w.peek(st, h['res'], 'type.type'), 32) != c.w.T['STRING'])
                errs.append(bvt(c.w.peek(st, h['res'], 'isConstant'), 8) == 1)
        for x in c.events(st, 'istype'):
            if h is not None and h['res'].null:
                errs.append(x[1]['r'])
        return errs

    def done(self, c, st, f, h, res, name, did):
        w, n = c.w, st.ghost['node']
        reads = [x[1] for x in did if x[0] == 'read']
        c.ok(st, 'one line is read', len(reads) == 1 and reads[0]['file'].obj == f.obj)
        c.ok(st, 'the variable is looked up', h is not None)
        if len(reads) != 1 or h is None:
            return
        added = [x[1] for x in did if x[0] == 'addvar']
        c.ok(st, 'nothing else is done', len(did) == 1 + len(added))
        if h['res'].null:
            c.ok(st, 'an undeclared variable is created', len(added) == 1 and bool(c.events(st, 'istype')))
            if len(added) != 1:
                return
            c.cover('new')
            new_var(c, st, added[0], 'STRING', None, 0, w.peek(st, w.peek(st, n, 'identifier'), 'value', 'Token'), None)
            v, own = added[0]['var'], {added[0]['var'].obj}
        else:
            c.ok(st, 'a declared target creates no variable', not added)
            v, own = h['res'], set()
            if h['k'] == 'array':
                return
        p = w.storage(st, v) if not own else w.peek(st, v, 'data', 'PSC::Variable')
        c.ok(st, 'the variable holds the line', same('STRING', full(c, st, p, 'STRING'), reads[0]['s']))
        c.frame(st, 'only the target changes', own | {p.obj})


@target('C15 C16 C01', 'WriteFileNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=COV)
class WriteFile(FileNode):
    cls = 'WriteFileNode'
    members = ('filename', 'data')

    def refused(self, c, st, f, h, res):
        errs = notopen(f)
        if f is not None and not f.null:
            errs.append(z3.Not(self.ismode(c, st, f, WRITE, APPEND)))
        if 'data' in res:
            k, v = c.orig(st, res['data'])
            if not primitive(k):
                errs.append(z3.BoolVal(True))
        return errs

    def done(self, c, st, f, h, res, name, did):
        d = self.one(c, st, did, 'write')
        c.frame(st, 'writing a file changes no variable', set())
        if d is None:
            return
        c.ok(st, 'the file named is written', d['file'].obj == f.obj)
        k, v = c.orig(st, res['data'])
        if not primitive(k):
            return
        f = [x[1] for x in c.events(st, 'conv') if x[1]['k'] == k and x[1]['t'] == 'STRING' and c.e.decide(st, same(k, x[1]['v'], v))]
        text = f[0]['w'] if f else v if k == 'STRING' else None
        c.ok(st, 'the value is written as text', text is not None and lib.seq(d['s'], text))

    def failed(self, c, st, did):
        self.one(c, st, did, 'write')
        c.frame(st, 'a failure changes no variable', set())


@target('C14 C16 C01', 'SeekFileNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=COV)
class SeekFile(FileNode):
    cls = 'SeekFileNode'
    members = ('address', 'filename')

    def refused(self, c, st, f, h, res):
        errs = notopen(f)
        if f is not None and not f.null:
            errs.append(z3.Not(self.ismode(c, st, f, RANDOM)))
        if 'address' in res:
            k, v = c.orig(st, res['address'])
            errs.append(z3.BoolVal(True) if k != 'INTEGER' else bvt(v) < 1)
        return errs

    def done(self, c, st, f, h, res, name, did):
        d = self.one(c, st, did, 'seek')
        c.frame(st, 'SEEK changes no variable', set())
        if d is None:
            return
        k, v = c.orig(st, res['address'])
        c.ok(st, 'the position in the file named is set', d['file'].obj == f.obj)
        if k == 'INTEGER':
            c.ok(st, 'the position given', bvt(d['at']) == bvt(v))

    def failed(self, c, st, did):
        self.one(c, st, did, 'seek')
        c.frame(st, 'a failure changes no variable', set())


class RecordNode(FileNode):
    def refused(self, c, st, f, h, res):
        errs = notopen(f)
        if f is not None and not f.null:
            errs.append(z3.Not(self.ismode(c, st, f, RANDOM)))
        if h is not None:
            if h['res'].null:
                errs.append(z3.BoolVal(True))
            else:
                errs.append(bvt(c.w.peek(st, h['res'], 'type.type'), 32) == c.w.T['POINTER'])
                if self.writes and h['k'] == 'var':
                    errs.append(bvt(c.w.peek(st, h['res'], 'isConstant'), 8) == 1)
        return errs

    def done(self, c, st, f, h, res, name, did):
        d = self.one(c, st, did, self.what)
        c.ok(st, 'the variable is looked up', h is not None)
        if d is None or h is None:
            return
        c.ok(st, 'the record of the file named and the variable named', d['file'].obj == f.obj and d['holder'].obj == h['res'].obj)
        c.frame(st, 'nothing but the variable changes', {h['res'].obj} if self.writes else set())

    def failed(self, c, st, did):
        self.one(c, st, did, self.what)
        c.frame(st, 'a failure changes no variable', set())


@target('C14 C16 C13 C08 C01', 'GetRecordNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=COV)
class GetRecord(RecordNode):
    cls, what, writes = 'GetRecordNode', 'getrecord', True


@target('C14 C16 C13 C01', 'PutRecordNode::evaluate(PSC::Context&)', contracts=file_contracts, cover=['refused', 'done'])
class PutRecord(RecordNode):
    cls, what, writes = 'PutRecordNode', 'putrecord', False
