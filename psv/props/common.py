"""Shared pieces of the generated programs."""
import itertools, random
from ..lang import *
from ..lang import S
from .. import lang, ref, gen
from ..harness import *
from ..harness import Test, Task, Entry, Session, test, seeds
from ..run import Case, Run

PRIM = ['INTEGER', 'REAL', 'BOOLEAN', 'CHAR', 'STRING', 'DATE']
LIT = {'INTEGER': I(3), 'REAL': ('real', '2.5'), 'BOOLEAN': ('bool', True), 'CHAR': ('char', 'x'), 'STRING': ('str', 'ab'), 'DATE': ('date', 29, 2, 2024)}
LIT2 = {'INTEGER': I(8), 'REAL': ('real', '0.125'), 'BOOLEAN': ('bool', False), 'CHAR': ('char', 'Q'), 'STRING': ('str', ''), 'DATE': ('date', 1, 1, 1999)}
BIG = [0, 1, -1, 2, -2, 3, 7, 10, 63, 64, 255, (1 << 31) - 1, 1 << 31, -(1 << 31), (1 << 53) - 1, 1 << 53, (1 << 53) + 1, -((1 << 53) + 1), (1 << 62) + 1,
       (1 << 63) - 1, (1 << 63) - 2, -(1 << 63) + 1, -(1 << 63)]
OPS = ['+', '-', '*', '/', 'DIV', 'MOD', '&', '=', '<>', '<', '<=', '>', '>=', 'AND', 'OR']

# a world with a value of every kind
WORLD_TYPES = lambda: [deftype('Col', enum=['Red', 'Green', 'Blue']), deftype('Shp', enum=['Disc', 'Cube']), deftype('PI', ptr='INTEGER'), deftype('PS', ptr='STRING'),
                       deftype('Rec', rec=[declare('x', 'INTEGER'), declare('s', 'STRING'), declarr('a', [(1, 2)], 'INTEGER')]),
                       deftype('Rec2', rec=[declare('x', 'INTEGER'), declare('s', 'STRING'), declarr('a', [(1, 2)], 'INTEGER')]),
                       deftype('Nest', rec=[declare('r', 'Rec'), declare('c', 'Col')])]
KINDS = PRIM + ['Col', 'Shp', 'PI', 'PS', 'Rec', 'Rec2', 'Nest']


def value(T, k=0):
    """(statements making variable 'src<T>' of type T with a recognisable value, expression)"""
    n = 'src' + T
    s = [declare(n, T)]
    if T in LIT:
        s.append(assign(n, (LIT, LIT2)[k][T]))
    elif T == 'Col':
        s.append(assign(n, V('Blue' if k == 0 else 'Green')))
    elif T == 'Shp':
        s.append(assign(n, V('Cube')))
    elif T == 'PI':
        s += [declare('tgtI', 'INTEGER'), assign('tgtI', I(77)), ptrassign(n, 'tgtI')]
    elif T == 'PS':
        s += [declare('tgtS', 'STRING'), assign('tgtS', ('str', 'pp')), ptrassign(n, 'tgtS')]
    elif T in ('Rec', 'Rec2'):
        s += [assign(('fld', ('id', n), 'x'), I(5 + k)), assign(('fld', ('id', n), 's'), ('str', 'rs')), assign(('idx', ('fld', ('id', n), 'a'), [I(2)]), I(9))]
    elif T == 'Nest':
        s += [assign(('fld', ('fld', ('id', n), 'r'), 'x'), I(6 + k)), assign(('fld', ('id', n), 'c'), V('Green'))]
    return s


def dump(T, lv):
    """expressions showing a value of type T"""
    if T in PRIM or T in ('Col', 'Shp'):
        return [('var', lv)]
    if T in ('PI', 'PS'):
        return [('var', ('deref', lv))]
    if T in ('Rec', 'Rec2'):
        return [('var', ('fld', lv, 'x')), ('var', ('fld', lv, 's')), ('var', ('idx', ('fld', lv, 'a'), [I(1)])), ('var', ('idx', ('fld', lv, 'a'), [I(2)]))]
    return dump('Rec', ('fld', lv, 'r')) + [('var', ('fld', lv, 'c'))]


def show_all(es):
    o = []
    for e in es:
        o += [e, ('str', '|')]
    return output(*o)


def operands():
    """(name, setup, expression): every kind of operand an expression can have"""
    out = []
    for T in PRIM:
        out.append(('lit' + T, [], LIT[T]))
        out.append(('var' + T, value(T), V('src' + T)))
    for T in ('Col', 'Shp', 'PI', 'Rec'):
        out.append(('var' + T, value(T), V('src' + T)))
    out.append(('zero', [], I(0)))
    out.append(('zeroR', [], ('real', '0.0')))
    out.append(('neg', [], I(-4)))
    out.append(('enumname', [], V('Green')))
    out.append(('arr', [declarr('arr', [(1, 2)], 'INTEGER')], V('arr')))
    out.append(('elem', [declarr('arr', [(1, 2)], 'INTEGER'), assign(('idx', ('id', 'arr'), [I(2)]), I(6))], ('var', ('idx', ('id', 'arr'), [I(2)]))))
    out.append(('field', value('Rec'), ('var', ('fld', ('id', 'srcRec'), 'x'))))
    out.append(('deref', value('PI'), ('var', ('deref', ('id', 'srcPI')))))
    out.append(('undef', [], V('nosuch')))
    out.append(('const', [const('cc', I(12))], V('cc')))
    out.append(('fn', [func('ff', [], 'INTEGER', [ret(I(4))])], ('fn', 'ff', [])))
    out.append(('fnS', [func('fs', [], 'STRING', [ret(('str', 'q'))])], ('fn', 'fs', [])))
    return out


def rand_task(name='random programs', weight=1.0, kind='plain', stdin=None, data=None, **kw):
    def make(seed, rng):
        r = random.Random(seed)
        g = gen.G(r, **kw)
        b = g.program()
        si = stdin(r) if stdin else ''
        fl = data(r) if data else None
        return test(b, stdin=si, files=fl, pedantic=False)
    return Task(name, seeds, make, False, kind, weight, 'random programs: %r' % kw)


def chunks(it, n):
    it = iter(it)
    while True:
        x = list(itertools.islice(it, n))
        if not x:
            return
        yield x
