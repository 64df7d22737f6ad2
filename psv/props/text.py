"""Tokens and layout of program text."""
import re, os, random
from .. import build

TOK = re.compile(r'''
 (?P<com>//[^\n]*)|(?P<str>"(?:\\.|[^"\\\n])*")|(?P<chr>'(?:\\.|[^'\\\n])+')|(?P<date>\d+/\d+/\d+)|(?P<num>\d+\.\d*|\.\d+|\d+)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)
 |(?P<op><-|<=|>=|<>|[-+*/=<>&^().,:\[\]])|(?P<ws>[ \t]+)|(?P<nl>\r?\n)|(?P<bad>.)''', re.X | re.S)
IOKW = ('OUTPUT', 'PRINT', 'INPUT', 'READ', 'OPENFILE', 'READFILE', 'WRITEFILE', 'CLOSEFILE')


def tokens(line):
    """[(gap before, text)], comment or None; None if the line has something that is not a token"""
    out, gap = [], ''
    for m in TOK.finditer(line):
        k = m.lastgroup
        if k == 'ws':
            gap += m.group()
        elif k == 'com':
            return out, gap + m.group()
        elif k in ('bad', 'nl'):
            return None
        else:
            out.append((gap, m.group()))
            gap = ''
    return out, None


CHARS = 'abcdefghij 0123456789"\'/\\*#:;<>-=()[]{}.,^&|~!@$%ENDIFTHEN\t'
COMMENTS = ['', ' ', ' comment', '1', '123 4', '"', "'", '"unterminated', "'x", ' ENDIF', ' IF x THEN', '/', '//', ' a // b', '\\', ' ^', ' 1/2/2003', '<-', ' OUTPUT "no"', '=', 'TYPE X = (A)', '5.5.5', ' @#$%', '\t']


def comment(r):
    if r.random() < .6:
        return '//' + r.choice(COMMENTS)
    return '//' + ''.join(r.choice(CHARS) for _ in range(r.randint(0, 12)))


def ws(r):
    return r.choice([' ', '  ', '\t', ' \t', '    ', '\t\t'])


def relayout(lines, r, how):
    """a layout of the same tokens; -> (lines, map: old line number -> new line number)"""
    out, where = [], {}

    def extra():
        for _ in range(r.choice([1, 1, 2, 3])):
            x = r.random()
            out.append('' if x < .4 else ws(r) if x < .5 else (ws(r) if r.random() < .5 else '') + comment(r))
    for i, l in enumerate(lines):
        t = tokens(l)
        if t is None:
            return None
        toks, com = t
        if 'blank' in how and r.random() < how['blank']:
            extra()
        s = ''
        prev = None
        for j, (gap, tok) in enumerate(toks):
            if j == 0:
                if 'indent' in how and r.random() < how['indent']:
                    gap = r.choice(['', ' ', '   ', '\t', '\t  ', '        '])
            elif 'space' in how and r.random() < how['space']:
                if gap:
                    gap = ws(r)
                elif not (tok == '(' and prev in IOKW):
                    gap = ws(r)
            s += gap + tok
            prev = tok
        if com is not None:
            s += com
        elif 'trail' in how and r.random() < how['trail']:
            s += (' ' if s.endswith('/') else r.choice(['', ' ', '\t', '  '])) + comment(r)
        elif 'space' in how and r.random() < .2:
            s += ws(r)
        where[i + 1] = len(out) + 1
        out.append(s)
    if 'blank' in how and r.random() < .5:
        extra()
    return out, where


def corpus():
    """programs of the repository: (name, text)"""
    out = []
    for d in ('tests', 'examples'):
        p = os.path.join(build.REPO, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith('.pseudo'):
                    out.append((f, open(os.path.join(p, f), encoding='latin1').read().replace('\r\n', '\n')))
    return out
