"""C02: user-defined formats"""
import os, sys, importlib
from ..core import Violation
from ..util import *
from .c01 import fresh, LIB, errors, ext_match, file_ext

INFO = dict(bounds='every folder of up to 3 user modules drawn from 16 kinds of modules, with and without error tolerance, every order of 2 (3) calls of the format list')

H = 'from weio.file import File, WrongFormatError, EmptyFileError\n'
OKC = '''class {c}({base}):
    @staticmethod
    def defaultExtensions():
        return ['.{e}']
    @staticmethod
    def formatName():
        return 'user {e}'
{p}    def _read(self, **kw):
        self['content'] = open(self.filename).read()
        if self['content'].startswith('wrong'):
            raise WrongFormatError('no')
'''


def P(v):
    return '    @staticmethod\n    def priority():\n        return %s\n' % v


# kind: (source with {e} = unique extension, priority or None if invalid, class name)
KINDS = {
    'plain':      (H + OKC.format(c='Plain{u}File', base='File', e='{e}', p=''), 2),
    'priority-5': (H + OKC.format(c='Low{u}File', base='File', e='{e}', p=P(-5)), -5),
    'priority0':  (H + OKC.format(c='Zero{u}File', base='File', e='{e}', p=P(0)), 0),
    'file first': (H + OKC.format(c='FileReader{u}', base='File', e='{e}', p=P(20)), 20),
    'priority20': (H + OKC.format(c='Mid{u}File', base='File', e='{e}', p=P(20)), 20),
    'priority99': (H + OKC.format(c='High{u}File', base='File', e='{e}', p=P(99)), 99),
    'lowercase':  (H + OKC.format(c='my{u}filereader', base='File', e='{e}', p=P(20)), 20),
    'helperclass': (H + 'class Aux{u}:\n    pass\nclass AFileError(Exception):\n    pass\n' + OKC.format(c='Has{u}File', base='File', e='{e}', p=''), 2),
    'raising priority': (H + OKC.format(c='Rp{u}File', base='File', e='{e}', p=P('1/0')), 2),
    'syntax error': ('class X{u}File(\n', None),
    'import error': ('import a_module_that_does_not_exist_{u}\n' + H + OKC.format(c='N{u}File', base='File', e='{e}', p=''), None),
    'raises':     ('raise ValueError("x")\n', None),
    'no class':   (H + 'x = 1\nclass Helper{u}(object):\n    pass\n', None),
    'only error class': (H + 'class My{u}FileError(Exception):\n    pass\n', None),
    'no extensions': (H + 'class Nx{u}File(dict):\n    @staticmethod\n    def formatName():\n        return "x"\n', None),
    'no name':    (H + 'class Nn{u}File(dict):\n    @staticmethod\n    def defaultExtensions():\n        return [".x"]\n', None),
}
ORDER = ['plain', 'priority-5', 'priority0', 'file first', 'import error', 'no class', 'no extensions', 'priority20', 'priority99', 'lowercase', 'helperclass',
         'raising priority', 'syntax error', 'raises', 'only error class', 'no name']
QK = ['plain', 'priority20', 'syntax error', 'no class', 'no name', 'helperclass']


def build(ch, d, kinds):
    mods = []
    stem = ch.pick('module name', ['usermod', '_usermod', 'User-mod ', 'file']) if len(kinds) == 1 else 'usermod'
    for k, kind in enumerate(kinds):
        src, prio = KINDS[kind]
        f = os.path.join(d, stem + '%d.py' % k)
        e = 'uu%d' % k
        put(f, src.replace('{u}', str(k)).replace('{e}', e))
        sys.modules.pop(stem + '%d' % k, None)
        mods.append((kind, f, e, prio))
    return mods


def folder(ch):
    where = ch.pick('folder', ['argument', 'home'])
    os.environ['HOME'] = os.path.join(ch.dir, 'home')
    d = os.path.join(ch.dir, 'u') if where == 'argument' else os.path.join(ch.dir, 'home', '.local', 'share', 'weio')
    os.makedirs(d)
    kw = {'userpath': d} if where == 'argument' else {}
    return d, kw


def check_list(ch, weio, formats, mods):
    """ the list holds the library and the valid user formats, in order of priority; ties between user formats are not ordered """
    good = [m for m in mods if m[3] is not None]
    reg = [(p, n) for p, n, e in LIB] + [(m[3], 'user ' + m[2]) for m in good]
    got = [f.name for f in formats]
    ch.eq(sorted(got), sorted(n for _, n in reg), 'registered formats')
    pr = {}
    rank = {}
    for i, (p, n) in enumerate(reg):
        pr.setdefault(n, p)
        rank.setdefault(n, i if i < len(LIB) else len(LIB))
    key = [(pr[n], rank[n]) for n in got]
    key = [k for k, n in zip(key, got) if n != 'FLEX WaveKin file']
    ch.check(key == sorted(key), 'formats are not in order of priority: %s' % [(n, pr[n]) for n in got])
    for m in good:
        f = [f for f in formats if f.name == 'user ' + m[2]][0]
        ch.eq(list(f.extensions), ['.' + m[2]], 'extensions of a user format')


def h_folder(ch, kinds3=None):
    weio = fresh()
    d, kw = folder(ch)
    n = ch.pick('modules', [0, 1, 2, 3])
    ks = ORDER if n <= 2 else QK
    mods = build(ch, d, [ch.pick('module%d' % i, ks) for i in range(n)])
    extra = ch.pick('other files', ['none', 'init', 'notpy'])
    if extra == 'init':
        put(os.path.join(d, '__init__.py'), '')
        sys.modules.pop('__init__', None)
    elif extra == 'notpy':
        put(os.path.join(d, 'readme.txt'), 'class TFile: pass')
        put(os.path.join(d, 'sub', 'modFile.py'), 'class SubFile: pass')
    bad = [m for m in mods if m[3] is None]
    tolerant = ch.flag('ignore errors')
    r = outcome(weio.fileFormats, ignoreErrors=tolerant, **kw)
    ch.op()
    ch.state([m[0] for m in mods], tolerant, extra)
    if bad and not tolerant:
        ch.check(r[0] == 'err' and isinstance(r[1], weio.UserFormatImportError), 'expected UserFormatImportError, got %r' % (r,))
        ch.check(any(m[1] in str(r[1]) for m in bad), 'the error does not name the module: %s' % r[1])
        # the failure is not remembered as an empty list of formats
        for m in bad:
            os.remove(m[1])
        F = weio.fileFormats(**kw)
        check_list(ch, weio, F, [m for m in mods if m[3] is not None])
        return
    ch.check(r[0] == 'ok', 'the formats cannot be listed: %r' % (r[1],))
    if tolerant:
        F, errs = r[1]
        ch.eq(len(errs), len(bad), 'number of reported errors')
        for m in bad:
            ch.check(sum(m[1] in e for e in errs) == 1, 'module %s is not reported' % m[1])
    else:
        F = r[1]
    check_list(ch, weio, F, mods)
    # --- every valid user format is usable
    for m in mods:
        if m[3] is None:
            continue
        f = put('file.' + m[2], 'hello')
        o = weio.read(f)
        ch.op()
        ch.check(o['content'] == 'hello' and type(o).__module__ == os.path.basename(m[1])[:-3], 'not read with the user format')
        f = put('bad.' + m[2], 'wrong')
        r = outcome(weio.read, f)
        ch.check(r[0] == 'err' and isinstance(r[1], weio.FormatNotDetectedError), 'wrong format accepted: %r' % (r,))


def h_calls(ch):
    """ histories of calls: what is returned does not depend on the calls before """
    weio = fresh()
    d, kw = folder(ch)
    kinds = ch.pick('modules', [[], ['plain'], ['plain', 'no class'], ['priority20', 'syntax error', 'no name']])
    mods = build(ch, d, kinds)
    bad = [m for m in mods if m[3] is None]
    first = True
    listed = False
    for i in range(3):
        op = ch.pick('call%d' % i, ['tolerant', 'strict', 'read'])
        ch.op()
        if op == 'tolerant':
            F, errs = weio.fileFormats(ignoreErrors=True, **kw)
            ch.eq(len(errs), len(bad), 'number of reported errors')
            check_list(ch, weio, F, mods)
            listed = True
        elif op == 'strict':
            r = outcome(weio.fileFormats, **kw)
            if bad and not listed:
                ch.check(r[0] == 'err' and isinstance(r[1], weio.UserFormatImportError), 'expected an import error, got %r' % (r,))
            else:
                ch.check(r[0] == 'ok', 'unexpected %r' % (r,))
                check_list(ch, weio, r[1], mods)
                listed = True
        else:
            if not listed:
                return     # the default folder would be used
            for m in mods:
                if m[3] is not None:
                    put('f.' + m[2], 'hello')
                    ch.eq(weio.read('f.' + m[2])['content'], 'hello', 'content')
        ch.state(kinds, op, listed)


def h_usermodule(ch):
    """ weio.user exposes the user classes """
    weio = fresh()
    os.environ['HOME'] = os.path.join(ch.dir, 'home')
    d = os.path.join(ch.dir, 'home', '.local', 'share', 'weio')
    os.makedirs(d)
    n = ch.pick('modules', [1, 2])
    good = ['plain', 'priority-5', 'priority20', 'lowercase', 'helperclass']
    mods = build(ch, d, [ch.pick('m%d' % i, good) for i in range(n)])
    sys.modules.pop('weio.user', None)
    u = importlib.import_module('weio.user')
    cls = {'plain': 'Plain%dFile', 'priority-5': 'Low%dFile', 'priority20': 'Mid%dFile', 'lowercase': 'my%dfilereader', 'helperclass': 'Has%dFile'}
    for i, m in enumerate(mods):
        c = getattr(u, cls[m[0]] % i)
        ch.eq(c.formatName(), 'user ' + m[2], 'class exposed')
        ch.op()
    r = weio.userFileClasses()
    ch.eq(sorted(c.__name__ for c in r[0]), sorted(cls[m[0]] % i for i, m in enumerate(mods)), 'user classes')
    ch.eq(len(r[4]), 0, 'errors')
    ch.state([m[0] for m in mods])


def harnesses(tier):
    return [('folder', h_folder), ('calls', h_calls), ('usermodule', h_usermodule)]
