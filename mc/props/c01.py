"""C01: format detection and dispatch"""
import os, sys, importlib
from ..core import Violation
from ..util import *

INFO = dict(
    bounds='all answer vectors (accept / wrong format / 12 other errors) of every library format matching each of the library extensions, '
           '5 spellings of the file name; 2 user formats x 9 extension lists x 5 priorities x 4 answers x 9 file names; explicit format with/without options',
    assumptions=['library formats are replaced by recording stand-ins through the format objects that fileFormats() returns'])

# (priority, registration index) order of the library, as documented in the README/format list
LIB = [
    (0, 'CSV file', ['.csv', '.txt']), (0, 'Excel file', ['.xls', '.xlsx']),
    (10, 'Tecplot ASCII file', ['.dat']), (10, 'Bladed output file', ['.%*', '.$*']),
    (20, 'FAST input file', ['.dat', '.fst', '.txt', '.fstf']), (20, 'FAST output file', ['.out', '.outb', '.elm', '.elev']),
    (20, 'FAST determ. wind file', ['.wnd']), (20, 'FAST linearization output', ['.lin']), (20, 'FAST summary file', ['.sum', '.yaml']),
    (20, 'TurbSim time series', ['.txt']), (20, 'TurbSim binary', ['.bts']),
    (30, 'HAWC2 dat file', ['.dat', '.sel']), (30, 'HAWC2 htc file', ['.htc']), (30, 'HAWC2 st file', ['.st', '.dat']),
    (30, 'HAWC2 PC file', ['.dat', '.pc', '.txt']), (30, 'HAWC2 AE file', ['.dat', '.ae', '.txt']),
    (30, 'HAWCStab2 power file', ['.pwr', '.txt']), (30, 'HAWCStab2 induction file', ['.ind', '.txt']), (30, 'HAWCStab2 Campbell file', ['.cmb']),
    (30, 'HAWC2 Turbulence box', ['.u', '.v', '.w', '.bin']),
    (40, 'FLEX blade file', ['.bld', '.bla', '.00X']), (40, 'FLEX profile file', ['.pro', '.00X']), (40, 'FLEX output file', ['.res', '.int']),
    (40, 'FLEX WaveKin file', ['.wko']), (40, 'FLEX WaveKin file', ['.out', 'doc']),
    (50, 'BModes output file', ['.out']), (50, 'ROSCO Performance file', ['.txt']),
    (60, 'NetCDF file (<=2D)', ['.nc']), (60, 'VTK file', ['.vtk', '.vtp']), (60, 'TDMS file', ['.tdms']), (60, 'Parquet file', ['.parquet']),
    (70, 'CACTUS file', ['.in']), (70, 'RAAW .mat file', ['.mat']),
]


def fresh():
    """ a freshly imported weio (no format list cached) """
    import weio
    import weio.file_formats
    importlib.reload(weio.file_formats)
    importlib.reload(weio)
    return weio


def ext_match(ext, declared):
    for d in declared:
        if '*' in d:
            if ext.startswith(d[:d.index('*')]):
                return True
        elif ext == d:
            return True
    return False


def file_ext(name):
    """ extension of the last path component, lower case """
    b = name.replace('\\', '/').split('/')[-1].lower()
    s = b.lstrip('.')
    return '.' + s.split('.')[-1] if '.' in s else ''


def errors():
    import weio.file as wf
    return {'value': ValueError('boom'), 'empty': wf.EmptyFileError('boom'), 'broken': wf.BrokenFormatError('boom'),
            'memory': MemoryError('boom'), 'os': OSError(2, 'boom'), 'import': ImportError('boom'),
            'key': KeyError('boom'), 'index': IndexError('boom'), 'text': UnicodeDecodeError('utf8', b'x', 0, 1, 'boom'), 'attribute': AttributeError('boom'),
            'notimpl': NotImplementedError('boom'), 'user': Exception('boom')}


ANS = ('wrong', 'accept', 'value', 'empty', 'broken', 'memory', 'os', 'import', 'key', 'index', 'text', 'attribute', 'notimpl', 'user')


def lib_stub(ch, i, name, log, errs, ans):
    import weio.file as wf

    class Stub(dict):
        def __init__(self, filename=None, **kw):
            log.append((i, filename, dict(kw)))
            a = ch.pick('answer of %s' % name, ans)
            ch.op()
            if a == 'wrong':
                raise wf.WrongFormatError('not mine')
            if a != 'accept':
                raise errs[a]
            self.made = len(log)
    Stub.__name__ = 'Stub%d' % i
    return Stub


def h_library(ch):
    """ every extension of the library, every answer vector """
    weio = fresh()
    F = list(weio.fileFormats())
    names = [f.name for f in F]
    ch.eq(names, [l[1] for l in LIB], 'formats in priority order')
    ch.eq([list(f.extensions) for f in F], [l[2] for l in LIB], 'extensions')
    exts = sorted({e for l in LIB for e in l[2] if '*' not in e and e.startswith('.') and e == e.lower()}) + ['.%12', '.$1', '.$pj', '.$1x', '.001', '.unknown', '.tx', '.txt2', '']
    ext = ch.pick('extension', exts)
    spell = ch.pick('name', ['f{}', 'F{}', 'd.txt/f{}', 'a.b{}', '.h{}'])
    name = spell.format(ext.upper() if spell[0] == 'F' else ext)
    log = []
    errs = errors()
    multi = sum(ext_match(file_ext(name), l[2]) for l in LIB)
    ans = ANS if multi <= 4 or ch.dir is None else ('wrong', 'accept', 'value', 'empty')
    for i, f in enumerate(F):
        f.constructor = lib_stub(ch, i, f.name, log, errs, ans)
    how = ch.pick('call', ['read', 'detectFormat'])
    kw = ch.pick('options', [{}, {'sep': ',', 'n': 3}])
    n0 = len(ch.points)
    r = outcome(getattr(weio, how), name, **kw)
    answers = [p[3] for p in ch.points[n0:]]
    order = [i for i, l in enumerate(LIB) if ext_match(file_ext(name), l[2])]
    # --- model
    tried = []
    res = 'none'
    for k, i in enumerate(order):
        tried.append((i, name, kw))
        a = answers[k] if k < len(answers) else None
        if a != 'wrong':
            res = a
            break
    ch.eq([t[0] for t in log], [t[0] for t in tried], 'formats tried')
    ch.eq([t[1] for t in log], [t[1] for t in tried], 'file name given')
    ch.eq([t[2] for t in log], [t[2] for t in tried], 'options given')
    ch.state(ext, order, answers, res)
    judge(ch, weio, how, r, res, F, order, tried, errs)


def judge(ch, weio, how, r, res, F, order, tried, errs):
    if res == 'accept':
        ch.check(r[0] == 'ok', 'accepted by a format but raised %r' % (r[1],))
        obj = r[1] if how == 'read' else r[1][1]
        i = tried[-1][0]
        if how != 'read':
            ch.check(r[1][0] is F[i], 'detectFormat does not return the accepting format')
        ch.check(type(obj) is F[i].constructor, 'object is not made by the accepting format')
        ch.check(obj.made == len(tried), 'the returned object is not the one that was read during detection')
    elif res == 'none':
        ch.check(r[0] == 'err' and isinstance(r[1], weio.FormatNotDetectedError), 'expected FormatNotDetectedError, got %r' % (r,))
    else:
        ch.check(r[0] == 'err' and type(r[1]) is type(errs[res]), 'the error of a reader is not passed on: %r' % (r,))


# ---------------------------------------------------------------- user formats in the dispatch
SRC = '''
from weio.file import File, WrongFormatError, EmptyFileError, BrokenFormatError
import mc.stub as S
class {cls}(File):
    @staticmethod
    def defaultExtensions():
        return {exts!r}
    @staticmethod
    def formatName():
        return {name!r}
{prio}
    def __init__(self, filename=None, **kw):
        S.LOG.append(({cls!r}, filename, dict(kw)))
        a = S.ANSWER[{cls!r}]
        if a == 'wrong':
            raise WrongFormatError('not mine')
        if a != 'accept':
            raise S.ERRS[a]
        self.made = len(S.LOG)
'''
PRIO = '''    @staticmethod
    def priority():
        return {}
'''


def user_module(path, cls, exts, prio, name=None):
    put(path, SRC.format(cls=cls, exts=exts, name=name or cls, prio='' if prio is None else PRIO.format(prio)))


def h_user(ch):
    from .. import stub as S
    weio = fresh()
    S.reset(errors())
    UE = [['.zzz'], ['.yyy', '.zzz'], ['.csv'], ['.z*'], ['.$*'], ['.zz'], ['.txt'], ['.zzz*'], ['zzz']]
    PR = [None, -1, 0, 15, 200]
    users = []
    where = ch.pick('folder', ['argument', 'home'])
    d = os.path.join(ch.dir, 'u') if where == 'argument' else os.path.join(ch.dir, 'home', '.local', 'share', 'weio')
    os.environ['HOME'] = os.path.join(ch.dir, 'home')
    os.makedirs(d)
    nu = ch.pick('number of user formats', [1, 2])
    for k in range(nu):
        cls = 'Fmt%dFile' % k
        exts = ch.pick('extensions%d' % k, UE if nu == 1 else [['.zzz'], ['.yyy', '.zzz'], ['.z*']])
        prio = ch.pick('priority%d' % k, PR if nu == 1 else [(None, 5), (1, 200)][k])
        ans = ch.pick('answer%d' % k, ['accept', 'wrong', 'value', 'broken'])
        user_module(os.path.join(d, 'um%d.py' % k), cls, exts, prio)
        sys.modules.pop('um%d' % k, None)
        S.ANSWER[cls] = ans
        users.append((2 if prio is None else prio, cls, exts, ans))
    name = ch.pick('file', ['f.zzz', 'F.ZZZ', 'f.csv', 'f.$12', 'f.zz', 'f.zzzz', 'f.yyy', 'zzz', 'f.txt'] if nu == 1 else ['f.zzz', 'f.yyy', 'F.ZZ'])
    put(os.path.join(ch.dir, name), 'a,b\n1.5,2\n3,4\n')
    if where == 'argument':
        F = weio.fileFormats(userpath=d)
    else:
        F = weio.fileFormats()
    ch.op()
    # --- model of the order
    reg = [(p, n, e, None) for p, n, e in LIB] + users
    order = sorted(range(len(reg)), key=lambda i: (reg[i][0], i))
    ch.eq([f.name for f in F], [reg[i][1] for i in order], 'formats in priority order')
    r = outcome(weio.read, name)
    ch.op()
    ext = file_ext(name)
    exp = []
    res = ('none', None)
    for i in order:
        if not ext_match(ext, reg[i][2]):
            continue
        if reg[i][3] is None:         # a library format: CSV reads the file, the Bladed reader rejects it
            if reg[i][1] == 'CSV file':
                res = ('csv', None)
                break
            if reg[i][1] == 'Bladed output file':
                res = ('bladed', None)
                break
            raise Violation('harness: unexpected library format %s' % reg[i][1])
        exp.append(reg[i][1])
        if reg[i][3] != 'wrong':
            res = (reg[i][3], reg[i][1])
            break
    ch.eq([l[0] for l in S.LOG], exp, 'user formats tried')
    ch.eq([l[1] for l in S.LOG], [name] * len(exp), 'file name given')
    ch.state(users, name, res)
    if res[0] == 'csv':
        ch.check(r[0] == 'ok' and type(r[1]).__name__ == 'CSVFile', 'expected the CSV reader, got %r' % (r,))
    elif res[0] == 'bladed':
        ch.check(r[0] == 'err', 'expected an error of the Bladed reader')
    elif res[0] == 'accept':
        ch.check(r[0] == 'ok' and type(r[1]).__name__ == res[1] and r[1].made == len(exp), 'wrong object returned: %r' % (r,))
    elif res[0] == 'none':
        ch.check(r[0] == 'err' and isinstance(r[1], weio.FormatNotDetectedError), 'expected FormatNotDetectedError, got %r' % (r,))
    else:
        ch.check(r[0] == 'err' and type(r[1]) is type(S.ERRS[res[0]]), 'the error of a reader is not passed on: %r' % (r,))


def h_explicit(ch):
    """ an explicitly given format is the only one used """
    weio = fresh()
    F = list(weio.fileFormats())
    i = ch.pick('format', range(len(F)))
    name = ch.pick('file', ['f.csv', 'f' + F[i].extensions[0].replace('*', '1'), 'noext', 'F.TXT'])
    log = []
    errs = errors()
    for k, f in enumerate(F):
        f.constructor = lib_stub(ch, k, f.name, log, errs, ('accept',) + tuple(a for a in ANS if a != 'accept'))
    kw = ch.pick('options', [{}, {'n': 3}])
    n0 = len(ch.points)
    r = outcome(weio.read, name, F[i], **kw)
    a = ch.points[n0][3] if len(ch.points) > n0 else None
    ch.eq(log, [(i, name, kw)], 'formats tried')
    ch.state(i, name, a)
    if a == 'accept':
        ch.check(r[0] == 'ok' and type(r[1]) is F[i].constructor, 'wrong object: %r' % (r,))
    else:
        ch.check(r[0] == 'err', 'an error was swallowed')
        want = 'WrongFormatError' if a == 'wrong' else type(errs[a]).__name__
        ch.check(type(r[1]).__name__ == want, 'wrong error: %r instead of %s' % (r[1], want))


def h_histories(ch):
    """ sequences of reads: the answer to a read never depends on the reads before it """
    weio = fresh()
    put('a.csv', 'x,y\n1,2\n3,4\n')
    put('b.txt', 'x y\n1 2\n3 4\n')
    put('c.dat', 'garbage\n')
    put('d.zzz', 'x,y\n1,2\n')
    put('e.csv', '')
    exp = {'a.csv': 'CSVFile', 'b.txt': 'CSVFile', 'd.zzz': 'FormatNotDetectedError', 'e.csv': 'EmptyFileError', 'missing.csv': 'OSError'}
    n = 3
    for k in range(n):
        f = ch.pick('read%d' % k, sorted(exp))
        if ch.flag('formats listed before'):
            weio.fileFormats()
        r = outcome(weio.read, f)
        ch.op()
        got = [c.__name__ for c in type(r[1]).__mro__]
        ch.check(exp[f] in got, 'reading %s: %r instead of %s' % (f, r, exp[f]))
        ch.state(f, got[0], k)


LEGACY = {
    'FASTInputFile': ('fast_input_file', [('a.fst', '------- TITLE -------\nsome text\n   3   NumThing  - a number\n "x y"  Name - a name (quoted)\nTrue Flag - a flag\n', {}), ('b.dat', '------- T -------\nsome text\n   3   Num  - a number\n  1.5 Val - v\nFalse Third - t\n  7  Fourth - f\n  8  Fifth - f\n', {})]),
    'FASTOutputFile': ('fast_output_file', [('a.out', '\nT\n\nTime A\n(s) (m)\n 0. 1.\n 1. 2.5\n', {}), ('b.elev', 'Time A\n(s) (m)\n 0. 1.\n 1. 2.5\n', {})]),
    'CSVFile': ('csv_file', [('a.csv', 'x,y\n1,2\n3,4.5\n', {}), ('b.csv', '! r\nx;y\n1;2\n3;4.5\n', dict(sep=';', commentChar='!')), ('c.csv', 'x,y\n1,2\n', dict(colNames=['u', 'v']))]),
}


def h_legacy(ch):
    """ the wrappers kept for older scripts: same object as the class gives with the same arguments """
    weio = fresh()
    name = ch.pick('wrapper', sorted(LEGACY))
    mod, cases = LEGACY[name]
    fn, txt, kw = ch.pick('file', cases)
    form = ch.pick('arguments', ['position', 'keyword', 'missing file', 'none'])
    K = getattr(importlib.import_module('weio.' + mod), name)
    put(fn, txt)
    a, k = {'position': ((fn,), kw), 'keyword': ((), dict(kw, filename=fn)), 'missing file': (('nothing' + fn,), kw), 'none': ((), {})}[form]
    ch.op(2)
    def go(f):
        def run():
            o = f(*a, **k)
            return (type(o), o.filename, list(o.items()) if name != 'CSVFile' else [], str(o.toDataFrame()) if form in ('position', 'keyword') and name != 'FASTInputFile' else '')
        o = outcome(run)
        return o if o[0] == 'ok' else (o[0], type(o[1]).__name__, str(o[1]))
    ch.eq(go(getattr(weio, name)), go(K), 'result of weio.%s' % name)
    if form in ('position', 'keyword'):
        ch.check(type(getattr(weio, name)(*a, **k)) is K, 'weio.%s gives another class' % name)
    ch.state(name, fn, form)


def harnesses(tier):
    return [('legacy', h_legacy), ('library', h_library), ('user', h_user), ('explicit', h_explicit), ('histories', h_histories)]
