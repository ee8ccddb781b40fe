"""C30: the place and the name of a file, its line ends, the end of the file and the bytes of its remarks do not matter"""
import os, re, shutil
from ..core import Violation
from ..util import *
from .. import corpus, obs
from .c06 import WRITABLE, READONLY, targets, raw

INFO = dict(bounds='every example file (and generated ones) x {7 line-end and end-of-file layouts, 11 folders x 4 ways to name the path, 4 changes of the stem x 4 letter cases of the extension (read, and written under that name), remarks in 2 encodings at every eligible line, folder removed or working directory changed between reading and use}; the writable ones also written to each folder')

_REF = {}


def text(b):
    """ a text file (in an 8-bit encoding) """
    return b'\0' not in b and not any(c < 9 for c in b[:4000]) and b.count(b'\n') > 1


def nl(b):
    return b.replace(b'\r\n', b'\n')


ENDS = {
    'CRLF': lambda b: nl(b).replace(b'\n', b'\r\n'),
    'LF': nl,
    'no newline at the end': lambda b: b.rstrip(b'\r\n'),
    'one newline at the end': lambda b: nl(b).rstrip(b'\n') + b'\n',
    'a blank line at the end': lambda b: nl(b).rstrip(b'\n') + b'\n\n',
    'blank lines at the end': lambda b: nl(b).rstrip(b'\n') + b'\n\n\n\n',
    'blanks at the end of every line': lambda b: nl(b).replace(b'\n', b'   \n'),
}
BINARY = ('BladedFile', 'ExcelFile', 'TurbSimFile', 'MannBoxFile', 'NetCDFFile', 'TDMSFile', 'ParquetFile', 'RAAWMatFile', 'VTKFile', 'FLEXOutFile')
DIRS = ['d', 'Dd/eE', 'a b(c)', 'd\u00e9\u6f22', 'x.y/z.htc', 'sel.sel', 'A[1]{2}', 'h#%20', '.hid', "q'u", 'a' * 100 + '/' + 'b' * 100]
WAYS = ['relative', 'absolute', 'dotted', 'from inside']


def norm(cls, o, d=None):
    """ content without the place of the file """
    def rec(o):
        if isinstance(o, dict):
            return {k: rec(v) for k, v in o.items()}
        if isinstance(o, list):
            return [rec(v) for v in o]
        if isinstance(o, str) and d:
            return o[len(d) + 1:] if o.startswith(d + '/') else o
        return o
    o = rec(o)
    if cls == 'HAWC2PCFile':
        o['data']['<PCFile>'].pop('filename', None)
    if cls == 'FASTOutputFile':    # the stem of the file
        o['info'].pop('name', None)
    if cls == 'FASTInputFile':     # blank lines at the end are no entries
        L = list(o['entries'])
        while L and isinstance(L[-1][1], str) and L[-1][1] == '' and L[-1][3]:
            L.pop()
        o['entries'] = L
    return o


def ref(e):
    if e.name not in _REF:
        _REF[e.name] = norm(e.cls, obs.content(e.read('ref')), 'ref')
        shutil.rmtree('ref')
    return cp(_REF[e.name])


def opened(e, path, w):
    try:
        return corpus.klass(e.cls)(path, **e.kw)
    except Exception as x:
        raise Violation('%s: not read: %s: %s' % (w, type(x).__name__, str(x)[:150]))


def rstrip(o):
    if isinstance(o, dict):
        return {k: rstrip(v) for k, v in o.items()}
    if isinstance(o, list):
        return [rstrip(v) for v in o]
    if isinstance(o, str):
        return re.sub(r'[ \r]+(?=\n|$)', '', o)
    return o


_DET = {}


def detected(path):
    import weio
    k, v = outcome(weio.detectFormat, path)
    return v[0].name if k == 'ok' else 'error ' + type(v).__name__


def detref(e):
    """ format that is detected for the original file """
    if e.name not in _DET:
        e.place('ref')
        _DET[e.name] = detected(os.path.join('ref', e.main))
        shutil.rmtree('ref')
    return _DET[e.name]


def ends(cls, es):
    def h(ch):
        e = ch.pick('file', es)
        # (blanks belong to the cells of a delimited table)
        v = ch.pick('layout', [k for k in ENDS if not (cls == 'CSVFile' and k.startswith('blanks'))])
        a = ref(e)
        ch.op()
        w = '%s %s, %s' % (cls, e.name, v)
        g = corpus.Entry(e.name, cls, e.main, {k: (ENDS[v](b) if text(b) else b) for k, b in e.files.items()}, e.kw)
        f = opened(e, g.place('v'), w)
        c = norm(cls, obs.content(f), 'v')
        if v.startswith('blanks'):
            c, a = norm(cls, rstrip(c)), norm(cls, rstrip(a))
        ch.eq(c, a, w + ': content')
        ch.eq(detected(os.path.join('v', e.main)), detref(e), w + ': format detected')
        if cls in WRITABLE and not e.name.startswith(READONLY) and not v.startswith('blanks'):
            f.write(os.path.join('v', e.main))
            f0 = e.read('u')
            f0.write(os.path.join('u', e.main))
            for t, u in zip(targets(cls, e, 'v'), targets(cls, e, 'u')):
                x, y = [nl(raw(get(p))).rstrip(b'\n') if isinstance(raw(get(p)), bytes) else raw(get(p)) for p in (t, u)]
                ch.check(x == y, w + ': written again, the file is not the one written from the original')
    return h


def place(cls, es):
    def h(ch):
        e = ch.pick('file', es)
        d = ch.pick('folder', DIRS)
        way = ch.pick('path', WAYS)
        a = ref(e)
        ch.op()
        w = '%s %s in %r (%s)' % (cls, e.name, d, way)
        e.place(d)
        base = os.getcwd()
        for k in e.files:      # other files of the same name: in the folder above and in folders whose name differs in case
            for o in {d.swapcase(), d.upper(), '.'} - {d}:
                put(os.path.join(o, k), b'not this one\n' * 3)
        p = {'relative': d, 'absolute': os.path.join(base, d), 'dotted': os.path.join('.', d, '..', os.path.basename(d)), 'from inside': ''}[way]
        t0 = tree(base)
        if way == 'from inside':
            os.chdir(d)
        try:
            f = opened(e, os.path.join(p, e.main), w)
            ch.eq(norm(cls, obs.content(f), p if p else None), a, w + ': content')
            t1 = tree(base)
            ch.check(t1 == t0, w + ': reading changed files')
            if cls in WRITABLE and not e.name.startswith(READONLY):
                n = os.path.join(p, 'new ' + os.path.basename(e.main))
                x = raises(f.write, n)
                if x is not None:
                    raise Violation(w + ': not written: %s: %s' % (type(x).__name__, x))
                t2 = tree(base)
                new = sorted(k for k in t2 if t2[k] != t1.get(k))
                st = os.path.splitext('new ' + os.path.basename(e.main))[0]
                ch.check(all(os.path.splitext(os.path.basename(k))[0] == st for k in new) and len(new) == len(targets(cls, e, 'x')) and set(t1) <= set(t2), w + ': files written: %s' % new)
                # the bytes are those written in a plain folder
                os.chdir(base)
                f0 = e.read('u')
                f0.write(os.path.join('u', 'new ' + os.path.basename(e.main)))
                ch.check(sorted(raw(t2[k]) for k in new) == sorted(raw(b) for k, b in tree('u').items() if os.path.basename(k).startswith('new ')), w + ': the bytes written depend on the folder')
        finally:
            os.chdir(base)
    return h


PAIR = ('HAWC2DatFile', 'BladedFile')
# (the case of the extension is part of the name of the companion files; a folder of FLEX results has one sensor file)
def name(cls, es):
    def h(ch):
        e = ch.pick('file', es)
        pre = ch.pick('name', ['my file ', 'a.b.', '\u00e9', '.'])
        case = ch.pick('extension', ['same', 'upper', 'lower', 'title'])
        a = ref(e)
        ch.op()
        stem, ext = os.path.splitext(e.main)
        w = '%s %s named %r, %s case' % (cls, e.name, pre + stem, case)
        def new(n):
            s, x = os.path.splitext(n)
            if n == e.main or (cls in PAIR and s == stem):
                return pre + s + {'same': x, 'upper': x.upper(), 'lower': x.lower(), 'title': x.title()}[case]
            return n
        for k, b in e.files.items():
            put(os.path.join('v', new(k)), b)
        f = opened(e, os.path.join('v', new(e.main)), w)
        ch.eq(norm(cls, obs.content(f), 'v'), a, w + ': content')
        ch.eq(detected(os.path.join('v', new(e.main))), detref(e), w + ': format detected')
        if cls in WRITABLE and not e.name.startswith(READONLY):
            # written under such a name: the same bytes, in a file of that name, that reads back
            os.makedirs('z')
            n = os.path.join('z', new(e.main))
            x = raises(f.write, n)
            if x is not None:
                raise Violation(w + ': not written: %s: %s' % (type(x).__name__, x))
            os.makedirs('u')
            e.read('u0').write(os.path.join('u', e.main))
            z, u = tree('z'), tree('u')
            ch.check(n[2:] in z, w + ': no such file after writing it: %s' % sorted(z))
            ch.check(len(z) == len(u), w + ': files written: %s' % sorted(z))
            if cls not in PAIR:
                ch.check(sorted(raw(b) for b in z.values()) == sorted(raw(b) for b in u.values()), w + ': the bytes written depend on the name')
            if n[2:] in z:
                b = [norm(cls, obs.content(opened(e, n, w + ', written')), 'z'), norm(cls, obs.content(corpus.klass(cls)(os.path.join('u', e.main), **e.kw)), 'u')]
                if cls == 'TurbSimFile':     # (holds the time of writing)
                    for c in b:
                        c['items'].pop('info', None)
                ch.eq(b[0], b[1], w + ': content read back')
    return h


# remarks: (files, pattern whose group 1 is a place inside a remark, line by line); 8-bit bytes that are not UTF-8 are for the formats read so
REMARK = {
    'FASTInputFile': (r'^\s*("[^"]*"|[^\s"]+)\s+[A-Za-z0-9_()]+\s+-? ?[A-Za-z]+ [a-z]+()[a-z]|^! *Com()ment', 'both'),
    'FASTLinearizationFile': (r'^Linearized model: Predictions()|^Description from the FAST()', 'both'),
    'FASTSummaryFile': (r'^#.*[a-z]()[a-z]', 'both'),
    'FLEXBladeFile': (r'^#\d+ Com()ment', 'both'),
    'FLEXProfileFile': (r'^PROFILE SET \d+: Com()ment', 'both'),
    'FLEXDocFile': (r'^#(?:CurDir|OutDir|WTGName)\s.*[a-z]()[a-z]', 'both'),
    'TurbSimTSFile': (r'^Com()ment|- Number of vel()ocity', 'both'),
    'HAWC2HTCFile': (r';\s*[A-Za-z ]*[a-z]()[a-z]', 'both'),
    'CSVFile': (r'^[#!] ?[A-Za-z][^,]*[a-z]()[a-z ]*$', 'utf8'),
    'FASTOutputFile': (r'^(?:Predictions|Description from)()', 'utf8'),
    'FASTWndFile': (r'^!.*[a-z]()[a-z]', 'utf8'),
    'HAWC2StFile': (r'^\d+ [^#$]*[a-z]()[a-z]', 'utf8'),
    'ROSCOPerformanceFile': (r'^# -+ [A-Z][a-z]+()[a-z]', 'utf8'),
    'TecplotFile': (r'^#.*[a-z]()[a-z]', 'utf8'),
}


def ascii7(o):
    """ texts without their non-ascii characters """
    if isinstance(o, dict):
        return {ascii7(k): ascii7(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [ascii7(v) for v in o]
    if isinstance(o, str):
        return re.sub('[^\x00-\x7f]+', '~', o)
    return o


def remark(cls, es, nmax):
    pat, enc = REMARK[cls]
    cand = []
    for e in es:
        b = e.files[e.main]
        if not text(b):
            continue
        n = 0
        for i, l in enumerate(b.split(b'\n')):
            m = re.search(pat.encode(), l)
            if m and n < nmax:
                j = max(x for x in [m.start(k) for k in range(1, m.re.groups + 1) if m.group(k) == b''] or [-1])
                if j >= 0:
                    cand.append((e, i, j))
                    n += 1

    def h(ch):
        e, i, j = ch.pick('line', cand)
        c = ch.pick('bytes', ['utf-8', 'latin-1'] if enc == 'both' else ['utf-8'])
        ch.op()
        L = e.files[e.main].split(b'\n')
        def var(s):
            M = list(L)
            M[i] = L[i][:j] + s + L[i][j:]
            return corpus.Entry(e.name, cls, e.main, dict(e.files, **{e.main: b'\n'.join(M)}), e.kw)
        w = '%s %s with an accent in line %d (%s)' % (cls, e.name, i + 1, c)
        a = norm(cls, obs.content(var(b'~~').read('u')), 'u')
        z = '\u00e9\u00fc'.encode(c)
        f = opened(e, var(z).place('v'), w)
        g = norm(cls, obs.content(f), 'v')
        ch.eq(ascii7(g), tilde(a), w + ': content')
        if cls in ('FASTInputFile', 'HAWC2HTCFile') and not e.name.startswith(READONLY):
            q = b'~~' in get(rewritten(var(b'~~'), 'u2'))
            if q:
                f.write(os.path.join('v', e.main))
                ch.check(z in get(os.path.join('v', e.main)), w + ': the bytes of the remark are not those that were read')
    h.n = len(cand)
    return h


def rewritten(e, d):
    f = e.read(d)
    f.write(os.path.join(d, e.main))
    return os.path.join(d, e.main)


def tilde(o):
    if isinstance(o, dict):
        return {tilde(k): tilde(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [tilde(v) for v in o]
    if isinstance(o, str):
        return re.sub('~~', '~', re.sub('[^\x00-\x7f]+', '~', o))
    return o


def later(cls, es):
    def h(ch):
        e = ch.pick('file', es)
        what = ch.pick('between', ['other working directory', 'folder removed', 'folder emptied'])
        a = ref(e)
        ch.op()
        w = '%s %s, %s between reading and use' % (cls, e.name, what)
        base = os.getcwd()
        f = e.read('v')
        os.makedirs('w')
        try:
            if what == 'other working directory':
                os.chdir('w')
            elif what == 'folder removed':
                shutil.rmtree('v')
            else:
                shutil.rmtree('v')
                os.makedirs('v')
            t0 = tree('.')
            ch.eq(norm(cls, obs.content(f), 'v'), a, w + ': content')
            ch.check(tree('.') == t0, w + ': files changed')
            if cls in WRITABLE and not e.name.startswith(READONLY):
                n = os.path.join(base, 'w', e.main)
                x = raises(f.write, n)
                if x is not None:
                    raise Violation(w + ': not written: %s: %s' % (type(x).__name__, x))
                os.chdir(base)
                f0 = e.read('u')
                f0.write(os.path.join('u', e.main))
                for t, u in zip(targets(cls, e, 'w'), targets(cls, e, 'u')):
                    ch.check(raw(get(t)) == raw(get(u)), w + ': the bytes written differ')
        finally:
            os.chdir(base)
    return h


def harnesses(tier):
    H = []
    for cls, es in corpus.by_class().items():
        t = [e for e in es if text(e.files[e.main]) and e.files[e.main][:2] not in (b'\xff\xfe', b'\xfe\xff')]
        if t and cls not in BINARY:
            H.append(('line ends ' + cls, ends(cls, t)))
        H.append(('place ' + cls, place(cls, es)))
        if cls != 'CactusFile':
            H.append(('name ' + cls, name(cls, es)))
        H.append(('later ' + cls, later(cls, es)))
        if cls in REMARK:
            r = remark(cls, es, 8 if tier == 'quick' else 100)
            if r.n:
                H.append(('remark ' + cls, r))
    return H
