"""C06: writing is faithful, repeatable and confined to the requested file"""
import os, zipfile, io, re
import numpy as np
from ..core import Violation
from ..util import *
from .. import corpus, obs
from .c04 import stamp

INFO = dict(bounds='every example file (and generated ones): all histories of 2 (3 for one file of each class; 3 for all in thorough) operations out of {write to a new folder, to a second folder, over a longer file, over the file it was read from, again to the current name, to a place that can not be written (below a file), look at the object, read again}; after every operation: complete folder snapshot, content of the object, bytes of the written file, content of a new object reading it')

# classes whose objects can be written (losing one is a violation)
WRITABLE = ['CSVFile', 'ExcelFile', 'TecplotFile', 'FASTInputFile', 'FASTOutputFile', 'FASTWndFile', 'TurbSimTSFile', 'TurbSimFile', 'HAWC2DatFile',
            'HAWC2HTCFile', 'HAWC2PCFile', 'HAWC2AEFile', 'HAWC2StFile', 'MannBoxFile', 'FLEXProfileFile', 'ROSCOPerformanceFile', 'VTKFile', 'ParquetFile', 'NetCDFFile']
READONLY = ('FASTIn_AD14_arf',)     # airfoil tables of AeroDyn 14: can not be written
LOSSY = ('FASTOutputFile',)         # stored with a range that depends on the values: a second generation differs in the last digit

OPS = ['write a', 'write b', 'write over longer', 'write over source', 'write again', 'write below a file', 'look', 'read again']


def norm(cls, e, c):
    """ content that the format stores """
    c = cp(c)
    if cls == 'FASTInputFile':
        if isinstance(c.get('entries'), list):
            for x in c['entries']:
                if x[4] not in (None, 0):   # remarks on the heading line of a table are not kept
                    x[2] = ''
                if isinstance(x[2], str):
                    x[2] = x[2].strip().strip('-').strip()
    elif cls == 'FASTOutputFile':
        c['info'].pop('description', None)
        c['info'].pop('fileID', None)
        # 16 bits per channel: relative to the size of the channel
        d = np.asarray(c['data'], float)
        c['data'] = d / np.maximum(np.max(np.abs(d), axis=0, keepdims=True), 1e-30)
        if hasattr(c['table'], 'columns'):
            c['table'] = [str(x) for x in c['table'].columns]
    elif cls == 'TurbSimFile':
        c['items'].pop('info', None)
    elif cls == 'HAWC2PCFile':
        c['data']['<PCFile>'].pop('filename', None)
    elif cls == 'VTKFile':
        c = {k: c[k] for k in ('points', 'cells', 'point_data')}
    return c


def tol(cls, e):
    if cls == 'FASTOutputFile':
        return (1e-4, 1e-4)
    if cls == 'TurbSimFile':
        return (1e-3, 1e-3)
    return (1e-6, 1e-9)


def raw(b):
    """ bytes of a file without time stamps """
    if b[:2] == b'PK':
        z = zipfile.ZipFile(io.BytesIO(b))
        return tuple((n, z.read(n)) for n in sorted(z.namelist()) if 'core.xml' not in n)
    return stamp(b)


def targets(cls, e, d):
    if cls == 'HAWC2DatFile':
        b = os.path.splitext(e.main)[0]
        return sorted([os.path.join(d, b + '.dat'), os.path.join(d, b + '.sel')])
    return [os.path.join(d, e.main)]


_OK = {}    # (entry, bytes) -> the reread content agrees


def make(cls, es, depth):
    writable = cls in WRITABLE
    def h(ch):
        e = ch.pick('file', es)
        can = writable and not e.name.startswith(READONLY)
        f = e.read('v')
        os.makedirs('o'); os.makedirs('p'); os.makedirs('q')
        for t in targets(cls, e, 'q'):
            put(t, b'previous content\n' * 20000)
        blk = put('blk', b'a file')
        c0 = obs.content(f)
        cur = 'v'
        ref = None       # bytes of the first write
        wrote = False    # the object was written: the file it came from may not exist in this form
        gen = 0
        named = True     # after a failed write the name of the object is not specified
        hist = []
        for k in range(depth):
            op = ch.pick('op', OPS if can else [o for o in OPS if o != 'read again'])
            hist.append(op)
            w = '%s %s %s' % (cls, e.name, hist)
            t0 = tree('.')
            ch.op()
            if op == 'look':
                f.toDataFrame() if cls != 'VTKFile' else None
                outcome(repr, f)    # (for CSV the text asks the file for its encoding)
                ch.check(tree('.') == t0, w + ': a query changed a file')
                continue
            if op == 'read again':
                f.read(*([] if named else [os.path.join(cur, e.main)]), **(e.kw if cls == 'MannBoxFile' else {}))
                named = True
                ch.check(tree('.') == t0, w + ': reading changed a file')
                c = obs.content(f)
                ch.eq(norm(cls, e, c), norm(cls, e, c0), w + ': content', tol(cls, e))
                if wrote and cur:
                    c0 = c     # the object now is the second generation
                    gen += 1
                continue
            if op == 'write below a file':
                x = raises(f.write, os.path.join(blk, e.main))
                ch.check(x is not None, w + ': writing below a file raised nothing')
                ch.check(tree('.') == t0, w + ': failed writing changed files')
                named = False
            else:
                d = {'write a': 'o', 'write b': 'p', 'write over longer': 'q', 'write over source': 'v', 'write again': cur}[op]
                x = raises(f.write, *([] if op == 'write again' and named else [os.path.join(d, e.main)]))
                if not can:
                    ch.check(x is not None, w + ': a format that can not be written raised nothing')
                    ch.check(tree('.') == t0, w + ': files changed by a failed write: %s' % sorted(k for k, v in tree('.').items() if t0.get(k) != v))
                    named = False
                else:
                    if x is not None:
                        raise Violation(w + ': writing failed: %s: %s' % (type(x).__name__, x))
                    t1 = tree('.')
                    tg = targets(cls, e, d)
                    ch.check(sorted(k for k in set(t0) | set(t1) if k not in tg and t0.get(k) != t1.get(k)) == [], w + ': other files changed: %s' % sorted(k for k in set(t0) | set(t1) if k not in tg and t0.get(k) != t1.get(k)))
                    ch.check(all(t in t1 for t in tg), w + ': not written: %s' % [t for t in tg if t not in t1])
                    b = [raw(t1[t]) for t in tg]
                    if ref is None:
                        ref = b
                    if not (gen and cls in LOSSY):
                        ch.check(b == ref, w + ': the file differs from the one written first%s' % (' (after reading it back)' if gen else ''))
                    if cls == 'MannBoxFile':
                        ch.check(t1[tg[0]] == e.files[e.main], w + ': the file differs from the original')
                    key = (e.name, tuple(t1[t] for t in tg))
                    ch.eq(str(f.filename), os.path.join(d, e.main), w + ': file name of the object')
                    if key not in _OK:
                        g = corpus.klass(cls)(os.path.join(d, e.main), **e.kw)
                        ch.eq(norm(cls, e, obs.content(g)), norm(cls, e, c0), w + ': content read back', tol(cls, e))
                        if len(_OK) < 400:
                            _OK[key] = True
                    cur, named = d, True
                    wrote = True
            ch.eq(norm(cls, e, obs.content(f)), norm(cls, e, c0), w + ': content of the object after writing')
        ch.state(cls, e.name, tuple(hist))
    return h


def harnesses(tier):
    out = []
    for cls, es in sorted(corpus.by_class().items()):
        small = min(es, key=lambda e: (sum(map(len, e.files.values()))))
        if tier == 'quick':
            out.append((cls, make(cls, es, 2)))
            if cls in WRITABLE:
                out.append((cls + '-deep', make(cls, [small], 3)))
        else:
            out.append((cls, make(cls, es, 3)))
    return out
