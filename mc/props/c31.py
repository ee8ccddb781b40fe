"""C31: copies of a file object (copy.deepcopy, pickle) are equal to it and independent of it"""
import os, copy, pickle
from ..core import Violation
from ..util import *
from .. import corpus, obs
from .c04 import stamp
from .c05 import spoil, new, base
from .c06 import WRITABLE, READONLY, raw, targets

INFO = dict(bounds='every example and generated file x 2 (3) ways to copy (deepcopy, pickle with the current and an old protocol) x 4 histories before it (fresh, looked at, written, copied) x 5 after it (original changed, copy changed, copy re-read from another file, copy written and read back, original deleted with its file); a pool of up to 3 objects and all sequences of 3 (4) operations for one file of each class; methods of the objects of HAWC2, FAST deck, VTK on both sides')

HOW = {'deepcopy': copy.deepcopy, 'pickle': lambda f: pickle.loads(pickle.dumps(f, protocol=4)), 'pickle 2': lambda f: pickle.loads(pickle.dumps(f, protocol=2))}


def methods(f):
    """ answers of the methods of the object that a copy must give as well """
    d = {}
    t = type(f).__name__
    if t == 'HAWC2StFile':
        s = f.data
        for c in list(getattr(s, 'cols', [])):
            d[c] = obs.res(lambda: [getattr(s, c)(None, m, k) for m in s.main_data_sets for k in s.main_data_sets[m]])
        d['EI'] = obs.res(lambda: s.to_str())
    elif t == 'HAWC2PCFile':
        d['CL'] = obs.res(lambda: [f.data.CL(x, 4.) for x in (12., 24.)])
    elif t == 'HAWC2AEFile':
        d['chord'] = obs.res(lambda: [f.data.chord(x) for x in (1., 24.)])
    elif t == 'HAWC2HTCFile':
        d['text'] = obs.res(lambda: str(f.data))
        d['keys'] = obs.res(lambda: list(f.data.keys()))
        d['in'] = obs.res(lambda: sorted(os.path.basename(x) for x in f.data.input_files()))
        def loc():
            s = [x for x in f.data if hasattr(x, 'contents')]
            return [x.location().split('/', 1)[1] for x in s] + [y.location().split('/', 1)[1] for x in s for y in x]
        d['location'] = obs.res(loc)
    elif t == 'FASTInputFile':
        d['keys'] = obs.res(f.keys)
        def ids():
            return [f.getID(x['label']) for x in f.fixedfile.data][:60]
        d['ids'] = obs.res(ids)
    elif t == 'VTKFile':
        d['planes'] = obs.res(f.__repr__)
    return d


def written(f, d, e):
    """ bytes that the object writes (or the kind of its error) """
    os.makedirs(d)
    fn = f.filename
    x = raises(f.write, os.path.join(d, e.main))
    for o in (f, getattr(f, 'fixedfile', None), getattr(f, 'basefile', None), getattr(f, 'data', None)):
        if 'filename' in getattr(o, '__dict__', {}):
            o.filename = fn
    if x is not None:
        return type(x).__name__
    return {k: raw(b) for k, b in tree(d).items()}


def state(f):
    d = obs.content(f)
    d['methods'] = methods(f)
    d['class'] = type(f).__name__
    return d


BEFORE = ['fresh', 'looked at', 'written', 'copied']
AFTER = ['original changed', 'copy changed', 'copy re-read', 'copy written', 'original gone']


def make(cls, es, hows):
    def h(ch):
        e = ch.pick('file', es)
        how = ch.pick('copy', hows)
        before = ch.pick('before', BEFORE)
        what = '%s %s: %s of an object (%s)' % (cls, e.name, how, before)

        def go():
            f = e.read('v')
            s0 = state(f)
            if before == 'looked at':
                obs.full(f)
            elif before == 'written':
                written(f, 'b', e)
            elif before == 'copied':
                f = HOW[how](f)
            w0 = written(HOW[how](f), 'w0', e)
            g = HOW[how](f)
            ch.check(type(g) is type(f), what + ': type %s' % type(g).__name__)
            ch.eq(state(g), s0, what)
            ch.eq(state(f), s0, what + ': the original')
            ch.check(written(g, 'w1', e) == w0 and written(f, 'w2', e) == w0, what + ': the bytes written differ')
            # the copy and the original do not share anything
            for k, after in enumerate(AFTER):
                o = HOW[how](f)
                c = HOW[how](o)
                w = what + ', ' + after
                if after == 'original changed':
                    spoil(o)
                    left = c
                elif after == 'copy changed':
                    spoil(c)
                    left = o
                elif after == 'copy re-read':
                    e2 = es[(es.index(e) + 1) % len(es)]
                    b2 = base(e2)
                    e2.place('w')
                    c.read(os.path.join('w', e2.main), **e2.kw)
                    ch.eq(obs.content(c), b2, w + ' from %s' % e2.name)
                    left = o
                elif after == 'copy written':
                    written(c, 'x', e)
                    left = o
                else:
                    del o
                    import shutil
                    shutil.rmtree('v')
                    s = state(c)
                    t = dict(s0)
                    for d in (s, t):
                        d['methods'] = {k: v for k, v in d['methods'].items() if k != 'in'}    # looks for the files
                    ch.eq(s, t, w)
                    continue
                ch.eq(state(left), s0, w + ': the other object')
                ch.check(written(left, 'y%d' % k, e) == w0, w + ': the bytes written by the other object differ')
        obs.in_child(go)
        ch.op(8)
        ch.state(cls, e.name, how, before)
    return h


def edit(f, n):
    """ a small edit, the n-th """
    d = f.data if 'data' in getattr(f, '__dict__', {}) else None
    import numpy as np, pandas as pd
    t = type(f).__name__
    if t == 'FASTInputFile' and isinstance(f.fixedfile.data, list):
        for x in f.fixedfile.data:
            if isinstance(x['value'], np.ndarray) and x['value'].dtype.kind == 'f' and x['value'].size:
                x['value'].ravel()[-1] += n
                return
        for x in f.fixedfile.data:
            if isinstance(x['value'], float) and not x['isComment']:
                x['value'] += n
                return
        return
    if t == 'HAWC2HTCFile':
        f.data.contents['added%d' % n] = f.data.contents[list(f.data.contents)[0]]
        return
    if t == 'HAWC2StFile':
        m = f.data.main_data_sets
        m = m[list(m)[0]]
        m[list(m)[0]][0, 1] += n
        return
    for v in ([d] if d is not None else []) + (list(dict.values(f)) if isinstance(f, dict) else []):
        if isinstance(v, pd.DataFrame) and len(v):
            for c in range(v.shape[1]):
                if v.dtypes.iloc[c].kind == 'f':
                    v.iloc[0, c] += n
                    return
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
            v.ravel()[0] += n
            return
    if isinstance(f, dict):
        f['added%d' % n] = n


def make_pool(cls, e, depth):
    OPS = ['edit 0', 'edit 1', 'copy 0', 'copy 1', 'pickle 0', 'write 0', 'write 1', 'look 0', 'look 1']

    def h(ch):
        hist = [ch.pick('op', OPS) for _ in range(depth)]
        size = 1
        for o in hist:
            if o.endswith('1') and size == 1:
                return
            size += o.startswith(('copy', 'pickle'))
        if size == 1 or not any(o.startswith(('edit', 'write', 'look')) for o in hist):
            return

        def go():
            # objects of the pool and the edits each of them got
            pool, edits = [e.read('v')], [[]]
            n = 0
            for k, op in enumerate(hist):
                o, i = op.split()
                i = int(i)
                if o == 'edit':
                    n += 1
                    edit(pool[i], n)
                    edits[i] = edits[i] + [n]
                elif o in ('copy', 'pickle'):
                    pool.insert(1, HOW['deepcopy' if o == 'copy' else 'pickle'](pool[i]))
                    edits.insert(1, edits[i])
                elif o == 'write':
                    written(pool[i], 'w%d' % k, e)
                else:
                    obs.full(pool[i])
            for j, (f, ed) in enumerate(zip(pool, edits)):
                g = new(e)
                for n in ed:
                    edit(g, n)
                what = '%s %s: %s, object %d (edits %s)' % (cls, e.name, hist, j, ed)
                ch.eq(state(f), state(g), what, (1e-12, 0))
                ch.check(written(f, 'f%d' % j, e) == written(g, 'g%d' % j, e), what + ': the bytes written differ')
        obs.in_child(go)
        ch.op(depth)
        ch.state(cls, hist)
    return h


def harnesses(tier):
    out = []
    for cls, es in sorted(corpus.by_class().items()):
        out.append((cls, make(cls, es, list(HOW) if tier == 'thorough' else ['deepcopy', 'pickle'])))
        out.append((cls + ' pool', make_pool(cls, es[0], 3 if tier == 'quick' else 4)))
    return out
