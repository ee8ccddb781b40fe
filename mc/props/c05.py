"""C05: a read depends on the file only"""
import os, copy
import numpy as np
import pandas as pd
from ..core import Violation
from ..util import *
from .. import corpus, obs

INFO = dict(bounds='every ordered pair of example/generated files of one format x 7 histories (two objects, same object re-read, failed reads in between, content changed in place, object written), each in a process of its own; one pair of representative files for every ordered pair of formats; compared with the content read in a new process')


def new(e, sub='v'):
    return corpus.klass(e.cls)(os.path.join(sub, e.main), **e.kw)


_BASE = {}


def base(e):
    """ content of a file read in a process without history """
    if e.name not in _BASE:
        def go():
            e.place('v0')
            return obs.content(corpus.klass(e.cls)(os.path.join('v0', e.main), **e.kw))
        _BASE[e.name] = obs.in_child(go)
        import shutil
        shutil.rmtree('v0', ignore_errors=True)
    return _BASE[e.name]


def spoil(o, seen=None, depth=0):
    """ changes everything that can be changed in place """
    seen = set() if seen is None else seen
    if id(o) in seen or depth > 8:
        return
    seen.add(id(o))
    if isinstance(o, np.ndarray):
        try:
            if o.dtype.kind in 'fiuc':
                o *= 0
                o -= 77 if o.dtype.kind != 'u' else 0
            elif o.dtype.kind in 'OUS':
                if o.dtype.kind == 'O':
                    for x in o.ravel():
                        spoil(x, seen, depth + 1)
                o[...] = 'x'
        except (ValueError, TypeError):
            pass
    elif isinstance(o, pd.DataFrame):
        try:
            for c in range(o.shape[1]):
                o.iloc[:, c] = -77
            o.columns = ['spoiled%d' % i for i in range(o.shape[1])]
        except Exception:
            pass
    elif isinstance(o, list):
        for x in list(o):
            spoil(x, seen, depth + 1)
        o.append('spoiled')
    elif isinstance(o, dict):
        for k, v in list(dict.items(o)):
            spoil(v, seen, depth + 1)
        dict.__setitem__(o, 'spoiled', 1)
        if hasattr(o, '__dict__'):
            spoil(vars(o), seen, depth + 1)
            vars(o).pop('spoiled', None)


def bad_files(e):
    """ variants of the file that may not be readable: cut in the middle, without its second half of lines, noise """
    b = e.files[e.main]
    return {'half': b[:len(b) // 2], 'noise': bytes(range(256)) * 2, 'text': b'not a file of any format\n1 2 x\n\n'}


KINDS = ['two objects', 'two objects, other order', 'same object', 'same object, queried', 'same object, bad reads', 'changed', 'written']


def make(cls, es, kinds, seconds=None):
    seconds = seconds or es

    def h(ch):
        e1 = ch.pick('first', es)
        kind = ch.pick('history', kinds)
        if kind in ('changed',):
            e2 = e1
        else:
            e2 = ch.pick('second', seconds)
        b1, b2 = base(e1), base(e2)
        what = '%s: %s, then %s, %s' % (cls, e1.name, e2.name, kind)

        def go():
            e1.place('v')
            e2.place('w')
            if kind in ('two objects', 'two objects, other order'):
                f = new(e1)
                if kind != 'two objects':
                    ch.eq(obs.content(f), b1, what + ': first object')
                g = new(e2, 'w')
                if kind == 'two objects':
                    ch.eq(obs.content(g), b2, what + ': second object')
                    ch.eq(obs.content(f), b1, what + ': first object')
                else:
                    ch.eq(obs.content(f), b1, what + ': first object')
                    ch.eq(obs.content(g), b2, what + ': second object')
            elif kind in ('same object', 'same object, queried'):
                f = new(e1)
                if kind != 'same object':
                    obs.full(f)
                f.read(os.path.join('w', e2.main), **e2.kw)
                ch.eq(obs.content(f), b2, what + ': re-read')
            elif kind == 'same object, bad reads':
                f = new(e1)
                for n, b in bad_files(e1).items():
                    put(os.path.join('bad' + n, e1.main), b)
                    outcome(f.read, os.path.join('bad' + n, e1.main))
                f.read(os.path.join('w', e2.main), **e2.kw)
                ch.eq(obs.content(f), b2, what + ': re-read')
                ch.eq(obs.content(new(e2, 'w')), b2, what + ': new object')
            elif kind == 'changed':
                f = new(e1)
                o = new(e2, 'w')
                spoil(f.toDataFrame() if outcome(f.toDataFrame)[0] == 'ok' else None)
                spoil(f)
                g = new(e2, 'w')
                ch.eq(obs.content(g), b2, what + ': new object')
                ch.eq(obs.content(o), b2, what + ': other object')
            elif kind == 'written':
                f = new(e1)
                g = new(e2, 'w')
                t0 = tree('w')
                os.makedirs('out')
                outcome(f.write, os.path.join('out', e1.main))
                ch.check(tree('w') == t0, what + ': writing changed a file of the other object')
                ch.eq(obs.content(g), b2, what + ': other object')
                ch.eq(obs.content(new(e2, 'w')), b2, what + ': new object')
        obs.in_child(go)
        ch.op(3)
        ch.state(cls, e1.name, e2.name, kind)
    return h


def h_cross(ch):
    reps = [es[0] for c, es in sorted(corpus.by_class().items())]
    e1 = ch.pick('first', reps)
    e2 = ch.pick('second', reps)
    b1, b2 = base(e1), base(e2)
    what = '%s %s and %s %s' % (e1.cls, e1.name, e2.cls, e2.name)

    def go():
        e1.place('v')
        e2.place('w')
        f = new(e1)
        g = new(e2, 'w')
        ch.eq(obs.content(g), b2, what + ': second object')
        ch.eq(obs.content(f), b1, what + ': first object')
        spoil(f)
        ch.eq(obs.content(g), b2, what + ': second object after the first was changed')
        ch.eq(obs.content(new(e2, 'w')), b2, what + ': third object')
    obs.in_child(go)
    ch.op(3)
    ch.state(e1.name, e2.name)


REPS = ('FASTIn_AD15_arf_multitabs.dat', 'FASTIn_AD15_arfl.dat', 'FASTIn_AD15_bld.dat', 'FASTIn_ED_bld.dat', 'FASTIn_ED.dat', 'FASTIn_BD_bld.dat', 'FASTIn_ExtPtfm_SubSef.dat', 'FASTIn_SbD.dat', 'FASTIn_AD14_arf.dat', 'FASTIn_HD.dat')


def harnesses(tier):
    out = []
    for cls, es in sorted(corpus.by_class().items()):
        sec, kinds = None, KINDS
        if tier == 'quick' and cls == 'FASTInputFile':
            sec = [e for e in es if e.name in REPS]
        if tier == 'quick' and cls in ('RAAWMatFile', 'TurbSimFile'):
            kinds = [k for k in KINDS if k not in ('two objects, other order', 'same object, queried')]
        out.append((cls, make(cls, es, kinds, sec)))
    out.append(('cross', h_cross))
    return out
