"""C03: errors on missing, empty, unnamed files, for every format"""
import os
from ..core import Violation
from ..util import *
from .. import corpus, obs

INFO = dict(bounds='all 33 formats of the library (2 valid files each where possible); every history of up to 3 calls on one object over {missing file, empty file, file of one byte, folder, no name, valid file, other valid file, write without name}, via the constructor or read()')

CALLS = ['missing', 'empty', 'folder', 'tiny', 'read', 'other']


def base(e):
    """ observation of a valid file read by a new object """
    return obs.content(e.read('v'))


def ext(e):
    return os.path.splitext(e.main)[1]


def attempt(ch, e, e2, f, call, via):
    """ one failing or succeeding call; returns the object """
    C = corpus.klass(e.cls)
    kw = {}
    if call == 'missing':
        fn = 'nothere' + ext(e)
    elif call == 'empty':
        fn = put('empty' + ext(e), b'')
    elif call == 'folder':
        fn = 'folder' + ext(e)
        os.makedirs(fn, exist_ok=True)
    elif call == 'tiny':
        fn = put('tiny' + ext(e), ch.pick('byte', [b'7', b'\n', b'\x00']))
    else:
        x = e if call == 'read' else e2
        fn = x.place('v' if call == 'read' else 'w')
        kw = x.kw
    before = tree('.')
    ch.op()
    g = f
    if via == 'constructor':
        k, v = outcome(C, fn, **kw)
        if k == 'ok':
            g = v
    else:
        if f is None:
            g = C()
        k, v = outcome(g.read, fn, **kw)
    ch.eq({k2: len(b) for k2, b in tree('.').items()}, {k2: len(b) for k2, b in before.items()}, 'files after %s' % call)
    ch.check(tree('.') == before, 'reading (%s) changed a file' % call)
    if call in ('missing', 'folder'):
        ch.check(k == 'err' and isinstance(v, OSError), '%s: reading a %s path gives %s instead of a file-not-found error' % (e.cls, call, type(v).__name__ if k == 'err' else 'an object'))
    elif call == 'empty':
        ch.check(k == 'err' and 'EmptyFileError' in mro_names(v), '%s: reading an empty file gives %s instead of EmptyFileError' % (e.cls, '%s(%s)' % (type(v).__name__, v) if k == 'err' else 'an object'))
    elif call == 'tiny':
        # one byte is not an empty file, whatever the format makes of it
        ch.check(k == 'ok' or 'EmptyFileError' not in mro_names(v) or 'no data' in str(v), '%s: a file of one byte is said to be empty: %s' % (e.cls, v))
    else:
        if k == 'err':
            raise Violation('%s: valid file %s not read after earlier calls: %s: %s' % (e.cls, e.name, type(v).__name__, v))
    return g


def make(cls, es, depth):
    def h(ch):
        i = ch.pick('file', range(min(2, len(es))))
        e = es[i]
        e2 = es[(i + 1) % len(es)]
        n = ch.pick('calls', range(0, depth + 1))
        f = None
        for k in range(n):
            call = ch.pick('call', CALLS[:4])
            via = ch.pick('via', ['read', 'constructor'])
            f = attempt(ch, e, e2, f, call, via)
        last = ch.pick('then', ['read', 'noname read', 'noname write', 'detect missing', 'detect empty'])
        C = corpus.klass(cls)
        if last == 'read':
            f = attempt(ch, e, e2, f, 'read', 'read')
            ch.state(cls, e.name, obs.canon(obs.content(f)))
            ch.eq(obs.content(f), base(e), '%s content of %s after failed calls' % (cls, e.name))
        elif last.startswith('noname'):
            g = C()
            before = tree('.')
            k, v = outcome(g.read if last == 'noname read' else g.write)
            ch.check(k == 'err', '%s: %s without file name succeeded' % (cls, last))
            ch.check(tree('.') == before, '%s: %s without a file name touched a file' % (cls, last))
        else:
            import weio
            x = ext(e)
            fn = 'dm' + x if last == 'detect missing' else put('de' + x, b'')
            before = tree('.')
            k, v = outcome(weio.read, fn)
            ch.check(k == 'err', 'weio.read of a bad file gives an object')
            want = 'FileNotFoundError' if last == 'detect missing' else 'EmptyFileError'
            ch.check(want in mro_names(v), 'weio.read of a file %s gives %s: %s' % (fn, type(v).__name__, v))
            ch.check(tree('.') == before, 'weio.read of a bad file touched a file')
    return h


def harnesses(tier):
    import weio
    weio.fileFormats(userpath='/nonexistent', verbose=False)
    bc = corpus.by_class()
    d = 2 if tier == 'quick' else 3
    return [(cls, make(cls, es, d)) for cls, es in sorted(bc.items())]
