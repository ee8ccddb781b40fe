"""Stateless, exhaustive choice-tree explorer.

A *harness* is a deterministic function `h(ch)` that
  - draws every input, operation, environment answer, ... from `ch.pick(name, options)`,
  - runs the real weio code and a boring reference model in lock step,
  - raises `Violation` (or lets an unexpected exception escape) when they disagree.

The explorer replays a prefix of choices and takes option 0 afterwards, and
backtracks over every alternative of every choice point: all complete
executions of the harness (within the alphabets given by the harness) are run.
Nothing is sampled.
"""
import os, sys, io, json, time, hashlib, signal, tempfile, shutil, traceback, multiprocessing, resource
import contextlib, gc

REPO = os.environ.get('WEIO_REPO', '/repo')

EXEC_TIMEOUT = 200      # seconds, for one execution of a harness (a run takes milliseconds)
CPU_TIMEOUT = 40        # seconds of processor time, for one execution
MEM_LIMIT = 10 << 30
MAXV = int(os.environ.get('MC_MAXV', '3'))


class Violation(Exception):
    """ The property does not hold on this execution.
    key: stable identification of the failing input/history (used by known-findings) """
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg = msg
        self.key = key


class Hang(BaseException):
    pass


class Skip(Exception):
    """ the execution is outside of the domain of the property (counted, never silently) """


class Diverged(Exception):
    pass


class Chooser:
    def __init__(self, prefix):
        self.prefix = list(prefix)
        self.points = []      # (name, chosen index, number of options, repr of option)
        self.sigs = []        # hashes of the states seen
        self.nops = 0
        self.dir = None

    def pick(self, name, options):
        options = list(options) if not isinstance(options, (list, tuple, range)) else options
        n = len(options)
        if n == 0:
            raise Diverged('empty choice %s' % name)
        i = len(self.points)
        c = self.prefix[i] if i < len(self.prefix) else 0
        if not 0 <= c < n:
            raise Diverged('choice %d out of range at point %d (%s)' % (c, i, name))
        o = options[c]
        self.points.append((name, c, n, o))
        return o

    def flag(self, name):
        return self.pick(name, (False, True))

    def op(self, k=1):
        """ count real operations performed on the implementation """
        self.nops += k

    def state(self, *what):
        """ record a canonical form of an observed state """
        h = hashlib.blake2b(canon(what), digest_size=8).digest()
        self.sigs.append(h)
        return h

    def trace(self):
        return [[n, c, _r(o)] for (n, c, _, o) in self.points]

    # --- assertions
    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg, key)

    def eq(self, got, want, what='value', tol=None, key=None):
        d = diff(got, want, what, tol)
        if d:
            raise Violation(d, key)


def _r(o, n=160):
    try:
        s = o.__name__ if callable(o) and hasattr(o, '__name__') else repr(o)
    except Exception as e:
        s = '<unprintable %s>' % type(o).__name__
    return s if len(s) <= n else s[:n] + '...'


# ---------------------------------------------------------------- canonical form, comparison
def canon(o):
    """ canonical bytes of a (nested) value: content only """
    import numpy as np
    out = []
    _canon(o, out, np)
    return b'\x00'.join(out)


def _canon(o, out, np):
    import pandas as pd
    if o is None or isinstance(o, (bool, int, str)):
        out.append(('%s:%r' % (type(o).__name__, o)).encode('utf-8', 'surrogatepass'))
    elif isinstance(o, float):
        out.append(b'f:' + float.hex(o).encode() if o == o else b'f:nan')
    elif isinstance(o, bytes):
        out.append(b'b:' + o)
    elif isinstance(o, np.ndarray):
        out.append(('A%s' % (o.shape,)).encode())
        if o.dtype.kind == 'O':
            for x in o.ravel():
                _canon(x, out, np)
        elif o.dtype.kind in 'fc':
            a = np.ascontiguousarray(o.astype('c16' if o.dtype.kind == 'c' else 'f8')) + 0.0
            out.append(a.tobytes())
        elif o.dtype.kind in 'iub':
            out.append(np.ascontiguousarray(o.astype('i8')).tobytes())
        else:
            out.append(repr(o.tolist()).encode('utf-8', 'surrogatepass'))
    elif isinstance(o, np.generic):
        _canon(o.item(), out, np)
    elif isinstance(o, dict):
        out.append(b'{')
        for k in sorted(o, key=lambda k: repr(k)):
            _canon(k, out, np)
            _canon(o[k], out, np)
        out.append(b'}')
    elif isinstance(o, (list, tuple)):
        out.append(b'[')
        for x in o:
            _canon(x, out, np)
        out.append(b']')
    elif isinstance(o, (set, frozenset)):
        _canon(sorted(o, key=repr), out, np)
    elif isinstance(o, pd.DataFrame):
        out.append(b'DF')
        _canon([str(c) for c in o.columns], out, np)
        _canon(list(o.index), out, np)
        for i in range(o.shape[1]):
            _canon(o.iloc[:, i].values, out, np)
    elif isinstance(o, pd.Series):
        _canon(o.values, out, np)
    elif isinstance(o, complex):
        out.append(repr(o).encode())
    else:
        out.append(('<%s>' % type(o).__name__).encode())


def diff(got, want, what='value', tol=None):
    """ None if equal (numbers within tol: (rtol, atol)), else a message """
    import numpy as np
    import pandas as pd
    if isinstance(want, pd.DataFrame):
        if not isinstance(got, pd.DataFrame):
            return '%s: expected a table, got %s' % (what, type(got).__name__)
        if [str(c) for c in got.columns] != [str(c) for c in want.columns]:
            return '%s: columns %s instead of %s' % (what, list(got.columns)[:20], list(want.columns)[:20])
        if len(got) != len(want):
            return '%s: %d rows instead of %d' % (what, len(got), len(want))
        for i in range(want.shape[1]):
            d = diff(got.iloc[:, i].values, want.iloc[:, i].values, '%s[%s]' % (what, want.columns[i]), tol)
            if d:
                return d
        return None
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s: expected a dictionary, got %s' % (what, type(got).__name__)
        a, b = set(got.keys()), set(want.keys())
        if a != b:
            return '%s: keys differ: unexpected %s, missing %s' % (what, sorted(map(str, a - b))[:8], sorted(map(str, b - a))[:8])
        for k in want:
            d = diff(got[k], want[k], '%s[%r]' % (what, k), tol)
            if d:
                return d
        return None
    if isinstance(want, np.ndarray) or isinstance(got, np.ndarray):
        try:
            g, w = np.asarray(got), np.asarray(want)
        except Exception:
            return '%s: %s instead of %s' % (what, _r(got), _r(want))
        if g.shape != w.shape:
            return '%s: shape %s instead of %s' % (what, g.shape, w.shape)
        if g.dtype.kind in 'fiubc' and w.dtype.kind in 'fiubc':
            if tol is None:
                ok = (g == w) | ((g != g) & (w != w))
            else:
                with np.errstate(all='ignore'):
                    ok = np.isclose(g, w, rtol=tol[0], atol=tol[1], equal_nan=True)
            if np.all(ok):
                return None
            i = tuple(int(x) for x in np.argwhere(~np.atleast_1d(ok))[0])
            return '%s%s: %r instead of %r (%d of %d values differ)' % (
                what, list(i), np.atleast_1d(g)[i].item(), np.atleast_1d(w)[i].item(), int(np.sum(~np.atleast_1d(ok))), ok.size if hasattr(ok, 'size') else 1)
        for i, (x, y) in enumerate(zip(g.ravel().tolist(), w.ravel().tolist())):
            d = diff(x, y, '%s[%d]' % (what, i), tol)
            if d:
                return d
        return None
    if isinstance(want, (list, tuple)):
        if not isinstance(got, (list, tuple)):
            return '%s: %s instead of %s' % (what, _r(got), _r(want))
        if len(got) != len(want):
            return '%s: length %d instead of %d: %s instead of %s' % (what, len(got), len(want), _r(got), _r(want))
        for i, (x, y) in enumerate(zip(got, want)):
            d = diff(x, y, '%s[%d]' % (what, i), tol)
            if d:
                return d
        return None
    if isinstance(want, np.generic):
        want = want.item()
    if isinstance(got, np.generic):
        got = got.item()
    num = (int, float, complex)
    if isinstance(want, num) and isinstance(got, num):
        if isinstance(want, bool) != isinstance(got, bool):
            return '%s: %r instead of %r' % (what, got, want)
        if want != want and got != got:
            return None
        if want == got:
            return None
        if tol is not None and abs(got - want) <= tol[1] + tol[0] * abs(want):
            return None
        return '%s: %r instead of %r' % (what, got, want)
    if type(want) != type(got) and not (isinstance(want, str) and isinstance(got, str)):
        return '%s: %s instead of %s' % (what, _r(got), _r(want))
    if want == got:
        return None
    return '%s: %s instead of %s' % (what, _r(got), _r(want))


# ---------------------------------------------------------------- running
@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    sys.stderr = io.StringIO()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def _alarm(sig, frm):
    raise Hang('no answer: an execution of milliseconds did not end within %d s of processor time' % CPU_TIMEOUT if sig == signal.SIGPROF else 'no answer after %d s' % EXEC_TIMEOUT)


_SCRATCH = None


def scratch_root():
    """ one scratch folder per process """
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get('MC_SCRATCH')
        d = tempfile.mkdtemp(prefix='p%d_' % os.getpid(), dir=base)
        _SCRATCH = (os.getpid(), d)
    return _SCRATCH[1]


class Result:
    __slots__ = ('points', 'viol', 'skip', 'sigs', 'nops', 'hang')


_count = 0


def run_one(h, prefix):
    """ one execution of the harness; returns a Result """
    global _count
    _count += 1
    ch = Chooser(prefix)
    root = scratch_root()
    d = os.path.join(root, 'x')
    if os.path.isdir(d):
        _clean(d)
    else:
        os.makedirs(d)
    ch.dir = d
    os.chdir(d)
    r = Result()
    r.viol = None
    r.skip = r.hang = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    # (again and again: the code may swallow the exception)
    signal.setitimer(signal.ITIMER_REAL, EXEC_TIMEOUT, 5)
    signal.setitimer(signal.ITIMER_PROF, CPU_TIMEOUT, 2)
    try:
        with quiet():
            h(ch)
    except Violation as v:
        r.viol = (v.msg, v.key)
    except Skip:
        r.skip = True
    except Diverged:
        raise
    except Hang as e:
        r.viol = (str(e), None)
        r.hang = True
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = ' <- '.join('%s:%s' % (os.path.basename(t.filename), t.name) for t in list(reversed(tb))[:4])
        r.viol = ('unexpected %s: %s [%s]' % (type(e).__name__, _r(str(e), 300), loc), None)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir(root)
    if len(ch.points) < len(prefix) and r.viol is None:
        raise Diverged('execution ended before its prefix: %s' % (prefix,))
    r.points = ch.points
    r.sigs = ch.sigs
    r.nops = ch.nops
    r_trace = ch.trace
    if r.viol:
        r.viol = r.viol + (r_trace(),)
    return r


def _clean(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            try:
                os.unlink(p)
            except OSError:
                pass


def limit_memory():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    except Exception:
        pass


def subtree(h, prefix, deadline, known):
    """ explores every execution whose choices start with prefix.
    returns dict(execs, skips, ops, sigs, viols, knowns, samples, complete) """
    out = dict(execs=0, skips=0, ops=0, points=0, sigs=set(), viols=[], knowns={}, samples=[], complete=True)
    stack = [list(prefix)]
    while stack:
        if time.time() > deadline:
            out['complete'] = False
            break
        p = stack.pop()
        r = run_one(h, p)
        out['execs'] += 1
        out['ops'] += r.nops
        out['points'] += len(r.points)
        if r.skip:
            out['skips'] += 1
        out['sigs'].update(r.sigs)
        if out['execs'] in (1, 17):
            out['samples'].append([[n, _r(o, 60)] for (n, c, k, o) in r.points])
        if r.viol:
            msg, key, tr = r.viol
            if key is not None and key in known:
                out['knowns'].setdefault(key, (msg, tr))
            else:
                out['viols'].append((msg, key, [c for (_, c, _, _) in r.points], tr))
                if len(out['viols']) >= MAXV or r.hang:
                    out['complete'] = False
                    break
        ch = [c for (_, c, _, _) in r.points]
        for i in range(len(r.points) - 1, len(p) - 1, -1):
            n = r.points[i][2]
            for alt in range(n - 1, 0, -1):
                stack.append(ch[:i] + [alt])
    return out


def shards(h, want=48, maxdepth=4):
    """ prefixes that partition the choice tree """
    cur = [[]]
    for depth in range(maxdepth):
        if len(cur) >= want:
            break
        nxt = []
        grew = False
        for p in cur:
            if len(p) < depth:
                nxt.append(p)
                continue
            r = run_one(h, p)
            if r.hang:
                # (one is enough: every further execution could take as long)
                return [[c for (_, c, _, _) in r.points]], r.viol
            if len(r.points) <= len(p) or r.viol:
                nxt.append(p)
                continue
            n = r.points[len(p)][2]
            nxt += [p + [k] for k in range(n)]
            grew = True
        cur = nxt
        if not grew:
            break
    return cur, None
