"""C20: FLEX time-series files (.int, .res) and their sensor file"""
import os
import struct
from ..core import Violation
from ..util import *

INFO = dict(bounds='versions 0, 2, 3; headers with a date or with 4 kinds of titles; 1..4 channels, 1..5 steps, 5 sample patterns, 7 scalings; every 16-bit value; time axes of every length 1..400 for 11 steps and 6 starts; 9 sensor file layouts, 7 units; missing, short and long sensor files; histories of 2 reads; every day, hour and minute of dates; descriptions of 0..30 words')

FULL = False
SCALES = [1.0, 0.5, 0.0, -0.001, 3.0518e-05, 12345.678, 1e-30]
SAMPLES = [0, 1, -1, 32767, -32768, 256, 255, 12345, -300]
HEADS = ['date', 'title', 'empty', 'long', 'blank']


def header(kind):
    """ 64 bytes after the first mark: (bytes, date, title) """
    if kind == 'date':
        d = [24, 12, 1999, 23, 59, 60]
        t = b'Turbine run 1'
        return struct.pack('<6i', *d) + t.ljust(40), d, t
    if kind == 'title':
        t = b'My simulation'
        return struct.pack('<i', 77) + t.ljust(60), [77], t
    if kind == 'long':
        t = b'0123456789' * 6
        return struct.pack('<i', -5) + t, [-5], t
    if kind == 'blank':
        return struct.pack('<i', 0) + b' ' * 60, [0], b''
    return struct.pack('<i', 3) + b'\0' * 60, None, None       # nothing stored: neither date nor title is checked


def encode(version, kind, ids, tmin, dt, scales, D):
    """ D[i][j]: integer sample of step i and channel j """
    h = header(kind)[0]
    n = len(ids)
    assert len(h) == 64
    s = struct.pack('<i', 0) + h
    s += struct.pack('<2i', 0, 0) + struct.pack('<i', n) + struct.pack('<%di' % n, *ids) + struct.pack('<i', 0) + struct.pack('<i', version)
    s += struct.pack('<2f', tmin, dt) + struct.pack('<%df' % n, *scales)
    if version == 3:
        for j in range(n):
            s += struct.pack('<%dh' % len(D), *[r[j] for r in D])
    else:
        for r in D:
            s += struct.pack('<%dh' % n, *r)
    return s


UNITS = ['(kNm)', '[m/s]', 'm', '-', '(-)', '[kN]', '(deg/s)']
NAMES = ['MxB1', 'Wind', 'Sensor_3', 'x']


def sensors(n, k=0):
    return [dict(ID=j + 1, Gain=[1.0, 0.5, -2.25, 1000.][(j + k) % 4], Offset=[0.0, -1.5, 3.125, 0.][(j + k) % 4],
                 Unit=UNITS[(j + k) % len(UNITS)], Name=NAMES[(j + k) % 4] + ('_%d' % k if k else ''),
                 Description=['Blade 1 moment', '', 'one', 'a b c d'][(j + k) % 4]) for j in range(n)]


def sensor_text(S, lay):
    s = ['Sensor list for run 1 2 3 4 5 6 7 8', ' No   forst  offset  korr. c  Volt    Unit   Navn    Beskrivelse------------']
    if lay == 'empty header':
        s = ['', '']
    for d in S:
        if lay == 'tabs':
            s.append('\t'.join(['%d' % d['ID'], '%g' % d['Gain'], '%g' % d['Offset'], '1.00', '0.00', d['Unit'], d['Name'], d['Description']]))
        else:
            s.append('%3s  %.3f   %.3f      1.00     0.00 %7s %-8s %s' % (d['ID'], d['Gain'], d['Offset'], d['Unit'], d['Name'], d['Description']))
    nl = '\r\n' if lay == 'crlf' else '\n'
    t = nl.join(s)
    if lay == 'no end':
        return t
    if lay == 'blank end':
        return t + nl + nl
    if lay == 'blanks end':
        return t + nl + '   ' + nl
    return t + nl


LAYS = ['none', 'plain', 'tabs', 'crlf', 'no end', 'blank end', 'blanks end', 'empty header']


def cols(S):
    return ['Time_[s]'] + [d['Name'] + '_[' + d['Unit'].strip('()[]') + ']' for d in S]


def f4(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def check(ch, f, D, tmin, dt, scales, S, version, kind):
    n, nt = len(scales), len(D)
    ch.eq((int(f.nSensors), int(f.nt)), (n, nt), 'size')
    ch.eq(int(f.Version), version, 'version')
    ch.eq((float(f.tmin), float(f.dt)), (f4(tmin), f4(dt)), 'start and step')
    _, date, title = header(kind)
    if date is not None:
        ch.eq([int(x) for x in f.DateID], date, 'date')
        ch.eq(bytes(f.title), title, 'title')
    want = np.array([[r[j] * f4(scales[j]) for j in range(n)] for r in D]).reshape(nt, n)
    T = np.array([f4(tmin) + i * f4(dt) for i in range(nt)])
    df = f.toDataFrame()
    ch.eq([str(c) for c in df.columns], cols(S), 'columns')
    V = df.values
    ch.eq(V.shape, (nt, n + 1), 'shape of the table')
    scale = max(abs(T[0]), abs(T[-1]), 1e-9)
    ch.eq(V[:, 0].astype(float), T, 'time', (0, 3e-7 * scale))
    ch.eq(V[:, 1:].astype(float), want, 'values', (3e-7, 0))
    ch.eq(np.asarray(f.data).astype(float), want, 'data', (3e-7, 0))
    for k in ('ID', 'Gain', 'Offset', 'Unit', 'Name', 'Description'):
        ch.eq(list(f.sensors[k]), [d[k] for d in S], 'sensor ' + k)


def fake(n):
    return [dict(ID=j + 1, Gain=1., Offset=0., Unit='(NA)', Name='S%04d' % (j + 1), Description='NA') for j in range(n)]


def opened(ch, path, how):
    import weio
    from weio.flex_out_file import FLEXOutFile
    ch.op()
    if how == 'weio':
        f = weio.read(path)
        ch.check(type(f).__name__ == 'FLEXOutFile', 'opened as %s' % type(f).__name__)
        return f
    if how == 'class':
        return FLEXOutFile(path)
    f = FLEXOutFile()
    f.read(path)
    return f


def h_decode(ch):
    version = ch.pick('version', [0, 3, 2])
    kind = ch.pick('header', HEADS)
    n = ch.pick('channels', [2, 1, 3, 4])
    nt = ch.pick('steps', [3, 1, 2, 4, 5])
    k = ch.pick('samples', range(5))
    lay = ch.pick('sensor file', LAYS)
    how = ch.pick('opened by', ['weio', 'class', 'read'])
    name = ch.pick('file', ['a.int', 'run/b.res'])
    if how == 'read' and (k or kind != 'date'):
        return
    if not FULL and how == 'weio' and (k > 1):
        return
    D = [[SAMPLES[(k + 2 * i + 3 * j) % len(SAMPLES)] + i for j in range(n)] for i in range(nt)]
    D = [[max(-32768, min(32767, x)) for x in r] for r in D]
    scales = [SCALES[(k + j) % len(SCALES)] for j in range(n)]
    tmin, dt = [(0., 0.02), (1.5, 0.1), (60., 0.05), (-2., 1.), (600., 0.025)][k]
    put(name, encode(version, kind, range(1, n + 1), tmin, dt, scales, D))
    S = fake(n)
    if lay != 'none':
        S = sensors(n, k)
        put(os.path.join(os.path.dirname(name), 'sensor'), sensor_text(S, lay))
        if os.path.dirname(name):
            put('sensor', sensor_text(sensors(n + 1, 3), 'plain'))      # not the folder of the file
    f = opened(ch, name, how)
    check(ch, f, D, tmin, dt, scales, S, version, kind)
    ch.state(version, kind, D, scales, lay)


DT = [0.01, 0.02, 0.025, 0.05, 0.1, 1. / 3, 0.005, 0.0125, 1., 0.2, 0.04]
TMIN = [0., 1.5, 60., 600., 0.02, -10.]


def h_time(ch):
    """ every length of the time axis """
    dt = ch.pick('step', DT)
    tmin = ch.pick('start', TMIN)
    v = ch.pick('version', [0, 3])
    lo = ch.pick('lengths from', range(1, 2000 if FULL else 400, 25))
    for nt in range(lo, lo + 25):
        D = [[i % 100, -(i % 7)] for i in range(nt)]
        put('a.int', encode(v, 'date', [1, 2], tmin, dt, [1., 0.5], D))
        f = opened(ch, 'a.int', 'class')
        check(ch, f, D, tmin, dt, [1., 0.5], fake(2), v, 'date')
    ch.state(dt, tmin, v, lo)


def h_values(ch):
    """ every 16-bit sample """
    v = ch.pick('version', [0, 2, 3])
    b = ch.pick('block', range(64))
    s = ch.pick('scale', SCALES)
    X = list(range(-32768 + 1024 * b, -32768 + 1024 * (b + 1)))
    D = [[x, -x if x > -32768 else 0] for x in X]
    put('a.res', encode(v, 'title', [1, 2], 0., 0.02, [s, 2.], D))
    f = opened(ch, 'a.res', 'class')
    check(ch, f, D, 0., 0.02, [s, 2.], fake(2), v, 'title')
    ch.state(v, b, s)


def h_sensors(ch):
    """ sensor information that does not fit is refused, never shifted """
    from weio.flex_out_file import FLEXOutFile
    n = ch.pick('channels', [1, 2, 3, 12])
    m = ch.pick('sensors', [0, 1, 2, 3, 4, 11, 12, 13])
    k = ch.pick('kind', range(7))
    lay = ch.pick('layout', LAYS[1:])
    v = ch.pick('version', [0, 3])
    D = [[i + 10 * j for j in range(n)] for i in range(2)]
    put('a.int', encode(v, 'date', range(1, n + 1), 0., 0.5, [1.] * n, D))
    put('sensor', sensor_text(sensors(m, k), lay))
    ch.op()
    if n == m:
        f = FLEXOutFile('a.int')
        check(ch, f, D, 0., 0.5, [1.] * n, sensors(m, k), v, 'date')
    else:
        try:
            FLEXOutFile('a.int')
        except Exception as e:
            if type(e).__name__ not in ('BrokenFormatError', 'WrongFormatError'):
                raise
        else:
            raise Violation('%d sensors in the sensor file accepted for %d channels' % (m, n))
    ch.state(n, m, k, lay)


def h_version(ch):
    """ versions that are not supported are refused """
    from weio.flex_out_file import FLEXOutFile
    v = ch.pick('version', list(range(-5, 40)) + [255, 65536, -2 ** 31, 2 ** 31 - 1])
    put('a.int', encode(v, ch.pick('header', HEADS), [1], 0., 0.5, [1.], [[1], [2]]))
    ch.op()
    try:
        f = FLEXOutFile('a.int')
    except Exception as e:
        if type(e).__name__ not in ('BrokenFormatError', 'WrongFormatError', 'NotImplementedError'):
            raise
        ch.check(v not in (0, 2, 3), 'version %d refused: %s' % (v, e))
    else:
        ch.check(v in (0, 2, 3), 'version %d read' % v)
    ch.state(v)


def h_dates(ch):
    """ every day of every month, every hour, every minute """
    from weio.flex_out_file import FLEXOutFile
    m = ch.pick('month', range(1, 13))
    v = ch.pick('version', [0, 3])
    y = ch.pick('year', [2020, 1999, 0, 99])
    D, sc, S = [[1, -2], [3, 4]], [0.5, 2.], fake(2)
    body = encode(v, 'date', [1, 2], 0., 0.5, sc, D)[4 + 24:]
    M = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    dates = [[d, m, y, 12, 30, 15] for d in range(1, M + 1)] + [[1, m, y, h, 0, 0] for h in range(24)] + [[M, m, y, 23, mi, 59] for mi in range(60)]
    for d in dates:
        put('a.int', struct.pack('<7i', 0, *d) + body)
        f = FLEXOutFile('a.int')
        ch.op()
        ch.eq([int(x) for x in f.DateID], d, 'date')
        ch.eq(bytes(f.title), b'Turbine run 1', 'title of a file dated %s' % d)
        ch.eq(np.asarray(f.data).astype(float), np.array([[0.5, -4.], [1.5, 8.]]), 'values')
    ch.state(m, v, y)


def h_texts(ch):
    """ sensor lines with descriptions of any number of words, and long names """
    from weio.flex_out_file import FLEXOutFile
    nw = ch.pick('words', list(range(0, 31)) + [100])
    name = ch.pick('name', ['x', 'Exactly8', 'A_name_longer_than_eight', 'M(x)', 'a,b', '12'])
    unit = ch.pick('unit', UNITS + ['kN/(m)', '(m)^2', '[(m/s)]'])
    g = ch.pick('gain', [1.0, -0.001, 12345.5, 1e6])
    S = [dict(ID=1, Gain=1., Offset=0., Unit='m', Name='First', Description='d'),
         dict(ID=2, Gain=g, Offset=-g, Unit=unit, Name=name, Description=' '.join('w%d' % i for i in range(nw)))]
    put('sensor', sensor_text(S, ch.pick('layout', ['plain', 'tabs', 'crlf', 'no end'])))
    put('a.int', encode(0, 'date', [1, 2], 0., 0.5, [1., 1.], [[1, 2]]))
    f = FLEXOutFile('a.int')
    ch.op()
    for k in ('ID', 'Gain', 'Offset', 'Unit', 'Name', 'Description'):
        ch.eq(list(f.sensors[k]), [d[k] for d in S], 'sensor ' + k)
    ch.eq(list(f.toDataFrame().columns), ['Time_[s]', 'First_[m]', name + '_[' + ''.join(x for x in unit if x not in '()[]') + ']'], 'columns')
    ch.state(nw, name, unit, g)


def h_history(ch):
    """ one object, two files """
    from weio.flex_out_file import FLEXOutFile
    import weio
    K = [(v, n, nt, s) for v in (0, 3) for n in (1, 3) for nt in (1, 3) for s in (False, True)]
    f = FLEXOutFile()
    last = None
    for step in range(2):
        v, n, nt, s = ch.pick('file %d' % step, K)
        D = [[100 * step + i + 10 * j for j in range(n)] for i in range(nt)]
        sc = [0.5 + j for j in range(n)]
        d = 'd%d' % step
        put(d + '/a.int', encode(v, HEADS[step], range(1, n + 1), 1. * step, 0.5, sc, D))
        S = fake(n)
        if s:
            S = sensors(n, step + 1)
            put(d + '/sensor', sensor_text(S, 'plain'))
        f.read(d + '/a.int')
        ch.op()
        for rep in range(2):
            check(ch, f, D, 1. * step, 0.5, sc, S, v, HEADS[step])
        df = f.toDataFrame()
        df.iloc[:, :] = 0
        check(ch, f, D, 1. * step, 0.5, sc, S, v, HEADS[step])
        ch.state(step, v, n, nt, s)


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('decode', h_decode), ('time', h_time), ('values', h_values), ('sensors', h_sensors), ('version', h_version), ('dates', h_dates), ('texts', h_texts), ('history', h_history)]
