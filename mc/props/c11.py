"""C11: OpenFAST output files, text and binary"""
import os
from ..core import Violation
from ..util import *
from .. import enc

INFO = dict(bounds='binary: 4 layouts x (1..3 channels) x (1..3 steps) x scaling/offset/packed-value alphabets, plus step counts around the 163840-value read buffer; '
                   'text: header, separator, bracket, number format and trailing line variants; writing: all tables of 1..3 channels x 1..4 steps over the value, name and unit alphabets, 2 generations')

NAMES = ['A', 'GenPwr', 'RtAeroFxh', 'B1N1Alpha1']
UNITS = ['-', 'kW', 'deg/sec', '', 'kN-m']


def klass():
    from weio.fast_output_file import FASTOutputFile
    return FASTOutputFile


def opener(ch):
    import weio
    how = ch.pick('opened with', ['class', 'weio.read'])
    return klass() if how == 'class' else weio.read


def cols(names, units):
    return [n + '_[' + u.replace('sec', 's') + ']' for n, u in zip(names, units)]


def expect(ch, f, names, units, D, tol=(1e-12, 1e-12), desc=None):
    ch.op()
    df = f.toDataFrame()
    want = pd.DataFrame(D, columns=cols(names, units))
    ch.eq(df, want, 'table', tol)
    ch.eq(list(f.info['attribute_names']), list(names), 'channel names')
    ch.eq(list(f.info['attribute_units']), list(units), 'channel units')
    if desc is not None:
        ch.eq(f.info['description'], desc, 'description')
    ch.state(names, units, D)


# ---------------------------------------------------------------- binary decoding
def h_binary(ch):
    fid = ch.pick('layout', [2, 1, 3, 4])
    nch = ch.pick('channels', [1, 2, 3])
    nt = ch.pick('steps', [1, 2, 3])
    iname = ch.pick('names', [0, 1, 2])
    names = ['Time'] + (NAMES * 2)[iname:iname + nch]
    units = ['s'] + (UNITS * 2)[iname:iname + nch]
    desc = ch.pick('description', ['', ' A description, 1.0 ', 'x' * 300])
    scl = [ch.pick('scale', [1.0, 2.5, 1e4, -3.0])] + [2.0, float('nan')]
    off = [ch.pick('offset', [0.0, -100.25])] + [7.5, float('nan')]
    scl, off = scl[:nch], off[:nch]
    t = ch.pick('time', [(0., 0.5), (10.25, 0.0125)])
    alph = [0, 32767, -32768, 1, -1, 12345] if fid != 3 else [0., 1e300, -1e-300, 3.14159265358979, -1., 12345.5]
    base = ch.pick('first value', [0, 1, 2, 3])
    packed = [[alph[(base + i * nch + j) % 6] for j in range(nch)] for i in range(nt)]
    kw = {}
    lenname = 10
    if fid == 1:
        kw = dict(packedtime=[[-2147483648, 5, 2147483647], [0, 3, 100]][base % 2][:nt], tscl=[4.0, 1e3][base % 2], toff=[0.0, -12.5][base % 2])
    if fid == 4:
        lenname = ch.pick('name length', [10, 20, 15])
        if lenname > 10:
            names[-1] = 'ALongName12345'
    fn = put('f.outb', enc.outb(fid, names, units, packed, scl, off, desc, t[0], t[1], lenname=lenname, **kw))
    D = enc.outb_values(fid, packed, scl, off, t[0], t[1], **kw)
    f = opener(ch)(fn) if iname == 0 else klass()(fn)
    ch.check(type(f).__name__ == 'FASTOutputFile', 'read as a %s' % type(f).__name__)
    expect(ch, f, names, units, D, (1e-12, 1e-300), desc.strip())


def h_buffer(ch):
    """ number of steps around the size of the read buffer """
    nch = ch.pick('channels', [1, 3, 7])
    per = 163840 // nch
    nt = ch.pick('steps', [per - 1, per, per + 1, 2 * per, 2 * per + 1])
    fid = ch.pick('layout', [2, 3])
    i = np.arange(nt * nch).reshape(nt, nch)
    packed = (i * 7919) % 65536 - 32768
    names = ['Time'] + ['C%d' % k for k in range(nch)]
    units = ['s'] + ['-'] * nch
    scl, off = [2.0] * nch, [3.0] * nch
    fn = put('f.outb', enc.outb(fid, names, units, packed, scl, off, '', 0., 0.5))
    expect(ch, klass()(fn), names, units, enc.outb_values(fid, packed, scl, off, 0., 0.5))


def h_special(ch):
    """ scalings of constant channels, many channels, long descriptions """
    fid = ch.pick('layout', [2, 1, 4])
    nan = float('nan')
    sc = ch.pick('scaling', [(nan, nan), (nan, 1.), (1., nan), (-2., 5.), (1e-20, 0.), (1e20, -32768.)])
    nch = ch.pick('channels', [1, 2, 40, 300])
    desc = ch.pick('description', ['', 'y' * 1025, 'ab cd ' * 12000 + '.'])
    kw = dict(packedtime=[0, 5, 15], tscl=10., toff=0.) if fid == 1 else {}
    names = ['Time'] + ['C%d' % k for k in range(nch)]
    units = ['s'] + ['u%d' % k for k in range(nch)]
    scl, off = [2.] * nch, [1.] * nch
    scl[-1], off[-1] = sc
    packed = [[(7 * i + 11 * j) % 200 - 100 for j in range(nch)] for i in range(3)]
    fn = put('f.outb', enc.outb(fid, names, units, packed, scl, off, desc, 1., 0.25, **kw))
    D = enc.outb_values(fid, packed, scl, off, 1., 0.25, **kw)
    expect(ch, klass()(fn), names, units, D, (1e-6 if sc[0] == sc[0] and abs(sc[0]) in (1e-20, 1e20) else 1e-12, 1e-300), desc.strip())


def h_nobuffer(ch):
    """ reading without buffer gives the same as with it """
    from weio.fast_output_file import load_binary_output
    fid = ch.pick('layout', [2, 1, 3, 4])
    nch = ch.pick('channels', [1, 2, 3])
    nt = ch.pick('steps', [1, 2, 3, 4])
    nan = float('nan')
    sc = ch.pick('scaling', [(2., 3.), (nan, nan), (-1e4, 0.5)])
    scl, off = [4.] * nch, [-1.] * nch
    scl[-1], off[-1] = sc
    alph = [0, 32767, -32768, 1, -1, 12345] if fid != 3 else [0., 1e300, -1e-300, 3.14159265358979, -1., 12345.5]
    packed = [[alph[(i * nch + j) % 6] for j in range(nch)] for i in range(nt)]
    kw = dict(packedtime=[0, 5, 15, 100][:nt], tscl=10., toff=-1.) if fid == 1 else {}
    names = ['Time'] + ['C%d' % k for k in range(nch)]
    units = ['s'] + ['u%d' % k for k in range(nch)]
    fn = put('f.outb', enc.outb(fid, names, units, packed, scl, off, 'text', 1., 0.25, **kw))
    D = enc.outb_values(fid, packed, scl, off, 1., 0.25, **kw)
    for buf in ch.pick('order', [(False, True), (True, False)]):
        ch.op()
        d, info = load_binary_output(fn, use_buffer=buf)
        ch.eq(np.asarray(d), np.asarray(D), 'values read %s buffer' % ('with' if buf else 'without'), (1e-12, 1e-300))
        ch.eq([list(info['attribute_names']), list(info['attribute_units']), info['description'], info['name']], [names, units, 'text', 'f'], 'information')
    ch.state(fid, nch, nt, sc)


def h_writebinary(ch):
    """ the low-level writer: units with and without brackets """
    from weio.fast_output_file import writeBinary
    us = [ch.pick('unit %d' % i, ['m', '(m)', '', '()']) for i in range(3)]
    desc = ch.pick('description', ['', 'some text', 'z' * 2000])
    form = ch.pick('given as', ['lists', 'arrays', 'tuples'])
    D = np.array([[0., 1., 2.], [0.5, 3., 2.], [1., -5., 2.25]])
    names = ['Time', 'A', 'B']
    c = {'lists': lambda x: list(x), 'arrays': np.array, 'tuples': tuple}[form]
    D0 = D.copy()
    writeBinary('b.outb', D.tolist() if form == 'lists' else D, c(names), c(us), descStr=desc)
    ch.op()
    ch.eq(D, D0, 'data given by the caller')
    f = klass()('b.outb')
    ch.eq(list(f.info['attribute_names']), names, 'channel names')
    ch.eq(list(f.info['attribute_units']), [u.strip('()') for u in us], 'channel units')
    ch.eq(f.info['description'], desc, 'description')
    same_table(ch, f.data, D, 'written table')
    bad = outcome(writeBinary, 'c.outb', D, ['A', 'Time', 'B'], us)
    ch.check(bad[0] == 'err' and not os.path.exists('c.outb'), 'time in another column is accepted')
    bad = outcome(writeBinary, 'c.outb', D, ['X', 'A', 'B'], us)
    ch.check(bad[0] == 'err' and not os.path.exists('c.outb'), 'a table without time is accepted')
    ch.state(us, desc, form)


def h_large(ch):
    """ extreme values anywhere in a long table """
    nt = ch.pick('steps', [1000, 70000])
    at = ch.pick('extreme at', ['first', 'last', 'middle', 'both ends'])
    v = ch.pick('extreme', [1e5, -1e5])
    D = np.zeros((nt, 3))
    D[:, 0] = 0.125 * np.arange(nt)
    D[:, 1] = np.cos(np.arange(nt))
    D[:, 2] = np.arange(nt)
    for i in {'first': [0], 'last': [nt - 1], 'middle': [nt // 2], 'both ends': [0, nt - 1]}[at]:
        D[i, 1] = v
    klass()().writeDataFrame(pd.DataFrame(D, columns=['Time_[s]', 'A_[m]', 'B_[-]']), 'l.outb')
    f = klass()('l.outb')
    ch.op(2)
    same_table(ch, f.data, D, 'written table')
    ch.state(nt, at, v)


def h_badid(ch):
    fid = ch.pick('layout', [0, 5, -1, 258])
    b = enc.outb(2, ['Time', 'A'], ['s', '-'], [[1], [2]], [1.], [0.])
    import struct
    fn = put('f.outb', struct.pack('<h', fid) + b[2:])
    r = outcome(klass(), fn)
    ch.op()
    ch.check(r[0] == 'err' and type(r[1]).__name__ == 'WrongFormatError', 'unknown layout %d accepted: %r' % (fid, r))
    ch.state(fid)


# ---------------------------------------------------------------- text decoding
HEADERS = [[], ['', 'Predictions were generated on 14-Oct-2021 by OpenFAST, time domain', ' linked with NWTC; time', '', 'Description: x', ''],
           ['one line'], ['TimeStep is 3', 'a Time'], ['', '']]


def h_text(ch):
    head = ch.pick('header', HEADERS)
    tname = ch.pick('time name', ['Time', 'TIME', 'time'])
    sep = ch.pick('separator', ['\t', '  '])
    br = ch.pick('brackets', ['()', '[]'])
    nch = ch.pick('channels', [1, 2, 3])
    nt = ch.pick('steps', [2, 1, 3])
    fmt = ch.pick('number format', ['%11.3E', '%.8f', '%d'])
    tail = ch.pick('tail', ['', '\n', 'This output file was closed\n'])
    lead = ch.pick('margin', ['', ' ']) if not head else ' '
    ext = ch.pick('extension', ['.out', '.elev', '.OUT'])
    i0 = ch.pick('values', [0, 1, 2])
    names = [tname] + (NAMES * 2)[i0:i0 + nch]
    units = ['s', '(-)'[1:2], 'kW', 'deg/sec', 'm'][:nch + 1]
    V = [1.0, -2500.0, 0.0, 3.0, 1e5, -7.0, 12.0]
    D = [[i * 0.25 + 10 * i0] + [V[(i0 + i * nch + j) % 7] for j in range(nch)] for i in range(nt)]
    txt = enc.out_ascii(names, units, D, head, sep, fmt=fmt, tail=tail, br=br)
    if lead:
        n = len(head)
        txt = '\n'.join((lead + l if k >= n else l) for k, l in enumerate(txt.split('\n')))
    fn = put('f' + ext, txt)
    f = klass()(fn)
    expect(ch, f, names, units, np.array(D))
    ch.eq([h.strip() for h in f.info['description']], [h.strip() for h in head], 'description lines')


def h_text_wrong(ch):
    """ no Time keyword / no data """
    kind = ch.pick('file', ['notime', 'nodata', 'text'])
    nh = ch.pick('header lines', [0, 1, 6])
    head = ''.join('header %d\n' % i for i in range(nh))
    fn = put('f.out', head + {'notime': 'T A\n(s) (m)\n1 2\n', 'nodata': 'Time A\n(s) (m)\n', 'text': 'Time A\n(s) (m)\n 1.0 abc\n'}[kind])
    r = outcome(klass(), fn)
    ch.op()
    want = ('WrongFormatError', 'EmptyFileError') if kind == 'nodata' else ('WrongFormatError',)
    ch.check(r[0] == 'err' and type(r[1]).__name__ in want, '%s: %r' % (kind, r))
    ch.state(kind, nh)


def h_elm(ch):
    nt = ch.pick('steps', [2, 1, 3])
    nch = ch.pick('channels', [1, 2])
    names = ['Time', 'Elem1', 'Elem2'][:nch + 1]
    units = ['sec', 'm', 'deg'][:nch + 1]
    D = np.array([[0.5 * i] + [i * 10 + j + .25 for j in range(nch)] for i in range(nt)])
    s = 'ElastoDyn element file\n' + ' '.join(names) + '\n' + ' '.join(units) + '\n'
    s += ''.join(' '.join('%.4f' % x for x in r) + '\n' for r in D)
    fn = ch.pick('name', ['f.elm', 'f.ELM', 'A.elm.b/f.Elm'])
    f = klass()(put(fn, s))
    ch.op()
    want = pd.DataFrame(D, columns=['%s_[%s]' % (n, u.replace('sec', 's')) for n, u in zip(names, units)])
    ch.eq(f.toDataFrame(), want, 'table', (1e-12, 0))
    ch.eq(f.toDataFrame(), want, 'second table', (1e-12, 0))
    out = 'g' + fn[-4:]
    f.write(out)
    ch.op(2)
    ch.eq(klass()(out).toDataFrame(), want, 'table read back', (1e-3, 1e-4))
    ch.state(D)


# ---------------------------------------------------------------- writing
def quantum(D):
    """ per channel resolution of the 16-bit layout """
    D = np.asarray(D, float)
    rng = D.max(axis=0) - D.min(axis=0)
    return 1.0001 * np.where(rng == 0, 1, rng) / 65535 + 4 * 2.0**-23 * np.abs(D).max(axis=0)


def same_table(ch, got, D, what):
    D = np.asarray(D, float)
    ch.check(got.shape == D.shape, '%s: shape %s instead of %s' % (what, got.shape, D.shape))
    q = quantum(D)
    q[0] = 1e-9 * max(1, np.abs(D[:, 0]).max())
    bad = ~(np.abs(got - D) <= q)
    if bad.any():
        i, j = np.argwhere(bad)[0]
        raise Violation('%s: row %d column %d is %r, %r was stored (resolution %g)' % (what, i, j, got[i, j], D[i, j], q[j]))


VALS = [0.0, 1.0, -1.0, 1e6, 1e6 + 1, 12.345, -3e-5, 99999.0, 1e-30]
HDR = [('A_[-]', 'A', '-'), ('GenPwr_[kW]', 'GenPwr', 'kW'), ('Q_(deg)', 'Q', 'deg'), ('Wind1VelX [m/s]', 'Wind1VelX', 'm/s'), ('NoUnit', 'NoUnit', ''),
       ('RtAeroMxhLong_[N-m]', 'RtAeroMxhLong', 'N-m'), ('LongUnit_[kN-m/rad/s]', 'LongUnit', 'kN-m/rad/s'), ('A_1_[-]', 'A_1', '-'),
       ('W[1]_[m/s]', 'W[1]', 'm/s'), ('AB__[m]', 'AB_', 'm'), ('f(x)_(kN)', 'f(x)', 'kN'), ('Empty_[]', 'Empty', ''), ('Par [x] (m)', 'Par [x]', 'm')]


def h_write_df(ch):
    """ writing a table and reading it back """
    nch = ch.pick('channels', [1, 2, 3])
    nt = ch.pick('steps', [2, 3, 1, 4])
    th = ch.pick('time column', [('Time_[s]', 's'), ('Time', ''), ('Time_(s)', 's')])
    hs = [HDR[ch.pick('column', range(len(HDR)))]]
    hs += [h for h in HDR if h != hs[0]][:nch - 1]
    v0 = ch.pick('values', range(len(VALS)))
    st = ch.pick('stride', [1, 0, 2])
    t0, dt = ch.pick('time', [(0., 1.), (100.25, 0.0125)])
    D = np.array([[t0 + i * dt] + [VALS[(v0 + st * (i * nch + j)) % len(VALS)] for j in range(nch)] for i in range(nt)])
    df = pd.DataFrame(D, columns=[th[0]] + [h[0] for h in hs])
    before = df.copy()
    from weio.fast_output_file import FASTOutputFile
    FASTOutputFile().writeDataFrame(df, 'w.outb')
    ch.op()
    ch.eq(df, before, 'the table given by the caller')
    f = FASTOutputFile('w.outb')
    names = ['Time'] + [h[1] for h in hs]
    units = [th[1]] + [h[2] for h in hs]
    ch.eq(list(f.info['attribute_names']), names, 'channel names')
    ch.eq(list(f.info['attribute_units']), units, 'channel units')
    same_table(ch, f.toDataFrame().values, D, 'written table')
    # second generation: what was read is written and read again
    f.write('w2.outb')
    ch.op()
    g = FASTOutputFile('w2.outb')
    ch.eq(list(g.info['attribute_names']), names, 'channel names')
    ch.eq(list(g.info['attribute_units']), units, 'channel units')
    same_table(ch, g.data, f.data, 'rewritten table')
    ch.state(names, units, D)


def h_rewrite(ch):
    """ read a file of any layout, write it, read it again """
    fid = ch.pick('layout', [2, 1, 3, 4, 'text'])
    ext = ch.pick('extension', ['usual', '.txt', ''])       # with another extension, the content decides between text and binary
    nch = ch.pick('channels', [1, 2, 3])
    nt = ch.pick('steps', [2, 3, 1])
    names = ['Time'] + NAMES[:nch]
    units = ['s'] + UNITS[:nch]
    desc = ch.pick('description', ['', 'Some text'])
    v0 = ch.pick('values', [0, 1, 2])
    t0, dt = ch.pick('time', [(0., 0.5), (60., 0.0125)])
    uniform = ch.pick('time steps', ['uniform', 'variable']) if fid in (1, 'text') and nt > 2 else 'uniform'
    alph = [0, 32767, -32768, 1, -1, 12345, 77]
    packed = [[alph[(v0 + i * nch + j) % 7] for j in range(nch)] for i in range(nt)]
    K = klass()
    tt = t0 + dt * np.arange(nt)
    if uniform == 'variable':
        tt = t0 + dt * np.array([0, 1, 4])[:nt]
    key = 'nonuniform-time' if uniform == 'variable' and fid == 1 else None
    xt = ext if ext != 'usual' else '.out' if fid == 'text' else '.outb'
    if fid == 'text':
        D = np.array([[a] + [float(x) for x in r] for a, r in zip(tt, packed)])
        fn = put('f' + xt, enc.out_ascii(names, [u or '-' for u in units], D, ['', 'header'] if desc else [], fmt='%.5f'))
        units = [u or '-' for u in units]
        out, tol = 'g' + xt, (5.1e-4, 0)
    else:
        kw = {}
        lenname = 10
        if fid == 1:
            kw = dict(packedtime=np.round(tt * 10000).astype(int), tscl=10000.0, toff=0.0)
        if fid == 4:
            lenname = 20
            names[-1] = ch.pick('last name', ['Short', 'ALongName12345', 'ALongUnit'])
            units[-1] = {'ALongUnit': 'kN-m/rad/sec'}.get(names[-1], units[-1])
        scl, off = [2., 0.5, 1e3][:nch], [0., 3., -8.][:nch]
        fn = put('f' + xt, enc.outb(fid, names, units, packed, scl, off, desc, t0, dt, lenname=lenname, **kw))
        D = enc.outb_values(fid, packed, scl, off, t0, dt, **kw)
        out = 'g' + xt
    f = K(fn)
    ch.eq(f['binary'], fid != 'text', 'known as binary')
    ch.eq(f.data, D, 'data', (1e-12, 1e-12))
    d0 = f.data.copy()
    raw = get(fn)
    f.write(out)
    ch.op(2)
    ch.eq(f.data, d0, 'data of the object after writing')
    ch.check(get(fn) == raw, 'the file that was read has changed')
    g = K(out)
    ch.eq(list(g.info['attribute_names']), names, 'channel names')
    ch.eq(list(g.info['attribute_units']), units, 'channel units')
    if fid == 'text':
        ch.eq(g.data[:, 0], D[:, 0], 'time', (0, 0.51e-4))
        ch.eq(g.data[:, 1:], D[:, 1:], 'channels', tol)
    else:
        ch.eq(g.info['description'], desc, 'description')
        lost = D[0, 0] + (D[min(1, nt - 1), 0] - D[0, 0]) * np.arange(nt)      # what is known to happen
        if key and np.abs(g.data[:, 0] - D[:, 0]).max() > 1e-6 and np.abs(g.data[:, 0] - lost).max() < 1e-9:
            raise Violation('time steps are lost when a file with variable time steps is written', key)
        same_table(ch, g.data, D, 'rewritten table')
    ch.state(fid, D)


def harnesses(tier):
    return [('binary', h_binary), ('buffer', h_buffer), ('special', h_special), ('nobuffer', h_nobuffer), ('writebinary', h_writebinary), ('large', h_large), ('badid', h_badid), ('text', h_text), ('textwrong', h_text_wrong), ('elm', h_elm),
            ('writedf', h_write_df), ('rewrite', h_rewrite)]
