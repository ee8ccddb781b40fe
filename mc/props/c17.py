"""C17: HAWC2 result files"""
import os
from ..core import Violation
from ..util import *
from .. import enc

INFO = dict(bounds='1..4 channels x 1..4 scans, text / binary / BHawC layouts, 13 kinds of channel descriptions, .sel or .dat opened, 2 generations of writing; every history of 4 channel requests (subsets of 3 channels); columns for every combination of what descriptions hold; layout words in 6 spellings with up to 40 channels x 200 scans')

# name, unit, description, name of the table column
CH = [
    ('Time', 's', 'Time', 'Time'),
    ('WSP gl. coo.,Vy', 'm/s', 'Free wind speed Vy, gl. coo, of gl. pos    2.50,  -1.00, -47.50', 'WSPgl.coo.,Vy'),
    ('Omega', 'rad/s', 'Rotor speed', 'Omega'),
    ('MxMbdy coo: tower', 'kNm', 'MomentMx Mbdy:tower nodenr:   1 coo: tower  tower base', 'towerN1MxMbdyb'),
    ('State pos x coo: global', 'm', 'State pos x Mbdy:blade1 E-nr:  18 Z-rel:1.00 coo: global  blade 1 tip pos', 'blade1N19xg'),
    ('State pos y coo: global', 'm', 'State pos y Mbdy:blade1 E-nr:   3 Z-rel:0.00 coo: global', 'blade1N3yg'),
    ('State pos z coo: blade2', 'm', 'State pos z Mbdy:blade2 E-nr:   3 Z-rel:0.50 coo: blade2', 'blade2N3.5zb'),
    ('axisangle', 'deg', 'pitch angle', 'rot_'),
    ('Cl, R=  1.5', 'deg', 'Cl of blade  1 at radius   1.50', 'Cl,R=1.5'),
    ('Alfa, s= 20.1', 'deg', 'Aero alfa blade s= 20.12[m] s/S= 0.35', 'r0.35Alfa,s=20.1'),
    ('DLL out', '-', '', 'DLLout'),
    ('A name of exactly thirty chars', '-', 'x', 'Anameofexactlythirtychars'),
    ('Unit of 11 characters', 'kNm/rad/sec', 'Description', 'Unitof11characters'),
]
VALS = [0., 1.5, -2500., 1e-12, 3.25e7, -1., 12345.678]


def K():
    from weio.hawc2_dat_file import HAWC2DatFile
    return HAWC2DatFile


def columns(chs):
    return ['%s_[%s]' % (c[3], c[1]) for c in chs]


def expect(ch, f, chs, D, tol):
    ch.op()
    ch.eq(np.asarray(f.data), D, 'data', tol)
    ch.eq([n.strip() for n in f.info['attribute_names']], [c[0] for c in chs], 'channel names')
    ch.eq([u.strip('[]') for u in f.info['attribute_units']], [c[1] for c in chs], 'channel units')
    ch.eq([d.strip() for d in f.info['attribute_descr']], [c[2] for c in chs], 'channel descriptions')


def expect_df(ch, f, chs, D, tol, what='table'):
    df = f.toDataFrame()
    ch.eq(df, pd.DataFrame(D, columns=columns(chs)), what, tol)


def write_files(ch, lay, chs, D, base='r'):
    ns, nc = D.shape
    T = D[-1, 0] if D[-1, 0] > 0 else 1.
    if lay == 'binary':
        sc = [max(1e-30, np.abs(D[:, j]).max() / 32000) for j in range(nc)]
        sc = [float('%.5E' % x) for x in sc]
        I = np.array([np.round(D[:, j] / sc[j]) for j in range(nc)])
        put(base + '.sel', enc.hawc2_sel([c[:3] for c in chs], ns, T, 'BINARY', sc))
        put(base + '.dat', I.astype('<i2').tobytes())
        return (I.astype('<i2') * np.array(sc)[:, None]).T
    txt = '\n'.join('  '.join('%15.8E' % x for x in r) for r in D) + '\n'
    put(base + '.dat', txt)
    if lay == 'bhawc':
        put(base + '.sel', enc.bhawc_sel([c[:3] for c in chs], ns, T))
    else:
        put(base + '.sel', enc.hawc2_sel([c[:3] for c in chs], ns, T, 'ASCII'))
    return np.array([[float('%15.8E' % x) for x in r] for r in D])


def h_files(ch):
    lay = ch.pick('layout', ['ascii', 'binary', 'bhawc'])
    nc = ch.pick('channels', [1, 2, 3, 4])
    ns = ch.pick('scans', [2, 1, 3, 4])
    v0 = ch.pick('values', range(len(VALS)))
    c0 = ch.pick('first channel', range(1, len(CH)))
    chs = [CH[0]] + [CH[1 + (c0 - 1 + k) % (len(CH) - 1)] for k in range(nc - 1)]
    if nc == 1 and c0 > 1:
        return
    if lay == 'bhawc':
        chs = [c if c[2] else c[:2] + ('no text', c[3]) for c in chs]
        # BHawC labels hold no runs of blanks
        if True:
            chs = [c if not ('  ' in c[0] or '  ' in c[2] or len(c[0]) > 21 or len(c[2]) > 26) else ('L%d' % i, c[1], 'Text %d' % i, 'L%d' % i) for i, c in enumerate(chs)]
    D = np.array([[0.5 * (i + 1) - (2.25 if v0 == 3 else 0)] + [VALS[(v0 + i * nc + j) % len(VALS)] for j in range(nc - 1)] for i in range(ns)])
    D = write_files(ch, lay, chs, D)
    op = ch.pick('opened', ['r.sel', 'r.dat'])
    f = K()(op)
    tol = (1e-12, 1e-300)
    expect(ch, f, chs, D, tol)
    expect_df(ch, f, chs, D, tol)
    expect_df(ch, f, chs, D, tol, 'second table')
    # --- write, read
    out = ch.pick('written as', ['w.dat', 'w.sel', 'sub.sel.d/w.sel', 'plain', 'W.DAT', 'W.SEL', 'Sub.D/w.Sel'])
    if '/' in out:
        os.makedirs(os.path.dirname(out))
    f.write(out)
    ch.op()
    stem = out[:-4] if out[-4:].lower() in ('.dat', '.sel') else out
    new = sorted(x for x in os.listdir(os.path.dirname(out) or '.') if x[:-4] == os.path.basename(stem))
    ch.check([x[-4:].lower() for x in new] in (['.dat', '.sel'], ['.sel', '.dat']) and (out == 'plain' or os.path.basename(out) in new), 'written for %s: %s' % (out, new))
    ext = {x[-4:].lower(): x[-4:] for x in new}
    expect(ch, f, chs, D, tol)
    g = K()(stem + ext['.dat' if v0 % 2 else '.sel'])
    trunc = [(c[0][:26], c[1], c[2][:26], None) for c in chs] if lay == 'bhawc' else chs
    expect(ch, g, [tuple(x.strip() if x else x for x in c) for c in trunc], D, (1e-8, 1e-300))
    expect_df(ch, g, chs, D, (1e-8, 1e-300), 'table read back')
    if ch.flag('again'):
        g.write('x.dat')
        h = K()('x.sel')
        ch.op(2)
        ch.check(get('x.dat') == get(stem + ext['.dat']), 'rewriting changes the data file')
        expect_df(ch, h, chs, D, (1e-8, 1e-300), 'second generation')
    ch.state(lay, [c[0] for c in chs], D)


def h_missing(ch):
    """ the other file of the pair is missing or inconsistent """
    lay = ch.pick('layout', ['ascii', 'binary', 'bhawc'])
    D = np.array([[1., 2.], [2., 3.]])
    chs = [CH[0], CH[2]]
    write_files(ch, lay, chs, D)
    gone = ch.pick('removed', ['r.sel', 'r.dat'])
    os.remove(gone)
    other = {'r.sel': 'r.dat', 'r.dat': 'r.sel'}[gone]
    r = outcome(K(), other)
    ch.op()
    ch.check(r[0] == 'err' and ('WrongFormatError' in mro_names(r[1]) or 'OSError' in mro_names(r[1])), '%s alone: %r' % (other, r))
    ch.state(lay, gone)


def h_channels(ch):
    """ reading selected channels through the low-level reader, in any order, over several calls """
    from weio.wetb.hawc2.Hawc2io import ReadHawc2
    lay = ch.pick('layout', ['ascii', 'binary', 'bhawc'])
    zero = ch.pick('data', ['full', 'a zero channel'])
    D = np.array([[0.5, 10., -3.], [1.0, 20., -4.]])
    if zero != 'full':
        D[:, 1] = 0
    D = write_files(ch, lay, [CH[0], CH[2], ('L', 'm', 'Text', 'L')], D)
    ro = ch.pick('keep in memory', [0, 1])
    f = ReadHawc2('r.sel', ReadOnly=ro)
    req = [[0], [1], [2], [0, 1], [2, 1], [1, 0, 2], [1, 1], []]
    for k in range(3):
        q = ch.pick('request%d' % k, req)
        got = f(list(q))
        ch.op()
        ch.eq(np.asarray(got), D[:, q if q else [0, 1, 2]], 'channels %s (call %d)' % (q, k), (1e-12, 0))
        ch.state(q, k, lay)
    ch.eq((f.NrSc, f.NrCh), (2, 3), 'numbers of scans and channels')
    ch.eq(f.t, np.array([0.5, 1.0]), 'time', (1e-12, 0))


# body, element, relative position -> node label
ZREL = [('0.00', ''), ('1.00', '+1'), ('0.99', '.99'), ('0.25', '.25'), ('0.50', '.5'), ('0.01', '.01')]
BODY = ['blade1', 'blade-1', 'tower_top', 'b.1', 'B2', '3']
UNIT = ['m', '[m]', '(m)', 'm/(s)', '[kg*(m)]', '-', '1/(m/s)']


def label(name, desc_parts):
    """ the documented simplification of channel names, written independently: prefix from the description parts, name without blanks """
    n = name.replace(' ', '')
    n = n.replace('coo:global', 'g').replace('Statepos', '').replace('axisangle', 'rot_')
    pref = ''
    if 'body' in desc_parts:
        n = n.replace('coo:' + desc_parts['body'], 'b')
        pref += desc_parts['body']
    if 'elem' in desc_parts and 'zrel' in desc_parts:
        e, z = desc_parts['elem'], desc_parts['zrel']
        tail = dict(ZREL)[z]
        pref += 'N' + (str(e) if tail == '' else str(e + 1) if tail == '+1' else str(e) + tail)
    if 's' in desc_parts and 'sS' in desc_parts:
        pref += 'r' + desc_parts['sS']
    if 'node' in desc_parts:
        pref += 'N%d' % desc_parts['node']
    return pref + n


def h_names(ch):
    """ table columns of every combination of what a description may hold """
    P = {}
    kind = ch.pick('kind', ['position', 'moment', 'aero', 'plain'])
    d = 'Quantity'
    name = ch.pick('name', ['State pos x coo: global', 'State rot y coo: %s', 'MxMbdy coo: %s', 'Fx coo: other', 'axisangle', 'Cl, s= 1.0'])
    if kind in ('position', 'moment'):
        P['body'] = ch.pick('body', BODY)
        d += ' Mbdy:' + P['body']
    name = name.replace('%s', P.get('body', 'tower'))
    if kind == 'position':
        el = ch.pick('element', ['both', 'no Z-rel', 'no E-nr'])
        P['elem'] = ch.pick('number', [1, 9, 18, 100])
        P['zrel'] = ch.pick('position', [z for z, _ in ZREL])
        if el != 'no E-nr':
            d += ' E-nr:%4d' % P['elem']
        else:
            P.pop('elem')
        if el != 'no Z-rel':
            d += ' Z-rel:' + P['zrel']
        else:
            P.pop('zrel')
    if kind == 'moment':
        P['node'] = ch.pick('node', [1, 12, 100])
        d += ' nodenr:%4d' % P['node']
    if kind == 'aero':
        w = ch.pick('span', ['both', 'only s', 'only s/S'])
        sep = ch.pick('blanks', [' ', ''])
        if w != 'only s/S':
            P['s'] = '20.12'
            d += ' s=%s%s[m]' % (sep, P['s'])
        if w != 'only s':
            P['sS'] = ch.pick('fraction', ['0.35', '1.00', '0.05'])
            d += ' s/S=%s%s' % (sep, P['sS'])
    d += ch.pick('end', ['', ' end of text'])
    unit = ch.pick('unit', UNIT) if kind == 'plain' else UNIT[len(d) % len(UNIT)]
    c = (name, unit, d, None)
    D = np.array([[1., 2.], [2., 3.]])
    write_files(ch, 'ascii', [CH[0], c], D)
    f = K()('r.sel')
    ch.op()
    u = ''.join(x for x in unit if x not in '()[]')
    cols = ['Time_[s]', label(name, P) + '_[' + u + ']']
    ch.eq(list(f.toDataFrame().columns), cols, 'columns for %r' % (c[:3],))
    f.write('w.sel')
    g = K()('w.dat')
    ch.op(2)
    ch.eq(list(g.toDataFrame().columns), cols, 'columns read back for %r' % (c[:3],))
    ch.eq(g.info['attribute_descr'], ['Time', d], 'descriptions read back')
    ch.state(kind, name, d, unit)


def h_format_word(ch):
    """ the word that tells the layout of the data, in any case; extensions in any case """
    w = ch.pick('word', ['BINARY', 'Binary', 'binary', 'ASCII', 'ascii', 'Ascii'])
    nc = ch.pick('channels', [2, 1, 3, 40])
    ns = ch.pick('scans', [3, 1, 2, 200])
    chs = [CH[0]] + [('Channel %d' % i, 'm', 'Text %d' % i, None) for i in range(1, nc)]
    D = np.array([[0.25 * (i + 1)] + [(-1)**j * (i + 7 * j) for j in range(1, nc)] for i in range(ns)], dtype=float)
    sc = [0.25] + [0.5] * (nc - 1)
    if w.lower() == 'binary':
        put('r.sel', enc.hawc2_sel([c[:3] for c in chs], ns, D[-1, 0], w, sc))
        put('r.dat', np.round(D / np.array(sc)).T.astype('<i2').tobytes())
    else:
        put('r.sel', enc.hawc2_sel([c[:3] for c in chs], ns, D[-1, 0], w))
        put('r.dat', '\n'.join(' '.join('%.8E' % x for x in r) for r in D) + '\n')
    f = K()(ch.pick('opened', ['r.sel', 'r.dat']))
    ch.op()
    expect(ch, f, chs, D, (1e-12, 0))
    ch.state(w, nc, ns)


def harnesses(tier):
    return [('names', h_names), ('format_word', h_format_word), ('files', h_files), ('missing', h_missing), ('channels', h_channels)]
