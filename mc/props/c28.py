"""C28: small wind-energy formats"""
import os, itertools
from ..core import Violation
from ..util import *

INFO = dict(bounds='HAWCStab2 power, induction, force and deflection files of 1..4 rows in the layouts of the program, over the file names of the program; Campbell files of 1..4 modes, 1..4 wind speeds and 1..3 groups; BModes outputs of 1..3 modes and 1..4 stations for blades and towers; ROSCO tables of 1..3 x 1..3 entries with and without wind speeds; TurbSim time series of 1..3 points, 1..3 components and 1..3 steps in either order; FAST wind files of 1..3 rows; step winds; CACTUS cases of 1..3 blades, 1..2 elements, 2..4 steps with and without each optional file, and of many blades, elements, turns and headings; RAAW records of 1..3 channels; histories of read/edit/write/read where writing exists')

FULL = False


def K(n):
    import importlib
    m, c = {'pwr': ('hawcstab2_pwr', 'HAWCStab2PwrFile'), 'ind': ('hawcstab2_ind', 'HAWCStab2IndFile'), 'cmb': ('hawcstab2_cmb', 'HAWCStab2CmbFile'),
            'bmodes': ('bmodes_out', 'BModesOutFile'), 'rosco': ('rosco_performance', 'ROSCOPerformanceFile'), 'ts': ('turbsim_ts', 'TurbSimTSFile'),
            'wnd': ('fast_wind', 'FASTWndFile'), 'cactus': ('cactus', 'CactusFile'), 'raaw': ('raawmat', 'RAAWMatFile')}[n]
    return getattr(importlib.import_module('weio.%s_file' % m), c)


def opened(ch, n, path, how='class'):
    ch.op()
    if how == 'class':
        return K(n)(path)
    if how == 'read':
        import weio
        f = weio.read(path)
        ch.eq(type(f).__name__, K(n).__name__, 'detected class')
        return f
    f = K(n)()
    f.read(path)
    return f


HOW = ['class', 'read', 'method']


def val(i, j, k=0):
    return (-1) ** (i + j) * (1.25 + 3 * i + 0.375 * j + 50 * k)


def near(ch, a, b, what, rtol=0, atol=0):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation('%s: shape %r instead of %r' % (what, a.shape, b.shape))
    if not np.allclose(a, b, rtol=rtol + 1e-14, atol=atol):
        raise Violation('%s: %r instead of %r' % (what, a.tolist(), b.tolist()))


# --- HAWCStab2 -------------------------------------------------------------
PWR = ['V [m/s]', 'P [kW]', 'T [kN]', 'Cp [-]', 'Ct [-]', 'Pitch Q [Nm]', 'Flap M [kNm]', 'Edge M [kNm]', 'Pitch [deg]', 'Speed [rpm]', 'Tip x [m]', 'Tip y [m]', 'Tip z [m]', 'J_rot [kg*m^2]', 'J_DT [kg*m^2]']
IND = ["s [m]", "A [-]", "AP [-]", "PHI0 [rad]", "ALPHA0 [rad]", "U0 [m/s]", "FX0 [N/m]", "FY0 [N/m]", "M0 [Nm/m]", "UX0 [m]", "UY0 [m]", "UZ0 [m]", "Twist[rad]", "X_AC0 [m]", "Y_AC0 [m]", "Z_AC0 [m]", "CL0 [-]", "CD0 [-]", "CM0 [-]", "CLp0[1/rad]", "CDp0[1/rad]", "CMp0[1/rad]", "F0 [-]", "F'[1/rad]", "CL_FS0 [-]", "CLFS'[1/rad]", "V_a [m/s]", "V_t [m/s]", "Tors. [rad]", "vx [m/s]", "vy [m/s]", "chord [m]", "CT [-]", "CP [-]", "angle [rad]", "v_1 [-]", "v_2 [-]", "v_3 [-]"]
DEFL = ['s [m]', 'Element no [-]', 'pos_xR [m]', 'pos_yR [m]', 'pos_zR [m]', 'Elem angle [rad]', 'Elem v_1 [-]', 'Elem v_2 [-]', 'Elem v_3 [-]', 'Node 1 angle [rad]', 'Node 1 v_1 [-]', 'Node 1 v_2 [-]', 'Node 1 v_3 [-]', 'Node 2 angle [rad]', 'Node 2 v_1 [-]', 'Node 2 v_2 [-]', 'Node 2 v_3 [-]', 'Elongation [m]']
FEXT = ['s [m]', 'Node [-]', 'Fx_e [N]', 'Fy_e [N]', 'Fz_e [N]', 'Mx_e [Nm]', 'My_e [Nm]', 'Mz_e [Nm]', 'Fx_r [N]', 'Fy_r [N]', 'Fz_r [N]', 'Mx_r [Nm]', 'My_r [Nm]', 'Mz_r [Nm]']


def name_of(c):
    """ the column name of the table for a name of the file """
    return c.replace(' ', '_').replace('[', '_[').replace('__', '_')


def hs2(names, D, style, eol='\n', last=True):
    """ text of a HAWCStab2 table.  The numbers of the columns follow their names. """
    if style == 'pwr':
        head = ' # ' + ' '.join('%15s %2d' % (c, i + 1) for i, c in enumerate(names))
        fmt = ' %19.10E'
    elif style == 'wide':
        head = ' # ' + ' '.join('%19s%2d' % (c, i + 1) for i, c in enumerate(names))
        fmt = ' %21.6E'
    else:       # induction files: fields of 12 characters and numbers of two, which may touch
        head = ' # ' + ''.join('%11s%3d' % (c, i + 1) if i >= 9 and len(c) < 11 else '%12s%2d' % (c, i + 1) if i < 9 else '%11s%2d ' % (c, i + 1) for i, c in enumerate(names))
        fmt = ' %13.6E'
    L = [head] + [''.join(fmt % x for x in r) for r in D]
    return eol.join(L) + (eol if last else '')


def h_pwr(ch):
    n = ch.pick('rows', [1, 2, 3, 4])
    eol = ch.pick('line ends', ['\n', '\r\n'])
    last = ch.flag('last line ended')
    style = ch.pick('layout', ['pwr', 'wide'])
    fn = ch.pick('name', ['a.pwr', 'dir/case_b.PWR', 'a.b.pwr'])
    hom = ch.pick('numbers', [0, 1, 2])
    how = ch.pick('how', HOW)
    D = np.array([[val(i, j, hom) * 10. ** ((j - 7) * hom) for j in range(15)] for i in range(n)])
    D = np.array([[float(('%.10E' if style == 'pwr' else '%.6E') % x) for x in r] for r in D])
    f = opened(ch, 'pwr', put(fn, hs2(PWR, D, style, eol, last)), how)
    df = f.toDataFrame()
    ch.eq(list(df.columns), [name_of(c) for c in PWR], 'columns')
    near(ch, df.values, D, 'values')


def h_ind(ch):
    kind = ch.pick('kind', ['ind', 'defl', 'fext'])
    names = {'ind': IND, 'defl': DEFL, 'fext': FEXT}[kind]
    n = ch.pick('rows', [1, 2, 3, 4])
    eol = ch.pick('line ends', ['\n', '\r\n'])
    last = ch.flag('last line ended')
    w = ch.pick('wind', [3000, 12500, 8001, 100500, 400])
    fn = ch.pick('name', ['case%s_u%d.ind', 'a_b%s_u%d.ind', 'dir_u2000/x%s_u%d.ind', './DIR.ind/x%s_u%d.IND', 'in_di%s_u%d.txt', 'CASE%s_U%d.IND', 'my case%s_u%d.ind']) % ('' if kind == 'ind' else '_' + kind, w)
    how = ch.pick('how', HOW if not fn.endswith('txt') else HOW[::2])
    D = np.array([[val(i, j) for j in range(len(names))] for i in range(n)])
    D = np.array([[float('%.6E' % x) for x in r] for r in D])
    f = opened(ch, 'ind', put(fn, hs2(names, D, 'ind' if kind == 'ind' else 'wide', eol, last)), how)
    ch.eq(f.type, kind, 'kind of file')
    near(ch, f.wsp, w / 1000., 'wind speed', 1e-12)
    df = f.toDataFrame()
    ch.eq(list(df.columns), [name_of(c) for c in names], 'columns')
    near(ch, df.values, D, 'values')


def h_hs2_wrong(ch):
    """ other files are refused as such """
    cls = ch.pick('reader', ['pwr', 'ind'])
    nc = ch.pick('columns', [1, 2, 13, 14, 15, 16, 17, 18, 19, 37, 38, 39])
    what = ch.pick('what', ['columns', 'no header', 'empty first line', 'text'])
    if what == 'columns':
        if (cls == 'pwr' and nc == 15) or (cls == 'ind' and nc in (14, 18, 38)):
            return
        s = hs2(['N%d [-]' % i for i in range(nc)], [[float(j) for j in range(nc)]], 'wide')
    elif what == 'no header':
        s = ' '.join('%g' % j for j in range(nc)) + '\n'
    elif what == 'empty first line':
        s = '\n' + hs2(['N%d [-]' % i for i in range(nc)], [[float(j) for j in range(nc)]], 'wide')
    else:
        s = 'text\n' * nc
    e = raises(opened, ch, cls, put('a_u1000.' + cls, s))
    ch.check(e is not None and 'WrongFormatError' in mro_names(e), '%s instead of WrongFormatError' % (e if e is None else '%s: %s' % (type(e).__name__, e)))


def h_hs2_broken(ch):
    """ a row with a missing, an additional or an unreadable value """
    cls = ch.pick('reader', ['pwr', 'ind'])
    names = PWR if cls == 'pwr' else ch.pick('kind', [IND, DEFL, FEXT])
    n = ch.pick('rows', [1, 2, 3])
    i = ch.pick('row', range(n))
    j = ch.pick('value', range(len(names)))
    what = ch.pick('what', ['missing', 'additional', 'unreadable', 'cut here', 'all rows short'])
    D = [['%.6E' % val(a, b) for b in range(len(names))] for a in range(n)]
    if what == 'missing':
        del D[i][j]
    elif what == 'additional':
        D[i].insert(j, '1.0')
    elif what == 'unreadable':
        D[i][j] = '1.0x'
    elif what == 'cut here':
        if j == 0:
            return
        D = D[:i] + [D[i][:j]]
    else:
        D = [r[:j] + r[j + 1:] for r in D]
    s = hs2(names, [], 'pwr' if cls == 'pwr' else 'wide') + ''.join(' ' + '  '.join(r) + '\n' for r in D)
    e = raises(opened, ch, cls, put('a_u1000.' + cls, s))
    ch.check(e is not None and 'BrokenFormatError' in mro_names(e), '%s instead of BrokenFormatError' % (e if e is None else '%s: %s' % (type(e).__name__, e)))


def h_cmb(ch):
    nm = ch.pick('modes', [1, 2, 3, 4, 10, 12])
    n = ch.pick('rows', [1, 2, 3, 4] if nm < 5 else [1, 3])
    g = ch.pick('groups', [1, 2, 3])
    head = ch.pick('header', [' # Mode number:', '# V', '#'])
    eol = ch.pick('line ends', ['\n', '\r\n'])
    fmt = ch.pick('numbers', [' %.5E', '%14.6f', '   %.4f'])
    last = ch.flag('last line ended')
    how = ch.pick('how', HOW)
    D = [[3. + i] + [float('%.5g' % abs(val(i, j))) for j in range(nm * g)] for i in range(n)]
    L = [head + ''.join(' %d' % (k + 1) for k in range(nm))] + [''.join(fmt % x for x in r) for r in D]
    f = opened(ch, 'cmb', put('a.cmb', eol.join(L) + (eol if last else '')), how)
    df = f.toDataFrame()
    ch.eq(list(df.columns), ['Wind_[m/s]'] + ['%s%d' % (c, k + 1) for c in 'FDR'[:g] for k in range(nm)], 'columns')
    near(ch, df.values, D, 'values', 1e-9)


# --- BModes -----------------------------------------------------------------
TOWER = ['span_loc', 's-s disp', 's-s slope', 'f-a disp', 'f-a slope', 'twist']
BLADE = ['span_loc', 'flap disp', 'flap slope', 'lag disp', 'lag slope', 'twist']


def bmodes(what, freqs, shapes, gap=2, end=True, sep='\t'):
    names = TOWER if what == 'tower' else BLADE
    s = 'Results generated by BModes (v1.03.01, 25-Sept-2007, compiled using double precision) on 24-Dec-2021 at 12:22:43.\nA title\n' + '=' * 81 + '\n\n'
    s += '            %s frequencies & mode shapes\n            --- only first %3d modes printed\n\n' % ('tower' if what == 'tower' else 'rotating blade', len(freqs))
    for k, (f, m) in enumerate(zip(freqs, shapes)):
        s += '\n' if k == 0 else '\n' * gap
        s += ' -------- Mode No. %3d  (freq = %s Hz)\n\n' % (k + 1, f) + '\t'.join(names) + '\n\n'
        s += ''.join(' %.4f' % r[0] + ''.join('%s%9.6f' % (sep, x) for x in r[1:]) + '\n' for r in m)
    return s + ('=' * 81 + '\n' if end else '')


def h_bmodes(ch):
    what = ch.pick('what', ['tower', 'blade'])
    nm = ch.pick('modes', [1, 2, 3])
    n = ch.pick('stations', [1, 2, 3, 4])
    f0 = ch.pick('frequency', ['0.230788E+00', '0.123456E+03', '0.100000E-02'])
    gap = ch.pick('lines between', [1, 2, 3])
    end = ch.flag('end line')
    sep = ch.pick('separation', ['\t', '  '])
    how = ch.pick('how', HOW)
    F = [f0] + ['0.%d50000E+0%d' % (k + 2, k) for k in range(1, nm)]
    M = [[[i / max(1., n - 1.)] + [0.125 * val(i, j, k) for j in range(5)] for i in range(n)] for k in range(nm)]
    M = [[[float('%.4f' % r[0])] + [float('%.6f' % x) for x in r[1:]] for r in m] for m in M]
    f = opened(ch, 'bmodes', put('a.out', bmodes(what, F, M, gap, end, sep)), how)
    near(ch, f['frequencies'], [float(x) for x in F], 'frequencies')
    ch.eq(len(f['mode_shapes']), nm, 'mode shapes')
    D = f.toDataFrame()
    ch.eq(list(D), ['Mode_%d' % (k + 1) for k in range(nm)], 'tables')
    for k in range(nm):
        near(ch, f['mode_shapes'][k], M[k], 'mode %d' % (k + 1))
        near(ch, D['Mode_%d' % (k + 1)].values, M[k], 'table of mode %d' % (k + 1))
        ch.eq(list(D['Mode_%d' % (k + 1)].columns), TOWER if what == 'tower' else BLADE, 'columns of mode %d' % (k + 1))


# --- ROSCO -------------------------------------------------------------------
PIT = [[0.0], [-1.0, 2.5], [-12.345, 0.0, 100.125], [0, 1, 2]]
TSR = [[7.5], [3.0, 10.125], [1.05, 12.3456, 100.0], [4, 5]]
WSP = [None, [11.4], [8.0, 11.403, 25.25]]


def rosco(pit, tsr, ws, C, gap=True, entries=False, sep='   ', extra=()):
    s = '# ----- Rotor performance tables for the X wind turbine ----- \n# ------------ Written on Oct-30-19 using the ROSCO toolbox ------------ \n\n' + ''.join('# %s\n' % x for x in extra)
    s += '# Pitch angle vector%s - x axis (matrix columns) (deg)\n' % (', %d entries' % len(pit) if entries else '') + sep.join('%r' % x for x in pit) + sep + '\n'
    s += '# TSR vector%s - y axis (matrix rows) (-)\n' % (', %d entries' % len(tsr) if entries else '') + sep.join('%r' % x for x in tsr) + '\n'
    if ws is not None:
        s += '# Wind speed vector - z axis (m/s)\n' + sep.join('%r' % x for x in ws) + '\n'
    for nm, M in zip(['Power', ' Thrust', 'Torque'], C):
        s += '\n# %s coefficient\n\n' % nm + ''.join(sep.join('%.6f' % x for x in r) + '   \n' for r in M) + ('\n' if gap else '')
    return s


def check_rosco(ch, f, pit, tsr, ws, C, what):
    near(ch, f['pitch'], pit, what + ': pitch', 1e-9)
    near(ch, f['TSR'], tsr, what + ': TSR', 1e-9)
    if ws is None:
        ch.check(f['WS'] is None, what + ': wind speeds %r' % (f['WS'],))
    else:
        near(ch, f['WS'], ws, what + ': wind speeds', 1e-9)
    D = f.toDataFrame()
    ch.eq(sorted(D), ['CP', 'CQ', 'CT'], what + ': tables')
    for k, c in enumerate(['CP', 'CT', 'CQ']):
        near(ch, f[c], C[k], what + ': ' + c, 0, 1e-12)
        near(ch, D[c].values, np.column_stack((tsr, C[k])), what + ': table of ' + c, 1e-9, 1e-12)
        ch.eq(list(D[c].columns), ['TSR_[-]'] + ['Pitch_%.2f_[deg]' % p for p in pit], what + ': columns of ' + c)


def h_rosco(ch):
    pit, tsr, ws = ch.pick('pitch', PIT), ch.pick('TSR', TSR), ch.pick('wind', WSP)
    z = ch.pick('coefficients', [0.001, 0.4, 3.])
    C = [[[float('%.6f' % (z * val(i, j, k) / 10)) for j in range(len(pit))] for i in range(len(tsr))] for k in range(3)]
    src = ch.pick('source', ['file', 'file2', 'file3', 'memory'])
    if src == 'memory':
        f = K('rosco')()
        ints = ch.pick('arrays', ['arrays', 'lists', 'given'])
        A = {'arrays': lambda x: np.array(x, dtype=float), 'lists': list, 'given': np.array}[ints]
        f['pitch'], f['TSR'], f['WS'] = A(pit), A(tsr), None if ws is None else A(ws)
        for k, c in enumerate(['CP', 'CT', 'CQ']):
            f[c] = np.array(C[k])
    else:
        s = rosco(pit, tsr, ws, C) if src == 'file' else rosco(pit, tsr, ws, C, extra=['a note', 'more, 3 4', 'and more', 'x']) if src == 'file3' else rosco(pit, tsr, ws, C, gap=False, entries=True, sep='\t')
        f = opened(ch, 'rosco', put('Cp_Ct_Cq.txt', s), ch.pick('how', HOW[::2]))
        check_rosco(ch, f, pit, tsr, ws, C, 'read')
    ed = ch.pick('edit', ['none', 'coefficient', 'pitch', 'wind'])
    if ed == 'coefficient':
        f['CT'][-1, -1] = C[1][-1][-1] = 0.123456
    elif ed == 'pitch':
        f['pitch'] = np.array([p + 0.0625 for p in pit])
        pit = [p + 0.0625 for p in pit]
    elif ed == 'wind':
        ws = None if ws is not None else [9.125]
        f['WS'] = None if ws is None else np.array(ws)
    ch.op()
    out = ch.pick('target', ['b.txt', 'Cp_Ct_Cq.txt'])
    f.write(out)
    check_rosco(ch, f, pit, tsr, ws, C, 'after writing')
    g = opened(ch, 'rosco', out)
    check_rosco(ch, g, pit, tsr, ws, C, 're-read')


# --- TurbSim user time series --------------------------------------------------
def tsfile(nc, P, ident, D, order, head, sep, names='zero'):
    comps = 'uvw'[:nc]
    keys = [(p, c) for p in range(len(P)) for c in comps] if order == 'points' else [(p, c) for c in comps for p in range(len(P))]
    L = list(head)
    L += ['          %d nComp - Number of velocity components in the file' % nc, '          %d nPoints - Number of time series points contained in this file (-)' % len(P), '          %d RefPtID - Index of the reference point (1-nPoints)' % ident]
    L += ['     Pointyi Pointzi ! nPoints listed in order of increasing height', '       (m)     (m)'] + ['  %10.4f %10.4f' % tuple(p) for p in P]
    L += ['--------Time Series-------------------------------------------------------------']
    L += ['Elapsed Time   ' + '  '.join(('Point%02d%s' if names == 'zero' else 'Point%d%s') % (p + 1, c) for p, c in keys), '  (s)   ' + '  '.join('(m/s)' for _ in keys)]
    for i, t in enumerate(D['t']):
        L.append(sep.join(['%.4f' % t] + ['%.9f' % D[k][i] for k in keys]))
    return '\n'.join(L), keys


HEADS = [['--------------TurbSim v2.00.* User Time Series Input File-----------------------', 'Comment', '-' * 80], ['one line'], ['-----', 'é ü', '----'], ['a'] * 9]


def check_ts(ch, f, nc, P, ident, D, what, rtol=0):
    ch.eq(int(f['nComp']), nc, what + ': components')
    ch.eq(int(f['ID']), ident, what + ': reference point')
    near(ch, f['Points'], P, what + ': points', rtol)
    T = f.toDataFrame()
    near(ch, T['Points'].values, P, what + ': table of points', rtol)
    df = T['TimeSeries']
    ch.eq(sorted(df.columns), sorted(['Time_[s]'] + ['Point%d%s_[m/s]' % (p + 1, c) for p in range(len(P)) for c in 'uvw'[:nc]]), what + ': columns')
    near(ch, df['Time_[s]'], D['t'], what + ': time', rtol)
    for p in range(len(P)):
        for c in 'uvw'[:nc]:
            near(ch, df['Point%d%s_[m/s]' % (p + 1, c)], D[(p, c)], what + ': point %d, %s' % (p + 1, c), rtol)


def h_ts(ch):
    nc = ch.pick('components', [1, 2, 3])
    npt = ch.pick('points', [1, 2, 3, 10] if FULL else [1, 2, 10])
    n = ch.pick('steps', [1, 2, 3] if FULL else [1, 3])
    order = ch.pick('order', ['points', 'components'])
    head = ch.pick('header', HEADS)
    sep = ch.pick('separation', ['\t', '   '])
    names = ch.pick('names', ['zero', 'plain'] if FULL or head == HEADS[0] else ['zero'])
    end = ch.pick('end', ['', '\n', '\n\n'])
    ident = ch.pick('reference', [1, npt] if npt > 1 else [1])
    P = [[0.5 * p - 0.0625, 20.2537 + 10 * p] for p in range(npt)]
    D = {'t': [0.0125 * i for i in range(n)]}
    for p in range(npt):
        for c in range(nc):
            D[(p, 'uvw'[c])] = [float('%.9f' % (val(i, 3 * p + c) + 1e-3 * i + 1.2345e-5)) for i in range(n)]
    s, keys = tsfile(nc, P, ident, D, order, head, sep, names)
    enc = ch.pick('encoding', ['utf-8', 'latin-1']) if head == HEADS[2] else 'utf-8'
    f = opened(ch, 'ts', put('ts.txt', (s + end).encode(enc)), ch.pick('how', HOW) if end == '\n' else 'class')
    check_ts(ch, f, nc, P, ident, D, 'read')
    ch.op()
    out = ch.pick('target', ['b.txt', 'ts.txt'])
    ed = ch.pick('edit', ['none', 'value', 'point']) if end == '\n' else 'none'
    if ed == 'value':
        j = 1 + keys.index((npt - 1, 'uvw'[nc - 1]))
        f['data'][n - 1, j] = D[keys[j - 1]][n - 1] = -7.25
    elif ed == 'point':
        f['Points'][0, 1] = P[0][1] = 19.5
    f.write(out)
    check_ts(ch, f, nc, P, ident, D, 'after writing')
    g = opened(ch, 'ts', out)
    check_ts(ch, g, nc, P, ident, D, 're-read', 1e-8)
    got = get(out).decode(enc).split('\n')[:len(head)]
    ch.eq([x.strip() for x in got], head, 'header lines')
    # and the written file says itself what its columns are
    L = get(out).decode(enc).split('\n')
    h = len(head)
    ch.eq([int(x.split()[0]) for x in L[h:h + 3]], [nc, npt, ident], 'sizes in the written file')
    ch.eq([len(x.split()) for x in L[h + 5:h + 5 + npt]], [2] * npt, 'points in the written file')
    ch.check(L[h + 5 + npt].startswith('---'), 'the line before the time series in the written file')
    ch.eq([len(x.split()) - x.count('Elapsed') for x in L[h + 6 + npt:] if x.strip()], [1 + nc * npt] * (n + 2), 'entries in the lines of the written time series')
    ch.eq(L[h + 7 + npt].split(), ['(s)'] + ['(m/s)'] * (nc * npt), 'units in the written file')
    nl = L[len(head) + 6 + npt].split()[1:] if L[len(head) + 6 + npt].split()[0] == 'Time' else L[len(head) + 6 + npt].split()[2:]
    row = [float(x) for x in L[len(head) + 8 + npt].split()]
    for nme, x in zip(nl, row[1:]):
        near(ch, x, D[(int(nme[5:-1]) - 1, nme[-1])][0], 'first value of column %s in the written file' % nme, 1e-8)


# --- deterministic winds ---------------------------------------------------------
WND = ['Time_[s]', 'WindSpeed_[m/s]', 'WindDir_[deg]', 'VertSpeed_[m/s]', 'HorizShear_[-]', 'VertShear_[-]', 'LinVShear_[-]', 'GustSpeed_[m/s]']


def h_wnd(ch):
    n = ch.pick('rows', [1, 2, 3])
    head = ch.pick('header', [['! Deterministic Wind file', '! Time\tWind\tWind\tVert.\tHoriz.\tVert.\tLinV\tGust', '!\tSpeed\tDir\tSpeed\tShear\tShear\tShear\tSpeed'], ['!one'], [], ['! a', '!', '! 1 2 3']])
    sep = ch.pick('separation', ['\t', '  ', ' '])
    lead = ch.pick('start', ['', ' ', '\t'])
    fmt = ch.pick('numbers', ['%.2f', '%g', '%08.3f', '%.4E'])
    end = ch.pick('end', ['\n', '', '\n\n'])
    eol = ch.pick('line ends', ['\n', '\r\n'])
    D = [[10. * i] + [float(fmt % val(i, j)) for j in range(7)] for i in range(n)]
    s = eol.join(head + [lead + sep.join(fmt % x for x in r) for r in D]) + end.replace('\n', eol)
    f = opened(ch, 'wnd', put('a.wnd', s), ch.pick('how', HOW) if end == '\n' else 'class')
    df = f.toDataFrame()
    ch.eq(list(df.columns), WND, 'columns')
    near(ch, df.values, D, 'values')
    ed = ch.pick('edit', ['none', 'value', 'row'])
    if ed == 'value':
        f.data.iloc[n - 1, 1] = D[n - 1][1] = 12.625
    elif ed == 'row':
        f.data = pd.concat([f.data, f.data.iloc[-1:]], ignore_index=True)
        D = D + [list(D[-1])]
    ch.op()
    out = ch.pick('target', ['b.wnd', 'a.wnd'])
    f.write(out)
    g = opened(ch, 'wnd', out)
    df = g.toDataFrame()
    ch.eq(list(df.columns), WND, 're-read columns')
    near(ch, df.values, D, 're-read values', 1e-12)
    L = get(out).decode().replace('\r', '').split('\n')
    ch.eq(L[:len(head)], [x.strip() for x in head], 'header of the written file')
    ch.check(all(x.startswith('!') for x in L[:-1] if not x.replace('\t', ' ').replace('.', '').replace('-', '').replace('+', '').replace('e', '').replace(' ', '').isdigit()), 'names that are not comments in the written file')


def h_step(ch):
    """ step winds: every speed is held for its time, in steps of the given size """
    w0 = ch.pick('first', [3, 5.5])
    dw = ch.pick('step', [1, 0.5, 2])
    k = ch.pick('steps', [0, 1, 2, 5])
    ts = ch.pick('duration', [100, 7.5, [120, 60], [50, 50]])
    dt = ch.pick('dt', [0.5, 0.05])
    t0 = ch.pick('start', [0, 30])
    tm = ch.pick('end', [999, 10])
    ch.op()
    f = K('wnd')()
    f.stepWind(WSstep=dw, WSmin=w0, WSmax=w0 + k * dw, tstep=ts, dt=dt, tmin=t0, tmax=tm)
    W = [w0 + i * dw for i in range(k + 1)]
    T = list(np.around(np.linspace(ts[0], ts[1], k + 1), 0)) if isinstance(ts, list) else [ts] * (k + 1)
    exp, t = [[t0, W[0]]], t0
    for i in range(k):
        t += T[i]
        exp += [[t - dt, W[i]], [t, W[i + 1]]]
    exp += [[max(tm, t + T[-1]), W[-1]]]
    df = f.toDataFrame()
    ch.eq(list(df.columns), WND, 'columns')
    near(ch, df.values[:, :2], exp, 'times and speeds', 1e-12)
    near(ch, df.values[:, 2:], np.zeros((len(exp), 6)), 'other columns')
    out = 'step.wnd'
    f.write(out)
    g = opened(ch, 'wnd', out)
    near(ch, g.toDataFrame().values, np.column_stack((np.array(exp), np.zeros((len(exp), 6)))), 're-read', 1e-12)
    ch.check(get(out).startswith(b'!'), 'the written file has its header')


# --- CACTUS ------------------------------------------------------------------------
TC = ['Normalized Time (-)', 'Theta (rad)', 'Rev', 'Torque Coeff. (-)', 'Power Coeff. (-)', 'Fx Coeff. (-)', 'Fy Coeff. (-)', 'Fz Coeff. (-)']
BC = ['Blade Fx Coeff. (-)', 'Blade Fy Coeff. (-)', 'Blade Fz Coeff. (-)', 'Blade Torque Coeff. (-)']
EC = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'x/R (-)', 'AOA25 (deg)', 'AOA50 (deg)', 'AOA75 (deg)', 'AdotNorm (-)', 'Re (-)', 'Mach (-)', 'Ur (-)', 'IndU (-)', 'IndV (-)', 'IndW (-)', 'GB (?)', 'CL (-)', 'CD (-)', 'CM25 (-)', 'CLCirc (-)', 'CN (-)', 'CT (-)', 'Fx (-)', 'Fy (-)', 'Fz (-)']
DC0 = ['Normalized Time (-)', 'Theta (rad)', 'Blade', 'Element', 'Rev', 'alpha (deg)', 'adotnorm (-)', 'alrefL (deg)', 'alrefD (deg)']


def num(i, j, k=0):
    return 0.0625 * (1 + i * 3 + j) * (-1) ** (i // 2 + j + k) + k


def h_cactus(ch):
    nb = ch.pick('blades', [1, 2, 3])
    ne = ch.pick('elements', [0, 1, 2])
    nti, nr = ch.pick('steps and turns', [(2, 1), (2, 2), (4, 1), (4, 2)] if FULL else [(2, 1), (2, 2)])
    short = ch.pick('stopped early', [0, 1]) if nti * nr > 2 else 0
    geom = ch.flag('geometry file')
    ds = ch.flag('dynamic stall file') if ne else False
    sign = ch.pick('sign', [None, 1, -1])
    order = ch.pick('order of elements', ['time', 'blade']) if ne else 'time'
    case = ch.pick('case', [(120.0, 4.0, 0.002378), (60.0, 2.5, 0.0023)])
    size = ch.pick('size', [(6.5, 2.0), (3.28084, 1.25)])
    how = ch.pick('how', ['class', 'read']) if nb == 1 or FULL else 'class'
    cactus(ch, nb, ne, nti, nr, short, geom, ds, sign, order, case, size, how)


DX = ['DynamicFlagL', 'DynamicFlagD', 'alphaLagD (deg)', 'delN', 'delP', 'transA', 'gammaL', 'gammaD', 'dalphaL (deg)', 'Tu', 'alphadot']
HEAD = [['! geometry', 'NBlade:   {nb}', 'NStrut:   0', 'RotN:  0.0 0.0 1.0  ! axis', 'RotP: 0 0 0', 'RefAR:  {ar!r}', 'RefR:  {r!r}', 'Type: VAWT'],
        ['NBlade: {nb}', 'NStrut:\t3', 'RotN: 0 0 1', 'RotP: 0 0 0', 'RefAR: {ar!r}', 'RefR: {r!r}', 'Type: VAWT', 'Blade 1:', '    NElem: 2', '    FlipN: 0', '    QCx: 1 1 1', '    QCy: 0 0 0'],
        ['! made by', '!', '! a note: with a colon', '', 'NBlade:   {nb}     ! blades', 'NStrut:   0', 'RotN:  0.0 0.0 1.0  ! axis', 'RotP: 0 0 0', 'RefAR:  {ar!r}   !', 'RefR:  {r!r}', 'Type: VAWT']]


def h_cactus_more(ch):
    """ many blades, elements and turns, other headings, all columns """
    kind = ch.pick('kind', ['blades', 'elements', 'turns', 'heading', 'columns', 'blades with elements'])
    a = dict(nb=2, ne=1, nti=4, nr=1, short=0, geom=True, ds=False, sign=None, order='time', case=(90.0, 3.0, 0.0023), size=(6.5, 2.0), how='class')
    if kind == 'blades':
        a['nb'] = ch.pick('blades', [1, 2, 3, 4, 5, 6, 12])
    elif kind == 'elements':
        a['ne'] = ch.pick('elements', [3, 9, 10, 12, 30])
        a['ds'] = ch.flag('dynamic stall file')
        a['order'] = ch.pick('order of elements', ['time', 'blade'])
    elif kind == 'turns':
        a['nti'], a['nr'] = ch.pick('steps', [1, 3, 16]), ch.pick('turns', [2, 3, 5])
        a['case'] = ch.pick('case', [(37.5, 4.0, 0.002378), (400.25, 2.5, 0.0023), (7.3, 0.5, 0.0025)])
        a['short'] = ch.pick('stopped early', [0, 1, 2]) if a['nti'] > 1 else 0
    elif kind == 'heading':
        a['head'] = ch.pick('heading', HEAD)
        a['size'] = ch.pick('size', [(6.5, 2.0), (1.0, 0.5), (0.25, 10.0), (656.168, 2.0)])
    elif kind == 'columns':
        a['ds'] = True
        a['extra'] = DX
        a['sign'] = ch.pick('sign', [None, 1, -1])
        a['nb'], a['ne'] = ch.pick('blades', [1, 3]), ch.pick('elements', [1, 2])
    else:
        a['nb'] = ch.pick('blades', [2, 3, 4])
        a['only'] = [b for b in range(a['nb']) if ch.flag('elements of blade')]
        if not a['only']:
            return
        a['ne'] = 2
    cactus(ch, **a)
    ch.state(repr(a))


def cactus(ch, nb, ne, nti, nr, short, geom, ds, sign, order, case, size, how, head=HEAD[0], extra=(), only=None):
    rpm, ut, rho = case
    refr, refar = size
    DC = DC0 + list(extra)
    only = range(nb) if only is None else only
    main = "&ConfigInputs\n  GPFlag = 0\n  nr = %d\n  nti = %d\n/End\n\n&CaseInputs\n  jbtitle = 'Test'\n  rho = %r\n  RPM = %r\n  Ut = %r\n  CTExcrM = 0.0\n  AFDPath = 'airfoils/a.dat'\n  GeomFilePath = 'geom/a.geom'\n/End\n" % (nr, nti, rho, rpm, ut)
    put('case/a.in', main)
    if geom:
        put('case/geom/a.geom', '\n'.join(head).format(nb=nb, ar=refar, r=refr) + '\n')
    n = nti * nr - short
    cols = TC + BC * nb
    T = [[num(i, j) for j in range(len(cols))] for i in range(n)]
    put('case/output/a_TimeData.csv', ','.join(cols) + '\n' + ''.join(','.join('%.6f' % x for x in r) + '\n' for r in T))
    keys = [(i, b, e) for i in range(n) for b in only for e in range(ne)]
    if order == 'blade':
        keys.sort(key=lambda k: (k[1], k[2], k[0]))
    E, S = {}, {}
    for i, b, e in keys:
        q = i * nb * ne + b * ne + e
        E[i, b, e] = {c: num(q, j, 1) for j, c in enumerate(EC)}
        S[i, b, e] = {c: num(q, j, 2) for j, c in enumerate(DC)}
        for X in (E, S):
            X[i, b, e].update({'Blade': b + 1, 'Element': e + 1})
    if ne:
        put('case/output/a_ElementData.csv', ','.join(EC) + '\n' + ''.join(','.join('%d' % E[k][c] if c in ('Blade', 'Element') else '%.6f' % E[k][c] for c in EC) + '\n' for k in keys))
    if ds:
        put('case/output/a_DSData.csv', ','.join(DC) + '\n' + ''.join(','.join('%d' % S[k][c] if c in ('Blade', 'Element') else '%.6f' % S[k][c] for c in DC) + '\n' for k in keys))
    f = opened(ch, 'cactus', 'case/a.in', how)
    ch.eq((f['configinputs']['nr'], f['configinputs']['nti'], f['caseinputs']['rpm'], f['caseinputs']['ut'], f['caseinputs']['rho'], f['caseinputs']['jbtitle']), (nr, nti, rpm, ut, rho, 'Test'), 'case')
    if geom:
        ch.eq((int(f['geom']['nblade']), float(f['geom']['refr']), float(f['geom']['refar']), str(f['geom']['type']).strip(), list(f['geom']['rotn']), list(f['geom']['rotp'])), (nb, refr, refar, 'VAWT', [0., 0., 1.], [0., 0., 0.]), 'geometry')
    ch.eq(list(f['dfTime'].columns), TC + [c.replace('Blade', 'Blade%d' % (b + 1)) for b in range(nb) for c in BC], 'names of the time data')
    near(ch, f['dfTime'].values, T, 'time data', 0, 1e-12)
    if ne:
        ch.eq(list(f['dfElem'].columns), EC, 'names of the element data')
        near(ch, f['dfElem'].values, [[E[k][c] for c in EC] for k in keys], 'element data', 0, 1e-12)
    else:
        ch.check(f['dfElem'] is None, 'element data of no file')
    # --- converted table
    D = f.toDataFrame() if sign is None else f.toDataFrame(alphaSign=sign)
    sg = -1 if sign is None else sign
    R = refr / 3.28084 if geom else 1.
    A = refar * refr ** 2 / 3.28084 ** 2 if geom else 2.
    om = rpm * 2 * np.pi / 60
    U = om * R / ut
    rh = rho * 1.2 / 0.0023280000
    F0, Q0, P0 = .5 * rh * A * U ** 2, .5 * rh * A * U ** 2 * R, .5 * rh * A * U ** 3
    t = np.arange(n) * 2 * np.pi / om / nti
    th = t * om
    X = {c: np.array([r[j] for r in T]) for j, c in enumerate(TC)}
    B = [{c: np.array([r[8 + 4 * b + j] for r in T]) for j, c in enumerate(BC)} for b in range(nb)]
    rep = lambda a: np.concatenate(([a[1 if len(a) > 1 else 0]], a[1:]))
    exp = {'Time_[s]': t, 'HWindSpeedX_[m/s]': U + 0 * t, 'RtAeroCp_[-]': X['Power Coeff. (-)'], 'RtAeroCq_[-]': X['Torque Coeff. (-)'],
           'ZAeroFxg_[N]': X['Fx Coeff. (-)'] * F0, 'ZAeroFyg_[N]': -X['Fz Coeff. (-)'] * F0, 'ZAeroFzg_[N]': X['Fy Coeff. (-)'] * F0, 'ZAeroMzg_[N-m]': X['Torque Coeff. (-)'] * Q0,
           'RtAeroFxh_[N]': X['Fy Coeff. (-)'] * F0, 'RtAeroFyh_[N]': (np.cos(th) * X['Fx Coeff. (-)'] - np.sin(th) * X['Fz Coeff. (-)']) * F0, 'RtAeroFzh_[N]': -(np.cos(th) * X['Fz Coeff. (-)'] + np.sin(th) * X['Fx Coeff. (-)']) * F0,
           'RtAeroMxh_[N-m]': X['Torque Coeff. (-)'] * Q0, 'RtAeroPwr_[W]': rep(X['Power Coeff. (-)'] * P0), 'RotSpeed_[rpm]': rpm + 0 * t, 'Wind1VelX_[m/s]': U + 0 * t}
    for b in range(nb):
        p, s = th - 2 * np.pi * b / nb, str(b + 1)
        fx, fy, fz, q = (B[b][c] for c in BC)
        exp.update({'Y%sAeroFxb_[N]' % s: -(np.cos(p) * fz + np.sin(p) * fx) * F0, 'Y%sAeroFyb_[N]' % s: (np.cos(p) * fx - np.sin(p) * fz) * F0, 'Y%sAeroFzb_[N]' % s: -fy * F0, 'Y%sAeroMxb_[N-m]' % s: q * Q0,
                    'Y%sAeroPwr_[W]' % s: rep(q * Q0 * om), 'Z%sAeroFxg_[N]' % s: fx * F0, 'Z%sAeroFyg_[N]' % s: -fz * F0, 'Z%sAeroFzg_[N]' % s: fy * F0, 'Z%sAeroMzg_[N-m]' % s: q * Q0})
        for e in range(ne) if b in only else []:
            g = {c: np.array([E[i, b, e][c] for i in range(n)]) for c in EC}
            pre = 'AB%dN%03d' % (b + 1, e + 1)
            al = g['AOA25 (deg)'] * np.pi / 180
            exp.update({pre + k: v for k, v in {'Alpha_[deg]': sg * g['AOA25 (deg)'], 'Alpha50_[deg]': sg * g['AOA50 (deg)'], 'Alpha75_[deg]': sg * g['AOA75 (deg)'], 'Cl_[-]': sg * g['CL (-)'], 'Cd_[-]': g['CD (-)'], 'Cm_[-]': sg * g['CM25 (-)'],
                        'Cn_[-]': sg * g['CN (-)'], 'Ct_[-]': sg * g['CT (-)'], 'Ct2_[-]': sg * (-g['CL (-)'] * np.sin(al) + g['CD (-)'] * np.cos(al)), 'Cxg_[-]': g['Fx (-)'], 'Cyg_[-]': -g['Fz (-)'], 'Czg_[-]': g['Fy (-)'], 'ClC_[-]': sg * g['CLCirc (-)'],
                        'Re_[-]': g['Re (-)'] / 1e6, 'Gam_[m^2/s]': sg * g['GB (?)'] * U * R, 'Vrel_[m/s]': g['Ur (-)'] * U, 'Vindx_[m/s]': -(np.cos(p) * g['IndW (-)'] + np.sin(p) * g['IndU (-)']) * U, 'Vindy_[m/s]': (np.cos(p) * g['IndU (-)'] - np.sin(p) * g['IndW (-)']) * U}.items()})
            if ds:
                g = {c: np.array([S[i, b, e][c] for i in range(n)]) for c in DC}
                exp.update({pre + 'alpha_34_[deg]': sg * g['alpha (deg)'], pre + 'alphaE_[deg]': sg * g['alrefL (deg)'], pre + 'alphaED_[deg]': sg * g['alrefD (deg)'], pre + 'adotnorm_[-]': sg * g['adotnorm (-)']})
                if extra:   # (the file says delN for what is called delP here, and the other way round)
                    exp.update({pre + k: v for k, v in {'activeL_[-]': g['DynamicFlagL'], 'activeD_[-]': g['DynamicFlagD'], 'alphaLagD_[deg]': sg * g['alphaLagD (deg)'], 'delP_[-]': g['delN'], 'delN_[-]': g['delP'], 'transA_[-]': g['transA'], 'gammaL_[-]': g['gammaL'], 'gammaD_[-]': g['gammaD'],
                                'dalphaL_[deg]': sg * g['dalphaL (deg)'], 'dalphaD_[deg]': sg * (g['alpha (deg)'] - g['alrefD (deg)']), 'Tu_[s]': g['Tu'], 'alphaDot_[rad/s]': sg * g['alphadot'], 'alphaDot2_[rad/s]': None}.items()})
    exp.update({c: np.array([r[j] for r in T]) for j, c in enumerate(f['dfTime'].columns)})
    ch.eq(sorted(set(D.columns) - {'Azimuth_[deg]'}), sorted(exp), 'columns of the table')
    for k, v in exp.items():
        if v is None:     # ("TODO WRONG" in the code)
            continue
        near(ch, D[k].values, v, k, 1e-9, 1e-9 * (1 + np.max(np.abs(v))))
    az = np.mod(D['Azimuth_[deg]'].values - th * 180 / np.pi + 180, 360) - 180
    near(ch, az, 0 * t, 'azimuth', 0, 1e-6)
    ch.check(bool(np.all((D['Azimuth_[deg]'].values >= 0) & (D['Azimuth_[deg]'].values < 360.0000001))), 'azimuth within a turn')
    ch.check(len(D) == n, 'rows')


# --- RAAW -------------------------------------------------------------------------
def h_raaw(ch):
    from scipy.io import savemat
    nc = ch.pick('channels', [1, 2, 3])
    C = [(['a', 'Wind_80m', 'c d'][i], ch.pick('rate %d' % i, [True, False, None] if nc < 3 else [True, False])) for i in range(nc)]
    row = ch.flag('rows of data')
    date = ch.pick('date', [[2020, 1, 2, 3, 4, 5], [1999, 12, 31, 23, 59, 0], [2021, 10, 10, 0, 0, 10]])
    how = ch.pick('how', HOW) if nc == 1 or FULL else 'class'
    key = ch.pick('list of channels', [None, (), ('50hz',), ('1hz',), ('50hz', '50hz', '1hz'), ('1hz', '1hz', '50hz')]) if how == 'class' and not row and date[0] == 2020 else None
    cell = np.empty((nc, 1), dtype=object)
    V = []
    for i, (name, fast) in enumerate(C):
        # (signals of another rate are left out)
        n, dt = (30000, 0.02) if fast else (600, 1.) if fast is not None else (600, 0.1)
        v = (i + 1) * 0.5 * np.arange(n) - i
        V.append(v)
        cell[i, 0] = dict(a='x', name=name, c='u', dt=dt, e='e', t=np.array([date], dtype=np.int32), data=v.reshape(1, -1) if row else v.reshape(-1, 1))
    savemat('a.mat', {'DataCell': cell})
    extra = {'50hz': [], '1hz': []}
    if key is None:
        f = opened(ch, 'raaw', 'a.mat', how)
        D = f.toDataFrame()
    else:
        # a list of the channels that there should be: the others are added without values
        from weio.raawmat_file import matfile
        L = {k: [c for c, fs in C if fs is (k == '50hz')] for k in extra}
        for i, k in enumerate(key):
            extra[k].append('none%d' % i)
        L = {k: L[k] + extra[k] for k in L}
        m = max(len(v) for v in L.values())
        if len(L['50hz']) < m:
            return      # (only the second column may have empty cells)
        put('key.csv', '50hz,1hz\n' + ''.join('%s,%s\n' % (L['50hz'][i], L['1hz'][i] if i < len(L['1hz']) else '') for i in range(m)))
        D = matfile('a.mat', path_key='key.csv')
        ch.op()
    ch.eq(sorted(D), ['data1hz', 'data50hz'], 'tables')
    t0 = pd.Timestamp(*date)
    for key, fast, n, dt in [('data50hz', True, 30000, 0.02), ('data1hz', False, 600, 1.)]:
        df = D[key]
        X = extra['50hz' if fast else '1hz']
        ch.eq(sorted(df.columns[len(df.columns) - len(X):]), sorted(X), key + ': channels without values')
        for c in X:
            ch.check(bool(np.all(np.isnan(df[c].values.astype(float)))), key + ': values of a channel that is not in the file')
        ch.eq(list(df.columns)[:len(df.columns) - len(X)], ['time'] + [c for c, fs in C if fs is fast], key + ': columns')
        ch.eq(len(df), n, key + ': rows')
        near(ch, df['time'], np.arange(n) * dt, key + ': time', 0, 1e-9)
        ch.check(bool(np.all(df.index == t0 + pd.to_timedelta(np.arange(n) * int(dt * 1000), unit='ms'))), key + ': time stamps')
        for (c, fs), v in zip(C, V):
            if fs is fast:
                near(ch, df[c], v, key + ': ' + c)


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('pwr', h_pwr), ('ind', h_ind), ('hs2_wrong', h_hs2_wrong), ('hs2_broken', h_hs2_broken), ('cmb', h_cmb), ('bmodes', h_bmodes), ('rosco', h_rosco), ('turbsim_ts', h_ts), ('wnd', h_wnd), ('step_wind', h_step), ('cactus', h_cactus), ('cactus more', h_cactus_more), ('raaw', h_raaw)]
