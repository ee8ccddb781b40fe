"""C21: FLEX blade, profile, wave kinematics and documentation files"""
import os
from ..core import Violation
from ..util import *

INFO = dict(bounds='blade: 4 versions, 1..4 sections, 7 comments, 4 layouts, values of 9 magnitudes; profile: 1..3 sets, 1..3 thicknesses, 1..3 angles, 4 layouts, write/read; wave kinematics: 1..2 displacements, 1..4 depths, 1..4 steps, 4 layouts; documentation: 24 kinds of values, 5 table headings, 22 tables of 2..40 columns, 20 matrices, 0..4 rows, orders of 3 blocks; the example files with every section repeated; every row cut to fewer columns, every line missing')

FULL = False
VAL = [0.0, 1.0, -2.5, 1.811e10, 1e-7, 715.25, -83.2, 100.0, 3.5]

# ------------------------------------------------------------------ blade
ALL = ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'GKt_[Nm2]', 'Mass_[kg/m]', 'Jxx_[kg.m]', 'PreBendFlap_[m]', 'PreBendEdge_[m]', 'Str.Twist_[deg]', 'PhiOut_[deg]', 'Ycog_[m]', 'Yshc_[m]', 'CalcOutput_[0/1]', 'Chord_[m]', 'AeroTwist_[deg]', 'RelThickness_[%]', 'AeroCenter_[m]', 'AeroTorsion_[0/1]', 'ProfileSet_[#]']
S0 = ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'Mass_[kg/m]', 'Str.Twist_[deg]', 'CalcOutput_[0/1]', 'PreBendFlap_[m]', 'PreBendEdge_[m]']
STRUCT = {0: S0, 1: S0, 2: S0 + ['GKt_[Nm2]'],
          3: ['r_[m]', 'EIFlap_[Nm2]', 'EIEdge_[Nm2]', 'GKt_[Nm2]', 'Mass_[kg/m]', 'Jxx_[kg.m]', 'PreBendFlap_[m]', 'PreBendEdge_[m]', 'Str.Twist_[deg]', 'PhiOut_[deg]', 'Ycog_[m]', 'Yshc_[m]', 'CalcOutput_[0/1]']}
A0 = ['Chord_[m]', 'AeroTwist_[deg]', 'RelThickness_[%]', 'AeroCenter_[m]']
AERO = {0: A0, 1: A0 + ['AeroTorsion_[0/1]'], 2: A0 + ['AeroTorsion_[0/1]', 'ProfileSet_[#]'], 3: A0 + ['AeroTorsion_[0/1]', 'ProfileSet_[#]']}
COMMENTS = ['Comment', '', 'V27 blade', '1.234 10 MW blade', 'a blade # 3', 'N80', '003 # blade']


def num(x, lay):
    return {'plain': '%.10g', 'tabs': '%.10E', 'comments': '%12.6f' if abs(x) > 1e-3 or x == 0 else '%.10g', 'crlf': '%.10e'}[lay] % x


def row(v, lay):
    s = {'plain': '  ', 'tabs': '\t', 'comments': ' ', 'crlf': '   '}[lay].join(num(x, lay) for x in v)
    return s + {'comments': '  ! section 12 of 13', 'tabs': '\t'}.get(lay, '')


def blade_lines(v, comment, lay, R, T, A, beta, damp, prof):
    L = [('#%03d ' % v if v else '') + comment]
    L.append('%d%s' % (len(R), ' r[m] EI_Flp[Nm2] 3 4' if lay != 'plain' else ''))
    rows = []
    for r, t in zip(R, T):
        rows.append(len(L))
        L.append(row([r] + t, lay))
    L.append(num(beta, lay) + ' !BetaC 5')
    if v == 3:
        L += ['#LOGD'] + [' '.join('%g' % x for x in d) + (' ; text 1 2' if lay != 'plain' else '') for d in damp] + ['#AERO', '; X[m]  C[m]']
    else:
        L.append(' '.join('%g' % x for x in damp[0] + damp[1]) + {'plain': '', 'tabs': ' log decr. for mode 1-4'}.get(lay, ' 0.5 0.6 log decr. for mode 1-4'))
    for r, a in zip(R, A):
        rows.append(len(L))
        L.append(row([r] + a, lay))
    L.append('  data/Profile 1.pro ' if lay == 'comments' else prof)
    return L, rows


def mkblade(ch, full=True):
    v = ch.pick('version', [0, 1, 2, 3])
    n = ch.pick('sections', [2, 1, 3, 4])
    R = [2.0 + 1.5 * i for i in range(n)]
    k = ch.pick('values', range(len(VAL)) if FULL else [0, 4, 7])
    T = [[VAL[(k + i + 2 * j) % len(VAL)] for j in range(len(STRUCT[v]) - 1)] for i in range(n)]
    A = [[VAL[(k + 3 * i + j + 5) % len(VAL)] for j in range(len(AERO[v]))] for i in range(n)]
    beta = VAL[k]
    damp = [[0.03, 0.04], [0.05, 0.06]] if v < 3 else ([[0.01, 0.02, 0.03], [1e-8] * 4, [0.5]] if n % 2 else [[0.03], [0.1, 0.2], [0.5, 0.25, 0.125, 4e-3]])
    return v, R, T, A, beta, damp


def h_blade(ch):
    import weio
    from weio.flex_blade_file import FLEXBladeFile
    v, R, T, A, beta, damp = mkblade(ch)
    com = ch.pick('comment', COMMENTS)
    lay = ch.pick('layout', ['plain', 'tabs', 'comments', 'crlf'])
    ext = ch.pick('file', ['a.bld', 'b.bla'])
    L, rows = blade_lines(v, com, lay, R, T, A, beta, damp, 'Profile.pro')
    put(ext, ('\r\n' if lay == 'crlf' else '\n').join(L) + ('\n' if lay != 'plain' else ''))
    f = FLEXBladeFile(ext)
    ch.op()
    tol = (1e-9, 1e-6 if lay == 'comments' else 0)
    w = {c: [float('nan')] * len(R) for c in ALL}
    for i, r in enumerate(R):
        for c, x in zip(STRUCT[v] + AERO[v], [r] + T[i] + A[i]):
            w[c][i] = x
    want = pd.DataFrame({c: np.array(w[c]) for c in ALL}, columns=ALL)
    df = f.toDataFrame()
    ch.eq([str(c) for c in df.columns], ALL, 'columns')
    ch.eq(df.astype(float), want, 'blade', tol)
    ch.eq(f.version, v, 'version')
    ch.eq(float(f.BetaC), beta, 'BetaC', tol)
    ch.eq([list(map(float, x)) for x in (f.FlapDamping, f.EdgeDamping, f.TorsDamping)], damp if v == 3 else damp + [[]], 'damping')
    ch.eq(f.ProfileFile, 'data/Profile 1.pro' if lay == 'comments' else 'Profile.pro', 'profile file')
    ch.state(v, R, T, A, com, lay)


def h_blade_damage(ch):
    """ a row with missing values, or a missing row, is refused """
    from weio.flex_blade_file import FLEXBladeFile
    v, R, T, A, beta, damp = mkblade(ch)
    L, rows = blade_lines(v, 'Comment', 'plain', R, T, A, beta, damp, 'Profile.pro')
    i = ch.pick('row', rows)
    n = len(L[i].split())
    k = ch.pick('columns kept', range(n))
    L[i] = '  '.join(L[i].split()[:k])
    put('a.bld', '\n'.join(L))
    e = raises(FLEXBladeFile, 'a.bld')
    ch.op()
    ch.check(e is not None, 'a row with %d of %d columns is accepted' % (k, n))
    ch.check('FormatError' in type(e).__name__ or isinstance(e, (ValueError, IndexError)), 'a row with %d of %d columns: %s: %s' % (k, n, type(e).__name__, e))
    ch.state(v, len(R), i, k)


# ------------------------------------------------------------------ profile
TH = [18.0, 100.0, 24.125]
PV = [-0.4, 5e-2, -6.68e-2, 0.0, 1.5, 1e-7, -180., 2.2711022e-1]


def prof_text(sets, lay):
    L = []
    for k, (h, th, P, H) in enumerate(sets):
        L.append(('' if lay == 'noset' else ('profile set' if lay == 'blanks' else 'PROFILE SET')) + h)
        L.append('%d%s' % (len(th), '\t\t' if lay == 'tabs' else ''))
        L.append(('\t' if lay == 'tabs' else '  ').join('%.3f' % t for t in th))
        L.append('%d' % len(P[0]))
        for t, p, x in zip(th, P, H):
            L.append(x)
            for r in p:
                L.append(('\t' if lay == 'tabs' else '   ').join('%.9E' % y for y in r) + ('\t\t' if lay == 'tabs' else ''))
    return '\n'.join(L) + {'tabs': '\n', 'blanks': '\n\n \n\n'}.get(lay, '')


def prof_check(ch, f, sets, tol):
    ch.eq(len(f.ProfileSets), len(sets), 'number of sets')
    want = {}
    for k, (h, th, P, H) in enumerate(sets):
        s = f.ProfileSets[k]
        ch.eq(s.header, h, 'header of set %d' % k)
        ch.eq([float(x) for x in s.thickness], th, 'thicknesses')
        ch.eq([np.asarray(p) for p in s.polars], [np.array(p) for p in P], 'polars', tol)
        ch.eq(list(s.polar_headers), [x.strip() for x in H], 'headers of the polars')
        for t, p in zip(th, P):
            want['pc_set_%d_t_%s' % (k + 1, t)] = pd.DataFrame(np.array(p), columns=['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]'])
    ch.eq(f.toDataFrame(), want, 'tables', tol)
    ch.eq(list(f.toDataFrame().keys()), list(want.keys()), 'order of the tables')


def h_profile(ch):
    from weio.flex_profile_file import FLEXProfileFile
    ns = ch.pick('sets', [1, 2, 3])
    nth = ch.pick('thicknesses', [2, 1, 3])
    na = ch.pick('angles', [2, 1, 3])
    k = ch.pick('values', range(len(PV)))
    lay = ch.pick('layout', ['plain', 'tabs', 'blanks', 'noset'])
    vary = ch.pick('sets differ in size', [False, True])
    hd = ch.pick('headers', [': Comment', ' 1: my set 3 4', '', ' profile set 2'])
    sets = []
    for s in range(ns):
        a = na + (s if vary else 0)
        t = max(1, nth - (s if vary else 0))
        P = [[[-180. + 10 * i] + [PV[(k + s + j + i + c) % len(PV)] for c in range(3)] for i in range(a)] for j in range(t)]
        h = hd + (' %d' % s if hd else '')
        if lay == 'noset':
            h = ('a profile set ' if hd.startswith(' p') else 'some text ') + str(s)
        sets.append((h.strip() if lay == 'noset' else h, TH[:t], P, ['Profile %d, AOA Cl Cd Cm %d%%' % (j, TH[j]) if j else '' for j in range(t)]))
    sets = [(h.rstrip(), t, P, H) for h, t, P, H in sets]
    put('a.pro', prof_text(sets, lay))
    f = FLEXProfileFile('a.pro')
    ch.op()
    prof_check(ch, f, sets, (1e-9, 0))
    f.write('b.pro')
    g = FLEXProfileFile('b.pro')
    ch.op(2)
    prof_check(ch, g, sets, (1e-7, 0))
    f.read('b.pro')
    prof_check(ch, f, sets, (1e-7, 0))
    ch.state(sets, lay)


def h_profile_damage(ch):
    from weio.flex_profile_file import FLEXProfileFile
    ns = ch.pick('sets', [1, 2])
    nth = ch.pick('thicknesses', [1, 2])
    na = ch.pick('angles', [1, 2])
    sets = [(': x', TH[:nth], [[[-180. + 10 * i, 1., 2., 3.] for i in range(na)] for j in range(nth)], ['p'] * nth) for s in range(ns)]
    L = prof_text(sets, 'plain').split('\n')
    per = 4 + nth * (1 + na)
    rows = [i for i in range(len(L)) if i % per >= 4 and (i % per - 4) % (1 + na) > 0]
    i = ch.pick('row', rows)
    k = ch.pick('columns kept', [0, 1, 2, 3])
    L[i] = ' '.join(L[i].split()[:k])
    put('a.pro', '\n'.join(L))
    e = raises(FLEXProfileFile, 'a.pro')
    ch.op()
    ch.check(e is not None, 'a row with %d of 4 columns is accepted' % k)
    ch.check('FormatError' in type(e).__name__, 'a row with %d of 4 columns: %s: %s' % (k, type(e).__name__, e))
    ch.state(ns, nth, na, i, k)


# ------------------------------------------------------------------ wave kinematics
SHAPES = ['Blade_ShapeFunction_DOF%d_Shape' % i for i in range(1, 11)] + ['Tower_ShapeFunction_DOF%d_Shape' % i for i in range(1, 9)] + ['Foundation_ShapeFunction_DOF1_Shape', 'Foundation_ShapeFunction_DOF2_Shape', 'Tower_SectionData', 'Foundation_SectionData']
DEPTHS = [[0.0], [0.0, 1.0], [0.0, 0.05, 0.3], [0.1, 0.25, 0.5, 1.0], [-0.1, 0.0, 0.5]]


def h_wave(ch):
    from weio.flex_wavekin_file import FLEXWaveKinFile
    import weio
    nd = ch.pick('displacements', [1, 2])
    dep = ch.pick('depths', DEPTHS)
    nt = ch.pick('steps', [2, 1, 3, 4])
    k = ch.pick('values', range(6))
    lay = ch.pick('layout', ['plain', 'wide', 'exp', 'crlf'])
    how = ch.pick('opened by', ['class', 'weio', 'read again'])
    WD = [20.0, 35.5, 50.0, 100.0, 7.25, 12.0][k]
    mx = [[2.695, 2.064, 1.034], [0.0, 1.0, 2.0], [10.5, 0.25, 3.0], [1e1, 2.5, 9.81], [3.0, 4.0, 5.0], [12.0, 0.5, 0.125]][k]
    hs, tp, sp = 5.39 + k, 12.54 - k, 11 + k
    x = [0.0, -12.5][:nd]
    cols = ['Time_[s]', 'WaveElev_[m]']
    for d in x:
        cols += ['u_z=%.1f_x=%.1f_[m/s]' % (z * WD * -1, d) for z in dep]
        cols += ['a_z=%.1f_x=%.1f_[m/s^2]' % (z * WD, d) for z in dep]
    D = [[0.25 * i] + [round((-1) ** j * (0.03 * (k + 1) + 0.17 * i + 0.01 * j), 2) for j in range(len(cols) - 1)] for i in range(nt)]
    fm = {'plain': '%7.2f', 'wide': '%12.3f', 'exp': ' %.4E', 'crlf': '%7.2f'}[lay]
    nl = '\r\n' if lay == 'crlf' else '\n'
    hf = {'exp': '%.5e', 'wide': '%+.3f'}.get(lay, '%.3f')
    L = ['Wave kinematics 7', ' 3', 'CrestHeightMax               ' + hf % mx[0] + ' m', 'LongitudinalVelocityMax      ' + hf % mx[1] + ' m/s', 'LongitudinalAccelerationMax  ' + hf % mx[2] + ' m/s^2',
         '  ' + hf % WD + '     ' + hf % hs + '    ' + hf % tp + '     %d    Water Depth/Hs/Tp/spectype' % sp, ' %d     Number of displacements' % nd, '  '.join(('%.4e' if lay == 'exp' else '%7.2f') % v for v in x),
         '%d     Number of Relative Depths' % len(dep), ' '.join((' %.5e' if lay == 'exp' else ' %.3f') % z for z in dep), ' t  [eta  u_1..u_nDepths  a_1..a_nDepths](x,t) * nDisplacements']
    L += [' '.join(fm % v for v in r) for r in D]
    put('a.wko', nl.join(L) + nl)
    ch.op()
    if how == 'class':
        f = FLEXWaveKinFile('a.wko')
    elif how == 'weio':
        f = weio.read('a.wko')
        ch.check(type(f).__name__ == 'FLEXWaveKinFile', 'opened as %s' % type(f).__name__)
    else:
        f = FLEXWaveKinFile(os.path.join(EX, 'FLEXWaveKin.wko'))
        f.read('a.wko')
    ch.eq([float(f[q]) for q in ('MaxCrestHeight', 'MaxLongiVel', 'MaxLongiAcc', 'WaterDepth', 'Hs', 'Tp', 'SpecType')], mx + [WD, round(hs, 2), round(tp, 2), float(sp)], 'header values', (1e-12, 0))
    ch.eq(np.asarray(f['RelDepth']), np.array(dep), 'depths', (1e-12, 0))
    ch.eq(np.asarray(f['Displacements']), np.array(x), 'displacements', (1e-12, 0))
    ch.eq([h.strip() for h in f['header']], ['Wave kinematics 7', '3'], 'header')
    want = pd.DataFrame(np.array(D), columns=cols)
    ch.eq(f.toDataFrame(), want, 'table', (1e-9, 1e-12))
    ch.eq(f['data'], want, 'data', (1e-9, 1e-12))
    ch.state(nd, dep, D, lay)


# ------------------------------------------------------------------ documentation
VALUES = [   # text after the key, value
    ('3', 3.0), ('1.234 [kg/m3]', 1.234), ('9.81 [m/s2]', 9.81), ('0.00E+00 [kgm2] [IXNAV]', 0.0), ('-1.5e-3', -1.5e-3),
    ('1.00000     2.00000     3.00000', [1., 2., 3.]), ('0.000 1.000 [deg]', [0., 1.]), ('1.90 [m]        (= (2 (R+Xrod))*cos(Cone) )', 1.9),
    ('0   (1 if inputs present in tower file)', 0.0), ('1.437E+12 [Nm/rad]  (with G modulus =   8.08E+10 Pa)', 1.437e12), ('50.00 [m]  (Distance from water level 3)', 50.0),
    ('MT100', 'MT100'), ('.\\MT100.inf', '.\\MT100.inf'), ('Unknown', 'Unknown'), ('StandstillNTMV=10Vdir=0', 'StandstillNTMV=10Vdir=0'), ('data/TubeLight1.twr', 'data/TubeLight1.twr'),
    ('1m tower, light', '1m tower, light'), ('flap1', 'flap1'), ('2/18', '2/18'), ('210 [GPa]', 210.0), ('5.0 5.0 5.0 [m]', [5.0] * 3), ('3, 4', '3, 4'), ('-1.0000E-08     0.0000E+00    -8.0000E+00 [m] (in straight tower system, x-downwards)', [-1e-8, 0., -8.]), ('0.301 [s] (recommended for stability)', 0.301)]
KEYS = ['WTGName', 'Tower_nDOF', 'Tower_Mass', 'Blade_ShapeFunction_DOF1_Freq', 'Environment_RTI-V', 'RNA_COG_inNac']
TABLES = [
    ('Tower_SectionData', '%d   h[m]     D[m]    t[mm]   rho[kg/m3]', ['h_[m]', 'D_[m]', 't_[mm]', 'rho_[kg/m3]']),
    ('Foundation_SectionData (Note: format may vary)', '%d  h[m]   tmg[mm]    rough   Cm[-]', ['h_[m]', 'tmg_[mm]', 'rough_[-]', 'Cm_[-]']),
    ('Tower_ShapeFunction_DOF1_Shape (Unit displacement at point K)', '   H [m]    K [rad/m]   V [rad]    U [m] ', ['H_[m]', 'K_[rad/m]', 'V_[rad]', 'U_[m]']),
    ('Blade_ShapeFunction_DOF10_Shape ', '   x         Uy         Uz       U_dir', ['x', 'Uy', 'Uz', 'U_dir']),
    ('Foundation_ShapeFunction_DOF2_Shape', '   H [m]    K [rad/m]', ['C0', 'C1', 'C2', 'C3']),
]
MATRICES = ['Blade_IsolatedMassMatrix', 'Blade_IsolatedStiffnessMatrix', 'Blade_IsolatedDampingMatrix', 'Foundation_IsolatedMassMatrix', 'Foundation_IsolatedStiffnessMatrix',
            'Foundation_IsolatedStiffnessMatrixCorrection', 'Foundation_IsolatedDampingMatrix', 'Tower_MassMatrix', 'Tower_IsolatedMassMatrix', 'Tower_IsolatedStiffnessMatrix',
            'Tower_IsolatedStiffnessMatrixCorrection', 'Tower_IsolatedDampingMatrix', 'EVA_MassMatrix', 'EVA_StiffnessMatrix', 'EVA_DampingMatrix', 'EVA_Eigenvectors',
            'EVA_Eigenfrequencies', 'EVA_Eigenvalues', 'EVA_Damping', 'EVA_LogDec']


def same_value(ch, got, want, what):
    if isinstance(want, str):
        ch.check(isinstance(got, str) and got == want, '%s: %r instead of %r' % (what, got, want))
    else:
        ch.check(not isinstance(got, str), '%s: %r instead of %r' % (what, got, want))
        ch.eq(np.asarray(got, dtype=float), np.array(want, dtype=float), what, (1e-12, 0))


def opened_doc(lines, end='\n', tail=True):
    from weio.flex_doc_file import FLEXDocFile
    put('a.out', end.join(['#Program  Flex5'] + lines) + (end if tail else ''))
    return FLEXDocFile('a.out')


def expect(ch, f, want, tables=None):
    """ want: {(key, subkey or None): value} """
    flat = {}
    for k, v in f.items():
        if isinstance(v, dict):
            for q, x in v.items():
                flat[(k, q)] = x
        else:
            flat[(k, None)] = v
    want = dict(want)
    want[('Program', None)] = 'Flex5'
    ch.eq(sorted(map(str, flat)), sorted(map(str, want)), 'keys')
    for k, w in want.items():
        what = '_'.join(x for x in k if x)
        if isinstance(w, pd.DataFrame):
            ch.eq(flat[k], w, what, (1e-12, 0))
        elif isinstance(w, np.ndarray):
            ch.eq(np.asarray(flat[k]), w, what, (1e-12, 0))
        else:
            same_value(ch, flat[k], w, what)
    T = {'_'.join(k): w for k, w in want.items() if isinstance(w, pd.DataFrame)}
    ch.eq({k: v for k, v in f.toDataFrame().items()}, T, 'tables', (1e-12, 0))


def key(s):
    s = s.split()[0]
    k = s.split('_')
    return (k[0], '_'.join(k[1:]) or None)


def h_doc_values(ch):
    K = ch.pick('key', KEYS)
    t, v = ch.pick('value', VALUES)
    t2, v2 = ch.pick('next value', VALUES)
    gap = ch.pick('between', [' ', '                 ', '\t'])
    sep = ch.pick('lines between', [[], [''], ['### Data for hub 5', '   ']])
    end = ch.pick('line ends', ['\n', '\r\n'])
    if end == '\r\n' and gap != ' ':
        return
    f = opened_doc(['### START 1 2', '#' + K + gap + t] + sep + ['#Hub_Mass' + gap + t2], end, ch.flag('newline at the end'))
    ch.op()
    expect(ch, f, {key(K): v, ('Hub', 'Mass'): v2})
    ch.state(K, t, t2)


def table(q, nr, k, blanks=False):
    name, head, cols = TABLES[q]
    D = [[VAL[(k + i + 2 * j) % len(VAL)] for j in range(4)] for i in range(nr)]
    L = ['#' + name, head % nr if '%' in head else head] + ['  '.join('%12.5E' % x for x in r) for r in D]
    if nr == 0 and cols[0] == 'C0':
        cols = ['H_[m]', 'K_[rad/m]']
    return L, key(name), pd.DataFrame(np.array(D).reshape(nr, len(cols)), columns=cols)


def matrix(q, n, m, k):
    D = [[VAL[(k + 2 * i + j) % len(VAL)] for j in range(m)] for i in range(n)]
    return ['#' + MATRICES[q] + (' (Foundation system - 1 order)' if q % 2 else '')] + [' ' + ' '.join('%9.2E' % x for x in r) for r in D], key(MATRICES[q]), np.array([[float('%9.2E' % x) for x in r] for r in D])


def h_doc_tables(ch):
    """ every order of three blocks, with every separation """
    order = [ch.pick('block %d' % i, ['none', 'value'] + ['table%d' % q for q in range(len(TABLES))] + ['matrix']) for i in range(3)]
    if len(set(order)) < len([x for x in order]) or 'none' in order[:2]:
        return
    nr = ch.pick('rows', [2, 1, 3, 0])
    k = ch.pick('numbers', [0, 5])
    sep = ch.pick('after a block', [[], [''], ['   '], ['### END 1']])
    tail = ch.flag('newline at the end')
    L, want = [], {}
    for i, b in enumerate(order):
        if b == 'value':
            L += ['#Rotor_NumberBlades   3 [-]']
            want[('Rotor', 'NumberBlades')] = 3.0
        elif b.startswith('table'):
            l, kk, w = table(int(b[5:]), nr, k + i)
            L += l
            want[kk] = w
        elif b == 'matrix':
            l, kk, w = matrix((k + i) % 20, max(nr, 1), nr + 1, k)
            L += l
            want[kk] = w
        L += sep
    f = opened_doc(L, '\n', tail)
    ch.op()
    expect(ch, f, want)
    ch.state(order, nr, k, sep)


def h_doc_matrices(ch):
    q = ch.pick('matrix', range(20))
    n = ch.pick('rows', [2, 1, 3, 4])
    m = ch.pick('columns', [2, 1, 3, 4, 40])
    sep = ch.pick('after', [[], [''], ['   '], ['### END']])
    k = ch.pick('numbers', [0, 3, 6])
    first = ch.flag('first block')
    l, kk, w = matrix(q, n, m, k)
    L = l + sep + ['#Hub_Mass 5.0 [kg]'] if first else ['#Hub_Mass 5.0 [kg]'] + l + sep
    f = opened_doc(L)
    ch.op()
    expect(ch, f, {kk: w, ('Hub', 'Mass'): 5.0})
    ch.state(q, n, m, k)


def h_doc_shapes(ch):
    """ every table the format knows, with many columns and with a column n without a unit """
    q = ch.pick('table', SHAPES)
    n = ch.pick('rows', [2, 1, 3])
    m = ch.pick('columns', [2, 5, 40])
    h = ch.pick('heading', ['units', 'names', 'counted', 'n'])
    k = ch.pick('numbers', [0, 4])
    after = ch.pick('after', [[], [''], ['### END']])
    names = ['u%d' % j for j in range(m)]
    if h == 'units':
        head, cols = '  '.join('u%d [m]' % j for j in range(m)), ['u%d_[m]' % j for j in range(m)]
    elif h == 'names':
        head, cols = '   ' + '  '.join(names), names
    elif h == 'counted':
        head, cols = '%d  ' % n + '  '.join('u%d[mm]' % j for j in range(m)), ['u%d_[mm]' % j for j in range(m)]
    else:
        head, cols = '%d  n  ' % n + '  '.join('u%d[mm]' % j for j in range(1, m)), ['n_[-]'] + ['u%d_[mm]' % j for j in range(1, m)]
    D = [[VAL[(k + i + 2 * j) % len(VAL)] for j in range(m)] for i in range(n)]
    f = opened_doc(['#' + q + ' (Unit 3)', head] + ['  '.join('%12.5E' % x for x in r) for r in D] + after + ['#Hub_Mass 5.0 [kg]'])
    ch.op()
    expect(ch, f, {key(q): pd.DataFrame(np.array(D), columns=cols), ('Hub', 'Mass'): 5.0})
    ch.state(q, n, m, h, k)


def h_doc_mode(ch):
    """ the global mode shape: the first column (part of the structure) is left out """
    n = ch.pick('rows', [3, 1, 2])
    parts = [ch.pick('part %d' % i, ['Fnd', 'Twr', 'COG']) for i in range(n)]
    more = ch.pick('after', [[], ['#Hub_Mass 5.0'], ['', '#Hub_Mass 5.0', '#Hub_Ix 3']])
    D = [[10. * i, 0.5 * i, -0.25 * i + 1] for i in range(n)]
    L = ['#Global_Mode1_Shape', '   H [m]   U_FA  U_SS'] + ['%s %8.2f %8.4f %8.4f' % ((p,) + tuple(r)) for p, r in zip(parts, D)] + more
    f = opened_doc(L)
    ch.op()
    ch.eq(f['Global']['Mode1_Shape'].values.astype(float), np.array(D), 'mode shape', (1e-12, 0))
    ch.eq([str(c) for c in f['Global']['Mode1_Shape'].columns], ['H_[m]', 'U_FA_[-]', 'U_SS_[]'], 'columns')
    if more:
        same_value(ch, f['Hub']['Mass'], 5.0, 'Hub_Mass')
    ch.state(parts, more)


def h_examples(ch):
    """ the documentation file of the examples: every line against a plain reading of it """
    from weio.flex_doc_file import FLEXDocFile
    import re
    p = os.path.join(EX, 'FLEXDocFile.out')
    L = open(p, errors='surrogateescape').read().split('\n')
    starts = [i for i, l in enumerate(L) if l.startswith('#') and not l.startswith('###') and not l.startswith('# ')]
    i = ch.pick('line', starts)
    f = FLEXDocFile(p)
    ch.op()
    name = L[i][1:].split()[0]
    rest = ' '.join(L[i].split()[1:])
    j = i + 1
    B = []
    while j < len(L) and L[j].strip() and not L[j].startswith('#'):
        B.append(L[j].split())
        j += 1
    k, q = key(name)
    got = f[k][q] if q else f[k]
    if name in MATRICES:
        ch.eq(np.asarray(got, dtype=float), np.array([[float(x) for x in r] for r in B]) if B else np.array([]), name, (1e-12, 0))
    elif name in [key_ for t in TABLES for key_ in [t[0].split()[0]]] or (name.endswith('_Shape') and B):
        # the mode shape has the part of the structure in front of three numbers
        D = np.array([[float(x) for x in (r[1:] if name == 'Global_Mode1_Shape' else r)] for r in B[1:]])
        ch.eq(got.values.astype(float), D, name, (1e-12, 0))
    else:
        body = re.split(r'[\[(]', rest)[0].split()
        try:
            v = [float(x) for x in body]
        except ValueError:
            v = None
        if v:
            same_value(ch, got, v[0] if len(v) == 1 else v, name)
    ch.state(name)


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('blade', h_blade), ('blade_damage', h_blade_damage), ('profile', h_profile), ('profile_damage', h_profile_damage), ('wave', h_wave),
            ('doc_values', h_doc_values), ('doc_tables', h_doc_tables), ('doc_matrices', h_doc_matrices), ('doc_shapes', h_doc_shapes), ('doc_mode', h_doc_mode), ('examples', h_examples)]
