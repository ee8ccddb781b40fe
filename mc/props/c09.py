"""C09: tables inside FAST input files"""
import os, itertools
from ..core import Violation
from ..util import *
from .. import corpus, obs
from .c08 import entries, cmp_entries

INFO = dict(bounds='41 kinds of tables x 0..4 rows x 4 value sets x units written (m), [m], bare, or in part bare x remarks on headings and rows x blanks/tabs; all ordered pairs of kinds in one file; write, read back, replace by 1..5 rows and read back; blade, polar (1..3 tables), airfoil coordinates, beam, platform and file-list files of 1..4 rows; every table of every example file edited; tables of AeroDyn 14, tables of one word, tables of hundreds of rows, airfoils of 1..250 points; the shape-function, normal-force and blade-axis columns for every single coefficient, 1..20 rows, before and after an edit')


def K():
    from weio.fast_input_file import FASTInputFile
    return FASTInputFile


# kind: (variable, count label or None (fixed number of rows), columns, units or None, mixed)
T = {
    'tower': ('TowProp', 'NTwInpSt', 'HtFract TMassDen TwFAStif TwSSStif', '- kg/m Nm^2 Nm^2', 0),
    'adtower': ('TowProp', 'NumTwrNds', 'TwrElev TwrDiam TwrCd', 'm m -', 0),
    'edblade': ('BldProp', 'NBlInpSt', 'BlFract PitchAxis StrcTwst BMassDen FlpStff EdgStff', '- - deg kg/m Nm^2 Nm^2', 0),
    'dll': ('DLLProp', 'DLL_NumTrq', 'GenSpd_TLU GenTrq_TLU', 'rpm Nm', 0),
    'adblade': ('BldAeroNodes', 'NumBlNds', 'BlSpn BlCrvAC BlSwpAC BlCrvAng BlTwist BlChord BlAFID', 'm m m deg deg m -', 0),
    'cases': ('Cases', 'NumCases', 'WndSpeed ShearExp RotSpd Pitch Yaw dT Tmax', 'm/s - rpm deg deg s s', 0),
    'heave': ('HvCoefs', 'NHvCoef', 'HvCoefID HvCd HvCa', '- - -', 0),
    'keypoints': ('MemberGeom', 'kp_total', 'kp_xr kp_yr kp_zr initial_twist', 'm m m deg', 0),
    'axcoef': ('AxCoefs', 'NAxCoef', 'AxCoefID AxCd AxCa AxCp', '- - - -', 0),
    'joints': ('Joints', 'NJoints', 'JointID JointXss JointYss JointZss', '- m m m', 0),
    'depth': ('DpthProp', 'NCoefDpth', 'Dpth DpthCd DpthCdMG DpthCa', 'm - - -', 0),
    'fill': ('FillGroups', 'NFillGroups', 'FillNumM FillMList FillFSLoc FillDens', '- - m kg/m^3', 0),
    'growth': ('MGProp', 'NMGDepths', 'MGDpth MGThck MGDens', 'm m kg/m^3', 0),
    'simple': ('SmplProp', None, 'SimplCd SimplCdMG SimplCa SimplCaMG', '- - - -', 0),
    'rnodes': ('BldAeroNodes', 'BldNodes', 'RNodes AeroTwst DRNodes Chord NFoil PrnElm', None, 1),
    'damping': ('DampingCoeffs', None, 'mu1 mu2 mu3 mu4 mu5 mu6', '- - - - - -', 0),
    'twrht': ('TowerProp', 'NTwrHt', 'TwrHtFr TwrWid NTwrCDCol', None, 0),
    'twrre': ('TowerRe', 'NTwrRe', 'TwrRe TwrCD1', None, 0),
    'farm': ('WindTurbines', 'NumTurbines', 'WT_X WT_Y WT_Z WT_FASTInFile', 'm m m string', 1),
    'reaction': ('BaseJoints', 'NReact', 'RJointID RctTDXss RctTDYss RctTDZss SSIfile', '- flag flag flag string', 1),
    'interface': ('InterfaceJoints', 'NInterf', 'IJointID ItfTDXss ItfTDYss ItfTDZss', '- flag flag flag', 0),
    'cosm': ('MemberCosineMatrix', 'NCOSMs', 'COSMID COSM11 COSM12 COSM13', '- - - -', 0),
    'cmass': ('ConcentratedMasses', 'NCmass', 'CMJointID JMass JMXX JMYY', '- kg kg*m^2 kg*m^2', 0),
    'tmd': ('TMDspProp', 'NKInpSt', 'X F_X Y F_Y', 'm N m N', 0),
    'membercoef': ('MemberProp', 'NCoefMembers', 'MemberID MemberCd1 MemberCd2 MemberCa1', '- - - -', 0),
    'members': ('Members', 'NMembers', 'MemberID MJointID1 MJointID2 MPropSetID1 MPropSetID2 PropPot', '- - - - - flag', 1),
    'mout': ('MemberOuts', 'NMOutputs', 'MemberID NOutLoc NodeLocs', '- - -', 0),
    'mcnt': ('MemberOuts', 'NMOutputs', 'MemberID NOutCnt NodeCnt', '- - -', 0),
    'section': ('SectionProp', 'NPropSets', 'PropSetID PropD PropThck', '- m m', 0),
    'linetype': ('LineTypes', 'NTypes', 'LineType Diam MassDenInAir EA', '- m kg/m N', 1),
    'connection': ('ConnectionProp', 'NConnects', 'Node Type X Y Z', '- - m m m', 1),
    'line': ('LineProp', 'NLines', 'Line LineType UnstrLen NumSegs', '- - m -', 1),
    'beam': ('BeamProp', 'NPropSets', 'PropSetID YoungE ShearG MatDens XsecD XsecT', '- N/m2 N/m2 kg/m3 m m', 0),
    'cable': ('CableProp', 'NCablePropSets', 'PropSetID EA MatDens T0', '- N kg/m N', 0),
    'rigid': ('RigidProp', 'NRigidPropSets', 'PropSetID MatDens', '- kg/m', 0),
}
NUM = {'plain': lambda i, j: i * 10 + j + 0.5, 'mixed sign': lambda i, j: (-1) ** (i + j) * (j * 1234.56789 + i / 3.), 'range': lambda i, j: [0.0, 1e-12, -3.5e14, 7.0, 1.0 / 7, -2.0, 1e5, 1e-5][(i * 3 + j) % 8], 'integers': lambda i, j: float(i * 7 - j)}
WORD = ['Alpha', 'b-1', '"c.dat"', 'TRUE', 'Vessel', '../x/y.fst', '1.5', '-']


def cells(kind, vk, nr, nc, mixed):
    """ rows of texts """
    fmt = (lambda x: '%.9g' % x)
    R = [[fmt(NUM[vk](i, j)) for j in range(nc)] for i in range(nr)]
    if mixed:
        for i in range(nr):
            for j in range(nc):
                if vk == 'mixed sign' and j % 2 == 1 or vk == 'plain' and j == nc - 1 or vk == 'range' and i == 0 and j == 0:
                    R[i][j] = WORD[(i + j) % len(WORD)]
    return R


def expected(R, nr, nc, mixed):
    if nr == 0:
        return np.zeros((0, nc))
    if not mixed:
        return np.array([[float(x) for x in r] for r in R])
    try:
        return np.array([[float(x) for x in r] for r in R])
    except ValueError:
        return [list(r) for r in R]


def block(kind, R, nr, style):
    """ text lines of a table: style = (units, remark, blanks) """
    var, dim, cols, units, mixed = T[kind]
    ust, rem, sp = style
    L = ['---------------------- TABLE %s ------------------' % kind.upper()]
    if dim:
        L.append('   %d   %s   - number of rows (-)' % (nr, dim))
    c = cols.split()
    r1 = {'none': '', 'bracket': '  [remark: a, b]', 'exclamation': '  ! remark', 'hash': '  # remark', 'row': '', 'row hash': ''}[rem]
    L.append('  ' + sp.join(c) + r1)
    if units:
        u = [{'paren': '(%s)', 'bracket': '[%s]', 'bare': '%s', 'some': '(%s)' if q == 1 else '%s', 'some brackets': '[%s]' if q == 1 else '%s'}[ust] % x for q, x in enumerate(units.split())]
        L.append(sp.join(u) + (r1 if rem in ('exclamation', 'hash') else ''))
    for r in R:
        L.append('   ' + sp.join(r) + {'row': '   ! row remark 1 2', 'row hash': '   # row remark 1 2'}.get(rem, ''))
    if kind == 'edblade':
        L.append('---------------------- BLADE MODE SHAPES -----------')
        for m in ('BldFl1Sh', 'BldFl2Sh', 'BldEdgSh'):
            L += ['   %g   %s(%d) - coefficient' % (1.0 if k == 2 else 0.0, m, k) for k in range(2, 7)]
    return L


FILL = ['%d  Filler%d  - filler' % (k, k) for k in range(8)]


def doc(blocks):
    L = ['------- SOME FAST INPUT FILE -----------', 'A heading line', '---- GENERAL ----'] + FILL
    for b in blocks:
        L += b
    return '\n'.join(L + ['---- MORE ----'] + ['%d  Tail%d  - tail' % (k, k) for k in range(8)]) + '\n'


def entry(f, var):
    d = [x for x in f.fixedfile.data if x['label'] == var]
    if len(d) != 1:
        raise Violation('%d tables %s' % (len(d), var))
    return d[0]


def check(ch, f, kind, R, what, tol=None):
    var, dim, cols, units, mixed = T[kind]
    nr, nc = len(R), len(cols.split())
    want = expected(R, nr, nc, mixed)
    got = f[var]
    w = '%s %s' % (what, var)
    if isinstance(want, list):
        ch.eq([[str(x) for x in r] for r in np.asarray(got)], want, w)
    else:
        ch.eq(np.asarray(got, float), want, w, tol)
    d = entry(f, var)
    ch.eq(list(d['tabColumnNames']), cols.split(), w + ' columns')
    ch.eq(d['tabUnits'], ['(%s)' % u for u in units.split()] if units else None, w + ' units')
    if dim:
        ch.eq(f[dim], nr, w + ' count')
    df = f.toDataFrame()
    if kind != 'damping':
        df = df[var] if isinstance(df, dict) else df
        C = ['%s_[%s]' % (a, b) for a, b in zip(cols.split(), units.split())] if units else cols.split()
        ch.eq([str(c) for c in df.columns][:nc], C, w + ' table columns')
        ch.eq(df.shape[0], nr, w + ' table rows')
        for j in range(nc):
            a = df.iloc[:, j].values
            b = [r[j] for r in want] if isinstance(want, list) else want[:, j]
            if isinstance(want, list):
                ch.eq([str(x) for x in a], [str(x) for x in b], w + ' table')
            else:
                ch.eq(np.asarray(a, float), np.asarray(b), w + ' table', tol)


def rest(ch, f, what):
    for k in range(8):
        ch.eq(f['Filler%d' % k], k, what + ' filler')
        ch.eq(f['Tail%d' % k], k, what + ' tail')


def h_kinds(ch):
    kind = ch.pick('kind', list(T))
    var, dim, cols, units, mixed = T[kind]
    nc = len(cols.split())
    vk = ch.pick('values', list(NUM))
    nr = ch.pick('rows', [0, 1, 2, 3, 4]) if dim else 1
    if kind in ('adblade',) and nr == 0:
        return
    style = (ch.pick('units', ['paren', 'bracket', 'bare', 'some']) if units else 'paren', ch.pick('remark', ['none', 'bracket', 'exclamation', 'hash', 'row', 'row hash']), ch.pick('blanks', ['  ', '\t', ' \t  ']))
    R = cells(kind, vk, nr, nc, mixed)
    put('a.dat', doc([block(kind, R, nr, style)]))
    f = K()('a.dat')
    ch.op()
    w = '%s %s rows=%d %s' % (kind, vk, nr, style)
    check(ch, f, kind, R, w)
    rest(ch, f, w)
    e0 = entries(f)
    f.write('b.dat')
    ch.op()
    cmp_entries(ch, entries(f), e0, w + ' after writing')
    g = K()('b.dat')
    ch.op()
    check(ch, g, kind, R, w + ' read back', (2e-8, 1e-300))
    rest(ch, g, w + ' read back')
    # replaced by another table
    if dim and style == ('paren', 'none', '  '):
        n2 = ch.pick('new rows', [1, 2, 3, 5])
        R2 = cells(kind, 'mixed sign', n2, nc, mixed)
        v = expected(R2, n2, nc, mixed)
        g[var] = np.array(v, dtype=object) if isinstance(v, list) else v
        ch.op()
        dedicated = g.module in ('ADBlade', 'EDBlade')
        if not dedicated:
            g[dim] = n2
        g.write('c.dat')
        h = K()('c.dat')
        check(ch, h, kind, R2, w + ' replaced by %d rows' % n2, (2e-8, 1e-300))
        rest(ch, h, w + ' replaced')
    ch.state(w)


def pair_ok(a, b):
    A, B = T[a], T[b]
    if A[0] == B[0] or (A[1] is not None and A[1] == B[1]):
        return False       # same variable: not in one file
    # SubDyn and HydroDyn/MoorDyn tables that are told apart by the file they are in
    return not (set(('cable', 'rigid', 'beam', 'linetype')) >= {a, b} and 'linetype' in (a, b))


def h_pairs(ch):
    kinds = [k for k in T if k not in ('edblade', 'adblade')]       # blade files hold one table
    a = ch.pick('first', kinds)
    b = ch.pick('second', [k for k in kinds if k != a and pair_ok(a, k)])
    na, nb = (ch.pick('rows a', [0, 1, 3]) if T[a][1] else 1), (ch.pick('rows b', [0, 2]) if T[b][1] else 1)
    st = ('paren', 'none', '   ')
    Ra, Rb = cells(a, 'plain', na, len(T[a][2].split()), T[a][4]), cells(b, 'range', nb, len(T[b][2].split()), T[b][4])
    put('a.dat', doc([block(a, Ra, na, st), block(b, Rb, nb, st)]))
    f = K()('a.dat')
    ch.op()
    w = '%s+%s' % (a, b)
    for g, t in ((f, None), (f, 'w')):
        if t:
            f.write('b.dat')
            g = K()('b.dat')
        check(ch, g, a, Ra, w, (2e-8, 1e-300))
        check(ch, g, b, Rb, w, (2e-8, 1e-300))
        rest(ch, g, w)
    ch.state(w, na, nb)


def h_subdyn(ch):
    """ the tables of a substructure file together, every combination of sizes """
    order = ['joints', 'reaction', 'interface', 'members', 'beam', 'cable', 'rigid', 'cosm', 'cmass']
    n = {k: ch.pick(k, [1, 2] if k in ('joints', 'members') else ([0, 1] if k in ('cosm', 'cmass', 'interface', 'reaction') else [0, 2])) for k in order}
    R = {k: cells(k, 'plain', n[k], len(T[k][2].split()), T[k][4]) for k in order}
    put('a.dat', doc([block(k, R[k], n[k], ('paren', 'bracket', '  ')) for k in order]))
    f = K()('a.dat')
    ch.op()
    for k in order:
        check(ch, f, k, R[k], 'substructure')
    f.write('b.dat')
    g = K()('b.dat')
    for k in order:
        check(ch, g, k, R[k], 'substructure read back', (2e-8, 1e-300))
    rest(ch, g, 'substructure')
    ch.state(repr(n))


def h_beams(ch):
    """ circular and arbitrary beams, with the damping matrix and the logical values of substructure files """
    nb, nx = ch.pick('beams', [0, 1, 2]), ch.pick('arbitrary beams', [0, 1, 3])
    guy = ch.pick('damping', ['absent', '0', '6'])
    order = ch.pick('before', [[], ['joints'], ['joints', 'members']])
    big = ch.pick('keyword', ['as is', 'upper', 'lower'])
    X = 'PropSetID YoungE ShearG MatDens XsecA XsecAsx XsecAsy XsecJxx XsecJyy XsecJ0'.split()
    R = {k: cells(k, 'plain', 2, len(T[k][2].split()), T[k][4]) for k in order}
    Rb, Rx = cells('beam', 'integers', nb, 6, 0), cells('beam', 'mixed sign', nx, 10, 0)
    cs = {'as is': str, 'upper': str.upper, 'lower': str.lower}[big]
    B = []
    G = np.array([[(i + 1) * 0.5 + j * 10.25 for j in range(6)] for i in range(6)])
    if guy != 'absent':
        B.append(['  2  GuyanDampMod  - Guyan damping', '  0.0, 1.5, -2.0, 3.0, 4.0, 5.0    RayleighDamp - Mass and stiffness proportional damping', '  %s  GuyanDampSize - Guyan damping matrix (6x6) (-)' % guy] + ['  '.join('%.9g' % x for x in r) for r in G])
    B += [block(k, R[k], 2, ('paren', 'none', '  ')) for k in order]
    def tab(dim, n, cols, units, rows):
        return ['----- SECTION %s -----' % dim, ' %d   %s  - number of rows (-)' % (n, cs(dim)), '  '.join(cs(c) for c in cols), '  '.join('(%s)' % u for u in units)] + ['  '.join(r) for r in rows]
    B += [tab('NPropSets', nb, T['beam'][2].split(), T['beam'][3].split(), Rb), tab('NXPropSets', nx, X, ['-'] * 10, Rx)]
    put('a.dat', doc(B))
    f = K()('a.dat')
    f.write('b.dat')
    for g, w in ((f, 'read'), (K()('b.dat'), 'read back')):
        ch.op()
        ch.eq(np.asarray(g['BeamProp'], float), expected(Rb, nb, 6, 0), w + ' beams', (2e-8, 0))
        ch.eq(np.asarray(g['BeamPropX'], float), expected(Rx, nx, 10, 0), w + ' arbitrary beams', (2e-8, 1e-12))
        ch.eq(list(entry(g, 'BeamPropX')['tabColumnNames']), [cs(x) for x in X], w + ' columns')
        ch.eq([g['NPropSets'], g['NXPropSets']], [nb, nx], w + ' counts')
        if guy != 'absent':
            ch.eq(g['GuyanDampSize'], int(guy), w + ' size')
            ch.eq(g['GuyanDampMod'], 2, w + ' mode')
            ch.eq(g['RayleighDamp'], [0.0, 1.5, -2.0, 3.0, 4.0, 5.0], w + ' list')
            ch.eq(np.asarray(g['GuyanDampMatrix'], float), G, w + ' damping matrix', (2e-8, 0))
        for k in order:
            check(ch, g, k, R[k], w, (2e-8, 1e-300))
        rest(ch, g, w)
    ch.state(nb, nx, guy, len(order), big)


def h_words(ch):
    """ logical values and print flags in numerical tables, in any case """
    kind = ch.pick('kind', ['interface', 'joints', 'simple', 'members'])
    var, dim, cols, units, mixed = T[kind]
    nc = len(cols.split())
    w = [(a, b) for a, b in [('TRUE', 1), ('False', 0), ('true', 1), ('FALSE', 0), ('PRINT', 1), ('NoPrint', 0)]]
    t = [ch.pick('cell', [None] + w) for _ in range(3)]
    n = 2 if dim else 1
    R = cells(kind, 'integers', n, nc, 0)
    V = expected(R, n, nc, 0)
    for k, x in enumerate(t):
        if x:
            i, j = (k % n, nc - 1 - k)
            R[i][j], V[i, j] = x
    put('a.dat', doc([block(kind, R, n, ('paren', 'none', '  '))]))
    f = K()('a.dat')
    f.write('b.dat')
    for g, what in ((f, 'read'), (K()('b.dat'), 'read back')):
        ch.op()
        if mixed and any(t):
            ch.eq([[str(x) for x in r] for r in g[var]], R, what + ' texts')
        else:
            ch.eq(np.asarray(g[var], float), V, what + ' logicals')
        rest(ch, g, what)
    ch.state(kind, repr(t))


def h_files(ch):
    """ lists of files """
    var, dim = ch.pick('kind', [('FoilNm', 'NumFoil'), ('AFNames', 'NumAFfiles')])
    n = ch.pick('files', [1, 2, 3, 4])
    names = [ch.pick('name', ['"foils/a.dat"', 'b.dat', '"my foils/c d.dat"']) for _ in range(min(n, 3))] + ['"last.dat"'] * (n - 3)
    L = ['   %d   %s  - number of files' % (n, dim), '%s    %s    - names (quoted strings)' % (names[0], var)] + names[1:]
    put('a.dat', doc([L]))
    f = K()('a.dat')
    ch.op()
    ch.eq(list(f[var]), names, 'files')
    rest(ch, f, 'files')
    f.write('b.dat')
    g = K()('b.dat')
    ch.eq(list(g[var]), names, 'files read back')
    rest(ch, g, 'files read back')
    m = ch.pick('new number', [1, 2, 4])
    g[var] = ['"n%d.dat"' % i for i in range(m)]
    g[dim] = m
    g.write('c.dat')
    h = K()('c.dat')
    ch.eq(list(h[var]), ['"n%d.dat"' % i for i in range(m)], 'files replaced')
    ch.eq(h[dim], m, 'number of files')
    rest(ch, h, 'files replaced')
    ch.state(var, repr(names), m)


def h_outlist(ch):
    """ output lists """
    n = ch.pick('channels', [0, 1, 2, 3, 150])
    chan = ['"GenPwr"', '"RotSpeed, BldPitch1"', '"Wind1VelX"   - the wind', 'OoPDefl1'][:n] if n < 4 else ['"C%d"' % i for i in range(n)]
    nodal = ch.flag('nodal outputs')
    L = ['              OutList      - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)'] + chan
    L += ['END of input file (the word "END" must appear in the first 3 columns of this last OutList line)']
    if nodal:
        L += ['====== Outputs for all blade stations (same ending as above for B1N1.... =========================== [optional section]',
              '    1   BldNd_BladesOut     - Number of blades to output all node information at.',
              '    "All"   BldNd_BlOutNd     - Nodes',
              '                      OutList_Nodal     - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx, AeroDyn_Nodes tab for a listing of available output channels, (-)', '"VUndx"', '"Fx"',
              'END of input file (the word "END" must appear in the first 3 columns of this last OutList line)']
    L += ['---------------------------------------------------------------------------------------']
    put('a.dat', '\n'.join(['---- INPUT FILE ---', 'heading', '-----'] + FILL + L) + '\n')
    f = K()('a.dat')
    ch.op()
    ch.eq([x for x in f['OutList'] if x.strip()], chan, 'channels')
    if nodal:
        ch.eq([x for x in f['OutList_Nodal'] if x.strip()], ['"VUndx"', '"Fx"'], 'nodal channels')
        ch.eq(f['BldNd_BladesOut'], 1, 'nodal entry')
    new = ch.pick('edit', [None, ['', '"A"'], ['', '"A"', '"B, C"', '"D"']])
    if new:
        f['OutList'] = new
    f.write('b.dat')
    g = K()('b.dat')
    ch.eq([x for x in g['OutList'] if x.strip()], new[1:] if new else chan, 'channels read back')
    if nodal:
        ch.eq([x for x in g['OutList_Nodal'] if x.strip()], ['"VUndx"', '"Fx"'], 'nodal channels read back')
        ch.eq(g['BldNd_BladesOut'], 1, 'nodal entry read back')
    ch.check(b'\nEND' in get('b.dat'), 'no END line')
    ch.state(n, nodal, repr(new))


# ---------------------------------------------------------------- files with their own class
UA = ['alpha0', 'alpha1', 'alpha2', 'eta_e', 'C_nalpha', 'T_f0', 'T_V0', 'T_p', 'T_VL', 'b1', 'b2', 'b5', 'A1', 'A2', 'A5', 'S1', 'S2', 'S3', 'S4', 'Cn1', 'Cn2', 'St_sh', 'Cd0', 'Cm0', 'k0', 'k1', 'k2', 'k3', 'k1_hat', 'x_cp_bar', 'UACutout', 'filtCutOff']


def polar_rows(nr, t, ncol):
    return np.array([[-180 + i * 360. / max(nr - 1, 1), 0.1 * i + t, 0.01 * (i + 1), -0.05 * i][:ncol] for i in range(nr)])


def h_polar(ch):
    nt = ch.pick('tables', [1, 2, 3])
    n = [ch.pick('rows', [1, 2, 4]) for _ in range(nt)]
    ncol = ch.pick('columns', [4, 3])
    head = ch.pick('heading', [1, 3])
    L = ['! ------------ AirfoilInfo v1.01.x Input File ----------------------------------'] + ['! heading %d' % i for i in range(head)]
    L += ['! ------------------------------------------------------------------------------', '"DEFAULT"     InterpOrd         ! Interpolation order', '1  NonDimArea        ! area', '0  NumCoords         ! coordinates', '%d   NumTabs           ! Number of airfoil tables' % nt]
    P = []
    for t in range(nt):
        L += ['! ------------------------------------------------------------------------------', '! data for table %d' % (t + 1), '! ------------------------------------------------------------------------------',
              '%g   Re     ! Reynolds number' % (0.5 + t), '0  Ctrl  ! Control setting', 'True  InclUAdata  ! UA data']
        for k, u in enumerate(UA):
            L.append('%s  %s  ! coefficient' % ('"DEFAULT"' if u == 'filtCutOff' else '%g' % (k + 100 * t + 0.25), u))
        L += ['! ........................................', '! Table of aerodynamics coefficients', '%d  NumAlf  ! Number of data lines' % n[t]]
        L += ['! ' + ' '.join(['Alpha', 'Cl', 'Cd', 'Cm'][:ncol]), '! ' + ' '.join(['(deg)', '(-)', '(-)', '(-)'][:ncol])]
        R = polar_rows(n[t], t, ncol)
        P.append(R)
        L += [' '.join('%.6f' % x for x in r) for r in R]
    put('a.dat', '\n'.join(L) + '\n')
    f = K()('a.dat')
    ch.op()

    def chk(f, P, w, tol):
        ch.eq(f['NumTabs'], nt, w + ' tables')
        for t in range(nt):
            o = '_%d' % (t + 1) if nt > 1 else ''
            ch.eq(np.asarray(f['AFCoeff' + o]), P[t], w + ' polar %d' % t, tol)
            ch.eq(f['NumAlf' + o], len(P[t]), w + ' count %d' % t)
            ch.eq(f['Re' + o], 0.5 + t, w + ' Re %d' % t)
            for k, u in enumerate(UA):
                ch.eq(f[u + o], '"DEFAULT"' if u == 'filtCutOff' else float('%g' % (k + 100 * t + 0.25)), w + ' ' + u)
        if ncol == 4:
            dfs = f.toDataFrame()
            for t in range(nt):
                df = dfs['AFCoeff_%d' % (t + 1)] if nt > 1 else dfs
                a = np.radians(P[t][:, 0])
                ch.eq(df['Cl_[-]'].values, P[t][:, 1], w + ' Cl', tol)
                ch.eq(df['Cn_[-]'].values, P[t][:, 1] * np.cos(a) + P[t][:, 2] * np.sin(a), w + ' Cn', (1e-7, 1e-9))
    chk(f, P, 'polar', (1e-6, 1e-6))
    P = [np.asarray(f['AFCoeff' + ('_%d' % (t + 1) if nt > 1 else '')]).copy() for t in range(nt)]
    ops = ch.pick('history', ['write', 'write twice', 'replace', 'failed write, write'])
    if ops == 'replace':
        t = ch.pick('table', range(nt))
        m = ch.pick('new rows', [1, 2, 3, 6])
        P[t] = polar_rows(m, t, ncol) * 1.0
        f['AFCoeff' + ('_%d' % (t + 1) if nt > 1 else '')] = P[t].copy()
    if ops.startswith('failed'):
        put('blk', 'x')
        ch.check(raises(f.write, 'blk/a.dat') is not None, 'writing below a file')
    f.write('b.dat')
    if ops == 'write twice':
        f.write('b.dat')
    chk(f, P, 'polar after writing', None)
    g = K()('b.dat')
    ch.op()
    chk(g, P, 'polar read back', (2e-8, 1e-12))
    ch.eq(g.module, f.module, 'module')
    ch.state(nt, n, ncol, ops)


def h_coords(ch):
    n = ch.pick('points', [1, 2, 3, 5, 250])
    sep = ch.pick('separator', ['  ', '\t', ' \t '])
    P = np.array([[i * 0.25, float('%.6f' % ((-1) ** i * 0.1 * i))] for i in range(n)])
    L = ['%d   NumCoords         ! The number of coordinates in the airfoil shape file (including an extra coordinate for airfoil reference).' % (n + 1), '! ......... x-y coordinates are next if NumCoords > 0 .............', '! x-y coordinate of airfoil reference',
         '!  x/c        y/c', '0.25%s-0.5' % sep, '! coordinates of airfoil shape', '! remark', '!  x/c        y/c'] + ['%.6f%s%.6f' % (a, sep, b) for a, b in P]
    put('a.txt', '\n'.join(L) + '\n')
    f = K()('a.txt')
    ch.op()
    ch.eq(np.asarray(f['AirfoilCoord']), P, 'coordinates')
    ch.eq(list(f['AirfoilRefPoint']), [0.25, -0.5], 'reference point')
    f.write('b.txt')
    g = K()('b.txt')
    ch.eq(np.asarray(g['AirfoilCoord']), P, 'coordinates read back', (2e-8, 1e-12))
    ch.eq(list(g['AirfoilRefPoint']), [0.25, -0.5], 'reference point read back')
    ch.eq(g['NumCoords'], n + 1, 'number')
    ch.state(n, sep)


def h_beam(ch):
    """ BeamDyn sections """
    n = ch.pick('stations', [1, 2, 3])
    vk = ch.pick('values', ['plain', 'sparse', 'large'])
    M = lambda s, k: np.array([[{'plain': s * 100 + i * 6 + j + k, 'sparse': (i == j) * (s + 1.5) * (k + 1), 'large': (-1) ** (i + j) * (1 + s + i / 7. + j / 13.) * 10 ** (k * 9)}[vk] for j in range(6)] for i in range(6)], float)
    span = np.linspace(0, 1, n) if n > 1 else np.array([0.5])
    L = ['---- BEAMDYN INDIVIDUAL BLADE INPUT FILE ----', 'test', '------ BLADE PARAMETERS ----', '%d station_total - Number of blade input stations (-)' % n, '1  damp_type - Damping type', '------ DAMPING COEFFICIENT ----', '   mu1  mu2  mu3  mu4  mu5  mu6', '   (-)  (-)  (-)  (-)  (-)  (-)', '1.0E-03  2.0E-03  3.0E-03  1.4E-03  2.2E-03  2.2E-03', '---- DISTRIBUTED PROPERTIES----']
    for s in range(n):
        L += ['  %.6f' % span[s]] + ['  '.join('%.9e' % x for x in r) for r in M(s, 0)] + [''] + ['  '.join('%.9e' % x for x in r) for r in M(s, 1)] + ['']
    put('a.dat', '\n'.join(L) + '\n')
    f = K()('a.dat')
    ch.op()
    f.write('b.dat')
    for g, w in ((f, 'beam'), (K()('b.dat'), 'beam read back')):
        p = g['BeamProperties']
        ch.eq(np.asarray(p['span']), span, w + ' span', (0, 1e-6))
        ch.eq(np.asarray(p['K']), np.array([M(s, 0) for s in range(n)]), w + ' K', (1e-9, 1e-300))
        ch.eq(np.asarray(p['M']), np.array([M(s, 1) for s in range(n)]), w + ' M', (1e-9, 1e-300))
        df = g.toDataFrame()
        df = df['BeamProperties'] if isinstance(df, dict) else df
        ch.eq(sorted(df.columns), sorted(['Span'] + ['%s%d%d' % (a, i + 1, j + 1) for a in 'KM' for i in range(6) for j in range(6)]), w + ' table columns')
        ch.eq(list(df.columns)[:13], ['Span'] + ['%s%d%d' % (a, i + 1, i + 1) for a in 'KM' for i in range(6)], w + ' main terms first')
        ch.eq(df['Span'].values, span, w + ' table span', (0, 1e-6))
        for i, j in itertools.product(range(6), range(6)):
            ch.eq(df['K%d%d' % (i + 1, j + 1)].values, np.array([M(s, 0)[i, j] for s in range(n)]), w + ' table K', (1e-9, 1e-300))
            ch.eq(df['M%d%d' % (i + 1, j + 1)].values, np.array([M(s, 1)[i, j] for s in range(n)]), w + ' table M', (1e-9, 1e-300))
        ch.eq(np.asarray(g['DampingCoeffs']), np.array([[1e-3, 2e-3, 3e-3, 1.4e-3, 2.2e-3, 2.2e-3]]), w + ' damping', (1e-9, 0))
    ch.state(n, vk)


def h_platform(ch):
    nd, nt = ch.pick('dofs', [1, 2, 6, 8]), ch.pick('steps', [1, 2, 4, 7, 8, 13, 36, 301])
    dt = ch.pick('step', [0.25, 0.1, 0.01, 0.003, 2.5])
    mats = {k: np.array([[(i + 1) * 10.5 + j * s for j in range(nd)] for i in range(nd)]) for s, k in enumerate(['MassMatrix', 'StiffnessMatrix', 'DampingMatrix'])}
    load = np.array([[t * dt] + [t - 0.5 * j for j in range(nd)] for t in range(nt)])
    L = ['!comment', '!comment Flex 5 Format', '!Dimension: %d' % nd, '!Time increment in simulation: %g' % dt, '!Total simulation time in file: %g' % round((nt - 1) * dt, 6)]
    for k, h in (('MassMatrix', '!Mass Matrix'), ('StiffnessMatrix', '!Stiffness Matrix'), ('DampingMatrix', '!Damping Matrix')):
        L += ['', h, '!Dimension: %d' % nd] + [' '.join('%.8e' % x for x in r) for r in mats[k]]
    L += ['', '!Loading and Wave Elevation', '!Dimension: 1 time column -  %d force columns' % nd] + [' '.join('%.8e' % x for x in r) for r in load]
    put('a.dat', '\n'.join(L) + '\n')
    f = K()('a.dat')
    ch.op()
    f.write('b.dat')
    for g, w in ((f, 'platform'), (K()('b.dat'), 'platform read back')):
        ch.eq(g['nDOF'], nd, w)
        for k in mats:
            ch.eq(np.asarray(g[k]), mats[k], w + ' ' + k, (1e-8, 0))
        ch.eq(np.asarray(g['Loading']), load, w + ' loading', (1e-8, 1e-12))
        df = g.toDataFrame()
        ch.eq(df.values, load, w + ' table', (1e-8, 1e-12))
        ch.eq(len(set(df.columns)), nd + 1, w + ' columns')
    ch.state(nd, nt, dt)


def h_dedicated(ch):
    """ blade files made by the classes, filled and written """
    from weio.fast_input_file import EDBladeFile, ADBladeFile, ADPolarFile
    kind = ch.pick('class', ['EDBlade', 'ADBlade', 'ADPolar'])
    n = ch.pick('rows', [1, 2, 3, 12])
    vk = ch.pick('values', list(NUM))
    lab, dim, nc, cls = {'EDBlade': ('BldProp', 'NBlInpSt', 6, EDBladeFile), 'ADBlade': ('BldAeroNodes', 'NumBlNds', 7, ADBladeFile), 'ADPolar': ('AFCoeff', 'NumAlf', 4, ADPolarFile)}[kind]
    f = cls()
    A = np.array([[float('%.8g' % NUM[vk](i, j)) for j in range(nc)] for i in range(n)])
    f[lab] = A.copy()
    f.comment = 'my own comment' if kind != 'ADPolar' else 'a\nb\nc'
    for k in range(ch.pick('writes', [1, 2])):
        f.write('a.dat')
        ch.op()
    ch.eq(np.asarray(f[lab]), A, kind + ' after writing')
    ch.eq(f[dim], n, kind + ' count')
    for g in (K()('a.dat'), cls('a.dat')):
        ch.op()
        ch.eq(np.asarray(g[lab]), A, kind + ' read back', (2e-8, 1e-300))
        ch.eq(g[dim], n, kind + ' count read back')
        ch.eq(g.module, kind, 'module')
        c = g.comment
        ch.check('my own comment' in c if kind != 'ADPolar' else c.replace('! ', '') == 'a\nb\nc', kind + ': comment %r' % c)
        n2 = ch.pick('then', [0, 1, 2, 5])
        if n2:
            B = A[0] * np.arange(1, n2 + 1)[:, None] + 0.5
            g[lab] = B.copy()
            g.write('c.dat')
            h = K()('c.dat')
            ch.eq(np.asarray(h[lab]), B, kind + ' replaced', (2e-8, 1e-300))
            ch.eq(h[dim], n2, kind + ' count of replaced table')
    ch.state(kind, n, vk)


def poly(c, x):
    """ shape function of coefficients 2..6 """
    return [sum(c[k] * v ** (k + 2) for k in range(5)) for v in x]


def h_derived(ch):
    """ columns that are computed from the entries of the file """
    import math
    kind = ch.pick('kind', ['tower', 'edblade', 'adblade', 'polar'])
    vk = ch.pick('values', ['all different', 'one at a time'])
    n = ch.pick('rows', [1, 2, 3, 7, 20] if kind in ('adblade', 'polar') else [1, 2, 5])
    if kind in ('tower', 'edblade'):
        modes = ['TwFAM1Sh', 'TwFAM2Sh', 'TwSSM1Sh', 'TwSSM2Sh'] if kind == 'tower' else ['BldFl1Sh', 'BldFl2Sh', 'BldEdgSh']
        cols = ['ShapeForeAft1_[-]', 'ShapeForeAft2_[-]', 'ShapeSideSide1_[-]', 'ShapeSideSide2_[-]'] if kind == 'tower' else ['ShapeFlap1_[-]', 'ShapeFlap2_[-]', 'ShapeEdge1_[-]']
        C = [[(-1) ** k * (1.25 + m * 5 + k) for k in range(5)] for m in range(len(modes))]
        if vk != 'all different':
            one = ch.pick('coefficient', range(5 * len(modes)))
            C = [[float(m * 5 + k == one) for k in range(5)] for m in range(len(modes))]
        x = np.linspace(0, 1, n) if n > 1 else np.array([0.5])
        nc = len(T[kind][2].split())
        R = [['%.9g' % (x[i] if j == 0 else i + j) for j in range(nc)] for i in range(n)]
        B = block(kind, R, n, ('paren', 'none', '  '))
        if kind == 'edblade':
            B = B[:-15]
        B += ['   %.9g   %s(%d) - coefficient' % (C[m][k], modes[m], k + 2) for m in range(len(modes)) for k in range(5)]
        put('a.dat', doc([B]))
        f = K()('a.dat')
        var = T[kind][0]
        want = {c: np.array(poly(C[m], x)) for m, c in enumerate(cols)}
        edit = {'%s(%d)' % (modes[-1], 6): 3.5}
        C2 = [list(c) for c in C]
        C2[-1][-1] = 3.5
        want2 = {c: np.array(poly(C2[m], x)) for m, c in enumerate(cols)}
    elif kind == 'adblade':
        A = np.array([[i * 2.5, 0.1 * i, -0.2 * i, 1.5, 13. - i if vk == 'all different' else 90. * (i % 2), 2 + 0.25 * i, i + 1.] for i in range(n)])
        if vk != 'all different':
            A[:, 1:3] = 0
        put('a.dat', doc([block(kind, [['%.9g' % v for v in r] for r in A], n, ('paren', 'none', '  '))]))
        f = K()('a.dat')
        var = T[kind][0]
        m = int(n * 0.15)
        ac = [0.5 + i * (0.25 - 0.5) / max(m - 1, 1) if i < m else 0.25 for i in range(n)]
        def axis(A):
            return {'AC_Approx_[-]': np.array(ac),
                    'c2_Crv_Approx_[m]': np.array([A[i, 1] + A[i, 5] * (0.5 - ac[i]) * math.sin(math.radians(A[i, 4])) for i in range(n)]),
                    'c2_Swp_Approx_[m]': np.array([A[i, 2] + A[i, 5] * (0.5 - ac[i]) * math.cos(math.radians(A[i, 4])) for i in range(n)])}
        want = axis(A)
        A2 = A.copy()
        A2[:, 5] *= 2
        edit, want2 = {var: A2}, axis(A2)
    else:
        from weio.fast_input_file import ADPolarFile
        al = np.linspace(-180, 180, n) if n > 1 else np.array([5.])
        if n == 20:
            al = np.arange(-24., 36., 3)
        A = np.array([[al[i], 1 + 0.1 * i, 0.02 * (i + 1), -0.03 * i] for i in range(n)])
        q = dict(alpha0=-4.5, alpha1=13.5, alpha2=-10.5, C_nalpha=6.25, Cd0=0.015)
        f = ADPolarFile()
        var = 'AFCoeff'
        for k, v in q.items():
            f[k] = v
        f[var] = A.copy()
        def coef(q):
            a = np.radians(A[:, 0])
            cn = A[:, 1] * np.cos(a) + A[:, 2] * np.sin(a)
            r = {'Cn_[-]': cn, 'Cn_Cd0off_[-]': cn - q['Cd0'] * np.sin(a),
                 'Cn_pot_[-]': np.array([q['C_nalpha'] * math.radians(v - q['alpha0']) if -20 <= v <= 30 else np.nan for v in A[:, 0]])}
            P = np.full(n, np.nan)
            for k in ('alpha0', 'alpha1', 'alpha2'):
                b = max([i for i in range(n) if A[i, 0] < q[k]], default=None)
                if b is None:
                    return r
                P[b:b + 2] = cn[b:b + 2]
            r['Cn_012_[-]'] = P
            return r
        want = coef(q)
        q2 = dict(q, Cd0=0.5, alpha0=2., C_nalpha=4.)
        edit, want2 = {k: q2[k] for k in ('Cd0', 'alpha0', 'C_nalpha')}, coef(q2)
    for step in ('read', 'edited', 'read back'):
        ch.op()
        if step == 'edited':
            for k, v in edit.items():
                f[k] = v
            want = want2
        if step == 'read back':
            f.write('b.dat')
            f = K()('b.dat')
        df = f.toDataFrame()
        df = df[var] if isinstance(df, dict) else df
        for c, v in want.items():
            ch.check(c in df.columns, '%s %s: no column %s' % (kind, step, c))
            ch.eq(np.asarray(df[c].values, float), v, '%s %s %s' % (kind, step, c), (1e-7, 1e-9))
    ch.state(kind, vk, n)


def h_word_at(ch):
    """ one word at any place of a table of numbers and texts, and rows without their last cells """
    kind = ch.pick('kind', [k for k in T if T[k][4]])
    var, dim, cols, units, mixed = T[kind]
    nc, n = len(cols.split()), ch.pick('rows', [3, 5])
    R = cells(kind, 'integers', n, nc, 0)
    i, j = ch.pick('row', range(n)), ch.pick('column', range(nc))
    word = ch.pick('word', ['abc', '"a.dat"', '-', '1e', 'nan-', '1,5', None])
    if word is None:
        if i == 0 or j == 0:
            return
        R[i] = R[i][:j]    # not the first row: it says how many columns there are
    else:
        R[i][j] = word
    put('a.dat', doc([block(kind, R, n, ('paren', 'none', '  '))]))
    f = K()('a.dat')
    ch.op()
    w = '%s %s at %d %d' % (kind, word, i, j)
    if word is None:
        A = np.asarray(f[var])
        ch.eq(A.shape, (n, nc), w)
        for r, a in zip(R, A):
            ch.eq([float(x) for x in a[:len(r)]], [float(x) for x in r], w)
        rest(ch, f, w)
    else:
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            check(ch, g, kind, R, w)
            rest(ch, g, w)
    ch.state(w, n)


def h_ad14(ch):
    """ airfoil tables of AeroDyn 14 """
    nt = ch.pick('tables', [1, 2, 3, 4])
    nq = ch.pick('coefficients', [2, 3])
    n = ch.pick('rows', [1, 2, 60])
    end = ch.pick('end', ['', '\n', '\nEOT\n', '\n'*3])
    sep = ch.pick('separator', ['  ', '\t'])
    words = ['Table ID parameter', 'Stall angle (deg)', 'No longer used, enter zero', 'No longer used, enter zero', 'No longer used, enter zero', 'Zero Cn angle of attack (deg)', 'Cn slope for zero lift (dimensionless)',
             'Cn extrapolated to value at positive stall angle of attack', 'Cn at stall value for negative angle of attack', 'Angle of attack for minimum CD (deg)', 'Minimum CD value']
    H = [[k * 1.25 - 3 + 10 * t for t in range(nt)] for k in range(len(words))]
    L = ['An airfoil', 'and a second line', '%d%sNumber of airfoil tables in this file' % (nt, sep)] + [sep.join('%g' % x for x in h) + sep + w for h, w in zip(H, words)]
    A = np.array([[-180 + 6 * i] + [round(0.1 * i + j + 0.01, 4) for j in range(nt * nq)] for i in range(n)], float)
    put('a.dat', '\n'.join(L + [sep.join('%.9g' % x for x in r) for r in A]) + '\n' + end)
    if end == '\nEOT\n':
        pass
    f = K()('a.dat')
    ch.op()
    ch.eq(np.asarray(f['Polar'], float), A, 'polar')
    ids = [''] if nt == 1 else ['%g' % x for x in H[0]]
    C = ['Alpha_[deg]'] + [c + i + '_[-]' for i in ids for c in ['Cl', 'Cd', 'Cm'][:nq]]
    df = f.toDataFrame()
    ch.eq([str(c) for c in df.columns], C, 'polar columns')
    ch.eq(df.values, A, 'polar table')
    if nt == 1:
        for h, w in zip(H, words):
            if w.startswith('No longer'):
                continue
            ch.eq(f[w.upper()], h[0], w)
    ch.eq(f['Number of airfoil tables in this file'], nt, 'tables')
    ch.state(nt, nq, n, end, sep)


def h_large(ch):
    """ wide headings, long texts, large whole numbers, many rows and many tables """
    kind = ch.pick('kind', ['names', 'texts', 'whole numbers', 'rows', 'polars', 'key points', 'stiffness', 'files'])
    if kind == 'names':
        k = ch.pick('length', [1, 14, 15, 16, 17, 40])
        mixed = ch.pick('table', ['linetype', 'heave'])
        var, dim, cols, units, mx = T[mixed]
        c = cols.split()[:2 if mixed == 'linetype' else 1] + [('N%d' % j + 'x' * (k - 2) if k > 1 else 'QRS'[j]) for j in range(2)]
        u = ['-'] + ['u' * k] * (len(c) - 1)
        B = ['---- TABLE ----', '%d  %s  - number' % (2, dim), ' '.join(c), ' '.join('(%s)' % x for x in u)] + [' '.join('%d' % (i + j) for j in range(len(c))) for i in range(2)]
        put('a.dat', doc([B]))
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            d = entry(g, var)
            ch.eq([list(d['tabColumnNames']), list(d['tabUnits'])], [c, ['(%s)' % x for x in u]], 'headings of %d characters' % k)
            ch.eq(np.asarray(g[var], float), np.array([[i + j for j in range(len(c))] for i in range(2)], float), 'values')
            rest(ch, g, kind)
        return ch.state(kind, k, mixed)
    if kind == 'texts':
        k = ch.pick('length', [1, 14, 15, 16, 24, 25, 80])
        R = [['t' * k, '1', '2', '3.14159265358979312'], ['b', 'u' * k, '-1e-300', '4']]
        put('a.dat', doc([block('linetype', R, 2, ('paren', 'none', '  '))]))
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            ch.eq([[str(x) for x in r] for r in g['LineTypes']], R, 'texts of %d characters' % k)
            rest(ch, g, kind)
        return ch.state(kind, k)
    if kind == 'whole numbers':
        x = ch.pick('number', [10 ** k for k in range(0, 16)] + [2 ** 31 - 1, 2 ** 31, 2 ** 53 - 1, 999999999999999])
        x *= ch.pick('sign', [1, -1])
        R = [['%d' % x, '1.5', '%d' % (x + 1)], ['0.5', '%d' % (x - 1), '-2']]
        put('a.dat', doc([block('heave', R, 2, ('paren', 'none', '  '))]))
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            ch.eq(np.asarray(g['HvCoefs'], float), np.array([[float(v) for v in r] for r in R]), 'whole numbers')
            rest(ch, g, kind)
        return ch.state(kind, x)
    if kind == 'rows':
        k = ch.pick('table', ['keypoints', 'adblade', 'linetype', 'joints', 'tmd'])
        n = ch.pick('rows', [9, 10, 11, 99, 100, 101, 1000])
        R = cells(k, 'mixed sign', n, len(T[k][2].split()), T[k][4])
        put('a.dat', doc([block(k, R, n, ('paren', 'none', '  '))]))
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            check(ch, g, k, R, '%d rows' % n, (2e-8, 1e-300))
            rest(ch, g, kind)
        return ch.state(kind, k, n)
    if kind == 'polars':
        n = ch.pick('tables', [9, 10, 11, 12, 25])
        L = ['! head', '! head 2', '1  InterpOrd  ! order', '1  NonDimArea  ! area', '0  NumCoords  ! coordinates', '%d  NumTabs  ! tables' % n]
        for t in range(n):
            L += ['! ----', '! data for table %d' % (t + 1), '%g  Re  ! Re' % (0.5 + t), '0  Ctrl  ! control', 'False  InclUAdata  ! no', '2  NumAlf  ! lines', '! Alpha Cl Cd Cm', '! (deg) (-) (-) (-)', '-180 %d 0 1' % t, '180 %d 1 2' % (t + 1)]
        put('a.dat', '\n'.join(L) + '\n')
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            for t in range(n):
                ch.eq(np.asarray(g['AFCoeff_%d' % (t + 1)]), np.array([[-180, t, 0, 1], [180, t + 1, 1, 2.]]), 'polar %d of %d' % (t + 1, n))
                ch.eq([g['re_%d' % (t + 1)], g['NumAlf_%d' % (t + 1)]], [0.5 + t, 2], 'polar %d of %d' % (t + 1, n))
            dfs = g.toDataFrame()
            ch.eq(sorted(dfs), sorted('AFCoeff_%d' % (t + 1) for t in range(n)), 'tables')
            for t in range(n):
                ch.eq(dfs['AFCoeff_%d' % (t + 1)]['Cl_[-]'].values, np.array([t, t + 1.]), 'table of polar %d of %d' % (t + 1, n))
        return ch.state(kind, n)
    if kind == 'key points':
        m = ch.pick('members', [1, 2, 3])
        n = [ch.pick('points', [3, 9, 10, 49, 120]) for _ in range(m)]
        tot = sum(n) - m + 1
        R = cells('keypoints', 'mixed sign', tot, 4, 0)
        sep = ch.pick('separator', [' ', '    ', '\t'])
        note = ch.pick('note', ['- number', '- Member number; Number of key points in this member'])
        B = block('keypoints', R, tot, ('paren', 'none', '  '))
        B[1:1] = ['%d  member_total  - members' % m]
        B[3:3] = ['%d%s%d%s%s' % (k + 1, sep, x, '     ' if note else '', note) for k, x in enumerate(n)]
        put('a.dat', doc([B]))
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            check(ch, g, 'keypoints', R, 'key points %s' % n, (2e-8, 1e-300))
            rest(ch, g, kind)
            ch.eq([str(d['value']).split() for d in g.fixedfile.data if d['label'] == '-'], [[str(k + 1), str(x)] for k, x in enumerate(n)], 'members')
        return ch.state(kind, repr(n), sep, note)
    if kind == 'stiffness':
        M = [[' '.join('%g' % (i * 6 + j + 100 * b) for j in range(k)) for i in range(6)] for b, k in ((0, 1), (1, 6), (2, 6), (3, 6))]
        pos = ch.pick('with rows', [False, True])
        L = ['---------------------- FLOATING PLATFORM ADDITIONAL STIFFNESS AND DAMPING  --------']
        body = [M[0][0] + '   AddF0 - Additional preload'] + M[0][1:]
        for b in (1, 2, 3):
            body += [M[b][0] + '   Add%d   - Additional matrix' % b] + M[b][1:]
        body = body[:19] if not pos else body
        # the section has 19 lines: one for the preload, 3 x 6 for the matrices
        body = ['0 0 0 0 0 0   AddF0    - Additional preload'] + sum([[M[b][0] + '   Add%d   - Additional matrix' % b] + M[b][1:] for b in (1, 2, 3)], [])
        put('a.dat', doc([L + body + (['5  After  - after the section'] if pos else [])]))
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            ch.eq([x.rstrip() for x in g['KDAdd']], [x.rstrip() for x in body], 'lines of the additional stiffness')
            rest(ch, g, kind)
            if pos:
                ch.eq(g['After'], 5, 'entry after the section')
        return ch.state(kind, pos)
    var, dim = ch.pick('list', [('FoilNm', 'NumFoil'), ('AFNames', 'NumAFfiles')])
    n = ch.pick('files', [9, 10, 11, 60, 200])
    names = ['"foils/%s%d.dat"' % ('x' * (i % 50), i) for i in range(n)]
    put('a.dat', doc([['%d   %s  - number of files' % (n, dim), '%s    %s    - names (quoted strings)' % (names[0], var)] + names[1:]]))
    f = K()('a.dat')
    f.write('b.dat')
    for g in (f, K()('b.dat')):
        ch.op()
        ch.eq([x.strip() for x in g[var]], names, '%d files' % n)
        rest(ch, g, kind)
    ch.state(kind, var, n)


def h_examples(ch):
    """ every numerical table of every example: values changed, rows removed and repeated """
    es = [e for e in corpus.by_class()['FASTInputFile'] if '#' not in e.name and not e.name.startswith('FASTIn_AD14_arf')]
    e = ch.pick('file', es)
    f = e.read('v')
    w0 = entries(f)
    tabs = [i for i, d in enumerate(w0) if d['tab'] in (1, 2, 6) and isinstance(d['value'], np.ndarray) and d['value'].shape[0] > 0]
    if not tabs:
        return
    i = ch.pick('table', tabs)
    lab = w0[i]['label']
    op = ch.pick('edit', ['values', 'first rows', 'rows twice', 'last value'])
    V = np.array(f.fixedfile.data[i]['value'])
    num = V.dtype.kind == 'f'
    if op in ('values', 'last value'):
        if not num:
            return
        N = V.copy()
        if op == 'values':
            N = N * 2 + 0.125
        else:
            N[-1, -1] = -77.25
    else:
        # (a blade file of a few lines would not be recognised as a FAST file)
        N = V[:30 if f.module == 'ADBlade' else 1] if op == 'first rows' else np.concatenate([V, V])
    dim = f.fixedfile.data[i].get('tabDimVar')
    if op in ('first rows', 'rows twice'):
        if not isinstance(dim, str):
            return
    f[lab] = N
    w1 = cp(w0)
    w1[i]['value'] = obs.plain(N)
    if op in ('first rows', 'rows twice'):
        sfx = lab[len('AFCoeff'):] if lab.startswith('AFCoeff') else ''
        m = len(N) + (1 if dim == 'NumCoords' else 0)
        if f.module not in ('ADBlade', 'EDBlade', 'ADPolar'):
            f[dim + sfx] = m
        for w in w1:
            if w['label'].lower() == (dim + sfx).lower():
                w['value'] = m
    f.write('v/out.dat')
    ch.op()
    cmp_entries(ch, entries(f), w1, '%s %s %s after writing' % (e.name, lab, op))
    g = K()('v/out.dat')
    cmp_entries(ch, entries(g), w1, '%s %s %s read back' % (e.name, lab, op))
    ch.state(e.name, lab, op)


def harnesses(tier):
    return [('kinds', h_kinds), ('pairs', h_pairs), ('substructure', h_subdyn), ('beams', h_beams), ('words', h_words), ('file lists', h_files), ('output lists', h_outlist), ('polars', h_polar), ('coordinates', h_coords),
            ('beam', h_beam), ('platform', h_platform), ('dedicated', h_dedicated), ('derived', h_derived), ('one word', h_word_at), ('ad14', h_ad14), ('large', h_large), ('examples', h_examples)]
