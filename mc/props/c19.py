"""C19: HAWC2 blade tables: aerodynamic layout (ae), profile coefficients (pc), structure (st)"""
import os
from ..core import Violation
from ..util import *

INFO = dict(bounds='ae: 1..3 sets with 5 numberings, 1..4 rows, 4 text layouts; pc: 1..2 sets, 1..3 profiles, 1..4 angles; st: 1..2 x 1..2 sets, 1..3 rows, 19 or 30 columns; every query at all nodes, midpoints and both outsides; write/read, edits and re-reading in histories of 2')

FULL = False
R = [[0.0, 1.5, 4.0, 10.0], [2.0, 2.25, 60.5, 89.1660]]
VAL = [5.38, 0.1, 100.0, 1e-7, -0.25, 24.1, 3.3333333333333335, 0.0]


def vals(k, n):
    return [VAL[(k + i) % len(VAL)] for i in range(n)]


def interp(x, X, Y):
    """ linear interpolation, constant outside of the table """
    if x <= X[0]:
        return Y[0]
    if x >= X[-1]:
        return Y[-1]
    for i in range(len(X) - 1):
        if x == X[i]:
            return Y[i]
        if X[i] < x < X[i + 1]:
            return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i])


def positions(X):
    X = list(X)
    return X + [(a + b) / 2 for a, b in zip(X, X[1:])] + [a + (b - a) * 0.125 for a, b in zip(X, X[1:])] + [X[0] - 1, X[-1] + 1]


# ------------------------------------------------------------------ ae
AECOL = ['radius_[m]', 'chord_[m]', 'thickness_[%]', 'pc_set_[#]']
IDS = {1: [[1], [2], [7]], 2: [[1, 2], [2, 1], [3, 5]], 3: [[1, 2, 3], [2, 3, 1], [10, 4, 6]]}


def ae_text(sets, lay):
    s = '%d%s\n' % (len(sets), {'plain': ' r[m] Chord[m] T/C[%] Set no.', 'tabs': '\t', 'comments': '  ; my blade 5 6'}.get(lay, ''))
    for i, D in sets:
        s += '%d %d%s\n' % (i, len(D), ' text 3 4' if lay == 'comments' else '')
        for r in D:
            v = ['%.17g' % r[0], '%.17g' % r[1], '%.17E' % r[2], '%d' % r[3]]
            s += ('\t'.join(v) + '\t;\n') if lay == 'tabs' else ('   ' + '  '.join(v) + (' ; station 1 2\n' if lay == 'comments' else ' 7.5 station\n' if lay == 'more columns' else '\n'))
    if lay == 'tail':
        s += '\n\nsome text at the end\n1 2 3 4\n'
    if lay == 'crlf':
        s = s.replace('\n', '\r\n')
    return s


def ae_check(ch, f, sets, what, tol=(0, 0)):
    ch.eq({k: np.asarray(v) for k, v in f.data.ae_sets.items()}, {i: np.array(D) for i, D in sets}, what, tol)
    T = {('ae_set_%d' % i): pd.DataFrame(np.array(D), columns=AECOL) for i, D in sets}
    got = f.toDataFrame()
    ch.eq(got, T if len(T) > 1 else list(T.values())[0], 'table of ' + what, tol)
    ch.eq([np.asarray(x) for x in f.sets], [np.array(D) for i, D in sets], 'sets of ' + what, tol)
    for i, D in sets:
        D = np.array(D)
        ch.eq(np.asarray(f.data.chord(None, i)), D[:, 1], 'chord', tol)
        ch.eq(np.asarray(f.data.thickness(None, i)), D[:, 2], 'thickness', tol)
        ch.eq(np.asarray(f.data.radius_ae(None, i)), D[:, 0], 'radius', tol)
        P = positions(D[:, 0])
        ch.eq(np.asarray(f.data.chord(np.array(P), i)), np.array([interp(x, D[:, 0], D[:, 1]) for x in P]), 'chord at several radii', (1e-12, 1e-14))
        for x in P:
            ch.eq(float(f.data.chord(x, i)), interp(x, D[:, 0], D[:, 1]), 'chord at %r (set %d)' % (x, i), (1e-12, 1e-14))
            ch.eq(float(f.data.thickness(x, i)), interp(x, D[:, 0], D[:, 2]), 'thickness at %r (set %d)' % (x, i), (1e-12, 1e-14))
            near = min(abs(D[:, 0] - x))
            g = f.data.radius_ae(x, i)
            ch.check(np.ndim(g) == 0 and abs(abs(g - x) - near) < 1e-12 and g in D[:, 0], 'nearest radius to %r: %r' % (x, g))
            below = [r for r in D if r[0] <= x]
            want = (below[-1] if below else D[0])[3]
            ch.eq(float(f.data.pc_set_nr(x, i)), want, 'pc set at %r (set %d)' % (x, i))
        for a, b in zip(D, D[1:]):
            x = b[0] - 3e-3 * D[-1, 0]      # close to the next station, but before it
            if x > a[0]:
                ch.eq(float(f.data.pc_set_nr(x, i)), a[3], 'pc set at %r (set %d)' % (x, i))


def h_ae(ch):
    from weio.hawc2_ae_file import HAWC2AEFile
    ns = ch.pick('sets', [1, 2, 3])
    ids = ch.pick('numbers', IDS[ns])
    nr = ch.pick('rows', [2, 1, 3, 4])
    k = ch.pick('values', range(len(VAL)) if FULL else [0, 3, 6])
    lay = ch.pick('layout', ['plain', 'tabs', 'comments', 'more columns', 'tail', 'crlf'])

    def mk(q, n):
        r = R[q % 2][:n]
        return [[r[j], VAL[(k + q + j) % len(VAL)], 100. - 10 * j - q, 1 + (j + q) % 3] for j in range(n)]
    sets = [(i, mk(q, nr + (q % 2 if nr < 4 else 0))) for q, i in enumerate(ids)]
    put('a_ae.dat', ae_text(sets, lay))
    f = HAWC2AEFile('a_ae.dat')
    ch.op()
    ae_check(ch, f, sets, 'file')
    e = ch.pick('edit', ['none', 'add', 'add with number', 'change', 'read another'])
    if e.startswith('add'):
        n = 1
        while n in ids:
            n += 1
        D = mk(5, 2)
        c = [list(x) for x in zip(*D)]
        if e == 'add':
            f.add_set(radius=c[0], chord=c[1], thickness=c[2], pc_set_id=c[3])
        else:
            n = max(ids) + 3
            f.add_set(radius=np.array(c[0]), chord=np.array(c[1]), thickness=c[2], pc_set_id=c[3], set_id=n)
        sets.append((n, D))
    elif e == 'change':
        f.data.ae_sets[ids[-1]][0, 1] = 0.1 + 0.2
        sets[-1][1][0][1] = 0.1 + 0.2
    elif e == 'read another':
        sets = [(4, mk(3, 3))]
        put('b_ae.dat', ae_text(sets, 'plain'))
        f.read('b_ae.dat')
    ae_check(ch, f, sets, 'file after ' + e)
    out = ch.pick('written to', ['w.dat', 'new/folder/w.dat'])
    f.write(out)
    g = HAWC2AEFile(out)
    ch.op(2)
    ae_check(ch, g, sets, 'file read back')
    ae_check(ch, f, sets, 'file after writing')
    ch.state(sets)


def h_ae_new(ch):
    """ a file made from nothing """
    from weio.hawc2_ae_file import HAWC2AEFile
    f = HAWC2AEFile()
    sets = []
    n = ch.pick('sets', [1, 2, 3])
    for q in range(n):
        sid = ch.pick('number of set %d' % q, [None, 1, 2, 3, 5])
        D = [[0.1 * (q + j), VAL[(q + j) % 8], 100. - j, 1 + q] for j in range(1 + q)]
        c = [list(x) for x in zip(*D)]
        f.add_set(radius=c[0], chord=c[1], thickness=c[2], pc_set_id=c[3], set_id=sid)
        ch.op()
        if sid is None:
            sid = min(i for i in range(1, 9) if i not in [s[0] for s in sets])
        if sid in [s[0] for s in sets]:
            sets = [(i, D if i == sid else d) for i, d in sets]
        else:
            sets.append((sid, D))
        ae_check(ch, f, sets, 'new file')
        ch.state(sets)
    f.write('w.dat')
    ae_check(ch, HAWC2AEFile('w.dat'), sets, 'file read back')
    ch.op(2)


# ------------------------------------------------------------------ pc
TH = [[24.1275, 30.0, 100.0], [15, 21.5, 36.25]]
AL = [-180., -10.5, 0., 180.]


def pc_text(sets, lay):
    s = '%d%s\n' % (len(sets), ' a profile file, 2 sets' if lay == 'comments' else '')
    for S in sets:
        s += '%d%s\n' % (len(S), '\t\t' if lay == 'tabs' else '')
        for i, (t, D) in enumerate(S):
            s += ' %d %d %.5f%s\n' % (i + 1, len(D), t, ' FFA-W3-241 (Re=12x10^6)' if lay == 'comments' else '')
            for r in D:
                s += ('\t' if lay == 'tabs' else '  ').join('%.17g' % x for x in r) + ('  0.5 9\n' if lay == 'comments' else '\n')
    return s.replace('\n', '\r\n') if lay == 'crlf' else s


def pc_check(ch, f, sets, what, tol=(1e-15, 0)):
    ch.eq(sorted(f.data.pc_sets), list(range(1, len(sets) + 1)), 'numbers of the sets')
    T = {}
    for q, S in enumerate(sets):
        t, P = f.data.pc_sets[q + 1]
        ch.eq(np.asarray(t), np.array([x[0] for x in S]), 'thicknesses of set %d' % (q + 1), (0, 1e-8))
        ch.eq([np.asarray(p) for p in P], [np.array(x[1]) for x in S], 'polars of set %d' % (q + 1), tol)
        T[q] = [np.array(x[1]) for x in S]
    df = f.toDataFrame()
    ch.eq(len(df), sum(len(S) for S in sets), 'number of tables')
    ch.eq(list(df.keys()), ['pc_set_%d_t_%s' % (q + 1, float(x[0])) for q, S in enumerate(sets) for x in S], 'names of the tables')
    ch.eq(list(df.values()), [pd.DataFrame(np.array(x[1]), columns=['Alpha_[deg]', 'Cl_[-]', 'Cd_[-]', 'Cm_[-]']) for S in sets for x in S], 'tables', tol)
    ch.eq(sorted(f.sets.keys()), sorted(f.data.pc_sets), 'sets')
    for q, S in enumerate(sets):
        t = [x[0] for x in S]
        Q = t + [(a + b) / 2 for a, b in zip(t, t[1:])] + [a + (b - a) * 0.1 for a, b in zip(t, t[1:])]
        for th in Q:
            for al in positions(np.array(S[0][1])[:, 0]):
                for c, fn in ((1, f.data.CL), (2, f.data.CD), (3, f.data.CM)):
                    col = [interp(al, np.array(D)[:, 0], np.array(D)[:, c]) for _, D in S]
                    ch.eq(float(fn(th, al, q + 1)), interp(th, t, col), 'coefficient %d of set %d at thickness %r, angle %r' % (c, q + 1, th, al), (1e-9, 1e-12))
                if len(S) > 1 and al == int(al) and -180 <= al < 180:
                    col = [interp(al, np.array(D)[:, 0], np.array(D)[:, 1]) for _, D in S]
                    ch.eq(float(f.data.CL_H2(th, al, q + 1)), interp(th, t, col), 'lift of set %d at thickness %r, angle %r (CL_H2)' % (q + 1, th, al), (1e-9, 1e-12))


def h_pc(ch):
    from weio.hawc2_pc_file import HAWC2PCFile
    ns = ch.pick('sets', [1, 2])
    np_ = ch.pick('profiles', [2, 1, 3])
    nr = ch.pick('angles', [3, 1, 2, 4])
    k = ch.pick('values', range(len(VAL)))
    lay = ch.pick('layout', ['plain', 'tabs', 'comments', 'crlf'])

    def mk(q, n, m):
        return [(TH[q % 2][i], [[AL[:m][j] + (i if 0 < j < m - 1 else 0)] + vals(k + i + j + q, 3) for j in range(m)]) for i in range(n)]
    sets = [mk(q, np_ if q == 0 else 3 - np_ + 1, nr) for q in range(ns)]
    put('a_pc.dat', pc_text(sets, lay))
    f = HAWC2PCFile('a_pc.dat')
    ch.op()
    pc_check(ch, f, sets, 'file', (0, 0))
    e = ch.pick('edit', ['none', 'add', 'replace', 'read another'])
    if e in ('add', 'replace'):
        S = mk(7, 2, 2)
        n = ns + 1 if e == 'add' else ns
        f.add_set(n, [x[0] for x in S], [np.array(x[1]) for x in S])
        sets = sets[:n - 1] + [S]
    elif e == 'read another':
        sets = [mk(2, 2, 2)]
        put('b_pc.dat', pc_text(sets, 'plain'))
        f.read('b_pc.dat')
    pc_check(ch, f, sets, 'file after ' + e, (0, 0))
    f.write('w.dat')
    ch.op()
    pc_check(ch, HAWC2PCFile('w.dat'), sets, 'file read back')
    pc_check(ch, f, sets, 'file after writing', (0, 0))
    ch.state(sets)


# ------------------------------------------------------------------ st
C19 = 'r m x_cg y_cg ri_x ri_y x_sh y_sh E G I_x I_y I_p k_x k_y A pitch x_e y_e'.split()
C30 = 'r m x_cg y_cg ri_x ri_y pitch x_e y_e K_11 K_12 K_13 K_14 K_15 K_16 K_22 K_23 K_24 K_25 K_26 K_33 K_34 K_35 K_36 K_44 K_45 K_46 K_55 K_56 K_66'.split()
T19 = ['r_[m]', 'm_[kg/m]', 'x_cg_[m]', 'y_cg_[m]', 'ri_x_[m]', 'ri_y_[m]', 'x_sh_[m]', 'y_sh_[m]', 'E_[N/m^2]', 'G_[N/m^2]', 'I_x_[m^4]', 'I_y_[m^4]', 'I_p_[m^4]', 'k_x_[-]', 'k_y_[-]', 'A_[m^2]', 'pitch_[deg]', 'x_e_[m]', 'y_e_[m]']
T30 = ['r_[m]', 'm_[kg/m]', 'x_cg_[m]', 'y_cg_[m]', 'ri_x_[m]', 'ri_y_[m]', 'pitch_[deg]', 'x_e_[m]', 'y_e_[m]'] + [c.replace('_', '') for c in C30[9:]]
SV = [2.1e11, 0.0, -1.5e-5, 5590.87, 1.0, -83.2301747883, 0.5, 3.3333333e-3, -1.23456789e17, 7.]


def st_text(M, lay):
    s = '%d%s\n' % (len(M), ' ; number of sets, Nset') if lay != 'no count' else ''
    if lay == 'words':
        s += 'My turbine data\n' + '-' * 30 + '\n'
    for m, S in M:
        s += '#%d%s\n' % (m, ' Tower' if lay == 'words' else '')
        for i, D in S:
            if lay == 'words':
                s += '=' * 20 + '\n r m x_cg\n' + '=' * 20 + '\n'
            s += '$%d %d%s\n' % (i, len(D), ' Flexible 3 4' if lay == 'words' else '')
            for r in D:
                s += ('\t\t' if lay == 'tabs' else '  ').join('%.17g' % x for x in r) + (' ; 1 2 a\n' if lay == 'words' else '\n')
    return s.replace('\n', '\r\n') if lay == 'crlf' else s


def st_check(ch, f, M, n, what, tol=(0, 0)):
    ch.eq({m: {i: np.asarray(D) for i, D in S.items()} for m, S in f.data.main_data_sets.items()}, {m: {i: np.array(D) for i, D in S} for m, S in M}, what, tol)
    ch.eq(f.toDataFrame(), {'%d_%d' % (m, i): pd.DataFrame(np.array(D), columns=T19 if n == 19 else T30) for m, S in M for i, D in S}, 'tables of ' + what, tol)


def h_st(ch):
    from weio.hawc2_st_file import HAWC2StFile
    n = ch.pick('columns', [19, 30])
    ms = ch.pick('main sets', [[1], [1, 2], [2, 1], [3]])
    ss = ch.pick('sets', [[1], [1, 2], [2, 1], [4]])
    nr = ch.pick('rows', [2, 1, 3])
    k = ch.pick('values', range(len(SV)) if FULL else [0, 4, 7])
    lay = ch.pick('layout', ['plain', 'tabs', 'words', 'no count', 'crlf'])
    if lay in ('tabs', 'crlf') and len(ms) > 1 and k:
        return
    C = C19 if n == 19 else C30

    def mk(q, m):
        return [[1.5 * j + q] + [SV[(k + q + j * 3 + c) % len(SV)] for c in range(n - 1)] for j in range(m)]
    M = [(m, [(i, mk(m + 2 * i, nr + (i % 2))) for i in ss]) for m in ms]
    put('a.st', st_text(M, lay))
    f = HAWC2StFile('a.st')
    ch.op()
    st_check(ch, f, M, n, 'file')
    m, S = M[-1]
    i, D = S[-1]
    A = np.array(D)
    for c, name in enumerate(C):
        fn = getattr(f.data, name)
        ch.eq(np.asarray(fn(None, m, i)), A[:, c], name, (0, 0))
        for x in positions(A[:, 0]):
            ch.eq(float(fn(x, m, i)), interp(x, A[:, 0], A[:, c]), '%s at %r' % (name, x), (1e-12, 1e-12 * max(abs(A[:, c])) if x not in A[:, 0] else 0))
        if (m, i) == (1, 1):
            ch.eq(np.asarray(fn()), A[:, c], name + ' by default', (0, 0))
    for x in positions(A[:, 0]):
        g = f.data.radius_st(x, m, i)
        ch.check(abs(abs(g - x) - min(abs(A[:, 0] - x))) < 1e-12 and g in A[:, 0], 'nearest radius to %r: %r' % (x, g))
    e = ch.pick('edit', ['none', 'set_value', 'read another'])
    if e == 'set_value':
        w = ch.pick('column set', ['m', C[-1], 'pitch'])
        f.data.set_value(m, i, **{w: 1.25})
        for r in D:
            r[C.index(w)] = 1.25
    elif e == 'read another':
        M = [(1, [(1, mk(5, 2))])]
        put('b.st', st_text(M, 'plain'))
        f.read('b.st')
    st_check(ch, f, M, n, 'file after ' + e)
    f.write('w.st')
    ch.op()
    st_check(ch, HAWC2StFile('w.st'), M, n, 'file read back', (1e-7, 0))
    st_check(ch, f, M, n, 'file after writing')
    ch.state(M)


def h_st_values(ch):
    """ every magnitude of value survives writing, next to every other """
    from weio.hawc2_st_file import HAWC2StFile
    V = [0., 1., -1., -2.1e11, 1e-300, -1e-300, -1.5e120, 1.5e120, -1e99, 12345678.9]
    a, b = ch.pick('value', V), ch.pick('next value', V)
    n = ch.pick('columns', [19, 30])
    c = ch.pick('column', [1, 8, n - 2])
    D = [[0.] + [1.] * (n - 1), [1.] + [2.] * (n - 1)]
    D[0][c], D[0][c + 1] = a, b
    M = [(1, [(1, D)])]
    put('a.st', st_text(M, 'plain'))
    f = HAWC2StFile('a.st')
    st_check(ch, f, M, n, 'file')
    f.write('w.st')
    ch.op(2)
    st_check(ch, HAWC2StFile('w.st'), M, n, 'file read back', (1e-7, 0))
    ch.state(a, b, n, c)


def beam_matrix(L, xs, ys, E, G, Ix, Iy, J, kx, ky, A):
    """ Timoshenko beam along z, degrees of freedom (u v w rx ry rz) of its two ends, at the centre line """
    K = np.zeros((12, 12))

    def add(i, j, v):
        K[i, j] += v
        if i != j:
            K[j, i] += v

    def bend(EI, kGA, d1, r1, d2, r2, s):
        # s: sign of the rotation that goes with a positive slope
        p = 12 * EI / (kGA * L**2)
        c = EI / (L**3 * (1 + p))
        for a, b, v in [(d1, d1, 12), (d2, d2, 12), (d1, d2, -12), (d1, r1, s * 6 * L), (d1, r2, s * 6 * L), (d2, r1, -s * 6 * L), (d2, r2, -s * 6 * L),
                        (r1, r1, (4 + p) * L**2), (r2, r2, (4 + p) * L**2), (r1, r2, (2 - p) * L**2)]:
            add(a, b, c * v)
    bend(E * Iy, kx * G * A, 0, 4, 6, 10, 1)
    bend(E * Ix, ky * G * A, 1, 3, 7, 9, -1)
    for d, v in [(2, E * A / L), (5, G * J / L)]:
        add(d, d, v)
        add(d + 6, d + 6, v)
        add(d, d + 6, -v)
    T = np.eye(12)   # from the centre line to the shear centre
    for o in (0, 6):
        T[o, o + 5] = -ys
        T[o + 1, o + 5] = xs
    return T.T @ K @ T


def h_beam(ch):
    """ element matrices of a structural table """
    from weio.hawc2_st_file import HAWC2StFile
    xs, ys = ch.pick('shear centre', [(0., 0.), (0.3, 0.), (0., -0.2), (0.3, -0.2)])
    I = ch.pick('I', [(1., 1.), (1., 4.), (0.25, 2.)])
    k = ch.pick('k', [(0.5, 0.5), (0.5, 0.75), (0.9, 0.1)])
    E, G = ch.pick('E, G', [(2e11, 8e10), (1e10, 5e8)])
    Ls = ch.pick('length', [0.5, 4., 30.])
    r = ch.pick('radius', [0., 1., 2., 0.5, 1.75, -1., 5.])
    m, i = ch.pick('set', [(1, 1), (1, 2), (2, 1)])
    n = ch.pick('columns', [19, 30]) if (xs, I, r) == (0., (1., 1.), 0.) else 19
    st = dict(x_sh=xs, y_sh=ys, E=E, G=G, I_x=I[0], I_y=I[1], I_p=1.5, k_x=k[0], k_y=k[1], A=0.75)

    def row(x, f):
        return [x] + [(st.get(c, 0.1) * (1 + f * (1 + 0.1 * q))) for q, c in enumerate((C19 if n == 19 else C30)[1:])]
    M = [(a, [(b, [row(0., 0.1 * a + b), row(1., a + b), row(2., 0.3 * b)]) for b in (1, 2)]) for a in (1, 2)]
    put('a.st', st_text(M, 'plain'))
    f = HAWC2StFile('a.st')
    ch.op(2)
    K = f.data.element_stiffnessmatrix(r, m, i, Ls)
    zs = [0., Ls / 4, Ls / 2, 0.7 * Ls, Ls]
    N = [f.data.shape_function_ori(r, m, i, Ls, z) for z in zs]
    st_check(ch, f, M, n, 'file after computing matrices')
    if n == 30:
        ch.check(K is None and all(x is None for x in N), 'an isotropic matrix is given for a table of full stiffness matrices')
        return
    D = np.array(dict(dict(M)[m])[i])
    xs, ys, E, G, Ix, Iy, J, kx, ky, A = [interp(r, D[:, 0], D[:, C19.index(c)]) for c in 'x_sh y_sh E G I_x I_y I_p k_x k_y A'.split()]
    ref = beam_matrix(Ls, xs, ys, E, G, Ix, Iy, J, kx, ky, A)
    ch.eq(np.asarray(K), ref, 'stiffness matrix', (1e-9, 1e-9 * abs(ref).max()))
    N = [np.asarray(x) for x in N]
    ch.eq(N[0], np.eye(6, 12), 'shape functions at the first end', (0, 1e-9 * max(Ls, 1)))
    ch.eq(N[-1], np.eye(6, 12, 6), 'shape functions at the second end', (0, 1e-9 * max(Ls, 1)))
    # the strain energy of the interpolated displacements is that of the matrix (they are cubic: exact from 4 points)
    V = np.vander(np.array(zs) / Ls, 4, increasing=True)
    P = np.linalg.lstsq(V, np.array(N).reshape(5, -1), rcond=None)[0]
    ch.check(np.abs(V @ P - np.array(N).reshape(5, -1)).max() < 1e-9 * max(Ls, 1), 'the shape functions are not cubic')
    x, w = np.polynomial.legendre.leggauss(5)
    S = np.zeros((12, 12))
    for x, w in zip((x + 1) / 2, w / 2):
        n0 = (np.array([1, x, x**2, x**3]) @ P).reshape(6, 12)
        n1 = (np.array([0, 1, 2 * x, 3 * x**2]) @ P).reshape(6, 12) / Ls
        u, v, t = n1[0] - ys * n1[5], n1[1] + xs * n1[5], n1[5]
        for c, e in [(kx * G * A, u - n0[4]), (ky * G * A, v + n0[3]), (E * A, n1[2]), (E * Ix, n1[3]), (E * Iy, n1[4]), (G * J, t)]:
            S += w * Ls * c * np.outer(e, e)
    ch.eq(S, ref, 'strain energy of the shape functions', (1e-8, 1e-8 * abs(ref).max()))
    ch.state(xs, ys, E, G, Ix, Iy, kx, ky, Ls)


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('ae', h_ae), ('ae_new', h_ae_new), ('pc', h_pc), ('st', h_st), ('st_values', h_st_values), ('beam', h_beam)]
