"""C22: Bladed results (header .%NN, data .$NN, project .$PJ)"""
import os
import struct
import itertools
from ..core import Violation
from ..util import *

INFO = dict(bounds='2D/3D x text/4-byte/8-byte/integer, 1..3 variables, 1..3 sections, 1..3 steps, numbered or named sections, with and without time axis, 4 header layouts, opened by either file; every first byte of the data; every unit of up to 3 symbols; names, units and sections continued over 1..3 lines at every place; headers of up to 200 lines; projects of every combination of 3 results out of 11 kinds and of 4 results of 1..3 steps with 3 numberings; 12 folder and 6 file names; histories of 2 reads')

FULL = False
FORMATS = ['R*4', 'text', 'R*8', 'I*4']
NAMES = ["'Blade 1 Mx (Root axes)'", 'MXT', "'Time from start'", 'POW2', '"Tower Fxy"']
UNITS = ['FL', 'N', 'T', 'P', 'A/T', 'L/TT', 'FL/L', 'M', '-']
UNIT = {'FL': 'Nm', 'N': 'N', 'T': 's', 'P': 'W', 'A/T': 'rad/s', 'L/TT': 'm/s^2', 'FL/L': 'Nm/m', 'M': 'kg', '-': '-', 'F': 'N', 'L': 'm', 'A': 'rad', 'L/T': 'm/s'}
VALS = [146245.984375, -0.25, 0.0, 7.0, 1.5e-5, -2.9e6, 3.25, 12.5]
SECV = [['0.0000000', '20.2000008', '61.5'], ['-15.000', '15.000', '26.407'], ['1e-3', '2.5E+001', '100']]
SECN = [['0.0m-', '20.2m-', '61.5m-'], ['-15.0m-', '15.0m-', '26.41m-'], ['0.0m-', '25.0m-', '100.0m-']]
TICK = ['Node 1', 'Tower top', 'End2']


def bare(n):
    return n.strip('\'"')


def header(R, lay='tabs', num='04'):
    """ R: description of a result """
    t = {'tabs': '\t', 'blanks': '      ', 'mixed': ' \t', 'crlf': '\t'}[lay]
    nd = 3 if R['sec'] else 2
    L = ['FILE' + t + 'run.$' + num, 'ACCESS' + t + ('S' if R['fmt'] == 'text' else 'D'), 'FORM' + t + ('F' if lay == 'tabs' else 'U'), 'RECL' + t + '4', 'FORMAT' + t + ('R*4' if R['fmt'] == 'text' else R['fmt']),
         'CONTENT' + t + "'POWPROD'", 'CONFIG' + t + "'STATIONARY'", 'NDIMENS' + t + '%d' % nd,
         'DIMENS' + t + t.join(str(x) for x in ([len(R['names'])] + ([len(R['sec'])] if nd == 3 else []) + [R['nt']])), 'GENLAB' + t + "'%s'" % R['cat']]
    L += (R.get('varlines') or ['VARIAB' + t + ' '.join(R['names'])])
    L += (R.get('unitlines') or ['VARUNIT' + t + (' ' if lay != 'blanks' else '  ').join(R['units'])])
    if nd == 3:
        L += ['AXISLAB' + t + "'Distance along blade'", 'AXIUNIT' + t + 'L', 'AXIMETH' + t + '3']
        if R['ticks']:
            L += (R.get('ticklines') or ['AXITICK' + t + ' '.join("'%s'" % s for s in R['sec']) + (' ' if lay == 'tabs' else '')])
        else:
            L += ['AXIVAL' + t + ' '.join(R['sec'])]
    L += ['AXISLAB' + t + "'Time'", 'AXIUNIT' + t + 'T']
    if R['time']:
        L += ['AXIMETH' + t + '2', 'MIN ' + ('' if lay == 'blanks' else '\t') + '%.7E' % R['time'][0], 'STEP' + t + '%.7E' % R['time'][1]]
    else:
        L += ['AXIMETH' + t + '3', 'AXIVAL' + t + ' '.join('%g' % (0.5 * i) for i in range(R['nt']))] if nd == 2 else ['AXIMETH' + t + '1']
    L += ['NVARS' + t + '0']
    if lay != 'blanks':
        L += ['ULOADS   1.0 2.0', '   3.0 4.0', 'MAXTIME 1 2', 'MEAN 3 4']
    return ('\r\n' if lay == 'crlf' else '\n').join(L) + '\n'


def data(R, sep='  '):
    """ D[i][s][j]: step, section, variable """
    flat = [(i, s, j) for i in range(R['nt']) for s in range(max(1, len(R['sec']))) for j in range(len(R['names']))]
    if R['fmt'] == 'text':
        return '\n'.join(sep + sep.join('%.7e' % x for x in row) for st in R['D'] for row in st) + '\n'
    c = {'R*4': 'f', 'R*8': 'd', 'I*4': 'i'}[R['fmt']]
    return struct.pack('<%d%s' % (len(flat), c), *[(int(R['D'][i][s][j]) if c == 'i' else R['D'][i][s][j]) for i, s, j in flat])


def f4(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def result(fmt='R*4', nv=2, sec=None, ticks=False, nt=2, time=(0.0, 0.05), k=0, cat='Blade 1 loads'):
    sec = sec or []
    D = [[[VALS[(k + 3 * i + 2 * s + j) % len(VALS)] + 10 * i + s for j in range(nv)] for s in range(max(1, len(sec)))] for i in range(nt)]
    if fmt == 'I*4':
        D = [[[float((k + 7 * i + 3 * s + j) * (-1) ** j) for j in range(nv)] for s in range(max(1, len(sec)))] for i in range(nt)]
    return dict(fmt=fmt, names=[NAMES[(k + j) % len(NAMES)] for j in range(nv)], units=[UNITS[(k + 2 * j) % len(UNITS)] for j in range(nv)], sec=sec, ticks=ticks, nt=nt, time=time, cat=cat, D=D, secnames=None)


def columns(R):
    """ [(name, values)] without time """
    out = []
    for s in range(max(1, len(R['sec']))):
        pre = ''
        if R['sec']:
            pre = R['sec'][s] + '-' if R['ticks'] else R['secnames'][s]
        for j, (n, u) in enumerate(zip(R['names'], R['units'])):
            v = [R['D'][i][s][j] for i in range(R['nt'])]
            if R['fmt'] == 'R*4':
                v = [f4(x) for x in v]
            elif R['fmt'] == 'text':
                v = [float('%.7e' % x) for x in v]
            out.append((pre + bare(n) + ' [' + UNIT.get(u, u) + ']', v))
    return out


def tcol(R):
    t0, dt = [float('%.7E' % x) for x in R['time']]
    return ('Time [s]', [t0 + dt * i for i in range(R['nt'])])


def table(cols):
    seen, out = set(), []
    for n, v in cols:
        if n not in seen:
            seen.add(n)
            out.append((n, v))
    return pd.DataFrame(np.array([v for _, v in out], dtype=float).T, columns=[n for n, _ in out])


def put_result(base, num, R, lay='tabs'):
    put(base + '.%' + num, header(R, lay, num))
    put(base + '.$' + num, data(R))


def want_single(R):
    return table(([tcol(R)] if R['time'] else []) + columns(R))


def h_pair(ch):
    import weio
    from weio.bladed_out_file import BladedFile
    fmt = ch.pick('format', FORMATS)
    nv = ch.pick('variables', [2, 1, 3])
    ns = ch.pick('sections', [0, 1, 2, 3])
    ticks = ch.flag('named sections') if ns else False
    nt = ch.pick('steps', [2, 1, 3])
    k = ch.pick('values', range(8) if FULL else [0, 3, 6])
    time = ch.pick('time', [(0.0, 0.05), (10.0, 0.1), None, (-1.5, 2.0)])
    lay = ch.pick('header', ['tabs', 'blanks', 'mixed', 'crlf'])
    by = ch.pick('opened by', ['$', '%'])
    if lay in ('mixed', 'crlf') and (by == '%' or nv == 3):
        return
    q = k % 3
    sec = TICK[:ns] if ticks else SECV[q][:ns]
    R = result(fmt, nv, sec, ticks, nt, time, k)
    R['secnames'] = SECN[q][:ns]
    put_result('a', '04', R, lay)
    f = weio.read('a.%s04' % by) if by == '$' else BladedFile('a.%s04' % by)
    ch.op()
    want = want_single(R)
    for rep in range(2):
        df = f.toDataFrame()
        ch.check(isinstance(df, pd.DataFrame), 'one result gives %s' % type(df).__name__)
        ch.eq(df.astype(float), want, 'table', (1e-12, 0))
    ch.eq(list(f.dataSets.keys()), [R['cat']], 'name of the data')
    ch.state(fmt, nv, sec, nt, k, time)


def h_bytes(ch):
    """ binary data is binary whatever its bytes """
    from weio.bladed_out_file import BladedFile
    fmt = ch.pick('format', ['R*4', 'R*8', 'I*4'])
    b = ch.pick('first byte', range(256))
    rest = ch.pick('other bytes', [0x00, 0x31, 0x20, 0x0a, 0x3f])
    nv, nt = ch.pick('size', [(1, 1), (1, 2), (2, 2)])
    n = 8 if fmt == 'R*8' else 4
    raw = bytes([b] + [rest] * (n - 1)) + b''.join(struct.pack({'R*4': '<f', 'R*8': '<d', 'I*4': '<i'}[fmt], 48 + i) for i in range(nv * nt - 1))
    R = result(fmt, nv, None, False, nt)
    V = np.frombuffer(raw, {'R*4': '<f4', 'R*8': '<f8', 'I*4': '<i4'}[fmt]).reshape(nt, nv)
    put('a.%04', header(R))
    put('a.$04', raw)
    f = BladedFile('a.$04')
    ch.op()
    df = f.toDataFrame()
    ch.eq(df.values.shape, (nt, nv + 1), 'shape of the table')
    ch.eq(df.values[:, 1:].astype(float), V.astype(float), 'values', (1e-12, 0))
    ch.state(fmt, b, rest, nv, nt)


def h_units(ch):
    from weio.bladed_out_file import BladedFile
    A = 'TAPLFMN/-'
    n = ch.pick('symbols', [1, 2, 3])
    u = ''.join(ch.pick('symbol %d' % i, A) for i in range(n))
    w = u.replace('TT', '\0')
    w = ''.join({'T': 's', 'A': 'rad', 'P': 'W', 'L': 'm', 'F': 'N', 'M': 'kg', '\0': 's^2'}.get(c, c) for c in w)
    R = result('R*4', 2, None, False, 2)
    R['units'] = [u, 'FL']
    put_result('a', '04', R)
    f = BladedFile('a.$04')
    ch.op()
    ch.eq([str(c) for c in f.toDataFrame().columns][1:], ['Blade 1 Mx (Root axes) [' + w + ']', 'MXT [Nm]'], 'columns')
    ch.state(u)


def pieces(words, cuts, key, sep):
    """ the words of a header entry over several lines """
    L, cur = [], []
    for i, w in enumerate(words):
        if i in cuts:
            L.append(cur)
            cur = []
        cur.append(w)
    L.append(cur)
    j = '\t' if sep.startswith('\t') else ' '
    return [(key + sep if i == 0 else (j if sep == '\t\t' else '')) + j.join(l) + (' ' if i < len(L) - 1 else '') for i, l in enumerate(L)]


def h_continued(ch):
    """ names, units and sections over several lines """
    from weio.bladed_out_file import BladedFile
    nv = ch.pick('variables', [4, 3, 2])
    C = [c for r in range(3) for c in itertools.combinations(range(1, nv), r)]
    cn = ch.pick('names cut at', C)
    cu = ch.pick('units cut at', C)
    ct = ch.pick('sections cut at', [(), (1,), (2,), (1, 2)])
    lay = ch.pick('header', ['tabs', 'blanks', 'mixed'])
    R = result('R*4', nv, TICK, True, 2)
    sep = {'tabs': '\t', 'blanks': '   ', 'mixed': '\t\t'}[lay]
    R['varlines'] = pieces(R['names'], cn, 'VARIAB', sep)
    R['unitlines'] = pieces(R['units'], cu, 'VARUNIT', sep)
    R['ticklines'] = pieces(["'%s'" % s for s in R['sec']], ct, 'AXITICK', sep)
    put_result('a', '25', R, lay)
    f = BladedFile('a.$25')
    ch.op()
    ch.eq(f.toDataFrame().astype(float), want_single(R), 'table', (1e-12, 0))
    ch.state(nv, cn, cu, ct)


def h_long(ch):
    """ headers of any length """
    from weio.bladed_out_file import BladedFile
    nv = ch.pick('variables', [5, 10, 11, 12, 13, 14, 15, 16, 20, 31, 40, 100])
    three = ch.flag('sections')
    per = ch.pick('names per line', [1, 2, 3, 1000])
    R = result('R*4', nv, TICK if three else None, three, 2, (3.5, 0.25))
    R['names'] = ["'Channel %d'" % j for j in range(nv)]
    R['units'] = [UNITS[j % len(UNITS)] for j in range(nv)]
    cuts = [c for c in range(1, nv) if c % per == 0]
    R['varlines'] = pieces(R['names'], cuts, 'VARIAB', '\t')
    R['unitlines'] = pieces(R['units'], cuts, 'VARUNIT', '\t')
    put_result('a', '25', R)
    f = BladedFile('a.$25')
    ch.op()
    ch.eq(f.toDataFrame().astype(float), want_single(R), 'table', (1e-12, 0))
    ch.state(nv, three, per)


KINDS = ['2D 2 steps', '3D 2 steps', '2D 3 steps', 'text 2D 2 steps', 'text 3D 3 steps', '1 step', 'no time', 'missing data', 'cut binary', 'cut text 2D', 'broken text 3D']


def kind(name, i):
    """ (result, text of data, counted?) """
    kk = 2 * i + 1
    cat = 'Result %d' % i
    if name == '3D 2 steps':
        R = result('R*8', 2, SECV[i % 3][:2], False, 2, k=kk, cat=cat)
        R['secnames'] = SECN[i % 3][:2]
    elif name == '2D 3 steps':
        R = result('R*4', 2, None, False, 3, k=kk, cat=cat)
    elif name == 'text 2D 2 steps':
        R = result('text', 2, None, False, 2, k=kk, cat=cat)
    elif name in ('text 3D 3 steps', 'broken text 3D'):
        R = result('text', 1, TICK[:2], True, 3, k=kk, cat=cat)
    elif name == '1 step':
        R = result('text', 3, None, False, 1, k=kk, cat=cat)
    elif name == 'no time':
        R = result('R*4', 2, None, False, 2, None, k=kk, cat=cat)
    elif name == 'cut text 2D':
        R = result('text', 2, None, False, 3, k=kk, cat=cat)
    else:
        R = result('R*4', 2, None, False, 2, k=kk, cat=cat)
    R['names'] = [(n[:-1] + " %d'" % i) if n.startswith("'") else ((n[:-1] + ' %d"' % i) if n.startswith('"') else n + '_%d' % i) for n in R['names']]
    d = data(R)
    if name == 'missing data':
        return R, None, False
    if name == 'cut binary':
        return R, d[:-4], False
    if name == 'cut text 2D':
        return R, '\n'.join(d.split('\n')[:-2]) + '\n', False
    if name == 'broken text 3D':
        return R, d.replace('e', 'x', 1), False
    return R, d, True


def h_project(ch):
    import weio
    from weio.bladed_out_file import BladedFile
    n = ch.pick('results', [3, 2, 1])
    K = [ch.pick('result %d' % i, KINDS) for i in range(n)]
    pj = ch.pick('project file', ['run.$PJ', 'run.$pj'])
    if pj == 'run.$pj' and n == 3:
        return
    nums = ['04', '25', '69']
    put(pj, 'a project\n')
    put('run2.%04', header(result()))
    put('run2.$04', data(result()))
    G = {}
    order = []
    for i, k in enumerate(K):
        R, d, ok = kind(k, i)
        put('run.%' + nums[i], header(R, 'tabs' if i else 'blanks', nums[i]))
        if d is not None:
            put('run.$' + nums[i], d)
        if not ok or (not R['time'] and n > 1):
            continue
        G.setdefault(R['nt'], []).append(R)
    ch.op()
    try:
        f = BladedFile(pj) if len(pj) % 2 else weio.read(pj)
    except Exception as e:
        ch.check(n == 1 and K[0] in KINDS[7:], 'the project is not read: %s: %s' % (type(e).__name__, e))
        return
    ch.check(not (n == 1 and K[0] in KINDS[7:]), 'a broken result is accepted')
    T = {}
    misc = [m for m, L in G.items() if len(L) > 1]
    for m, L in G.items():
        T['Misc_%d' % m if len(L) > 1 else L[0]['cat']] = table(([tcol(L[0])] if L[0]['time'] else []) + [c for R in L for c in columns(R)])
    if len(misc) == 1:
        T = {'Misc': T['Misc_%d' % misc[0]]}
    got = f.toDataFrame()
    if len(T) == 1:
        ch.check(isinstance(got, pd.DataFrame), 'one group of results gives %s' % type(got).__name__)
        got = {list(T)[0]: got}
    ch.eq(sorted(f.dataSets.keys()), sorted(T), 'groups')
    ch.eq({k: v.astype(float) for k, v in got.items()}, T, 'tables', (1e-12, 0))
    ch.state(K)


def h_same_name(ch):
    """ results with the same label are all kept """
    from weio.bladed_out_file import BladedFile
    a, b = ch.pick('steps', [(2, 3), (3, 2), (1, 2)])
    fmt = ch.pick('format', ['R*4', 'text'])
    R = [result(fmt, 2, None, False, m, k=i, cat='Loads') for i, m in enumerate((a, b))]
    put('run.$PJ', 'x')
    for i in range(2):
        put_result('run', ['04', '05'][i], R[i])
    got = BladedFile('run.$PJ').toDataFrame()
    ch.op()
    ch.check(isinstance(got, dict) and len(got) == 2, 'two groups of results with the same label give %s' % (list(got) if isinstance(got, dict) else type(got).__name__))
    T = sorted([t.values.tolist() for t in got.values()])
    ch.eq(T, sorted([want_single(r).values.tolist() for r in R]), 'tables', (1e-12, 0))
    ch.state(a, b, fmt)


def h_many(ch):
    """ projects of 4 results, also with numbers of 3 digits and with a channel that several results have """
    from weio.bladed_out_file import BladedFile
    S = [ch.pick('steps %d' % i, [1, 2, 3]) for i in range(4)]
    nums = ch.pick('numbers', [['04', '05', '25', '69'], ['104', '05', '205', '22'], ['100', '101', '102', '103']])
    shared = ch.flag('shared channel')
    put('run.$PJ', 'x')
    R = {}
    for i, (m, n) in enumerate(zip(S, nums)):
        R[n] = r = result('R*8', 2, None, False, m, k=i, cat='Result %d' % i)
        r['names'] = ["'First %d'" % i, 'Second_%d' % i]
        if shared:
            r['names'][i % 2], r['units'][i % 2] = 'Common', 'T'
            for t in range(m):
                r['D'][t][0][i % 2] = 5.5 * t
        put_result('run', n, r)
    got = BladedFile('run.$PJ').toDataFrame()
    ch.op()
    by = {}
    for n in sorted(nums):
        by.setdefault(R[n]['nt'], []).append(R[n])
    T = {'Misc_%d' % m if len(L) > 1 else L[0]['cat']: table([tcol(L[0])] + [c for r in L for c in columns(r)]) for m, L in by.items()}
    misc = [k for k in T if k.startswith('Misc')]
    if len(misc) == 1:
        T = {'Misc': T[misc[0]]}
    if isinstance(got, pd.DataFrame):
        got = {list(T)[0]: got}
    ch.eq({k: v.astype(float) for k, v in got.items()}, T, 'tables', (1e-12, 0))
    for k in T:
        ch.eq([str(c) for c in got[k].columns], list(T[k].columns), 'columns of %s' % k)
    ch.state(S, nums, shared)


def h_paths(ch):
    from weio.bladed_out_file import BladedFile
    d = ch.pick('folder', ['', 'x', '50%', 'a%04', '$x', '[1]', 'a*b', 'q?', 'x.y', 'run [2] 5%', 'a b', '%'])
    n = ch.pick('file', ['a', 'a.b', '100%', 'x$', 'r[3]', 'a b'])
    how = ch.pick('opened', ['$', '%', 'project', 'project of 2'])
    base = os.path.join(d, n)
    R = result('R*4', 2, None, False, 2)
    put_result(base, '04', R)
    want = want_single(R)
    if how == 'project of 2':
        Q = result('R*4', 1, None, False, 2, k=3)
        put_result(base, '05', Q)
        want = table([tcol(R)] + columns(R) + columns(Q))
    if how.startswith('project'):
        put(base + '.$PJ', 'x')
    f = BladedFile(base + ('.$PJ' if how.startswith('project') else '.%s04' % how))
    ch.op()
    ch.eq(f.toDataFrame().astype(float), want, 'table', (1e-12, 0))
    ch.state(d, n, how)


def h_history(ch):
    from weio.bladed_out_file import BladedFile
    K = [k for k in KINDS[:6]]
    f = BladedFile()
    for i in range(2):
        k = ch.pick('file %d' % i, K + ['project'])
        d = 'd%d' % i
        if k == 'project':
            A, da, _ = kind('2D 2 steps', 0)
            B, db, _ = kind('text 2D 2 steps', 1)
            put_result(d + '/r', '04', A)
            put_result(d + '/r', '05', B)
            put(d + '/r.$PJ', 'x')
            f.read(d + '/r.$PJ')
            want = table([tcol(A)] + columns(A) + columns(B))
        else:
            R, dd, _ = kind(k, i)
            put_result(d + '/r', '04', R)
            f.read(d + '/r.$04')
            want = want_single(R)
        ch.op()
        ch.eq(f.toDataFrame().astype(float), want, 'table after read %d' % i, (1e-12, 0))
        ch.state(i, k)


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('pair', h_pair), ('bytes', h_bytes), ('units', h_units), ('continued', h_continued), ('long', h_long), ('project', h_project), ('same_name', h_same_name), ('many', h_many), ('paths', h_paths), ('history', h_history)]
