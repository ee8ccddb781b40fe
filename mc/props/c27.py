"""C27: tables in Excel, Parquet, NetCDF and TDMS containers"""
import os, io, datetime
from ..core import Violation
from ..util import *

INFO = dict(bounds='workbooks of 1..3 sheets over 9 sheet layouts and 7 column types, parquet tables of 0..3 rows, 1..3 columns over 9 types and 3 encodings, NetCDF files of 1..3 variables over 5 types and 0..3 dimensions, TDMS files of 1..2 groups, 1..3 channels, 1..2 segments and 6 types; missing values in every type, times of every unit; histories read/replace/edit/write/read')

FULL = False


def K(n):
    import importlib
    return getattr(importlib.import_module('weio.%s_file' % n), {'excel': 'ExcelFile', 'parquet': 'ParquetFile', 'netcdf': 'NetCDFFile', 'tdms': 'TDMSFile'}[n])


def opened(ch, n, path, how):
    import weio
    ch.op()
    if how == 'class':
        return K(n)(path)
    if how == 'read':
        f = weio.read(path)
        ch.eq(type(f).__name__, K(n).__name__, 'detected class')
        return f
    f = K(n)()
    f.read(path)
    return f


HOW = ['class', 'read', 'method']


# --- cells ---------------------------------------------------------------
def same_cell(a, b):
    if b is None:
        return a is None or a is pd.NaT or (isinstance(a, (float, np.floating)) and np.isnan(a))
    if isinstance(b, bool):
        return isinstance(a, (bool, np.bool_)) and bool(a) == b
    if isinstance(b, (int, float)):
        return not isinstance(a, (bool, np.bool_, str)) and isinstance(a, (int, float, np.integer, np.floating)) and (a == b)
    if isinstance(b, datetime.datetime):
        return not isinstance(a, str) and pd.Timestamp(a) == pd.Timestamp(b)
    return a == b


def same_table(df, cols, rows, what):
    if [c for c in df.columns] != list(cols):
        raise Violation('%s: columns %r instead of %r' % (what, list(df.columns), list(cols)))
    if len(df) != len(rows):
        raise Violation('%s: %d rows instead of %d' % (what, len(df), len(rows)))
    for j in range(len(cols)):
        v = list(df.iloc[:, j])
        for i, r in enumerate(rows):
            if not same_cell(v[i], r[j]):
                raise Violation('%s: row %d, column %r: %r instead of %r' % (what, i, cols[j], v[i], r[j]))
    if list(df.index) != list(range(len(rows))):
        raise Violation('%s: index %r' % (what, list(df.index)))


VAL = {
    'float': [0.0, -1.5, 1e-12, 123456.789, 1e300],
    'int': [0, 7, -3, 2**40, 12],
    'text': ['a', 'two words', 'é µ', '1.5', '#x'],
    'bool': [True, False, True, True, False],
    'date': [datetime.datetime(2020, 1, 2, 3, 4, 5), datetime.datetime(1999, 12, 31), datetime.datetime(2021, 6, 7, 8, 9), datetime.datetime(2000, 2, 29), datetime.datetime(2010, 10, 10)],
    'holes': [1.5, None, 2.5, None, None],
    'mixed': ['x', 2, None, 3.5, True],
}
TYPES = list(VAL)


def col(t, n, k=0):
    return [VAL[t][(i + k) % len(VAL[t])] for i in range(n)]


def tab(types, n, k=0):
    """ column names and rows """
    names = ['%s_[m]' % t if i != 1 else 'Col %d (%s)' % (i, t) for i, t in enumerate(types)]
    C = [col(t, n, k + i) for i, t in enumerate(types)]
    rows = [list(r) for r in zip(*C)] if n else []
    return names, rows


def book(sheets):
    """ sheets: list of (name, layout, names, rows) ; written cell by cell """
    import openpyxl
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    for name, lay, names, rows in sheets:
        ws = wb.create_sheet(name)
        r0, c0 = {'offset': (3, 2), 'rows above': (3, 0), 'columns before': (0, 2)}.get(lay, (0, 0))
        if lay == 'empty':
            continue
        gap = 1 if lay == 'gap column' else None
        grid = [names] + rows
        for i, r in enumerate(grid):
            ii = i + (1 if lay == 'gap row' and i > 1 else 0) + (2 if lay == 'blank after names' and i > 0 else 0)
            for j, v in enumerate(r):
                jj = j + (1 if gap and j >= gap else 0)
                if v is not None:
                    ws.cell(row=r0 + ii + 1, column=c0 + jj + 1, value=v)
    b = io.BytesIO()
    wb.save(b)
    return b.getvalue()


LAYS = ['plain', 'offset', 'rows above', 'columns before', 'gap column', 'gap row', 'blank after names', 'empty', 'names only']
SHEETS = ['Sheet1', ' My results ', 'ünï', 'A' * 31]


def check_book(ch, f, sheets, what):
    exp = [(n, c, r) for n, lay, c, r in sheets if lay != 'empty']
    d = f.toDataFrame()
    ch.check(isinstance(d, dict), '%s: %s instead of a dictionary of sheets' % (what, type(d).__name__))
    ch.eq(list(d.keys()), [e[0] for e in exp], what + ': sheets')
    for n, c, r in exp:
        rr = [x for x in r if any(v is not None for v in x)]
        same_table(d[n], c, rr, '%s, sheet %s' % (what, n))


def h_excel_one(ch):
    lay = ch.pick('layout', LAYS)
    nc = ch.pick('columns', [1, 2, 3])
    t0 = ch.pick('type', range(len(TYPES)))
    dt = ch.pick('other types', [1, 2, 3]) if nc > 1 else 0
    n = ch.pick('rows', [0, 1, 2, 3]) if lay != 'names only' else 0
    k = ch.pick('values', range(5) if FULL else [0, 1])
    types = [TYPES[(t0 + i * dt) % len(TYPES)] for i in range(nc)]
    names, rows = tab(types, n, k)
    S = [('Sheet1', lay, names, rows)]
    p = put('a.xlsx', book(S))
    f = opened(ch, 'excel', p, ch.pick('how', HOW if k == 0 else HOW[:1]))
    check_book(ch, f, S, 'read')


def h_excel_many(ch):
    n = ch.pick('sheets', [1, 2, 3])
    S = []
    for i in range(n):
        lay = ch.pick('layout%d' % i, ['plain', 'empty', 'names only', 'offset'])
        t = ch.pick('types%d' % i, [['float', 'text'], ['int'], ['holes', 'float', 'bool']][:3 if FULL or n < 3 else 2])
        names, rows = tab(t, 0 if lay == 'names only' else 2 + i, i)
        S.append((SHEETS[i] if i else ch.pick('name', SHEETS), lay, names, rows))
    if len(set(s[0] for s in S)) < len(S):
        return
    if ch.flag('same sheet twice') and n > 1:
        S[1] = (S[1][0],) + S[0][1:]
    f = opened(ch, 'excel', put('a.xlsx', book(S)), 'class')
    check_book(ch, f, S, 'read')


def h_excel_write(ch):
    """ read or made, edited, written, read """
    n = ch.pick('sheets', [1, 2, 3])
    types = ch.pick('types', [['float', 'int'], ['text', 'float'], ['bool', 'date', 'float'], ['mixed', 'int'], ['holes', 'int']])
    nr = ch.pick('rows', [0, 1, 3])
    S = [(SHEETS[i], 'plain') + tab(types, nr, i) for i in range(n)]
    if ch.flag('from file'):
        f = opened(ch, 'excel', put('a.xlsx', book(S)), 'class')
    else:
        f = K('excel')()
        f.data = {s[0]: pd.DataFrame(s[3], columns=s[2]) if s[3] else pd.DataFrame(columns=s[2]) for s in S}
    ed = ch.pick('edit', ['none', 'value', 'column', 'drop sheet', 'new sheet', 'reorder'])
    if ed == 'value' and nr:
        f.data[S[0][0]].iloc[0, 1] = 77 if types[1] != 'date' else VAL['date'][2]
        S[0][3][0][1] = 77 if types[1] != 'date' else VAL['date'][2]
    elif ed == 'column':
        f.data[S[-1][0]]['new col'] = [5.5 + i for i in range(nr)]
        S[-1] = (S[-1][0], 'plain', S[-1][2] + ['new col'], [r + [5.5 + i] for i, r in enumerate(S[-1][3])])
    elif ed == 'drop sheet' and n > 1:
        del f.data[S[0][0]]
        S = S[1:]
    elif ed == 'new sheet':
        f.data['added'] = pd.DataFrame([[1, 2.5]], columns=['i', 'j'])
        S.append(('added', 'plain', ['i', 'j'], [[1, 2.5]]))
    elif ed == 'reorder':
        f.data = {k: f.data[k] for k in reversed(list(f.data))}
        S = S[::-1]
    ch.op()
    target = ch.pick('target', ['other', 'same'])
    if target == 'same':
        f.filename = 'a.xlsx'
        f.write()
        p = 'a.xlsx'
    else:
        p = 'b.xlsx'
        f.write(p)
    import openpyxl
    wb = openpyxl.load_workbook(p)
    ch.eq(list(wb.sheetnames), [s[0] for s in S], 'sheets of the written file')
    for s in S:
        ws = wb[s[0]]
        got = [[c.value for c in r] for r in ws.iter_rows()]
        for i, r in enumerate([s[2]] + s[3]):
            g = got[i] if i < len(got) else []
            g = g + [None] * (len(r) - len(g))
            if not all(same_cell(a, b) for a, b in zip(g, r)) or len(g) > len(r):
                raise Violation('written sheet %s, row %d: %r instead of %r' % (s[0], i, g, r))
    g = opened(ch, 'excel', p, 'class')
    check_book(ch, g, S, 're-read')
    if ch.flag('again'):
        g.write('c.xlsx')
        check_book(ch, opened(ch, 'excel', 'c.xlsx', 'class'), S, 'second round')


def h_excel_reread(ch):
    """ one object reads several files, or a file that changes """
    B = {'one': [('Sheet1', 'plain') + tab(['float', 'int'], 2)], 'two': [('Sheet1', 'plain') + tab(['text'], 3, 1), ('Other', 'offset') + tab(['int', 'float'], 1)],
         'none': [('Sheet1', 'empty', [], [])], 'other': [('Third', 'plain') + tab(['bool', 'float'], 2, 2)]}
    same = ch.flag('same path')
    f = K('excel')()
    for i in range(3 if FULL else 2):
        b = ch.pick('workbook %d' % i, list(B))
        p = put('a.xlsx' if same else '%s%d.xlsx' % (b, i), book(B[b]))
        ch.op()
        f.read(p)
        check_book(ch, f, B[b], 'read %d' % i)
        ch.state((i, b, same))


# --- parquet -------------------------------------------------------------
def pa_type(t):
    import pyarrow as pa
    return {'f8': pa.float64(), 'f4': pa.float32(), 'i8': pa.int64(), 'i4': pa.int32(), 'u1': pa.uint8(), 'bool': pa.bool_(), 'str': pa.string(), 'time': pa.timestamp('us'), 'fnull': pa.float64()}[t]


PV = {'f8': [0.0, -1.5, 1e-300, 12345.6789], 'f4': [0.5, -2.25, 3.0, 1e10], 'i8': [0, -5, 2**62, 3], 'i4': [1, 2, -2**31, 4], 'u1': [0, 255, 7, 1],
      'bool': [True, False, False, True], 'str': ['a', '', 'é x', '1'], 'time': VAL['date'][:4], 'fnull': [1.5, None, 2.5, None]}


def same_parquet(ch, df, names, C, types, what):
    ch.eq(list(df.columns), names, what + ': columns')
    n = len(C[0])
    ch.eq(len(df), n, what + ': rows')
    for nme, c, t in zip(names, C, types):
        v = list(df[nme])
        for i in range(n):
            b = c[i]
            if t == 'f4' and b is not None:
                b = float(np.float32(b))
            if not same_cell(v[i], b):
                raise Violation('%s: %s[%d]: %r instead of %r' % (what, nme, i, v[i], b))
        k = df[nme].dtype.kind
        if n:
            ch.eq(k, {'f8': 'f', 'f4': 'f', 'i8': 'i', 'i4': 'i', 'u1': 'u', 'bool': 'b', 'str': 'O', 'time': 'M', 'fnull': 'f'}[t], '%s: type of %s' % (what, nme))


def h_parquet(ch):
    import pyarrow as pa, pyarrow.parquet as pq
    nc = ch.pick('columns', [1, 2, 3])
    t0 = ch.pick('type', range(len(PV)))
    dt = ch.pick('other types', [1, 2, 4]) if nc > 1 else 0
    types = [list(PV)[(t0 + i * dt) % len(PV)] for i in range(nc)]
    n = ch.pick('rows', [0, 1, 2, 3])
    k = ch.pick('values', range(4) if FULL else [0, 1])
    names = ['A_[m/s]', 'b c', 'ü'][:nc]
    C = [[PV[t][(i + j + k) % 4] for i in range(n)] for j, t in enumerate(types)]
    way = ch.pick('source', ['arrow', 'arrow groups', 'memory'])
    if way == 'memory':
        f = K('parquet')()
        f.data = pd.DataFrame({nm: pd.Series(c, dtype={'f8': 'f8', 'f4': 'f4', 'i8': 'i8', 'i4': 'i4', 'u1': 'u1', 'bool': 'bool', 'str': 'object', 'time': 'datetime64[us]', 'fnull': 'f8'}[t]) for nm, c, t in zip(names, C, types)})
    else:
        T = pa.table([pa.array(c, pa_type(t)) for c, t in zip(C, types)], names=names)
        pq.write_table(T, 'a.parquet', **(dict(row_group_size=1, compression='none', use_dictionary=False) if way == 'arrow groups' else {}))
        f = opened(ch, 'parquet', 'a.parquet', ch.pick('how', HOW if k == 0 else HOW[:1]))
    same_parquet(ch, f.toDataFrame(), names, C, types, 'read')
    ed = ch.pick('edit', ['none', 'column', 'row order'])
    if ed == 'column':
        f.data['new'] = [1.25 * i for i in range(n)]
        names, C, types = names + ['new'], C + [[1.25 * i for i in range(n)]], types + ['f8']
    elif ed == 'row order':
        f.data = f.data.iloc[::-1]
        C = [c[::-1] for c in C]
    ch.op()
    p = ch.pick('target', ['b.parquet', 'a.parquet'])
    f.write(p)
    R = pq.read_table(p)
    for nm, c, t in zip(names, C, types):
        got = R.column(nm).to_pylist()
        c2 = [float(np.float32(v)) if t == 'f4' and v is not None else v for v in c]
        if len(got) != n or not all(same_cell(a, b) for a, b in zip(got, c2)):
            raise Violation('written column %s: %r instead of %r' % (nm, got, c))
    g = opened(ch, 'parquet', p, 'class')
    same_parquet(ch, g.toDataFrame(), names, C, types, 're-read')
    ch.eq(g.toDataFrame().index.tolist(), f.data.index.tolist(), 'index')


# --- NetCDF ---------------------------------------------------------------
NT = {'f8': [0.5, -1e300, 3.25, 7.], 'f4': [0.5, -2.25, 3.0, 8.], 'i4': [1, -2, 2**31 - 1, 4], 'i2': [0, -32768, 77, 3], 'i1': [1, -128, 5, 127]}
DIMS = {'1D': ('x',), '2D': ('x', 'y'), '2Dt': ('y', 'x'), '3D': ('x', 'y', 'z'), '0D': (), 'other': ('z',), 'coord': ('x',)}


def h_netcdf(ch):
    from scipy.io import netcdf_file
    nv = ch.pick('variables', [1, 2, 3] if FULL else [1, 2])
    sizes = ch.pick('sizes', [dict(x=3, y=2, z=4), dict(x=1, y=1, z=1), dict(x=2, y=3, z=1)])
    unlim = ch.flag('unlimited dimension')
    V = {}
    for i in range(nv):
        t = ch.pick('type%d' % i, list(NT) if i == 0 or FULL else ['f8', 'i2'])
        d = ch.pick('dims%d' % i, list(DIMS) if i < 2 else ['1D', '2D'])
        if d == 'coord' and 'x' in V:
            return
        if d == '0D' and (unlim or t in ('i1', 'i2')):
            return      # scipy misplaces these when it encodes them
        dims = DIMS[d]
        n = int(np.prod([sizes[k] for k in dims])) if dims else 1
        a = np.array([NT[t][(i + j) % 4] for j in range(n)]).reshape([sizes[k] for k in dims]).astype(t)
        V['x' if d == 'coord' else 'var%d' % i] = (dims, a, t)
    how = ch.pick('how', HOW if nv == 1 else HOW[:1])
    gap = ch.pick('not a number', [None, 'last', 'first of every dimension', 'all']) if nv == 1 and how == HOW[0] and a.dtype.kind == 'f' else None
    if gap == 'last':
        a.reshape(-1)[-1] = np.nan
        a.reshape(-1)[0] = -np.inf if a.size > 1 else np.nan
    elif gap and a.ndim:
        for q in range(a.ndim):
            a[(slice(None),) * q + (0,)] = np.nan
        a[...] = np.nan if gap == 'all' else a
    after = ch.pick('then', ['nothing', 'file removed', 'file replaced', 'write same', 'write other'])
    f = netcdf_file('a.nc', 'w')
    f.title = b'a title'
    used = [k for v in V.values() for k in v[0]]
    first = [k for k in sorted(set(used)) if unlim and all(v[0][0] == k for v in V.values() if k in v[0])][:1]
    for k in first + [k for k in sorted(set(used)) if k not in first]:
        f.createDimension(k, None if k in first else sizes[k])
    for k, (dims, a, t) in V.items():
        v = f.createVariable(k, '>' + t if t != 'i1' else 'b', dims)
        if dims:
            v[:] = a
        else:
            v.data[...] = a
        v.units = b'm/s'
    f.close()
    F = opened(ch, 'netcdf', 'a.nc', how)
    if after == 'file removed':
        os.remove('a.nc')
    elif after == 'file replaced':
        b = get('a.nc')
        put('a.nc', b[:64] + b'\0' * (len(b) - 64))
    elif after == 'write same':
        F.write('a.nc')
        F = opened(ch, 'netcdf', 'a.nc', 'class')
    elif after == 'write other':
        F.write('b.nc')
        F = opened(ch, 'netcdf', 'b.nc', 'class')
        ch.check(get('a.nc')[:3] == b'CDF', 'source changed')
    # every variable is in the data
    for k, (dims, a, t) in V.items():
        g = F.data[k]
        ch.eq(tuple(g.dims), dims, 'dimensions of %s' % k)
        if g.values.shape != a.shape or not np.array_equal(g.values.astype(a.dtype), a, equal_nan=True) or g.values.dtype.kind != a.dtype.kind:
            raise Violation('variable %s: %r instead of %r' % (k, g.values, a))
        u = g.attrs.get('units')
        ch.eq(u.decode() if isinstance(u, bytes) else u, 'm/s', 'unit of %s' % k)
    ch.eq(sorted(str(k) for k in F.data.variables), sorted(V), 'variables')
    # and every one of one or two dimensions has its table
    D = F.toDataFrame()
    for k, (dims, a, t) in V.items():
        if len(dims) in (1, 2) and k not in dims:
            if k not in D:
                raise Violation('no table for %s' % k)
            w = a if a.ndim == 2 else a.reshape(-1, 1)
            if D[k].shape != w.shape or not np.array_equal(D[k].values, w, equal_nan=True):
                raise Violation('table of %s: %r instead of %r' % (k, D[k].values, w))
    ch.check(all(k in V for k in D), 'tables %r' % list(D))


# --- TDMS -----------------------------------------------------------------
TT = {'f8': [0.5, -1e300, 3.25, 7.], 'f4': [0.5, -2.25, 3.0, 8.], 'i4': [1, -2, 2**31 - 1, 4], 'i2': [0, -32768, 77, 3], 'i8': [2**53 + 1, -7, 2**62 + 3, 1], 'u1': [0, 255, 3, 4], 'bool': [True, False, False, True], 'str': ['a', 'bc', '', 'é']}


def h_tdms(ch):
    from nptdms import TdmsWriter, ChannelObject
    ng = ch.pick('groups', [1, 2])
    nch = ch.pick('channels', [1, 2, 3])
    n = ch.pick('samples', [1, 2, 4])
    t0 = ch.pick('type', range(len(TT)))
    dt_ = ch.pick('other types', [0, 1, 3, 7]) if ng * nch > 1 else 0
    inc, off = ch.pick('time', [(0.5, 0.0), (0.02, 10.0), (1.0, -5.0)])
    seg = ch.pick('segments', [1, 2]) if n > 1 else 1
    names = ch.pick('names', [['a', 'Wind_[m/s]', 'c d'], ["it's", 'x/y', 'ü']])[:nch]
    chans = []
    for g in range(ng):
        for j in range(nch):
            t = list(TT)[(t0 + dt_ * (g * nch + j)) % len(TT)]
            v = [TT[t][(i + j + g) % 4] for i in range(n)]
            chans.append((['G1', 'Group 2'][g], names[j] + ('_2' if g else ''), t, v))
    with TdmsWriter('a.tdms') as w:
        cut = [0, n] if seg == 1 else [0, n // 2, n]
        for a, b in zip(cut, cut[1:]):
            w.write_segment([ChannelObject(g, c, v[a:b] if t == 'str' else np.array(v[a:b], dtype=t), properties={'wf_increment': inc, 'wf_start_offset': off}) for g, c, t, v in chans])
    f = opened(ch, 'tdms', 'a.tdms', ch.pick('how', HOW if t0 == 0 else HOW[:1]))
    df = f.toDataFrame()
    ch.eq(list(df.columns), ['Time_[s]'] + [c[1] for c in chans], 'columns')
    ch.eq(len(df), n, 'rows')
    T = list(df.iloc[:, 0])
    for i in range(n):
        if isinstance(T[i], str) or abs(T[i] - (off + i * inc)) > 1e-9 * max(1, abs(off)):
            raise Violation('time %r instead of %r' % (T[i], off + i * inc))
    for j, (g, c, t, v) in enumerate(chans):
        got = list(df.iloc[:, j + 1])
        for a, b in zip(got, v):
            b = float(np.float32(b)) if t == 'f4' else b
            ok = (a == b and not isinstance(a, str)) if t != 'str' else a == b
            if not ok:
                raise Violation('channel %s: %r instead of %r' % (c, got, v))


def h_tdms_times(ch):
    """ channels that do not share one time axis are refused, those that do are read """
    from nptdms import TdmsWriter, ChannelObject
    n = ch.pick('samples', [2, 3, 11])
    d = ch.pick('second channel', ['same', 'later', 'a little later', 'faster', 'a little faster', 'a little slower', 'longer', 'shorter'])
    where = ch.pick('in', ['same group', 'other group'])
    third = ch.flag('third channel')
    inc, off, m = 0.1, 0.0, n
    i2, o2, m2 = {'same': (inc, off, n), 'later': (inc, 5., n), 'a little later': (inc, 0.01, n), 'faster': (0.05, off, n), 'a little faster': (0.099, off, n), 'a little slower': (0.1001, off, n),
                  'longer': (inc, off, n + 1), 'shorter': (inc, off, n - 1)}[d]
    C = [ChannelObject('G', 'a', np.arange(n) * 1.5, properties={'wf_increment': inc, 'wf_start_offset': off})]
    if third:
        C.append(ChannelObject('G', 'c', np.arange(n) * 2.5, properties={'wf_increment': inc, 'wf_start_offset': off}))
    C.append(ChannelObject('G' if where == 'same group' else 'H', 'b', np.arange(m2) * 3.5, properties={'wf_increment': i2, 'wf_start_offset': o2}))
    with TdmsWriter('a.tdms') as w:
        w.write_segment(C)
    import io, contextlib
    with contextlib.redirect_stdout(io.StringIO()):
        e = raises(K('tdms'), 'a.tdms')
    ch.op()
    ch.check((e is None) == (d == 'same'), 'channels with different times are put in one table' if e is None else 'refused: %r' % e)
    ch.state((n, d, where, third))


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('excel_one', h_excel_one), ('excel_many', h_excel_many), ('excel_write', h_excel_write), ('excel_reread', h_excel_reread), ('parquet', h_parquet), ('netcdf', h_netcdf), ('tdms', h_tdms), ('tdms_times', h_tdms_times)]
