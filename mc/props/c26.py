"""C26: cut-off binary files"""
import os, struct
from ..core import Violation
from ..util import *
from .. import enc, obs, corpus
from . import c20, c22, c23

INFO = dict(bounds='every cut position of every byte of generated files of every binary format (4 OpenFAST layouts, TurbSim with and without tower, Mann boxes, HAWC2 and Bladed data, FLEX results, VTK datasets of 5 kinds, NetCDF, TDMS, Parquet, Excel, Matlab), every reading entry, first reading and re-reading of an object')

FULL = False


# --- the files: name -> (class, {file: bytes}, file that is cut, name given to the reader, keywords) ----
def outb_cases():
    o = {}
    for fid in [1, 2, 3, 4]:
        for nch, nt in [(1, 1), (2, 3), (3, 2)]:
            packed = [[7 * i - 3 * j + 1 for j in range(nch)] for i in range(nt)]
            names = ['Time'] + ['Chan%d' % j for j in range(nch)]
            units = ['s'] + ['m/s'] * nch
            b = enc.outb(fid, names, units, packed, [2. + j for j in range(nch)], [float(j) for j in range(nch)], 'desc %d' % fid, 1., .5, packedtime=[5 * i for i in range(nt)], tscl=2., toff=0., lenname=12)
            o['outb%d %dx%d' % (fid, nch, nt)] = ('fast_output_file.FASTOutputFile', {'a.outb': b}, 'a.outb', 'a.outb', {})
    return o


def bts_cases():
    o = {}
    for tw in [0, 1, 2]:
        for nt, nz, ny in [(1, 1, 1), (2, 2, 3), (3, 1, 2)]:
            ints = (np.arange(nt * nz * ny * 3) * 37 % 200 - 100).reshape(nt, nz, ny, 3)
            twr = (np.arange(nt * tw * 3) * 11 % 90 - 45).reshape(nt, tw, 3) if tw else None
            o['bts %dx%dx%d tower %d' % (nt, nz, ny, tw)] = ('turbsim_file.TurbSimFile', {'a.bts': enc.bts(7, ints, twr, [2., 3., 4.], [1., 0., -2.], 5., 4., .5, 8., 90., 10., 'TurbSim text')}, 'a.bts', 'a.bts', {})
    return o


def mann_cases():
    o = {}
    for d in [(1, 1, 1), (2, 2, 3), (4, 1, 2), (3, 4, 1)]:
        f = np.arange(np.prod(d)).reshape(d) * 0.5 - 3
        n = 'box_%dx%dx%d.u' % d
        o['mann %s' % n] = ('mannbox_file.MannBoxFile', {n: enc.mann(f)}, n, n, {})
        o['mann N=%r' % (d,)] = ('mannbox_file.MannBoxFile', {'b.u': enc.mann(f)}, 'b.u', 'b.u', dict(N=d))
    return o


def hawc2_cases():
    o = {}
    chs = [('Time', 's', 'Time'), ('WSP gl. coo.,Vy', 'm/s', 'Free wind'), ('bea1 angle', 'deg', 'pitch')]
    for nc, ns in [(1, 1), (1, 3), (2, 2), (3, 1), (3, 3)]:
        I = (np.arange(nc * ns).reshape(nc, ns) * 311 + 5)
        fs = {'r.sel': enc.hawc2_sel(chs[:nc], ns, ns * .5, 'BINARY', [.5, .25, 2.][:nc]).encode(), 'r.dat': I.astype('<i2').tobytes()}
        for given in ['r.dat', 'r.sel']:
            o['hawc2 %dx%d %s' % (nc, ns, given)] = ('hawc2_dat_file.HAWC2DatFile', fs, 'r.dat', given, {})
    return o


def bladed_cases():
    o = {}
    for fmt in ['R*4', 'R*8', 'I*4']:
        for nv, sec, nt in [(1, None, 1), (2, None, 3), (2, ['0.0', '20.5'], 2)]:
            R = c22.result(fmt, nv, sec, False, nt)
            fs = {'run.%04': c22.header(R).encode(), 'run.$04': c22.data(R)}
            for given in ['run.$04', 'run.%04', 'run.$PJ']:
                f2 = dict(fs)
                if given == 'run.$PJ':
                    f2['run.$PJ'] = b'project\n'
                o['bladed %s %dx%d %s %s' % (fmt, nv, nt, 'sections' if sec else '', given)] = ('bladed_out_file.BladedFile', f2, 'run.$04', given, {})
    return o


def flex_cases():
    o = {}
    for v in [0, 2, 3]:
        for n, nt in [(1, 1), (1, 3), (2, 2), (3, 3)]:
            D = [[100 * i + 7 * j - 50 for j in range(n)] for i in range(nt)]
            b = c20.encode(v, 'date' if n > 1 else 'title', list(range(1, n + 1)), 1.5, .25, [.5] * n, D)
            o['flex%d %dx%d' % (v, n, nt)] = ('flex_out_file.FLEXOutFile', {'a.int': b}, 'a.int', 'a.int', {})
    return o


def vtk_cases():
    o = {}
    pf = [c23.fld(4, 'SCALARS', 's', 'float'), c23.fld(4, 'VECTORS', 'v', 'double')]
    cf = [c23.fld(1, 'FIELD', 'f', 'int')]
    T = c23.data_text(4, pf, 1, cf, True, None)
    b = c23.head(True)
    o['image'] = b + b'DATASET STRUCTURED_POINTS\nDIMENSIONS 2 2 1\nORIGIN 0 0 1\nSPACING 1 2 3\n' + T
    o['rectilinear'] = b + b'DATASET RECTILINEAR_GRID\nDIMENSIONS 2 2 1\nX_COORDINATES 2 double\n' + c23.block([0, 1.5], 'double', True) + b'Y_COORDINATES 2 double\n' + c23.block([3, 4.5], 'double', True) + b'Z_COORDINATES 1 double\n' + c23.block([7], 'double', True) + T
    pts = c23.block(np.arange(12.), 'float', True)
    o['structured'] = b + b'DATASET STRUCTURED_GRID\nDIMENSIONS 2 2 1\nPOINTS 4 float\n' + pts + T
    o['unstructured'] = b + b'DATASET UNSTRUCTURED_GRID\nPOINTS 4 float\n' + pts + b'CELLS 1 5\n' + c23.block([4, 0, 1, 3, 2], 'int', True) + b'CELL_TYPES 1\n' + c23.block([9], 'int', True) + T
    o['unstructured 5.1'] = c23.head(True, '5.1') + b'DATASET UNSTRUCTURED_GRID\nPOINTS 4 float\n' + pts + b'CELLS 2 4\nOFFSETS vtktypeint64\n' + c23.block([0, 4], 'vtktypeint64', True) + b'CONNECTIVITY vtktypeint64\n' + c23.block([0, 1, 3, 2], 'vtktypeint64', True) + b'CELL_TYPES 1\n' + c23.block([9], 'int', True) + T
    return {'vtk ' + k: ('vtk_file.VTKFile', {'a.vtk': v}, 'a.vtk', 'a.vtk', {}) for k, v in o.items()}


def container_cases():
    o = {}
    df = pd.DataFrame({'Time': [0., .5, 1.], 'Chan_[m]': [4., 5., 6.]})
    for n, c, b, e in [('netcdf', 'netcdf_file.NetCDFFile', corpus.netcdf({'a': [1., 2., 3.], 'b': [4., 5., 6.]}), '.nc'),
                       ('tdms', 'tdms_file.TDMSFile', corpus.tdms([('G', ['a', 'b'])], 3), '.tdms'),
                       ('parquet', 'parquet_file.ParquetFile', corpus.parquet(df), '.parquet'),
                       ('excel', 'excel_file.ExcelFile', corpus.excel({'S': df}), '.xlsx')]:
        o[n] = (c, {'a' + e: b}, 'a' + e, 'a' + e, {})
    return o


def text_cases():
    """ text files whose size is announced, cut between two values """
    o = {}
    chs = [('Time', 's', 'Time'), ('WSP gl. coo.,Vy', 'm/s', 'Free wind'), ('bea1 angle', 'deg', 'pitch')]
    for nc, ns in [(1, 1), (1, 3), (2, 2), (3, 1), (3, 3)]:
        D = np.arange(nc * ns).reshape(ns, nc) * 1.5 + 1
        t = '\n'.join('  '.join('%15.8E' % x for x in r) for r in D) + '\n'
        for lay in ['ascii', 'bhawc']:
            fs = {'r.sel': (enc.hawc2_sel(chs[:nc], ns, ns * .5, 'ASCII') if lay == 'ascii' else enc.bhawc_sel(chs[:nc], ns, ns * .5)).encode(), 'r.dat': t.encode()}
            o['hawc2 %s %dx%d' % (lay, nc, ns)] = ('hawc2_dat_file.HAWC2DatFile', fs, 'r.dat', 'r.dat', {})
    for nv, sec, nt in [(1, None, 1), (2, None, 3), (2, ['0.0', '20.5'], 2)]:
        R = c22.result('text', nv, sec, False, nt)
        fs = {'run.%04': c22.header(R).encode(), 'run.$04': c22.data(R).encode()}
        o['bladed text %dx%d %s' % (nv, nt, 'sections' if sec else '')] = ('bladed_out_file.BladedFile', fs, 'run.$04', 'run.$04', {})
    pf = [c23.fld(4, 'SCALARS', 's', 'float'), c23.fld(4, 'VECTORS', 'v', 'double')]
    cf = [c23.fld(1, 'FIELD', 'f', 'int')]
    T = c23.data_text(4, pf, 1, cf, False, None)
    b = c23.head(False)
    pts = c23.block(np.arange(12.), 'float', False)
    o['vtk text image'] = b + b'DATASET STRUCTURED_POINTS\nDIMENSIONS 2 2 1\nORIGIN 0 0 1\nSPACING 1 2 3\n' + T
    o['vtk text rectilinear'] = b + b'DATASET RECTILINEAR_GRID\nDIMENSIONS 2 2 1\nX_COORDINATES 2 double\n' + c23.block([0, 1.5], 'double', False) + b'Y_COORDINATES 2 double\n' + c23.block([3, 4.5], 'double', False) + b'Z_COORDINATES 1 double\n' + c23.block([7], 'double', False) + T
    o['vtk text structured'] = b + b'DATASET STRUCTURED_GRID\nDIMENSIONS 2 2 1\nPOINTS 4 float\n' + pts + T
    o['vtk text unstructured'] = b + b'DATASET UNSTRUCTURED_GRID\nPOINTS 4 float\n' + pts + b'CELLS 1 5\n' + c23.block([4, 0, 1, 3, 2], 'int', False) + b'CELL_TYPES 1\n' + c23.block([9], 'int', False) + T
    for k, v in o.items():
        if isinstance(v, bytes):
            o[k] = ('vtk_file.VTKFile', {'a.vtk': v}, 'a.vtk', 'a.vtk', {})
    return o


def cuts(name, b):
    if 'text' in name or 'ascii' in name or 'bhawc' in name:
        return [0] + [i for i in range(1, len(b)) if b[i:i + 1].isspace() or b[i - 1:i].isspace()]
    return range(len(b))


FAMILIES = [outb_cases, bts_cases, mann_cases, hawc2_cases, bladed_cases, flex_cases, vtk_cases, text_cases, container_cases]
MEMO = {}


def memo(fn):
    if fn not in MEMO:
        MEMO[fn] = fn()
    return MEMO[fn]


def klass(n):
    import importlib
    m, c = n.split('.')
    return getattr(importlib.import_module('weio.' + m), c)


def look(f):
    """ everything the object shows """
    d = obs.content(f)
    return d


def cut_one(ch, C):
    name = ch.pick('file', sorted(C))
    cls, files, cutf, given, kw = C[name]
    how = ch.pick('how', ['class', 'read', 'reread'] + (['header'] if cls.endswith('TurbSimFile') else []))
    if how != 'class' and given.split('.')[-1] in ('xlsx', 'parquet', 'tdms', 'nc') and not FULL:
        return
    if how == 'read' and kw:
        return
    b = files[cutf]
    cut = ch.pick('cut', cuts(name, b))
    K = klass(cls)
    for k, v in files.items():
        put(k, v if k != cutf else b)
    import weio

    def go():
        if how == 'class':
            return K(given, **kw)
        if how == 'header':
            f = K()
            f.read(given, header_only=True)
            return f
        if how == 'read':
            return weio.read(given)
        f = K(given, **kw)
        put(cutf, b[:cut])
        f.read(given, **kw) if kw else f.read()
        return f

    if how == 'reread':
        ref = look(K(given, **kw))
    else:
        ref = look(go())
        put(cutf, b[:cut])
    ch.op()
    st, f = outcome(go)
    if st == 'err':
        return
    got = look(f)
    if type(f).__name__ != cls.split('.')[1]:
        raise Violation('%s cut at byte %d of %d: read as %s' % (name, cut, len(b), type(f).__name__))
    if diff(got, ref) is None:
        return
    if name.startswith('vtk'):
        return vtk_same(ch, name, f, cut, files[cutf], K)
    if name.startswith('flex') and how != 'header':
        # the number of steps is not announced: whole steps only, and those of the file
        v = int(name[4])
        n = int(name.split()[1].split('x')[0])
        head = len(c20.encode(v, 'date', list(range(n)), 0, 0, [1.] * n, []))
        rest = cut - head
        if rest >= 0 and rest % (2 * n) == 0:
            if v == 3 and n > 1:
                return
            nt = rest // (2 * n)
            whole = K(put('w.int', files[cutf]))
            if f.data.shape == (nt, n) and np.array_equal(np.asarray(f.data), np.asarray(whole.data)[:nt]):
                return
    raise Violation('%s cut at byte %d of %d accepted, and differs from the complete file: %s' % (name, cut, len(b), diff(got, ref)))


def vtk_same(ch, name, f, cut, b, K):
    put('w.vtk', b)
    w = K('w.vtk')
    for attr in ['point_data', 'cell_data', 'cell_data_raw', 'point_data_grid', 'cell_data_grid']:
        A, B = getattr(f, attr, None), getattr(w, attr, None)
        if isinstance(A, dict) and isinstance(B, dict):
            for k in A:
                if k not in B or diff(canon(A[k]), canon(B[k])) is not None:
                    raise Violation('%s cut at byte %d of %d: %s %r differs from the complete file' % (name, cut, len(b), attr, k))
    for attr in ['points', 'cells', 'xp_grid', 'yp_grid', 'zp_grid']:
        A, B = getattr(f, attr, None), getattr(w, attr, None)
        if diff(obs.plain(A), obs.plain(B)) is not None:
            raise Violation('%s cut at byte %d of %d: %s differs from the complete file' % (name, cut, len(b), attr))


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [(fn.__name__[:-6], (lambda fn: lambda ch: cut_one(ch, memo(fn)))(fn)) for fn in FAMILIES]
