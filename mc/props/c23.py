"""C23: legacy VTK files"""
import os
from ..core import Violation
from ..util import *

INFO = dict(bounds='all grid sizes up to 3x3x3 (and selected up to 6 points per axis), 4 dataset kinds, text and binary, all sequences of 3 cells over 9 cell types in 2 layouts, all pairs of fields over kind x data type, written meshes over the same alphabets, meshes of thousands of points and cells, histories read/edit/write/read')

FULL = False


def K():
    from weio.vtk_file import VTKFile
    return VTKFile


# --- independent encoder -------------------------------------------------
DT = {'unsigned_char': 'u1', 'char': 'i1', 'unsigned_short': 'u2', 'short': 'i2', 'unsigned_int': 'u4', 'int': 'i4',
      'unsigned_long': 'u8', 'long': 'i8', 'float': 'f4', 'double': 'f8', 'vtktypeint64': 'i8', 'vtktypeint32': 'i4'}


def block(vals, typ, binary, per=None):
    """ the values of one data block """
    a = np.asarray(vals).ravel().astype(DT[typ])
    if binary:
        return a.astype('>' + DT[typ]).tobytes() + b'\n'
    w = [repr(float(v)) if DT[typ][0] == 'f' else str(int(v)) for v in a]
    per = per or len(w) or 1
    return ('\n'.join(' '.join(w[i:i + per]) for i in range(0, len(w), per)) + '\n').encode()


META = b'METADATA\nINFORMATION 1\nNAME a LOCATION b\nx\n7 8\n\n'


def field_text(fields, binary, per):
    """ fields: list of (kind, name, type, values) """
    out = b''
    i = 0
    while i < len(fields):
        kind, name, typ, v = fields[i][:4]
        meta = META if len(fields[i]) > 4 else b''
        v = np.asarray(v)
        if kind == 'SCALARS':
            nc = 1 if v.ndim == 1 else v.shape[1]
            out += ('SCALARS %s %s%s\nLOOKUP_TABLE default\n' % (name, typ, '' if nc == 1 else ' %d' % nc)).encode()
            out += block(v, typ, binary, per) + meta
            i += 1
        elif kind in ['VECTORS', 'TENSORS']:
            out += ('%s %s %s\n' % (kind, name, typ)).encode() + block(v, typ, binary, per) + meta
            i += 1
        else:
            j = i
            while j < len(fields) and fields[j][0] == 'FIELD':
                j += 1
            out += ('FIELD FieldData %d\n' % (j - i)).encode()
            for f in fields[i:j]:
                a = np.asarray(f[3])
                nc = 1 if a.ndim == 1 else a.shape[1]
                out += ('%s %d %d %s\n' % (f[1], nc, len(a), f[2])).encode() + block(a, f[2], binary, per)
                out += META if len(f) > 4 else b''
            i = j
    return out


def head(binary, version='3.0', title='a title'):
    return ('# vtk DataFile Version %s\n%s\n%s\n' % (version, title, 'BINARY' if binary else 'ASCII')).encode()


def data_text(npts, pf, ncell, cf, binary, per, cells_first=False):
    p = (b'POINT_DATA %d\n' % npts + field_text(pf, binary, per)) if pf else b''
    c = (b'CELL_DATA %d\n' % ncell + field_text(cf, binary, per)) if cf else b''
    return c + p if cells_first else p + c


def grid_cells(dim):
    """ cells of a structured grid by definition """
    act = [i for i in range(3) if dim[i] > 1]
    idx = lambda p: p[0] + dim[0] * (p[1] + dim[1] * p[2])
    out = []
    for k in range(max(dim[2] - 1, 1)):
        for j in range(max(dim[1] - 1, 1)):
            for i in range(max(dim[0] - 1, 1)):
                o = [i, j, k]

                def n(*d):
                    q = list(o)
                    for a, x in zip(act, d):
                        q[a] += x
                    return idx(q)
                if len(act) == 0:
                    out.append([n()])
                elif len(act) == 1:
                    out.append([n(0), n(1)])
                elif len(act) == 2:
                    out.append([n(0, 0), n(1, 0), n(1, 1), n(0, 1)])
                else:
                    out.append([n(0, 0, 0), n(1, 0, 0), n(1, 1, 0), n(0, 1, 0), n(0, 0, 1), n(1, 0, 1), n(1, 1, 1), n(0, 1, 1)])
    return ['vertex', 'line', 'quad', 'hexahedron'][len(act)], out


# --- oracle -------------------------------------------------------------
def same(ch, got, exp, what, flat=False):
    got, exp = np.asarray(got), np.asarray(exp)
    if flat:
        got, exp = got.reshape(len(exp), -1), exp.reshape(len(exp), -1)
    ch.check(got.shape == exp.shape, '%s: shape %s instead of %s' % (what, got.shape, exp.shape))
    ch.check(np.array_equal(got.astype(exp.dtype.newbyteorder('=')), exp, equal_nan=exp.dtype.kind == 'f'),
             '%s: %s instead of %s' % (what, got.tolist(), exp.tolist()))


def shaped(kind, v):
    v = np.asarray(v)
    if kind == 'SCALARS':
        return v.reshape(len(v), -1)
    if kind == 'TENSORS':
        return v.reshape(len(v), 3, 3)
    return v


def cells_of(f):
    """ [(type, nodes)] in file order """
    out = []
    for b in f.cells:
        out += [(b.type, [int(x) for x in c]) for c in b.data]
    return out


def cdata_of(f, name):
    return np.concatenate([np.asarray(x) for x in f.cell_data[name]])


def check_cells(ch, f, exp, cf, when=''):
    ch.eq(cells_of(f), exp, 'cells' + when)
    ch.check(len(f.cells) == len(set()) if not exp else True, 'blocks')
    ch.eq(sorted(f.cell_data), sorted(x[1] for x in cf) if exp else sorted(f.cell_data), 'names of the cell fields' + when)
    for x in cf:
        v = cdata_of(f, x[1])
        same(ch, v, shaped(x[0], x[3]), 'cell field %s%s' % (x[1], when), flat=True)
        ch.eq([len(d) for d in f.cell_data[x[1]]], [len(b.data) for b in f.cells], 'length of the cell field per block' + when)


def check_points(ch, f, pts, pf, when=''):
    same(ch, f.points, pts, 'points' + when)
    ch.eq(sorted(f.point_data), sorted(x[1] for x in pf), 'names of the point fields' + when)
    for x in pf:
        same(ch, f.point_data[x[1]], shaped(x[0], x[3]), 'point field %s%s' % (x[1], when), flat=bool(when))


def values(n, kind, typ, p=0):
    nc = {'SCALARS': 1, 'SCALARS 2': 2, 'SCALARS 3': 3, 'SCALARS 4': 4, 'VECTORS': 3, 'TENSORS': 9, 'FIELD': 1, 'FIELD 2': 2, 'FIELD 3': 3}[kind]
    a = np.arange(n * nc) + 1 + 7 * p
    if DT[typ][0] == 'f':
        a = (a * 0.37 - 1.5) * np.where(a % 3 == 0, -1e3, 1.)
    elif DT[typ][0] == 'i':
        a = a * np.where(a % 2 == 0, -1, 1)
    if DT[typ][1] == '1':
        a = a % 100
    a = a.astype(DT[typ])
    return a if nc == 1 else a.reshape(n, nc)


def fld(n, kind, name, typ, p=0):
    return (kind.split()[0], name, typ, values(n, kind, typ, p))


ENC = [(False, None), (False, 3), (False, 1), (True, None)]


def opened(ch, fn, how='class'):
    ch.op()
    if how == 'class':
        return K()(fn)
    import weio
    return weio.read(fn)


# --- harnesses ------------------------------------------------------------
def h_grid(ch):
    m = [1, 2, 3, 4] if FULL else [1, 2, 3]
    dim = [ch.pick('nx', m), ch.pick('ny', m), ch.pick('nz', m)]
    kind = ch.pick('dataset', ['STRUCTURED_POINTS', 'STRUCTURED_POINTS aspect', 'RECTILINEAR_GRID', 'STRUCTURED_GRID'])
    binary, per = ch.pick('encoding', ENC if FULL else [ENC[1], ENC[3]])
    fk = ch.pick('fields', ['none', 'SCALARS', 'VECTORS', 'TENSORS', 'FIELD', 'FIELD 3', 'cell', 'both'])
    n = int(np.prod(dim))
    ctype, cells = grid_cells(dim)
    if kind.startswith('STRUCTURED_POINTS'):
        ori, spa = [1.5, -2., 0.25], [2., 0.5, 3.]
        ax = [ori[i] + spa[i] * np.arange(dim[i]) for i in range(3)]
    else:
        ax = [np.array([0.5, 1., 4., 4.5][:dim[0]]), np.array([-3., -1., 0., 7.][:dim[1]]), np.array([10., 20., 50., 51.][:dim[2]])]
    pts = np.array([[ax[0][i], ax[1][j], ax[2][k]] for k in range(dim[2]) for j in range(dim[1]) for i in range(dim[0])])
    s = head(binary) + ('DATASET %s\nDIMENSIONS %d %d %d\n' % ((kind.split()[0],) + tuple(dim))).encode()
    if kind.startswith('STRUCTURED_POINTS'):
        s += b'ORIGIN 1.5 -2 0.25\n' + (b'ASPECT_RATIO' if 'aspect' in kind else b'SPACING') + b' 2 0.5 3.0\n'
    elif kind == 'RECTILINEAR_GRID':
        for a, x in zip('XYZ', ax):
            s += ('%s_COORDINATES %d double\n' % (a, len(x))).encode() + block(x, 'double', binary, per)
    else:
        pts = pts + 0.125 * np.sin(pts)[:, ::-1]
        s += b'POINTS %d double\n' % n + block(pts, 'double', binary, per)
    pf, cf = [], []
    if fk in ['cell', 'both']:
        cf = [fld(len(cells), 'VECTORS', 'cv', 'float'), fld(len(cells), 'FIELD', 'cs', 'int', 1)]
    if fk == 'both':
        pf = [fld(n, 'SCALARS', 's', 'float'), fld(n, 'VECTORS', 'U', 'double', 1)]
    elif fk not in ['none', 'cell']:
        pf = [fld(n, fk, 'U', 'double'), fld(n, 'VECTORS', 'V', 'float', 3)]
    s += data_text(n, pf, len(cells), cf, binary, per)
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    check_points(ch, f, pts, pf)
    exp = [(ctype, c) for c in cells]
    check_cells(ch, f, exp, cf)
    if kind != 'STRUCTURED_GRID':
        for a, x in zip(['xp_grid', 'yp_grid', 'zp_grid'], ax):
            same(ch, getattr(f, a), x, a)
    if kind.startswith('STRUCTURED_POINTS'):
        ch.eq(sorted(f.point_data_grid), sorted(x[1] for x in pf), 'names of the gridded fields')
        for x in pf:
            v = shaped(x[0], x[3]).reshape(n, -1)
            g = np.asarray(f.point_data_grid[x[1]]).reshape(dim[0], dim[1], dim[2], -1)
            for k in range(dim[2]):
                for j in range(dim[1]):
                    for i in range(dim[0]):
                        ch.check(np.array_equal(g[i, j, k], v[i + dim[0] * (j + dim[1] * k)]), 'gridded field %s at %s' % (x[1], (i, j, k)))
    repr(f)
    wb = ch.pick('written in', ['binary', 'text']) == 'binary'
    f.write('b.vtk', binary=wb)
    ch.op()
    g = opened(ch, 'b.vtk')
    check_points(ch, g, pts, pf, ' read back')
    check_cells(ch, g, exp, cf, ' read back')
    check_points(ch, f, pts, pf)
    ch.state((dim, kind, fk, binary, wb))


CT = {'vertex': (1, 1), 'line': (3, 2), 'triangle': (5, 3), 'polygon4': (7, 4), 'polygon5': (7, 5), 'quad': (9, 4), 'tetra': (10, 4),
      'hexahedron': (12, 8), 'wedge': (13, 6), 'pyramid': (14, 5), 'penta_prism': (15, 10), 'hexa_prism': (16, 12), 'line3': (21, 3), 'triangle6': (22, 6), 'quad8': (23, 8),
      'tetra10': (24, 10), 'hexahedron20': (25, 20), 'wedge15': (26, 15), 'pyramid13': (27, 13), 'quad9': (28, 9), 'hexahedron27': (29, 27),
      'quad6': (30, 6), 'wedge12': (31, 12), 'wedge18': (32, 18), 'hexahedron24': (33, 24), 'triangle7': (34, 7), 'line4': (35, 4)}
NP = 30


def cell_nodes(types):
    """ distinct node lists for each cell """
    return [[(5 * c + (k * k + 3 * k) // 2 * (1 if n < 4 else 0) + k) % NP for k in range(n)] for c, n in enumerate(CT[t][1] for t in types)]


def ucells(types, nodes, binary, per, layout, idt='vtktypeint64', cdt=None):
    cdt = cdt or idt
    if layout == 'old':
        fl = []
        for c in nodes:
            fl += [len(c)] + c
        s = b'CELLS %d %d\n' % (len(nodes), len(fl)) + block(fl, 'int', binary, per)
    else:
        off = np.concatenate([[0], np.cumsum([len(c) for c in nodes])]).astype(int)
        con = [x for c in nodes for x in c]
        s = b'CELLS %d %d\n' % (len(off), len(con)) + b'OFFSETS ' + idt.encode() + b'\n' + block(off, idt, binary, per) + b'CONNECTIVITY ' + cdt.encode() + b'\n' + block(con, cdt, binary, per)
    return s + b'CELL_TYPES %d\n' % len(types) + block([CT[t][0] for t in types], 'int', binary, per)


def exp_cells(types, nodes):
    """ the nodes of wedges come in the order documented in the code (first triangle pointing inwards) """
    out = []
    for t, n in zip(types, nodes):
        if t == 'wedge':
            n = [n[0], n[2], n[1], n[3], n[5], n[4]]
        out.append((t, n))
    return out


def upts():
    return np.array([[0.1 * i, (i * 7) % 30 - 3.3, -1.0 / (i + 1)] for i in range(NP)])


def h_cells(ch):
    A = ['vertex', 'line', 'triangle', 'polygon4', 'polygon5', 'quad', 'tetra', 'wedge', 'hexahedron']
    n = ch.pick('cells', [0, 1, 2, 3])
    types = [ch.pick('cell %d' % i, A) for i in range(n)]
    binary, per = ch.pick('encoding', [ENC[1], ENC[3]])
    layout = ch.pick('layout', ['old', '5.1'])
    nodes = cell_nodes(types)
    pts = upts()
    cf = [fld(n, 'FIELD', 'id', 'int'), fld(n, 'VECTORS', 'v', 'double', 1)] if n else []
    pf = [fld(NP, 'SCALARS', 'T', 'float')]
    s = head(binary, '5.1' if layout == '5.1' else '4.2') + b'DATASET UNSTRUCTURED_GRID\nPOINTS %d double\n' % NP + block(pts, 'double', binary, per)
    s += ucells(types, nodes, binary, per, layout) + data_text(NP, pf, n, cf, binary, per, cells_first=bool(n % 2))
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    exp = exp_cells(types, nodes)
    check_points(ch, f, pts, pf)
    check_cells(ch, f, exp, cf)
    runs = sum(1 for i in range(n) if i == 0 or types[i] != types[i - 1])
    ch.eq(len(f.cells), runs, 'number of blocks of cells')
    if ch.flag('written'):
        for wb in [True, False]:
            f.write('b.vtk', binary=wb)
            ch.op()
            g = opened(ch, 'b.vtk')
            check_points(ch, g, pts, pf, ' read back')
            check_cells(ch, g, exp, cf, ' read back')
    ch.state((types, binary, layout))


def h_runs(ch):
    """ runs of cells of one type: the values of each block """
    A = ['line', 'quad', 'polygon4', 'triangle']
    m = ch.pick('runs', [3, 4])
    rt, types = [], []
    for i in range(m):
        t = ch.pick('run %d' % i, [x for x in A if not rt or x != rt[-1]])
        k = ch.pick('length', [1, 3] if i % 2 else [2, 1])
        rt.append(t)
        types += [t] * k
    binary, per = ENC[3] if len(types) % 2 else ENC[1]
    nodes = cell_nodes(types)
    pts = upts()
    n = len(types)
    cf = [fld(n, 'SCALARS', 'id', 'int'), fld(n, 'FIELD 2', 'v', 'double', 1), fld(n, 'TENSORS', 't', 'float', 1)]
    s = head(binary) + b'DATASET UNSTRUCTURED_GRID\nPOINTS %d double\n' % NP + block(pts, 'double', binary, per)
    s += ucells(types, nodes, binary, per, 'old' if m == 3 else '5.1') + data_text(NP, [], n, cf, binary, per)
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    exp = exp_cells(types, nodes)
    check_cells(ch, f, exp, cf)
    ch.eq([b.type for b in f.cells], rt, 'types of the blocks')
    f.write('b.vtk', binary=not binary)
    g = opened(ch, 'b.vtk')
    cf[1] = cf[1][:3] + (np.column_stack([cf[1][3], np.zeros(n)]),)
    check_cells(ch, g, exp, cf, ' read back')
    ch.state((types,))


def h_celltypes(ch):
    """ every supported cell type, alone and repeated """
    t = ch.pick('type', sorted(CT))
    u = ch.pick('then', ['-', 'same', 'line', 'polygon5'])
    types = [t] if u == '-' else [t, t if u == 'same' else u]
    binary, per = ch.pick('encoding', ENC)
    layout = ch.pick('layout', ['old', '5.1', '5.1 int32', '5.1 int64 int32', '5.1 int32 int64'])
    nodes = cell_nodes(types)
    pts = upts()
    cf = [fld(len(types), 'SCALARS', 'id', 'short')]
    s = head(binary) + b'DATASET UNSTRUCTURED_GRID\nPOINTS %d double\n' % NP + block(pts, 'double', binary, per)
    s += ucells(types, nodes, binary, per, layout.split()[0], *['vtktype' + x for x in layout.split()[1:]]) + data_text(NP, [], len(types), cf, binary, per)
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    exp = exp_cells(types, nodes)
    check_cells(ch, f, exp, cf)
    for wb in [True, False]:
        f.write('b.vtk', binary=wb)
        g = opened(ch, 'b.vtk')
        check_points(ch, g, pts, [], ' read back')
        check_cells(ch, g, exp, cf, ' read back')
    ch.state((types, binary, layout))


KINDS = ['SCALARS', 'SCALARS 2', 'SCALARS 3', 'SCALARS 4', 'VECTORS', 'TENSORS', 'FIELD', 'FIELD 2', 'FIELD 3']
TYPES = ['unsigned_char', 'char', 'unsigned_short', 'short', 'unsigned_int', 'int', 'unsigned_long', 'long', 'float', 'double']


def tri_mesh(binary, per, ptype='double'):
    types = ['triangle', 'triangle', 'line']
    nodes = [[0, 1, 2], [1, 3, 2], [3, 4]]
    pts = np.array([[0, 0, 0], [1, 0, 0.5], [0, 1, 0.25], [1, 1, 3.1], [2, 2, 1e-3]])
    if DT[ptype][0] != 'f':
        pts = np.round(pts * 10)
    pts = pts.astype(DT[ptype])
    s = b'DATASET UNSTRUCTURED_GRID\nPOINTS 5 %s\n' % ptype.encode() + block(pts, ptype, binary, per) + ucells(types, nodes, binary, per, 'old')
    return s, pts, exp_cells(types, nodes)


def h_fields(ch):
    """ all pairs of fields """
    where = ch.pick('fields of', ['points', 'cells', 'points then cells', 'cells then points'])
    k1, t1 = ch.pick('first', KINDS), ch.pick('type', TYPES if FULL else ['unsigned_char', 'short', 'int', 'long', 'float', 'double'])
    k2, t2 = ch.pick('second', KINDS), ch.pick('second type', ['int', 'double', 'float'] if FULL else ['int', 'double'])
    binary, per = ch.pick('encoding', [ENC[0], ENC[3]])
    meta = ch.pick('metadata', [False, True])
    s, pts, exp = tri_mesh(binary, per)
    a = where.split(' then ')
    n = [5 if x == 'points' else 3 for x in (a if len(a) == 2 else a * 2)]
    f1, f2 = fld(n[0], k1, 'alpha', t1), fld(n[1], k2, 'beta_2', t2, 4)
    if meta:
        f1, f2 = f1 + (1,), f2 + (1,)
    pf = [x for x, m in zip([f1, f2], n) if m == 5]
    cf = [x for x, m in zip([f1, f2], n) if m == 3]
    put('a.vtk', head(binary) + s + data_text(5, pf, 3, cf, binary, per, cells_first=a[0] == 'cells'))
    f = opened(ch, 'a.vtk')
    check_points(ch, f, pts, pf)
    check_cells(ch, f, exp, cf)
    for x, d in [(x, f.point_data[x[1]]) for x in pf] + [(x, f.cell_data[x[1]][0]) for x in cf]:
        ch.check(np.asarray(d).dtype.newbyteorder('=') == np.dtype(DT[x[2]]), 'data type %s for %s' % (d.dtype, x[2]))
    wb = n[1] == 5
    for wb in [wb, not wb] if FULL else [wb]:
        f.write('b.vtk', binary=wb)
        ch.op()
        g = opened(ch, 'b.vtk')
        pad = [(x[0], x[1], x[2], np.column_stack([x[3], np.zeros(5, x[3].dtype)]) if x[3].ndim == 2 and x[3].shape[1] == 2 else x[3]) for x in pf]
        cad = [(x[0], x[1], x[2], np.column_stack([x[3], np.zeros(3, x[3].dtype)]) if x[3].ndim == 2 and x[3].shape[1] == 2 else x[3]) for x in cf]
        check_points(ch, g, pts, pad, ' read back')
        check_cells(ch, g, exp, cad, ' read back')
        for x in pf:
            ch.check(np.asarray(g.point_data[x[1]]).dtype.newbyteorder('=') == np.dtype(DT[x[2]]), 'data type of %s changed by writing' % x[2])
    ch.state((where, k1, t1, k2, t2, binary, meta))


def h_types(ch):
    """ data types and extreme values """
    typ = ch.pick('type', TYPES)
    ptyp = ch.pick('points', ['float', 'double', 'int'])
    kind = ch.pick('kind', ['SCALARS', 'VECTORS', 'FIELD'])
    case = ch.pick('keywords', ['upper', 'lower', 'mixed'])
    binary, per = ch.pick('encoding', ENC)
    wb = ch.pick('written in', ['binary', 'text']) == 'binary'
    s, pts, exp = tri_mesh(binary, per, ptyp)
    d = np.dtype(DT[typ])
    if d.kind == 'f':
        i = np.finfo(d)
        v = np.array([i.max, -i.max, np.nan, np.inf, -np.inf, i.tiny, 0.1, -0., 1 / 3, 1e-30, 16777217, 1., 2., 3., 5.], d)
    else:
        i = np.iinfo(d)
        v = np.array([i.max, i.min, i.max - 1, 0, 1, i.max // 2, i.min // 2, 10, 13, 32, 35, 66, 77, 4, 5], d)
        if DT[typ][1] == '8' and not binary:
            v = v // 4096    # beyond 2**53 a text reader may go through double precision
    v = v.reshape(5, 3)
    if kind == 'SCALARS':
        v = v[:, 0]
    pf = [(kind, 'f', typ, v), fld(5, 'FIELD', 'after', 'double')]
    h = head(binary)
    fs = data_text(5, pf, 0, [], binary, per)
    if case == 'lower':
        h = h.replace(b'ASCII', b'ascii').replace(b'BINARY', b'binary')
        for w in [b'SCALARS', b'VECTORS', b'FIELD FieldData', b'POINT_DATA', b'LOOKUP_TABLE']:
            fs = fs.replace(w, w.lower(), 2)
        s = s.replace(b'UNSTRUCTURED_GRID', b'unstructured_grid').replace(b'CELL', b'cell').replace(b'POINTS', b'points').replace(b'DATASET', b'dataset')
    elif case == 'mixed':
        fs = fs.replace(b'POINT_DATA', b'\n\nPoint_Data').replace(typ.encode() + b'\n', typ.upper().encode() + b'\n', 1).replace(b'double\n', b'Double\n')
        s = s.replace(b'UNSTRUCTURED_GRID', b'Unstructured_Grid').replace(ptyp.encode() + b'\n', ptyp.capitalize().encode() + b'\n', 1)
    put('a.vtk', h + s + fs)
    f = opened(ch, 'a.vtk', 'class' if case == 'lower' else 'weio.read')
    ch.eq(type(f).__name__, 'VTKFile', 'class')
    check_points(ch, f, pts, pf)
    if not wb and DT[typ] == 'u8' or DT[typ] == 'i8' and not wb:
        f.point_data['f'] = f.point_data['f'] // 4096
        pf[0] = (kind, 'f', typ, v // 4096)
    f.write('b.vtk', binary=wb)
    g = opened(ch, 'b.vtk')
    check_points(ch, g, pts, pf, ' read back')
    check_cells(ch, g, exp, [], ' read back')
    ch.state((typ, ptyp, kind, case, binary, wb))


def h_coords(ch):
    """ rectilinear grids whose axes have different data types """
    ts = [ch.pick('x', ['int', 'float', 'double', 'short']), ch.pick('y', ['int', 'float', 'double']), ch.pick('z', ['int', 'float', 'double'])]
    binary, per = ch.pick('encoding', ENC)
    dim = ch.pick('size', [(2, 3, 2), (1, 4, 1), (6, 1, 2)])
    ax = [np.array([x0 + dx * i for i in range(n)]) for n, x0, dx in zip(dim, [-2, 0.5, 7.25], [1, 0.75, 0.5])]
    ax = [np.trunc(a) if t in ['int', 'short'] else a for a, t in zip(ax, ts)]
    s = head(binary) + b'DATASET RECTILINEAR_GRID\nDIMENSIONS %d %d %d\n' % dim
    for a, x, t in zip('XYZ', ax, ts):
        s += ('%s_COORDINATES %d %s\n' % (a, len(x), t)).encode() + block(x, t, binary, per)
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    pts = np.array([[ax[0][i], ax[1][j], ax[2][k]] for k in range(dim[2]) for j in range(dim[1]) for i in range(dim[0])])
    same(ch, f.points, pts, 'points')
    check_cells(ch, f, [(grid_cells(dim)[0], c) for c in grid_cells(dim)[1]], [])
    ch.state((ts, binary, dim))


def h_extra(ch):
    """ blocks that are skipped do not disturb the rest """
    binary, per = ch.pick('encoding', ENC)
    w = ch.pick('block', ['field of the dataset', 'colours', 'lookup table', 'metadata of the points', 'blank lines', 'title'])
    n2 = ch.pick('second field', ['FIELD', 'VECTORS', 'SCALARS 3'])
    s, pts, exp = tri_mesh(binary, per)
    pf = [fld(5, 'SCALARS', 'f', 'float'), fld(5, n2, 'g', 'double', 2)]
    a, b = b'POINT_DATA 5\n' + field_text(pf[:1], binary, per), field_text(pf[1:], binary, per)
    h = head(binary)
    if w == 'field of the dataset':
        s = s.replace(b'POINTS', b'FIELD FieldData 1\nTIME 1 1 double\n' + block([12.5], 'double', binary, per) + b'POINTS', 1)
    elif w == 'colours':
        v = np.arange(20)
        a += b'COLOR_SCALARS col 4\n' + (v.astype('u1').tobytes() + b'\n' if binary else block(v / 20., 'double', False, 4))
    elif w == 'lookup table':
        v = np.arange(12) + 3
        a += b'LOOKUP_TABLE mytable 3\n' + (v.astype('u1').tobytes() + b'\n' if binary else block(v / 20., 'double', False, 4))
    elif w == 'metadata of the points':
        s = s.replace(b'CELLS', b'METADATA\nINFORMATION 1\nNAME L2_NORM_RANGE LOCATION vtkDataArray\nDATA 2 0 1.5\n\nCELLS', 1)
    elif w == 'blank lines':
        a, b = b'\n' + a + b'\n\n', b'\n' + b + b'\n\n'
    else:
        h = head(binary, '2.0', ch.pick('text', ['', 'BINARY', 'POINTS 3 float', 'Caf\xe9 n\xb01']))
        h = h.decode('utf-8').encode('latin-1') if ch.flag('latin title') else h
    put('a.vtk', h + s + a + b)
    f = opened(ch, 'a.vtk')
    check_points(ch, f, pts, pf)
    check_cells(ch, f, exp, [])
    ch.state((binary, per, w, n2))


def h_made(ch):
    """ a mesh made in memory is written and read """
    from weio.vtk_file import CellBlock
    dim2 = ch.pick('points', ['3-D', '2-D', 'single precision', 'integers', 'not contiguous'])
    pts = np.array([[0, 0, 0], [1, 0, 0.5], [0, 1, 0.25], [1, 1, 3.1], [2, 2, 1e-3]])
    if dim2 == '2-D':
        pts = pts[:, :2].copy()
    elif dim2 == 'single precision':
        pts = pts.astype('f4')
    elif dim2 == 'integers':
        pts = np.round(pts * 10).astype(int)
    elif dim2 == 'not contiguous':
        pts = np.repeat(pts, 2, axis=0)[::2][:, ::-1]
    blocks = ch.pick('cells', ['none', 'triangles', 'triangles lines', 'lines triangles lines', 'wedge'])
    T, L, Wd = CellBlock('triangle', np.array([[0, 1, 2], [1, 3, 2]])), CellBlock('line', np.array([[3, 4]])), CellBlock('wedge', np.array([[0, 1, 2, 3, 4, 0]]))
    cells = {'none': [], 'triangles': [T], 'triangles lines': [T, L], 'lines triangles lines': [L, T, CellBlock('line', np.array([[0, 1], [1, 2]], dtype='i4'))], 'wedge': [Wd]}[blocks]
    pk = ch.pick('point data', ['none', '1-D', '(n,1)', '(n,2)', '(n,3)', '(n,3,3)', '(n,6)', 'two'])
    v = (np.arange(90) * 0.77 - 3).reshape(5, 18)
    pd_ = {'none': {}, '1-D': {'a': v[:, 0]}, '(n,1)': {'a': v[:, :1]}, '(n,2)': {'a': v[:, :2]}, '(n,3)': {'a': v[:, :3].astype('f4')},
           '(n,3,3)': {'a': v[:, :9].reshape(5, 3, 3)}, '(n,6)': {'a': v[:, :6]}, 'two': {'a': v[:, 0], 'b': v[:, :3].T.copy().T}}[pk]
    ck = ch.pick('cell data', ['none', '1-D', '(n,2)', '(n,3,3)']) if cells else 'none'
    cw = {'1-D': (), '(n,2)': (2,), '(n,3,3)': (3, 3), 'none': None}[ck]
    cd, o = {}, 0
    if cw is not None:
        cd = {'c': []}
        for b in cells:
            m = len(b.data)
            w = int(np.prod(cw)) if cw else 1
            cd['c'].append((np.arange(m * w) * 1.5 + o).reshape((m,) + cw))
            o += 100
    f = K()()
    f.points = pts
    f.cells = cells
    if pd_:
        f.point_data = pd_
    if cd:
        f.cell_data = cd
    wb = ch.pick('written in', ['binary', 'text', 'default'])
    if wb == 'default':
        f.write('b.vtk')
    else:
        f.write('b.vtk', binary=wb == 'binary')
    ch.op()
    g = opened(ch, 'b.vtk')
    p3 = np.column_stack([pts, np.zeros(5)]) if dim2 == '2-D' else pts
    same(ch, g.points, p3, 'points')
    exp = [(b.type, [int(x) for x in c]) for b in cells for c in b.data]
    ch.eq(cells_of(g), exp, 'cells')

    def padded(x):
        return np.column_stack([x, np.zeros(len(x))]) if x.ndim == 2 and x.shape[1] == 2 else x
    ch.eq(sorted(g.point_data), sorted(pd_), 'point fields')
    for k in pd_:
        same(ch, g.point_data[k], padded(pd_[k]), 'point field', flat=True)
    ch.eq(sorted(g.cell_data), sorted(cd), 'cell fields')
    for k in cd:
        same(ch, cdata_of(g, k), np.concatenate([padded(x) for x in cd[k]]), 'cell field', flat=True)
    ch.state((dim2, blocks, pk, ck, wb))


def h_badwrite(ch):
    """ what cannot be written is refused and the target is left alone """
    what = ch.pick('mesh', ['name with a blank', 'half precision', 'text', 'unknown cell', 'complex points'])
    binary = ch.flag('binary')
    s, pts, exp = tri_mesh(False, None)
    put('a.vtk', head(False) + s + data_text(5, [fld(5, 'SCALARS', 'f', 'float')], 0, [], False, None))
    f = opened(ch, 'a.vtk')
    if what == 'name with a blank':
        f.point_data['my field'] = np.zeros(5)
    elif what == 'half precision':
        f.point_data['h'] = np.zeros(5, 'f2')
    elif what == 'text':
        f.point_data['h'] = np.array(['a', 'b', 'c', 'd', 'e'])
    elif what == 'complex points':
        f.points = f.points + 1j
    else:
        f.cells[0] = f.cells[0]._replace(type='blob')
    put('t.vtk', 'previous content')
    e = raises(f.write, 't.vtk', binary)
    ch.op()
    ch.check(e is not None, 'written without an error')
    ch.check(get('t.vtk') == b'previous content', 'the target was changed by a write that failed')
    ch.state((what, binary))


def h_refuse(ch):
    """ files that are not meshes of a supported kind are refused """
    w = ch.pick('file', ['POLYDATA', 'no cells', 'no cell types', 'unknown section', 'numbers missing', 'word in numbers', 'neither text nor binary',
                         'cell of unknown type', 'cell length differs', 'nodes missing', 'scalars with 5 components', 'no dataset', 'field short', 'types missing'])
    s, pts, exp = tri_mesh(False, 3)
    s += data_text(5, [fld(5, 'SCALARS', 'f', 'int'), fld(5, 'FIELD', 'g', 'int')], 0, [], False, None)
    h = head(False)
    t = s.decode()
    if w == 'POLYDATA':
        t = t.replace('UNSTRUCTURED_GRID', 'POLYDATA')
    elif w == 'no cells':
        t = t[:t.index('CELLS')]
    elif w == 'no cell types':
        t = t[:t.index('CELL_TYPES')]
    elif w == 'unknown section':
        t = t.replace('POINT_DATA', 'POINT_DATAX')
    elif w == 'numbers missing':
        t = t.replace('POINTS 5', 'POINTS 6')
    elif w == 'word in numbers':
        t = t.replace('LOOKUP_TABLE default\n', 'LOOKUP_TABLE default\nnone ')
    elif w == 'neither text nor binary':
        h = h.replace(b'ASCII', b'HEX')
    elif w == 'cell of unknown type':
        t = t.replace('CELL_TYPES 3\n5', 'CELL_TYPES 3\n6')
    elif w == 'cell length differs':
        t = t.replace('CELL_TYPES 3\n5', 'CELL_TYPES 3\n9')
    elif w == 'nodes missing':
        t = t.replace('CELLS 3 11', 'CELLS 3 12')
    elif w == 'scalars with 5 components':
        t = t.replace('SCALARS f int', 'SCALARS f int 5')
    elif w == 'no dataset':
        t = t.replace('DATASET UNSTRUCTURED_GRID\n', '')
    elif w == 'field short':
        t = t.rstrip()[:-3]
    elif w == 'types missing':
        t = t[:t.index('CELL_TYPES')] + 'CELL_TYPES 3\n5 5\n'
    put('a.vtk', h + t.encode())
    e = raises(K(), 'a.vtk')
    ch.op()
    ch.check(e is not None, 'accepted')
    ch.state(w)


def h_big(ch):
    """ sizes beyond the buffers of the reader """
    binary, per = ch.pick('encoding', ENC)
    dim = ch.pick('size', [(40, 30, 5), (2000, 2, 1), (1, 1, 5000)])
    n = int(np.prod(dim))
    pf = [fld(n, 'VECTORS', 'U', 'float'), fld(n, 'SCALARS', 's', 'double', 1), fld(n, 'FIELD', 'k', 'int', 2)]
    s = head(binary) + b'DATASET STRUCTURED_POINTS\nDIMENSIONS %d %d %d\nORIGIN 0 0 0\nSPACING 1 1 1\n' % dim + data_text(n, pf, 0, [], binary, per)
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    for x in pf:
        same(ch, f.point_data[x[1]], shaped(x[0], x[3]), x[1])
    f.write('b.vtk', binary=not binary)
    g = opened(ch, 'b.vtk')
    for x in pf:
        same(ch, g.point_data[x[1]], shaped(x[0], x[3]), x[1] + ' read back', flat=True)
    same(ch, g.points, f.points, 'points')
    ch.eq(cells_of(g), cells_of(f), 'cells')
    ch.state((binary, per, dim))


def h_large(ch):
    """ numbers of points and cells beyond what one and two bytes hold """
    binary, per = ch.pick('encoding', ENC[1:2] + ENC[3:])
    layout = ch.pick('layout', ['old', '5.1'])
    n = ch.pick('points', [130, 260, 33000, 66000])
    which = ch.pick('cells', ['few', 'lines', 'mixed'])
    if which == 'few':
        types = ['line', 'polygon5', 'hexahedron', 'vertex']
    elif which == 'lines':
        types = ['line'] * (n - 1)
    else:
        types = ['triangle'] * (n // 2) + ['quad'] * (n // 3) + ['triangle'] * 3
    nodes = [[(n - 1 - c - 3 * k) % n for k in range(CT[t][1])] for c, t in enumerate(types)]
    pts = np.array([np.arange(n) * 0.5, np.arange(n) % 7 + 0.25, -np.arange(n)]).T
    m = len(types)
    pf = [fld(n, 'SCALARS', 'T', 'int')]
    cf = [fld(m, 'SCALARS', 'id', 'int'), fld(m, 'FIELD 2', 'v', 'float', 1)]
    s = head(binary) + b'DATASET UNSTRUCTURED_GRID\nPOINTS %d double\n' % n + block(pts, 'double', binary, per)
    s += ucells(types, nodes, binary, per, layout) + data_text(n, pf, m, cf, binary, per)
    put('a.vtk', s)
    f = opened(ch, 'a.vtk')
    exp = exp_cells(types, nodes)
    check_points(ch, f, pts, pf)
    check_cells(ch, f, exp, cf)
    f.write('b.vtk', binary=not binary)
    g = opened(ch, 'b.vtk')
    check_points(ch, g, pts, pf, ' read back')
    cf[1] = cf[1][:3] + (np.column_stack([cf[1][3], np.zeros(m)]),)
    check_cells(ch, g, exp, cf, ' read back')
    ch.state((binary, layout, n, which))


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('grid', h_grid), ('cells', h_cells), ('runs', h_runs), ('celltypes', h_celltypes), ('fields', h_fields), ('types', h_types), ('coords', h_coords),
            ('extra', h_extra), ('made', h_made), ('badwrite', h_badwrite), ('refuse', h_refuse), ('big', h_big), ('large', h_large)]
