"""C16: Mann turbulence boxes"""
import os
from ..core import Violation
from ..util import *
from .. import enc

INFO = dict(bounds='all box sizes 1..4 x 1..4 x 1..4, 5 file-name styles, coordinate options over small alphabets, histories of 3 operations')


def K():
    from weio.mannbox_file import MannBoxFile
    return MannBoxFile


def box(nx, ny, nz, p=0):
    n = nx * ny * nz
    v = (np.arange(n) * 1.25 - 3.5 + p) * np.where(np.arange(n) % 3 == 1, -1, 1)
    if p == 2:
        v = np.linspace(-1e6, 1e-6, n) if n > 1 else np.array([3.3])
    return v.astype(np.float32).reshape(nx, ny, nz)


NAMES = ['{}x{}x{}', 'mini-u_{}x{}x{}', 'case12_v8_{}x{}x{}', 'a3_{}_{}_{}', 'Run_U10.5_{}x{}x{}_u']


def h_files(ch):
    nx, ny, nz = ch.pick('nx', [1, 2, 3, 4]), ch.pick('ny', [1, 2, 3, 4]), ch.pick('nz', [1, 2, 3, 4])
    p = ch.pick('values', [0, 1, 2])
    style = ch.pick('name', NAMES[:4] + ['given', 'given, misleading name', 'in a folder'])
    ext = ch.pick('extension', ['.u', '.bin', '.W'])
    F = box(nx, ny, nz, p)
    kw = {}
    if style.startswith('given'):
        fn = 'box' + ext if style == 'given' else 'box_7x8x9' + ext
        kw = {'N': (nx, ny, nz)}
    elif style == 'in a folder':
        fn = 'd_9x9x9/b_%dx%dx%d' % (nx, ny, nz) + ext
    else:
        fn = style.format(nx, ny, nz) + ext
    put(fn, enc.mann(F))
    if ch.pick('opened with', ['class', 'weio.read']) == 'class':
        f = K()(fn, **kw)
    else:
        import weio
        f = weio.read(fn, **kw)
    ch.op()
    ch.check(type(f).__name__ == 'MannBoxFile', 'read as %s' % type(f).__name__)
    ch.eq(np.asarray(f['field']), F, 'field')
    ch.eq(len(f.y), ny, 'number of y')
    ch.eq(len(f.z), nz, 'number of z')
    out = 'out_%dx%dx%d.u' % (nx, ny, nz)
    f.write(out)
    ch.op()
    ch.check(get(out) == enc.mann(F), 'the written file differs from the box')
    ch.eq(np.asarray(f['field']), F, 'field of the object after writing')
    g = K()(out)
    ch.eq(np.asarray(g['field']), F, 'field read back')
    ch.state(F)


def h_noname(ch):
    fn = ch.pick('file name', ['box.u', 'box_3x2.u', 'b1.u'])
    put(fn, enc.mann(box(2, 2, 2)))
    r = outcome(K(), fn)
    ch.op()
    ch.check(r[0] == 'err' and type(r[1]).__name__ == 'BrokenFormatError', 'dimensions were made up: %r' % (r,))
    ch.state(fn)


def coords(n, d, v0, mid):
    c = (0.0 if v0 is None else v0) + d * np.arange(n)
    return c + (mid - c.mean()) if mid is not None else c


def h_coords(ch):
    nx = ch.pick('nx', [1, 2, 5])
    ny, nz = ch.pick('ny', [1, 2, 3, 8]), ch.pick('nz', [1, 2, 3, 8])
    dy, dz = ch.pick('dy', [1., 2.5, 0.1]), ch.pick('dz', [1., 3.3, 0.1])
    y0 = ch.pick('y0', [None, 0., -7.5])
    z0 = ch.pick('z0', [0., 12.])
    zMid = ch.pick('zMid', [None, 90., 0.])
    F = box(nx, ny, nz)
    fn = put('b.u', enc.mann(F))
    f = K()(fn, N=(nx, ny, nz), dy=dy, dz=dz, y0=y0, z0=z0, zMid=zMid)
    ch.op()
    y = coords(ny, dy, y0, None) if y0 is not None else dy * (np.arange(ny) - (ny - 1) / 2)
    z = coords(nz, dz, z0, zMid)
    ch.eq(f.y, y, 'y', (1e-9, 1e-9))
    ch.eq(f.z, z, 'z', (1e-9, 1e-9))
    ch.eq(f.y, y, 'y again', (1e-9, 1e-9))
    ch.eq(f.z, z, 'z again', (1e-9, 1e-9))
    for dx, U in ((1., 1.), (0.3, 7.), (10., 8.)):
        ch.eq(f.t(dx, U), dx / U * np.arange(nx), 't', (1e-9, 1e-9))
    # nearest point queries at every grid point
    for iy in range(ny):
        for iz in range(nz):
            ch.eq(f.closestPoint(y[iy] + 0.3 * dy, z[iz] - 0.3 * dz), (iy, iz), 'closest point')
            ch.eq(np.asarray(f.valuesAt(y[iy] - 0.3 * dy, z[iz] + 0.3 * dz)), F[:, iy, iz], 'values')
    ch.op(ny * nz)
    zz, m, s = f.vertProfile
    iy, iz = ny // 2, nz // 2
    ch.eq(zz, z, 'profile heights', (1e-9, 1e-9))
    G = F.astype(float)
    ch.eq(np.asarray(m, float), G[:, iy, :].mean(axis=0), 'mean profile', (1e-5, 1e-5))
    ch.eq(np.asarray(s, float), G[:, iy, :].std(axis=0), 'std profile', (1e-5, 1e-5))
    d = f.toDataFrame()
    ch.eq(d['VertProfile']['z_[m]'].values, z, 'table z', (1e-9, 1e-9))
    ch.eq(d['VertProfile']['vel_[m/s]'].values, G[:, iy, :].mean(axis=0), 'table mean', (1e-5, 1e-5))
    for n, j in (('ZMidLine', iy), ('ZMidYEndLine', ny - 1), ('ZMidYStartLine', 0)):
        ch.eq(d[n]['vel_[m/s]'].values, G[:, j, iz], n, (1e-6, 1e-6))
        ch.eq(d[n]['t/T_[-]'].values, np.linspace(0, 1, nx), n + ' axis', (1e-9, 1e-9))
    ch.eq(np.asarray(f['field']), F, 'field after the queries')
    ch.state(ny, nz, dy, dz, y0, z0, zMid)


def h_axes(ch):
    """ coordinates and times of boxes of every length """
    n = ch.pick('points', list(range(1, 65)) + [100, 128, 255, 256, 1000])
    d = ch.pick('step', [1., 0.1, 0.3, 0.7, 1.1, 2.5, 1. / 3, 0.05, 3.3])
    w = ch.pick('axis', ['x', 'y', 'z'])
    N = dict(x=(n, 1, 1), y=(1, n, 1), z=(1, 1, n))[w]
    put('b.u', enc.mann(np.arange(n, dtype=float).reshape(N)))
    f = K()('b.u', N=N, dy=d, dz=d, z0=1.7)
    ch.op()
    ch.eq(f.y, d * (np.arange(N[1]) - (N[1] - 1) / 2.), 'y', (1e-9, 1e-9))
    ch.eq(f.z, 1.7 + d * np.arange(N[2]), 'z', (1e-9, 1e-9))
    for U in (1., 7., 10., 0.3):
        ch.eq(f.t(d, U), np.arange(N[0]) * d / U, 't', (1e-9, 1e-9))
    for n_ in ('ZMidLine', 'ZMidYEndLine'):
        ch.eq(len(f.toDataFrame()[n_]), N[0], 'rows of ' + n_)
    ch.state(n, d, w)


def h_turbsim(ch):
    """ conversion from a TurbSim field """
    nt, ny, nz = ch.pick('size', [(2, 2, 2), (3, 2, 4), (1, 3, 2)])
    c = ch.pick('component', [0, 1, 2])
    rc = ch.pick('constant removed', [None, 0., 4.5])
    ra = ch.flag('means removed')
    u = np.array([box(nt, ny, nz, k) for k in range(3)], float)
    u0 = u.copy()
    f = K()()
    r = f.fromTurbSim(u, c, removeConstant=rc, removeAllMean=ra)
    ch.op()
    w = u0[c]
    if c == 0 and ra:
        w = w - w.mean(axis=0)
    elif c == 0 and rc is not None:
        w = w - rc
    ch.check(r is f, 'fromTurbSim does not return the object')
    ch.eq(np.asarray(f['field'], float), w, 'field', (1e-7, 1e-7))
    ch.eq(u, u0, 'the TurbSim field of the caller')
    f.write('x_%dx%dx%d.u' % (nt, ny, nz))
    g = K()('x_%dx%dx%d.u' % (nt, ny, nz))
    ch.op(2)
    ch.eq(np.asarray(g['field'], float), w, 'field read back', (1e-6, 1e-6))
    ch.check(get('x_%dx%dx%d.u' % (nt, ny, nz)) == enc.mann(w), 'file content')
    ch.state(w)


def h_history(ch):
    """ one object used for several boxes """
    B = {'a_2x3x2.u': box(2, 3, 2), 'b_3x2x4.u': box(3, 2, 4, 1), 'c_1x1x1.u': box(1, 1, 1)}
    for n, F in B.items():
        put(n, enc.mann(F))
    f = K()()
    cur = None
    files = sorted(B)
    for i in range(4):
        op = ch.pick('op%d' % i, files + ['write', 'change', 'toDataFrame', 'reread'])
        ch.op()
        if op in files:
            f.read(op)
            cur = B[op].copy()
            name = op
        elif cur is None:
            return
        elif op == 'write':
            name = 'w_%dx%dx%d.u' % cur.shape
            f.write(name)
            B2 = get(name)
            ch.check(B2 == enc.mann(cur), 'written file')
            B['_' + name] = cur.copy()
        elif op == 'change':
            f['field'][0, 0, 0] += 1
            cur[0, 0, 0] += 1
        elif op == 'toDataFrame':
            f.toDataFrame()
        elif op == 'reread':
            f.read()
            cur = (B['_' + name] if name.startswith('w_') else B[name]).copy()
        ch.eq(np.asarray(f['field']), cur, 'field after %s' % op)
        ch.state(cur, op)


def harnesses(tier):
    return [('files', h_files), ('noname', h_noname), ('coords', h_coords), ('axes', h_axes), ('turbsim', h_turbsim), ('history', h_history)]
