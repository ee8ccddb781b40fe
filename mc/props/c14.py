"""C14: TurbSim full-field files: decoding and write/read round trip"""
import os
from ..core import Violation
from ..util import *
from .. import enc

INFO = dict(bounds='grids of 2..3 x 2..4 points, 2..5 steps (decoding also 1), 0..3 tower points, 7 field shapes x 6 means x 5 amplitudes per component, header values over small alphabets; 2 generations of writing')


def K():
    from weio.turbsim_file import TurbSimFile
    return TurbSimFile


def h_decode(ch):
    ny = ch.pick('ny', [2, 3, 1])
    nz = ch.pick('nz', [2, 4, 1])
    nt = ch.pick('nt', [1, 2, 3])
    ntw = ch.pick('tower points', [0, 1, 2, 3])
    ident = ch.pick('ID', [7, 8])
    dz, dy, dt = ch.pick('spacing', [(1., 1., 1.), (2.5, 0.5, 0.125), (10., 7.25, 0.05)])
    zb = ch.pick('bottom', [0., 10., 33.25])
    info = ch.pick('info', ['', 'This full-field file was generated by TurbSim'])
    s = ch.pick('scaling', [((1., 0.), (1., 0.), (1., 0.)), ((3000.25, -32768.), (100.5, 12.), (2e4, -7e3))])
    pat = ch.pick('pattern', [0, 1])
    n = nt * nz * ny * 3
    ints = ((np.arange(n) * (7919 if pat else 257) + 5) % 65536 - 32768).reshape(nt, nz, ny, 3)
    m = nt * ntw * 3
    twr = ((np.arange(m) * 4001 + 99) % 65536 - 32768).reshape(nt, ntw, 3) if ntw else None
    scl, off = [a for a, _ in s], [b for _, b in s]
    fn = put('a.bts', enc.bts(ident, ints, twr, scl, off, dz, dy, dt, 11.5, 88.25, zb, info))
    if ch.pick('opened with', ['class', 'weio.read']) == 'class':
        f = K()(fn)
    else:
        import weio
        f = weio.read(fn)
    ch.op()
    ch.check(type(f).__name__ == 'TurbSimFile', 'read as %s' % type(f).__name__)
    ch.eq(f['u'].shape, (3, nt, ny, nz), 'shape of u')
    ch.eq(f['uTwr'].shape, (3, nt, ntw), 'shape of uTwr')
    for k in range(3):
        want = (ints[:, :, :, k].transpose(0, 2, 1) - float(np.float32(off[k]))) / float(np.float32(scl[k]))
        ch.eq(f['u'][k], want, 'u[%d]' % k, (2e-6, 1e-9))
        if ntw:
            ch.eq(f['uTwr'][k], (twr[:, :, k] - float(np.float32(off[k]))) / float(np.float32(scl[k])), 'uTwr[%d]' % k, (2e-6, 1e-9))
    f32 = lambda x: float(np.float32(x))
    ch.eq(f['z'], f32(zb) + f32(dz) * np.arange(nz), 'z', (1e-12, 1e-12))
    ch.eq(f['y'], f32(dy) * (np.arange(ny) - (ny - 1) / 2), 'y', (1e-12, 1e-12))
    ch.eq(f['t'], f32(dt) * np.arange(nt), 't', (1e-12, 1e-12))
    ch.eq(f['zTwr'], f32(zb) - f32(dz) * np.arange(ntw), 'zTwr', (1e-12, 1e-12))
    ch.eq([f['ID'], f['dt'], f['zRef'], f['uRef'], f['info']], [ident, f32(dt), f32(88.25), f32(11.5), info], 'header')
    h = K()()
    h.read(fn, header_only=True)
    ch.op()
    ch.eq([h['ID'], h['dt'], h['info']], [ident, f32(dt), info], 'header read alone')
    ch.eq(h['z'], f['z'], 'z read alone')
    ch.check('u' not in h, 'field read although only the header was asked for')
    ch.state(ints, twr, ident)


def field(shape, kind, mean, amp, nt, ny, nz):
    n = nt * ny * nz
    i = np.arange(n)
    if kind == 'const':
        x = np.zeros(n)
    elif kind == 'ramp':
        x = i / max(1, n - 1) * 2 - 1
    elif kind == 'alt':
        x = (-1.0)**i
    elif kind == 'spike':
        x = np.where(i == n // 2, 1.0, 0.0)
    elif kind == 'mix':
        x = np.sin(1.7 * i + 0.3)
    elif kind == 'last':
        x = np.where(i == n - 1, -1.0, 0.0)
    else:
        x = np.cos(i * i * 0.7)
    return (mean + amp * x).reshape(nt, ny, nz)


KINDS = ['mix', 'const', 'ramp', 'alt', 'spike', 'last', 'cos']
MEANS = [0.0, 10.0, -3.3, 10.1, 1000.7, 1e-3]
AMPS = [1.0, 0.01, 1e-4, 30., 1e-6]


def resolution(allv):
    """ 16 bit over the range of the component; header numbers are single precision """
    lo, hi = allv.min(), allv.max()
    rng = hi - lo
    eps = 2.0**-23
    if rng == 0:
        return 2 * eps * (32768 + abs(lo))
    return 1.01 * rng / 65535 + 4 * eps * max(abs(lo), abs(hi)) + rng * 4 * eps


def same_field(ch, g, u, tw, what):
    ch.eq(g['u'].shape, u.shape, what + ': shape of u')
    for k in range(3):
        allv = u[k].ravel() if tw is None or tw.shape[2] == 0 else np.concatenate([u[k].ravel(), tw[k].ravel()])
        q = resolution(allv)
        d = np.abs(g['u'][k] - u[k])
        if not d.max() <= q:
            i = np.unravel_index(np.argmax(d), d.shape)
            raise Violation('%s: component %d at (t,y,z)=%s is %r, %r was stored (resolution %g)' % (what, k, i, g['u'][k][i], u[k][i], q))
        if tw is not None and tw.shape[2]:
            ch.eq(g['uTwr'].shape, tw.shape, what + ': shape of uTwr')
            d = np.abs(g['uTwr'][k] - tw[k])
            if not d.max() <= q:
                raise Violation('%s: tower component %d differs by %g (resolution %g)' % (what, k, d.max(), q))


def h_roundtrip(ch, thorough=False):
    ny, nz, nt = ch.pick('grid', [(2, 2, 2), (3, 2, 3), (2, 4, 5)])
    ntw = ch.pick('tower points', [0, 1, 3])
    kind = ch.pick('kind', KINDS)
    mean = ch.pick('mean', MEANS)
    amp = ch.pick('amplitude', AMPS)
    c = ch.pick('component', [0, 1, 2])
    dy, dz, dt = ch.pick('spacing', [(1., 1., 1.), (2.5, 5., 0.125)])
    z0 = ch.pick('bottom', [0.0, 22.5])
    u = np.zeros((3, nt, ny, nz))
    for k in range(3):
        u[k] = field(None, 'mix', k + 1., 0.5, nt, ny, nz)
    u[c] = field(None, kind, mean, amp, nt, ny, nz)
    tw = None
    f = K()()
    f['u'] = u.copy()
    f['y'] = dy * (np.arange(ny) - (ny - 1) / 2)
    f['z'] = z0 + dz * np.arange(nz)
    f['t'] = dt * np.arange(nt)
    if ntw:
        tw = np.array([field(None, kind, mean * 1.5, amp, nt, ntw, 1)[:, :, 0] for k in range(3)])
        f['uTwr'] = tw.copy()
    idc = ch.pick('ID', [None, 8])
    if idc:
        f['ID'] = idc
    f.write('w.bts')
    ch.op()
    ch.eq(f['u'], u, 'field of the object after writing')
    if ntw:
        ch.eq(f['uTwr'], tw, 'tower of the object after writing')
    g = K()('w.bts')
    ch.op()
    same_field(ch, g, u, tw, 'read back')
    for a, b in (('y', f['y']), ('z', f['z']), ('t', f['t'])):
        ch.eq(g[a], b, a, (1e-6, 1e-6))
    ch.eq(g['ID'], idc or 7, 'ID')
    ch.eq(g['uTwr'].shape[2], ntw, 'tower points')
    ch.eq(len(g['zTwr']), ntw, 'tower heights')
    # size of the file is what the header announces
    i = 2 + 16 + 24 + 24 + 4
    nch = int(np.frombuffer(get('w.bts')[i - 4:i], '<i4')[0])
    ch.eq(len(get('w.bts')), i + nch + 2 * 3 * nt * (ny * nz + ntw), 'file size')
    # second generation
    u1 = g['u'].copy()
    t1 = g['uTwr'].copy()
    ref = (g['zRef'], g['uRef'])
    g.write('w2.bts')
    h = K()('w2.bts')
    ch.op(2)
    same_field(ch, h, u1, t1, 'second generation')
    ch.eq((h['zRef'], h['uRef']), ref, 'reference height and speed', (1e-6, 1e-6))
    ch.state(u, tw)


def h_examples(ch):
    """ the real boxes of the repository, written and read, twice """
    fn = ch.pick('file', sorted(f for f in os.listdir(EX) if f.endswith('.bts')))
    f = K()(os.path.join(EX, fn))
    u, tw = f['u'].copy(), f['uTwr'].copy()
    keep = {k: cp(f[k]) for k in ('y', 'z', 't', 'zTwr', 'zRef', 'uRef', 'ID', 'dt')}
    for k in range(ch.pick('generations', [1, 2, 3])):
        f.write('g%d.bts' % k)
        f = K()('g%d.bts' % k)
        ch.op(2)
        same_field(ch, f, u, tw, 'generation %d' % k) if k == 0 else None
    for k in range(3):
        allv = np.concatenate([u[k].ravel(), tw[k].ravel()])
        ch.check(np.abs(f['u'][k] - u[k]).max() <= 3 * resolution(allv), 'field drifts')
    for k in keep:
        ch.eq(f[k], keep[k], k, (1e-6, 1e-6))
    ch.state(fn, f['u'])


def harnesses(tier):
    return [('decode', h_decode), ('roundtrip', h_roundtrip), ('examples', h_examples)]
