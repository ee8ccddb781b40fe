"""C15: queries and modifiers of TurbSim boxes against an array model, over operation histories"""
import os
from ..core import Violation
from ..util import *
from .c14 import K, field, resolution, same_field

INFO = dict(bounds='every history of up to 3 (thorough: 4) operations out of 23 queries/modifiers on 4 boxes (with and without tower), every grid point and offset for point, line and plane queries, Mann boxes of 2..41 points')

TOL = (1e-9, 1e-10)


class Box:
    """ the boring model: plain arrays """
    def __init__(self, u, y, z, t, tw=None, ID=7):
        self.u, self.y, self.z, self.t, self.tw, self.ID = u.copy(), y, z, t.copy(), None if tw is None else tw.copy(), ID

    @staticmethod
    def near(v, x):
        best = 0
        for i in range(len(v)):
            if abs(v[i] - x) < abs(v[best] - x) - 1e-12:
                best = i
        return best

    @property
    def mid(self):
        return self.near(self.y, (self.y[0] + self.y[-1]) / 2), self.near(self.z, (self.z[0] + self.z[-1]) / 2)


def make(kind):
    ny, nz, nt, ntw = {'a': (3, 3, 4, 0), 'b': (2, 4, 6, 2), 'c': (4, 2, 5, 1), 'd': (3, 2, 9, 0)}[kind]
    u = np.array([field(None, ['cos', 'mix', 'cos'][k], [10., 1., -2.][k], [1.5, 0.5, 0.25][k], nt, ny, nz) for k in range(3)])
    u += 0.3 * np.arange(nz)          # shear
    y = 2. * (np.arange(ny) - (ny - 1) / 2)
    z = 10. + 4. * np.arange(nz)
    t = 0.5 * np.arange(nt)
    tw = np.array([field(None, 'mix', 5. + k, 1., nt, ntw, 1)[:, :, 0] for k in range(3)]) if ntw else None
    f = K()()
    f['u'], f['y'], f['z'], f['t'] = u.copy(), y.copy(), z.copy(), t.copy()
    f['ID'] = 7
    f['dt'] = 0.5
    f['info'] = ''
    f['zRef'], f['uRef'] = 14.0, 9.0
    if ntw:
        f['uTwr'] = tw.copy()
        f['zTwr'] = z[0] - 4. * np.arange(ntw)
    else:
        f['uTwr'] = np.zeros((3, nt, 0))
        f['zTwr'] = np.zeros(0)
    return f, Box(u, y, z, t, tw)


def agree(ch, f, m, after):
    ch.eq(f['u'], m.u, 'field after %s' % after, TOL)
    ch.eq(f['y'], m.y, 'y after %s' % after, TOL)
    ch.eq(f['z'], m.z, 'z after %s' % after, TOL)
    ch.eq(f['t'], m.t, 't after %s' % after, TOL)
    ch.eq(f['ID'], m.ID, 'ID after %s' % after)
    if m.tw is not None:
        ch.eq(f['uTwr'], m.tw, 'tower after %s' % after, TOL)


def corr(a, b):
    a = a - a.mean()
    b = b - b.mean()
    return (a * b).mean() / (a.std() * b.std())


def q_values(ch, f, m, y, z):
    got = f.valuesAt(y, z)
    iy, iz = m.near(m.y, y), m.near(m.z, z)
    ch.eq(f.closestPoint(y, z), (iy, iz), 'closest point')
    for k in range(3):
        ch.eq(got[k], m.u[k, :, iy, iz], 'values at (%g,%g) component %d' % (y, z, k), TOL)


def plane(ch, f, m, which, how, remove):
    if which == 'h':
        i = {'mid': m.mid[1], 'value': m.near(m.z, m.z[-1] - 0.7), 'index': len(m.z) - 1}[how]
        kw = {'mid': {}, 'value': {'z': m.z[-1] - 0.7}, 'index': {'iz0': len(m.z) - 1}}[how]
        got = f.horizontalPlane(removeMean=remove, **kw)
        want = [m.u[k, :, :, i] for k in range(3)]
    else:
        i = {'mid': m.mid[0], 'value': m.near(m.y, m.y[0] + 0.4), 'index': len(m.y) - 1}[how]
        kw = {'mid': {}, 'value': {'y': m.y[0] + 0.4}, 'index': {'iy0': len(m.y) - 1}}[how]
        got = f.verticalPlane(removeMean=remove, **kw)
        want = [m.u[k, :, i, :] for k in range(3)]
    for k in range(3):
        w = want[k] - (want[k].mean() if remove else 0)
        ch.eq(got[k], w, 'plane %s %s component %d' % (which, how, k), TOL)


def q_profile(ch, f, m, span):
    z, mm, s = f.vertProfile(y_span=span)
    ch.eq(z, m.z, 'heights', TOL)
    if span == 'full':
        ch.eq(mm, m.u.mean(axis=1).mean(axis=1), 'mean profile', TOL)
        ch.eq(s, m.u.std(axis=1).std(axis=1), 'std profile', TOL)
    else:
        ch.eq(mm, m.u[:, :, m.mid[0], :].mean(axis=1), 'mean profile', TOL)
        ch.eq(s, m.u[:, :, m.mid[0], :].std(axis=1), 'std profile', TOL)


def q_xcorr(ch, f, m, ax):
    iy0, iz0 = m.mid
    r = f.crosscorr_y() if ax == 'y' else f.crosscorr_z()
    ch.eq(r[0], m.y if ax == 'y' else m.z, 'axis', TOL)
    for k in range(3):
        a = m.u[k, :, iy0, iz0]
        if ax == 'y':
            w = [corr(a, m.u[k, :, i, iz0]) for i in range(len(m.y))]
        else:
            w = [corr(a, m.u[k, :, iy0, i]) for i in range(len(m.z))]
        ch.eq(r[1 + k], np.array(w), 'cross correlation along %s, component %d' % (ax, k), (1e-7, 1e-8))


def q_csd(ch, f, m, which):
    import scipy.signal as sig
    iy, iz = m.mid
    it = len(m.t) // 2
    got = {'longi': f.csd_longi, 'lat': f.csd_lat, 'vert': f.csd_vert}[which]()
    for k in range(3):
        x = {'longi': m.u[k, :, iy, iz], 'lat': m.u[k, it, :, iz], 'vert': m.u[k, it, iy, :]}[which]
        x = x - x.mean()
        fc, c = sig.csd(x, x, fs=1 / (m.t[1] - m.t[0]), scaling='density')
        ch.eq(got[0], fc, 'frequencies', TOL)
        ch.eq(got[1 + k], c, 'spectral density %s %d' % (which, k), (1e-7, 1e-9))


def q_df(ch, f, m):
    d = f.toDataFrame()
    iy, iz = m.mid
    zp = d['VertProfile']
    ch.eq(zp['z_[m]'].values, m.z, 'table heights', TOL)
    ch.eq(zp['u_[m/s]'].values, m.u[0].mean(axis=0).mean(axis=0), 'table mean u', TOL)
    ch.eq(zp['w_[m/s]'].values, m.u[2].mean(axis=0).mean(axis=0), 'table mean w', TOL)
    for name, j in (('ZMidLine', iy), ('ZMidYStartLine', 0), ('ZMidYEndLine', len(m.y) - 1)):
        t = d[name]
        ch.eq(t['t_[s]'].values, m.t, name + ' time', TOL)
        for k, c in enumerate('uvw'):
            ch.eq(t[c + '_[m/s]'].values, m.u[k, :, j, iz], name + ' ' + c, TOL)
    ch.eq(d['Mid_xcorr_y']['rho_vv_[-]'].values, np.array([corr(m.u[1, :, iy, iz], m.u[1, :, i, iz]) for i in range(len(m.y))]), 'table xcorr y', (1e-7, 1e-8))
    ch.eq(d['Mid_xcorr_z']['rho_ww_[-]'].values, np.array([corr(m.u[2, :, iy, iz], m.u[2, :, iy, i]) for i in range(len(m.z))]), 'table xcorr z', (1e-7, 1e-8))


def q_hub(ch, f, m):
    z, u, b = f.hubValues()
    ch.eq((float(z), float(u), bool(b)), (14.0, 9.0, True), 'hub values')
    zm, um = f.midValues()
    iy, iz = m.mid
    ch.eq(f.iMid, (iy, iz), 'mid index')
    ch.eq((float(zm), float(um)), (float(m.z[iz]), float(m.u[0, :, iy, iz].mean())), 'mid values', TOL)


def q_probes(ch, f, m):
    ys, zs = [m.y[0] - 5, m.y[-1]], [m.z[0] + 0.1, m.z[-1] + 100]
    f.writeProbes('p.csv', ys, zs)
    txt = open('p.csv').read().splitlines()
    head = txt[0].lstrip('# ').split(',')
    dat = np.array([[float(x) for x in l.split(',')] for l in txt[1:]])
    want, cols = [m.t], ['Time_[s]']
    for y in ys:
        for z in zs:
            iy, iz = m.near(m.y, y), m.near(m.z, z)
            for k, c in enumerate('uvw'):
                want.append(m.u[k, :, iy, iz])
                cols.append('%s_y%.0f_z%.0f_[m/s]' % (c, m.y[iy], m.z[iz]))
    ch.eq(head, cols, 'probe columns')
    ch.eq(dat, np.array(want).T, 'probe data', (1e-9, 1e-9))


def q_periodic(ch, f, m):
    d = np.abs(m.u[0, 0] - m.u[0, -1])
    s = m.u[0].std(axis=0)
    for st, at in ((1.5, 0.5), (1e9, 1e9), (0., 0.), (1e9, 0.5), (1.5, 1e9)):
        ch.eq(bool(f.checkPeriodic(sigmaTol=st, aTol=at)), bool((d / s).max() < st and d.mean() < at), 'periodicity (%g,%g)' % (st, at))


def q_write(ch, f, m):
    tw = f['uTwr'].copy()
    f.write('o.bts')
    same_field(ch, K()('o.bts'), m.u, tw, 'written box')


def m_periodic(ch, f, m):
    f.makePeriodic()
    nt = len(m.t)
    idx = list(range(nt)) + list(range(nt - 2, 0, -1))
    m.u = m.u[:, idx]
    if m.tw is not None:
        m.tw = m.tw[:, idx]
    m.t = (m.t[1] - m.t[0]) * np.arange(len(idx))
    m.ID = 8


def m_scale(ch, f, m, mean, std, comp, ref):
    kw = dict(reference='mid') if ref == 'mid' else dict(reference='point', y_ref=m.y[0] + 0.1, z_ref=m.z[-1])
    f.scale(new_mean=mean, new_std=std, component=comp, **kw)
    iy, iz = m.mid if ref == 'mid' else (0, len(m.z) - 1)
    pm = m.u[comp].mean(axis=0)
    om, os_ = m.u[comp, :, iy, iz].mean(), m.u[comp, :, iy, iz].std()
    if std is not None:
        m.u[comp] = (m.u[comp] - pm) * (std / os_) + pm
    if mean is not None:
        m.u[comp] = m.u[comp] - om + mean
        ch.check(abs(f['u'][comp, :, iy, iz].mean() - mean) < 1e-8, 'mean at the reference point is not the requested one')
    if std is not None:
        ch.check(abs(f['u'][comp, :, iy, iz].std() - std) < 1e-8, 'standard deviation at the reference point is not the requested one')


def q_tomann(ch, f, m, rc, ra):
    from weio.mannbox_file import MannBoxFile
    f.toMannBox(base='mb', removeUConstant=rc, removeAllUMean=ra)
    nt, ny, nz = m.u.shape[1:]
    for k, c in enumerate('uvw'):
        g = MannBoxFile('mb_%dx%dx%d.%s' % (nt, ny, nz, c))
        w = m.u[k]
        if k == 0 and ra:
            w = w - w.mean(axis=0)
        elif k == 0 and rc is not None:
            w = w - rc
        ch.eq(np.asarray(g['field'], float), w, 'Mann box %s' % c, (1e-6, 1e-6))


OPS = {
    'toDataFrame': q_df, 'hub': q_hub, 'probes': q_probes, 'checkPeriodic': q_periodic, 'write': q_write,
    'xcorr y': lambda c, f, m: q_xcorr(c, f, m, 'y'), 'xcorr z': lambda c, f, m: q_xcorr(c, f, m, 'z'),
    'csd longi': lambda c, f, m: q_csd(c, f, m, 'longi'), 'csd lat': lambda c, f, m: q_csd(c, f, m, 'lat'), 'csd vert': lambda c, f, m: q_csd(c, f, m, 'vert'),
    'profile full': lambda c, f, m: q_profile(c, f, m, 'full'), 'profile mid': lambda c, f, m: q_profile(c, f, m, 'mid'),
    'values': lambda c, f, m: q_values(c, f, m, 0.9, 13.), 'repr': lambda c, f, m: repr(f),
    'hplane': lambda c, f, m: plane(c, f, m, 'h', 'mid', False), 'hplane-': lambda c, f, m: plane(c, f, m, 'h', 'value', True),
    'vplane': lambda c, f, m: plane(c, f, m, 'v', 'index', False), 'vplane-': lambda c, f, m: plane(c, f, m, 'v', 'mid', True),
    'makePeriodic': m_periodic, 'scale mean': lambda c, f, m: m_scale(c, f, m, 8., None, 0, 'mid'),
    'scale std': lambda c, f, m: m_scale(c, f, m, None, 2., 1, 'point'), 'scale both': lambda c, f, m: m_scale(c, f, m, 1., .5, 2, 'mid'),
    'toMann': lambda c, f, m: q_tomann(c, f, m, None, False), 'toMann const': lambda c, f, m: q_tomann(c, f, m, 3., False),
    'toMann mean': lambda c, f, m: q_tomann(c, f, m, None, True),
}


def mk_hist(depth, kinds):
    def h_history(ch):
        f, m = make(ch.pick('box', kinds))
        names = list(OPS)
        done = []
        for i in range(depth):
            op = ch.pick('op%d' % i, names)
            OPS[op](ch, f, m)
            ch.op()
            done.append(op)
            agree(ch, f, m, ' ; '.join(done))
            ch.state(m.u, m.ID, op)
            if len(m.t) > 30:
                break
    return h_history


def h_points(ch):
    """ nearest-point queries for every location around every grid point """
    f, m = make(ch.pick('box', 'abcd'))
    iy = ch.pick('iy', range(len(m.y)))
    iz = ch.pick('iz', range(len(m.z)))
    oy = ch.pick('offset y', [0, 0.9, -0.9, 0.49, 100, -100])
    oz = ch.pick('offset z', [0, 1.9, -1.9, 0.3, 1000, -1000])
    q_values(ch, f, m, m.y[iy] + oy, m.z[iz] + oz)
    ch.op()
    agree(ch, f, m, 'valuesAt')
    ch.state(iy, iz, oy, oz)


def h_mann(ch):
    """ Mann box -> TurbSim box -> file -> box; and back """
    from weio.mannbox_file import MannBoxFile
    nx, ny, nz = ch.pick('size', [(2, 2, 2), (4, 3, 2), (5, 2, 4)])
    dx, U = ch.pick('dx,U', [(1., 1.), (5., 8.), (0.3, 7.)])
    add = ch.pick('addU', [None, 10., 'profile'])
    start = ch.pick('object', ['new', 'with tower', 'no tower'])
    F = [field(None, 'mix', 1. + k, 2., nx, ny, nz) for k in range(3)]
    y = 3. * (np.arange(ny) - (ny - 1) / 2)
    z = 5. + 2. * np.arange(nz)
    f = K()() if start == 'new' else make('b' if start == 'with tower' else 'a')[0]
    a = None if add is None else add if add == 10. else np.tile(2. + np.arange(nz), (ny, 1))
    f.fromMannBox(F[0].copy(), F[1].copy(), F[2].copy(), dx, U, y, z, addU=a)
    ch.op()
    want = np.array(F)
    if a is not None:
        want[0] = want[0] + a
    t = dx / U * np.arange(nx)
    ch.eq(f['u'], want, 'u', TOL)
    ch.eq(f['t'], t, 't', TOL)
    ch.eq(f['y'], y, 'y', TOL)
    ch.eq(f['z'], z, 'z', TOL)
    iz = Box.near(z, (z[0] + z[-1]) / 2)
    iy = Box.near(y, 0)
    ch.eq(float(f['zRef']), float(z[iz]), 'zRef', TOL)
    ch.eq(float(f['uRef']), float(want[0, :, iy, iz].mean()), 'uRef', TOL)
    f.write('m.bts')
    g = K()('m.bts')
    ch.op(2)
    same_field(ch, g, want, None, 'read back')
    ch.eq(g['uTwr'].shape[2], 0, 'tower points')
    ch.eq(g['t'], t, 't read back', (1e-6, 1e-6))
    given = ch.pick('base', ['given', 'from the name'])
    if given != 'given':
        os.makedirs('d.x')
        f.filename = 'd.x/my.box.bts'
    f.toMannBox(**(dict(base='mm') if given == 'given' else {}))
    for k, c in enumerate('uvw'):
        b = MannBoxFile(('mm' if given == 'given' else 'd.x/my.box') + '_%dx%dx%d.%s' % (nx, ny, nz, c))
        ch.eq(np.asarray(b['field'], float), want[k], 'Mann box ' + c, (1e-6, 1e-6))
    bad = outcome(f.fromMannBox, F[0], F[1], F[2], dx, U, y[::-1], z)
    ch.check(bad[0] == 'err', 'a y axis in the wrong direction is accepted')
    ch.state(want)


def named(kind):
    """ boxes 'a'..'d', and 'e': heights and lateral positions below and above zero, uneven middle """
    if kind != 'e':
        return make(kind)
    f, m = make('b')
    z = np.array([-6., -2., 2., 6.]) + 2.
    y = np.array([0., 2.])
    f['z'], f['y'] = z.copy(), y.copy()
    m.z, m.y = z, y
    return f, m


def h_planes(ch):
    """ planes for every index and every position """
    f, m = named(ch.pick('box', 'abcde'))
    which = ch.pick('plane', 'hv')
    rem = ch.pick('mean removed', [False, True])
    ax = m.z if which == 'h' else m.y
    other = m.y if which == 'h' else m.z
    how = ch.pick('given', ['nothing', 'index', 'position'])
    if how == 'nothing':
        i, kw = m.mid[1 if which == 'h' else 0], {}
    elif how == 'index':
        i = ch.pick('index', range(len(ax)))
        kw = {'iz0' if which == 'h' else 'iy0': i}
    else:
        x = ax[ch.pick('near', range(len(ax)))] + ch.pick('offset', [0, 0.3, -0.3, 0.9, -0.9, 50, -50])
        x = ch.pick('instead', [x, 0., 0]) if x == ax[0] else x
        i = m.near(ax, x)
        kw = {'z' if which == 'h' else 'y': x}
    got = (f.horizontalPlane if which == 'h' else f.verticalPlane)(removeMean=rem, **kw)
    ch.op()
    for k in range(3):
        w = m.u[k, :, :, i] if which == 'h' else m.u[k, :, i, :]
        ch.eq(got[k], w - (w.mean() if rem else 0), 'plane %s, component %d' % (kw, k), TOL)
    agree(ch, f, m, 'planes')
    ch.state(which, how, i, rem, len(other))


def h_lines(ch):
    """ correlations and spectra around every point, lines through every point """
    import scipy.signal as sig
    f, m = named(ch.pick('box', 'abcde'))
    iy = ch.pick('iy', range(len(m.y)))
    iz = ch.pick('iz', range(len(m.z)))
    it = ch.pick('it', range(len(m.t)))
    what = ch.pick('what', ['line', 'xcorr', 'csd'])
    fs = 1 / (m.t[1] - m.t[0])
    L = {'longi': m.u[:, :, iy, iz], 'lat': m.u[:, it, :, iz], 'vert': m.u[:, it, iy, :]}
    if what == 'line':
        for rem in (False, True):
            for n, g in (('longi', f._longiline(iy0=iy, iz0=iz, removeMean=rem)), ('lat', f._latline(ix0=it, iz0=iz, removeMean=rem)), ('vert', f._vertline(ix0=it, iy0=iy, removeMean=rem))):
                for k in range(3):
                    ch.eq(g[k], L[n][k] - (L[n][k].mean() if rem else 0), '%s line, component %d' % (n, k), TOL)
    elif what == 'xcorr' and it == 0:
        for ax, r in (('y', f.crosscorr_y(iy0=iy, iz0=iz)), ('z', f.crosscorr_z(iy0=iy, iz0=iz))):
            ch.eq(r[0], m.y if ax == 'y' else m.z, 'axis', TOL)
            for k in range(3):
                a = m.u[k, :, iy, iz]
                w = [corr(a, m.u[k, :, i, iz]) for i in range(len(m.y))] if ax == 'y' else [corr(a, m.u[k, :, iy, i]) for i in range(len(m.z))]
                ch.eq(r[1 + k], np.array(w), 'cross correlation along %s, component %d' % (ax, k), (1e-7, 1e-8))
    elif what == 'csd':
        for n, g in (('longi', f.csd_longi(iy0=iy, iz0=iz)), ('lat', f.csd_lat(ix0=it, iz0=iz)), ('vert', f.csd_vert(ix0=it, iy0=iy))):
            for k in range(3):
                x = L[n][k] - L[n][k].mean()
                fc, c = sig.csd(x, x, fs=fs, scaling='density')
                ch.eq(g[0], fc, 'frequencies', TOL)
                ch.eq(g[1 + k], c, 'spectral density %s %d' % (n, k), (1e-7, 1e-9))
    ch.op()
    agree(ch, f, m, 'lines')
    ch.state(iy, iz, it, what)


def h_hub(ch):
    """ hub values with what is known of the hub; the written file gets them """
    f, m = named(ch.pick('box', 'abcde'))
    z = ch.pick('reference height', ['known', 'None', 'absent'])
    u = ch.pick('reference speed', ['known', 'None', 'absent'])
    arg = ch.pick('height asked for', [None, 11.9, 100., -3.])
    for k, how in (('zRef', z), ('uRef', u)):
        if how == 'None':
            f[k] = None
        elif how == 'absent':
            del f[k]
    g = f.hubValues() if arg is None else f.hubValues(zHub=arg)
    iy, iz = m.mid
    zz = arg if arg is not None else 14. if z == 'known' else m.z[iz]
    uu = 9. if u == 'known' else m.u[0, :, iy, m.near(m.z, zz)].mean()
    ch.eq((float(g[0]), float(g[1]), bool(g[2])), (float(zz), float(uu), arg is not None or z == 'known'), 'hub values', TOL)
    ch.op()
    agree(ch, f, m, 'hubValues')
    if arg is None:
        f.write('h.bts')
        b = K()('h.bts')
        ch.eq((float(b['zRef']), float(b['uRef'])), (float(zz), float(uu)), 'hub values in the file', (1e-6, 1e-6))
    ch.state(z, u, arg)


def h_manntime(ch):
    """ one time per point of a Mann box, whatever the length and the steps """
    nx = ch.pick('points', range(2, 42))
    dx, U = ch.pick('dx,U', [(1., 10.), (0.3, 1.), (1., 3.), (0.7, 1.), (5., 7.), (1.1, 10.), (0.1, 1.)])
    u = np.array([[[k + 0.5 * i, k - i], [1. + k, i]] for i in range(nx) for k in (2.,)]).reshape(nx, 2, 2)
    f = K()()
    f.fromMannBox(u.copy(), u + 1, u + 2, dx, U, np.array([-1., 1.]), np.array([3., 4.]))
    ch.op()
    ch.eq(f['t'], dx / U * np.arange(nx), 'time', TOL)
    ch.eq(f['u'], np.array([u, u + 1, u + 2]), 'field', TOL)
    f.write('t.bts')
    ch.eq(K()('t.bts')['t'], dx / U * np.arange(nx), 'time of the written file', (1e-6, 1e-5))
    ch.state(nx, dx, U)


def h_info(ch):
    """ the description of a box gives its extent, power law and periodicity """
    f, m = make(ch.pick('box', 'abcd'))
    a = ch.pick('alpha', [0.1, 0.25])
    per = ch.pick('made periodic', [False, True])
    u0 = ch.pick('speed', [5., 12.5])
    zm = (m.z[0] + m.z[-1]) / 2
    f['u'][0] = u0 * (m.z / zm)**a
    f['u'][0] += 0.01 * np.sin(np.arange(len(m.t)))[:, None, None] - (0.01 * np.sin(np.arange(len(m.t)))).mean()
    m.u[0] = f['u'][0].copy()
    if per:
        m_periodic(ch, f, m)
    f.writeInfo('i.txt')
    ch.op()
    txt = open('i.txt').read()
    ch.check(txt.startswith(repr(f)) or repr(f) in txt, 'the description of the box is not in the file')
    L = [l for l in txt.splitlines() if not l.startswith((' ', '<'))]
    ch.eq(float(L[0].split(':')[1]), zm, 'middle height', (0, 6e-4))
    import re as _re
    v = _re.match(r'Power law: alpha=(\S+)\s+-\s+u=(\S+)\s+at z=(\S+)', L[1])
    ch.check(v is not None, 'power law line: %r' % L[1])
    dm = 0.0 if not per else float(np.abs(m.u[0].mean(axis=0)[m.mid[0]] - u0 * (m.z / zm)**a).max())
    ch.eq([float(x) for x in v.groups()], [a, u0, zm], 'power law', (1e-3, 2e-4 + 3 * dm))
    ch.eq(L[2].split(':')[1].strip(), str(bool(f.checkPeriodic(sigmaTol=1.5, aTol=0.5))), 'periodicity')
    agree(ch, f, m, 'writeInfo')
    ch.state(a, u0, per)


def h_power(ch):
    """ the power-law fit recovers an exact power law """
    a = ch.pick('alpha', [0.0, 0.1, 0.2, 0.33])
    u0 = ch.pick('u', [5., 10., 12.5])
    span = ch.pick('span', ['full', 'mid'])
    zr = ch.pick('z_ref', [None, 20., 11.])
    f, m = make('b')
    ref = (m.z[0] + m.z[-1]) / 2 if zr is None else zr
    f['u'][0] = u0 * (m.z / ref)**a
    u_fit, p, model, z_ref = f.fitPowerLaw(z_ref=zr, y_span=span)
    ch.op()
    ch.eq(float(z_ref), float(ref), 'reference height')
    ch.eq((float(p[0]), float(p[1])), (u0, a), 'fit', (1e-4, 1e-4))
    ch.state(a, u0, span, zr)


def harnesses(tier):
    if tier == 'quick':
        return [('history2', mk_hist(2, 'abcd')), ('history3', mk_hist(3, 'b')), ('points', h_points), ('mann', h_mann), ('power', h_power), ('planes', h_planes), ('lines', h_lines), ('hub', h_hub), ('manntime', h_manntime), ('info', h_info)]
    return [('history3', mk_hist(3, 'abcd')), ('history4', mk_hist(4, 'b')), ('points', h_points), ('mann', h_mann), ('power', h_power), ('planes', h_planes), ('lines', h_lines), ('hub', h_hub), ('manntime', h_manntime), ('info', h_info)]
