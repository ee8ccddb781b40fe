"""Reference encoders: independent statements of the file formats, written from the format
descriptions (OpenFAST, HAWC2, FLEX, Bladed, TurbSim, VTK ... manuals), not from the readers."""
import struct
import numpy as np


# ------------------------------------------------------------------ OpenFAST binary output (.outb)
def outb(fid, names, units, packed, scl=None, off=None, desc='', t0=0., dt=1., packedtime=None, tscl=1., toff=0., lenname=10):
    """ names/units include the time channel; packed: (nt, nch) array of int16 (or float64 for ID 3) """
    packed = np.asarray(packed)
    nt, nch = packed.shape
    b = struct.pack('<h', fid)
    if fid == 4:
        b += struct.pack('<h', lenname)
    else:
        lenname = 10
    b += struct.pack('<ii', nch, nt)
    b += struct.pack('<dd', tscl, toff) if fid == 1 else struct.pack('<dd', t0, dt)
    if fid != 3:
        b += np.asarray(scl, '<f4').tobytes() + np.asarray(off, '<f4').tobytes()
    d = desc.encode('latin1')
    b += struct.pack('<i', len(d)) + d
    for n in names:
        b += n.encode('latin1').ljust(lenname)
    for u in units:
        b += ('(%s)' % u).encode('latin1').ljust(lenname)
    if fid == 1:
        b += np.asarray(packedtime, '<i4').tobytes()
    b += packed.astype('<f8' if fid == 3 else '<i2').tobytes()
    return b


def outb_small():
    return outb(4, ['Time', 'Wind', 'Pitch'], ['s', 'm/s', 'deg'], [[100, -5], [200, 3]], [10., 2.], [0., 1.], 'small', 1., .5, lenname=12)


def outb_values(fid, packed, scl, off, t0, dt, packedtime=None, tscl=1., toff=0.):
    packed = np.asarray(packed, float)
    nt, nch = packed.shape
    D = np.zeros((nt, nch + 1))
    D[:, 0] = (np.asarray(packedtime, float) - toff) / tscl if fid == 1 else t0 + dt * np.arange(nt)
    for j in range(nch):
        if fid == 3:
            D[:, j + 1] = packed[:, j]
        else:
            s, o = np.float32(scl[j]), np.float32(off[j])
            if np.isnan(s) and np.isnan(o):
                D[:, j + 1] = 0
            else:
                D[:, j + 1] = (packed[:, j] - float(o)) / float(s)
    return D


# ------------------------------------------------------------------ OpenFAST text output (.out)
def out_ascii(names, units, data, header=(), sep='\t', tfmt='%10.4f', fmt='%11.3E', tail='', br='()'):
    s = ''.join(h + '\n' for h in header)
    s += sep.join('%-10s' % n for n in names) + '\n'
    s += sep.join('%-10s' % (br[0] + u + br[1]) for u in units) + '\n'
    for r in data:
        s += sep.join([tfmt % r[0]] + [fmt % x for x in r[1:]]) + '\n'
    return s + tail


# ------------------------------------------------------------------ TurbSim full field (.bts)
def bts(ident, ints, twr, scl, off, dz, dy, dt, uhub, zhub, zbot, info):
    """ ints[it][iz][iy][comp], twr[it][itw][comp] : int16 """
    ints = np.asarray(ints)
    nt, nz, ny, _ = ints.shape
    ntw = 0 if twr is None else np.asarray(twr).shape[1]
    b = struct.pack('<h4i', ident, nz, ny, ntw, nt)
    b += struct.pack('<6f', dz, dy, dt, uhub, zhub, zbot)
    for k in range(3):
        b += struct.pack('<2f', scl[k], off[k])
    t = info.encode()
    b += struct.pack('<i', len(t)) + t
    for it in range(nt):
        b += ints[it].astype('<i2').tobytes()
        if ntw:
            b += np.asarray(twr[it]).astype('<i2').tobytes()
    return b


# ------------------------------------------------------------------ Mann box
def mann(field):
    """ field[ix][iy][iz] with y increasing; in the file y decreases, z is the fastest index """
    field = np.asarray(field, '<f4')
    nx, ny, nz = field.shape
    b = b''
    for ix in range(nx):
        for iy in range(ny - 1, -1, -1):
            b += field[ix, iy].tobytes()
    return b


# ------------------------------------------------------------------ HAWC2 result files (.sel/.dat)
def hawc2_sel(chans, nscan, simtime, fmt, scale=None, result='./res.dat'):
    """ chans: list of (name, unit, description); fixed columns: name 12-43, unit 43-54, description from 54 """
    bar = '_' * 120
    s = [bar, '  Version ID : HAWC2MB 12.8', ' ' * 60 + 'Time : 10:02:19', ' ' * 60 + 'Date : 24:01.2013', bar,
         '  Result file : ' + result, bar, '   Scans    Channels    Time [sec]      Format',
         '%11d%7d%15.3f       %s' % (nscan, len(chans), simtime, fmt), '', '  Channel   Variable Description               ', '']
    for i, (n, u, d) in enumerate(chans):
        s.append('%6d      %-31s%-11s%s' % (i + 1, n, u, d))
    s.append(bar)
    if fmt.upper() == 'BINARY':
        s.append('Scale factors:')
        s += ['  %.5E' % x for x in scale]
    return '\n'.join(s) + '\n'


def bhawc_sel(chans, nscan, simtime):
    s = [' BHawC channel reference file (sel):', '+' + '=' * 137 + '+',
         '     BHawC command file :                                 NA.btc  2001.01.21  00:00:00  C:\\Res\\',
         ' Channel reference file :                                 NA.sel  2001.01.01  00:00:00  C:\\simdatsel',
         '            Result file :                                 NA.dat  2001.01.01  00:00:00  C:\\simdatsel', '', '+' + '=' * 137 + '+',
         '  Scans    Channels    Time [sec]                Coordinate convention: Siemens',
         '%7d%9d        %s' % (nscan, len(chans), '%07.3f' % simtime), '',
         'Channel   Variable description' + ' ' * 65 + 'Label                 Unit', '']
    for i, (n, u, d) in enumerate(chans):
        s.append('%4d  %-89s%-22s[%s]' % (i + 1, d, n, u))
    s.append('+' + '=' * 137 + '+')
    return '\n'.join(s) + '\n'
