"""Files used by the cross-format properties (C03..C06): the example files of the repository
plus small generated files for the formats (or variants) without example."""
import os, glob, io, struct, importlib
import numpy as np
from .util import EX, put, get
from . import enc

CLS = {   # class -> module
    'CSVFile': 'csv_file', 'ExcelFile': 'excel_file', 'TecplotFile': 'tecplot_file', 'BladedFile': 'bladed_out_file',
    'FASTInputFile': 'fast_input_file', 'FASTOutputFile': 'fast_output_file', 'FASTWndFile': 'fast_wind_file',
    'FASTLinearizationFile': 'fast_linearization_file', 'FASTSummaryFile': 'fast_summary_file', 'TurbSimTSFile': 'turbsim_ts_file',
    'TurbSimFile': 'turbsim_file', 'HAWC2DatFile': 'hawc2_dat_file', 'HAWC2HTCFile': 'hawc2_htc_file', 'HAWC2StFile': 'hawc2_st_file',
    'HAWC2PCFile': 'hawc2_pc_file', 'HAWC2AEFile': 'hawc2_ae_file', 'HAWCStab2PwrFile': 'hawcstab2_pwr_file',
    'HAWCStab2IndFile': 'hawcstab2_ind_file', 'HAWCStab2CmbFile': 'hawcstab2_cmb_file', 'MannBoxFile': 'mannbox_file',
    'FLEXBladeFile': 'flex_blade_file', 'FLEXProfileFile': 'flex_profile_file', 'FLEXOutFile': 'flex_out_file',
    'FLEXWaveKinFile': 'flex_wavekin_file', 'FLEXDocFile': 'flex_doc_file', 'BModesOutFile': 'bmodes_out_file',
    'ROSCOPerformanceFile': 'rosco_performance_file', 'NetCDFFile': 'netcdf_file', 'VTKFile': 'vtk_file', 'TDMSFile': 'tdms_file',
    'ParquetFile': 'parquet_file', 'CactusFile': 'cactus_file', 'RAAWMatFile': 'raawmat_file',
}


def klass(name):
    return getattr(importlib.import_module('weio.' + CLS[name]), name)


class Entry:
    """ name: identification; cls: class name; main: file to open; files: {file name: bytes} """
    def __init__(self, name, cls, main, files, kw=None):
        self.name, self.cls, self.main, self.files, self.kw = name, cls, main, files, kw or {}

    def __repr__(self):
        return self.name

    def place(self, sub=''):
        for f, b in self.files.items():
            put(os.path.join(sub, f), b)
        return os.path.join(sub, self.main)

    def read(self, sub=''):
        return klass(self.cls)(self.place(sub), **self.kw)


def _ex(cls, *pats, **kw):
    out = []
    for p in pats:
        for f in sorted(glob.glob(glob.escape(EX) + '/' + p)):
            if '_TMP' in f:
                continue
            out.append(Entry(os.path.relpath(f, EX), cls, os.path.basename(f), {os.path.basename(f): get(f)}, kw))
    return out


def _companions(entries, fn):
    for e in entries:
        for c in fn(e.main):
            p = os.path.join(EX, c)
            if os.path.exists(p):
                e.files[c] = get(p)
    return entries


def lines(s, keep):
    return b''.join(l for i, l in enumerate(s.splitlines(True)) if keep(i))


def variant(e, tag, fn):
    """ same files with the main one changed by fn """
    b, x = os.path.splitext(e.main)
    return Entry(e.name + '#' + tag, e.cls, e.main, {k: (fn(v) if k == e.main else v) for k, v in e.files.items()}, e.kw)


HTC = """begin simulation;
  time_stop    10.0 ;
  logfile ./log/a.log ;
  begin newmark;
    deltat    0.02;
  end newmark;
end simulation;
begin new_htc_structure;
  begin main_body;  tower
    name        tower ;
    type        timoschenko ;
    begin c2_def;
      nsec 2;
      sec 1 0.0 0.0 0.0 0.0 ;
      sec 2 0.0 0.0 -10.0 1.5 ;
    end c2_def ;
  end main_body;
  begin main_body;
    name        blade1 ;
    begin c2_def;
      nsec 3;
      sec 1 0.0 0.0 0.0 0.0 ;
      sec 2 0.0 0.1 3.0 1.5 ;
      sec 3 0.0 0.2 6.0 2.5 ;
    end c2_def ;
  end main_body;
end new_htc_structure;
begin wind ;
  wsp 10 ;
end wind;
exit;
"""
HTC2 = """begin simulation;
  time_stop    20 ;
end simulation;
begin new_htc_structure;
  begin main_body;
    name        shaft ;
    begin c2_def;
      nsec 2;
      sec 1 0.0 0.0 0.0 0.0 ;
      sec 2 0.0 1.0 2.0 0.0 ;
    end c2_def ;
  end main_body;
end new_htc_structure;
exit;
"""
CMB = """# Campbell diagram 1 2
   5.0  0.30 0.40  1.0 2.0
   7.0  0.31 0.41  1.1 2.1
   9.0  0.32 0.42  1.2 2.2
"""
VTK2 = """# vtk DataFile Version 3.0
Second file
ASCII
DATASET STRUCTURED_POINTS
DIMENSIONS 2 2 1
ORIGIN 1.0 2.0 0.0
SPACING 1.0 2.0 3.0
CELL_DATA 1
SCALARS c float 1
LOOKUP_TABLE default
7.5
"""
CMB2 = """# Campbell diagram 1
   4.0  0.25
   6.0  0.26
"""
CAC = """&ConfigInputs
  GPFlag = 0
  nr = 2
  nti = 3
  iut = 0
/End
&CaseInputs
  jbtitle = 'Case'
  rho = 0.002378
  RPM = 120.0
  Ut = 4.0
  CTExcrM = 0.0
  GeomFilePath = 'geom/a.geom'
  nSect = 1
  AFDPath = 'af/a.dat'
/End
"""
GEOM = "NBlade: 2\nNStrut: 0\nRotN: 0 0 1\nRotP: 0 0 0\nRefAR: 2.0\nRefR: 6.5\nType: VAWT\n"


def cactus(n=6, nb=2, k=1.):
    cols = ['Normalized Time (-)', 'Theta (rad)', 'Rev', 'Torque Coeff. (-)', 'Power Coeff. (-)', 'Fx Coeff. (-)', 'Fy Coeff. (-)', 'Fz Coeff. (-)']
    for b in range(nb):
        cols += ['Blade Fx Coeff. (-)', 'Blade Fy Coeff. (-)', 'Blade Fz Coeff. (-)', 'Blade Torque Coeff. (-)']
    s = ','.join(cols) + '\n'
    for i in range(n):
        s += ','.join('%.4f' % (k * (i + 1) * (j + 1) / 16.) for j in range(len(cols))) + '\n'
    return s


def rosco(np_, nt, k=1.):
    pit = [i * 2. for i in range(np_)]
    tsr = [4. + j for j in range(nt)]
    s = '# ----- Rotor performance tables ----- \n# ------------ Written ------------ \n\n'
    s += '# Pitch angle vector - x axis (matrix columns) (deg)\n' + '   '.join('%.4f' % x for x in pit) + '\n'
    s += '# TSR vector - y axis (matrix rows) (-)\n' + '   '.join('%.4f' % x for x in tsr) + '\n'
    s += '# Wind speed vector - z axis (m/s)\n 10.0\n'
    for m, n in enumerate(['Power', 'Thrust', 'Torque']):
        s += '\n# %s coefficient\n\n' % n + ''.join('   '.join('%.6f' % (k * (m + 1) + i * .25 + j * .0625) for i in range(np_)) + '\n' for j in range(nt)) + '\n'
    return s


def netcdf(d):
    import xarray as xr, tempfile
    ds = xr.Dataset({k: (tuple('%s%d' % (k, i) for i in range(np.ndim(v))), np.asarray(v)) for k, v in d.items()})
    return ds.to_netcdf()


def tdms(groups, n, dt=0.5):
    from nptdms import TdmsWriter, ChannelObject
    b = io.BytesIO()
    with TdmsWriter(b) as w:
        w.write_segment([ChannelObject(g, c, np.arange(n) * (i + 1.) + j, properties={'wf_increment': dt, 'wf_start_offset': 0.0})
                         for i, (g, cs) in enumerate(groups) for j, c in enumerate(cs)])
    return b.getvalue()


def raaw(chans):
    """ chans: list of (name, fast?, factor) """
    from scipy.io import savemat
    cell = np.empty((len(chans), 1), dtype=object)
    for i, (name, fast, k) in enumerate(chans):
        n, dt = (30000, 0.02) if fast else (600, 1.)
        cell[i, 0] = dict(a='x', name=name, c='u', dt=dt, e='e', t=np.array([[2020, 1, 2, 3, 4, 5]], dtype=np.int32), data=(k * np.arange(n)).reshape(-1, 1))
    b = io.BytesIO()
    savemat(b, {'DataCell': cell})
    return b.getvalue()


def excel(d):
    import pandas as pd
    b = io.BytesIO()
    with pd.ExcelWriter(b, engine='openpyxl') as w:
        for k, df in d.items():
            df.to_excel(w, sheet_name=k, index=False)
    return b.getvalue()


def parquet(df):
    b = io.BytesIO()
    df.to_parquet(b)
    return b.getvalue()


_ALL = None


def entries():
    """ every entry (built once, before workers are forked) """
    global _ALL
    if _ALL is not None:
        return _ALL
    import pandas as pd
    E = []
    E += _ex('CSVFile', 'CSV*')
    E += _ex('ExcelFile', '*.xlsx')
    E.append(Entry('excel2', 'ExcelFile', 'b.xlsx', {'b.xlsx': excel({'A': pd.DataFrame({'x': [1., 2.], 'y': [3., 4.]}), 'B': pd.DataFrame({'t': [0.5]})})}))
    E += _ex('TecplotFile', 'Tecplot*')
    bl = []
    for b in ['Bladed_out_ascii', 'Bladed_out_binary', 'Bladed_out_binary_case2']:
        fs = {os.path.basename(f): get(f) for f in glob.glob(glob.escape(os.path.join(EX, b)) + '.*')}
        for f in sorted(fs):
            x = f.rsplit('.', 1)[1]
            if x == '$PJ':
                bl.append(Entry(f, 'BladedFile', f, fs))
            elif x in ('$04', '%41', '$37', '%06', '$55', '$09'):
                n = f.rsplit('.', 1)[0]
                bl.append(Entry(f, 'BladedFile', f, {k: v for k, v in fs.items() if k in (n + '.$' + x[1:], n + '.%' + x[1:])}))
    E += bl
    E += _ex('FASTInputFile', 'FASTIn_*', 'input_decks/Elliptic_*.dat', 'input_decks/Polar*')
    E += _ex('FASTOutputFile', 'FASTOut*', 'FastOut*')
    E.append(Entry('outb2', 'FASTOutputFile', 's.outb', {'s.outb': enc.outb_small()}))
    E += _ex('FASTWndFile', 'FASTWnd*', 'input_decks/*.wnd')
    E += _ex('FASTLinearizationFile', 'FASTLin*')
    E += _ex('FASTSummaryFile', 'FASTSum*')
    E += _ex('TurbSimTSFile', 'TurbSimTS*')
    E += _ex('TurbSimFile', 'TurbSim_*')
    E += _companions(_ex('HAWC2DatFile', 'HAWC2_out_bin.*', 'BHAWC_out*.dat', 'HAWC2_out_ascii.sel'), lambda m: [os.path.splitext(m)[0] + x for x in ('.sel', '.dat')])
    E.append(Entry('htc1', 'HAWC2HTCFile', 'a.htc', {'a.htc': HTC.encode()}))
    E.append(Entry('htc2', 'HAWC2HTCFile', 'a.htc', {'a.htc': HTC2.encode()}))
    E += _ex('HAWC2StFile', 'HAWC2_st.st', 'HAWC2_st_fpm*')
    E += _ex('HAWC2PCFile', 'HAWC2_pc*')
    E += _ex('HAWC2AEFile', 'HAWC2_ae*')
    E += _ex('HAWCStab2PwrFile', '*.pwr')
    E += _ex('HAWCStab2IndFile', '*.ind')
    E.append(Entry('cmb1', 'HAWCStab2CmbFile', 'a.cmb', {'a.cmb': CMB.encode()}))
    E.append(Entry('cmb2', 'HAWCStab2CmbFile', 'a.cmb', {'a.cmb': CMB2.encode()}))
    E.append(Entry('mann1', 'MannBoxFile', 'a_2x3x4.u', {'a_2x3x4.u': (np.arange(24) * 0.5).astype('<f4').tobytes()}))
    E.append(Entry('mann2', 'MannBoxFile', 'b.u', {'b.u': (np.arange(8) * -0.5).astype('<f4').tobytes()}, dict(N=(2, 2, 2), dy=2., dz=3., y0=1., z0=5., zMid=90.)))
    E += _ex('FLEXBladeFile', 'FLEXBlade*')
    E += _ex('FLEXProfileFile', '*.pro')
    E += _ex('FLEXOutFile', 'FLEXOut*')
    E += _ex('FLEXWaveKinFile', '*.wko')
    E += _ex('FLEXDocFile', 'FLEXDoc*')
    E += _ex('BModesOutFile', 'BModes*')
    E += _ex('ROSCOPerformanceFile', 'Rosco*')
    E.append(Entry('rosco2', 'ROSCOPerformanceFile', 'r.txt', {'r.txt': rosco(3, 2).encode()}))
    E.append(Entry('nc1', 'NetCDFFile', 'a.nc', {'a.nc': netcdf({'u': [1., 2., 3.], 'w': [[1., 2.], [3., 4.]]})}))
    E.append(Entry('nc2', 'NetCDFFile', 'a.nc', {'a.nc': netcdf({'v': [5., 6.]})}))
    E += _ex('VTKFile', '*.vtk')
    E.append(Entry('tdms1', 'TDMSFile', 'a.tdms', {'a.tdms': tdms([('g', ['c1', 'c2'])], 4)}))
    E.append(Entry('tdms2', 'TDMSFile', 'a.tdms', {'a.tdms': tdms([('h', ['d1'])], 3)}))
    E += _ex('ParquetFile', '*.parquet')
    E.append(Entry('parquet2', 'ParquetFile', 'p.parquet', {'p.parquet': parquet(pd.DataFrame({'x': [1., 2.]}))}))
    E.append(Entry('cactus1', 'CactusFile', 'a.in', {'a.in': CAC.encode(), 'geom/a.geom': GEOM.encode(), 'output/a_TimeData.csv': cactus().encode()}))
    E.append(Entry('cactus2', 'CactusFile', 'a.in', {'a.in': CAC.replace('120.0', '60.0').encode(), 'geom/a.geom': GEOM.replace('6.5', '3.0').encode(), 'output/a_TimeData.csv': cactus(5, 3, .5).encode()}))
    E.append(Entry('mat1', 'RAAWMatFile', 'a.mat', {'a.mat': raaw([('f1', True, 1.), ('s1', False, 2.), ('f2', True, 3.)])}))
    E.append(Entry('mat2', 'RAAWMatFile', 'a.mat', {'a.mat': raaw([('g1', True, -1.), ('r1', False, -2.)])}))
    E += more(E)
    _ALL = E
    return E


def more(E):
    """ second files for formats with a single example, made by editing the example """
    out = []
    by = {}
    for e in E:
        by.setdefault(e.cls, []).append(e)

    def v(cls, tag, fn):
        out.append(variant(by[cls][0], tag, fn))
    v('FASTSummaryFile', 'moved', lambda b: b.replace(b'-6.000', b'-9.000'))
    v('TurbSimTSFile', 'short', lambda b: lines(b, lambda i: i < len(b.splitlines()) - 3))
    v('HAWC2PCFile', 'oneset', pc_one)
    v('HAWC2AEFile', 'oneset', lambda b: b'1\n1 3 setname\n 0.0 1.0 100.0 1\n 5.0 2.0 50.0 1\n 10.0 0.5 20.0 1\n')
    v('HAWCStab2PwrFile', 'short', lambda b: lines(b, lambda i: i < 5))
    v('FLEXWaveKinFile', 'short', lambda b: lines(b, lambda i: i < len(b.splitlines()) - 4))
    v('BModesOutFile', 'short', lambda b: lines(b, lambda i: i < 17))
    v('VTKFile', 'other', lambda b: VTK2.encode())
    v('FLEXDocFile', 'short', lambda b: lines(b, lambda i: i < len(b.splitlines()) // 2))
    return out


def pc_one(b):
    return b'1 one\n2\n1 3 24.1 a\n-180. 0. 0.1 0.\n0. 0.5 0.01 0.1\n180. 0. 0.1 0.\n2 2 100.0 b\n-180. 0. 0.6 0.\n180. 0. 0.6 0.\n'


def by_class():
    out = {}
    for e in entries():
        out.setdefault(e.cls, []).append(e)
    return out
