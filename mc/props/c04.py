"""C04: queries do not change file objects"""
import os
import shutil
import tempfile
import numpy as np
from ..core import Violation
from ..util import *
from .. import corpus, obs

INFO = dict(bounds='every example file (and generated ones for formats without): all sequences of 3 queries (4 in thorough) out of tables, display, keys, text, and the queries of the format; every query compared with the same query on a new object, then entries, table, files and the written file compared')

# public queries of the formats (an absent one is left out)
Q = {
    'FASTLinearizationFile': ['xdescr', 'xdotdescr', 'ydescr', 'udescr'],
    'FASTSummaryFile': ['getModes', 'toJSON'],
    'TurbSimTSFile': ['columns', 'units', 'toString'],
    'FASTInputFile': ['toString', 'toGraph'],
    'CSVFile': ['encoding'],
    'HAWC2HTCFile': ['bodyNames', 'bodyDict'],
    'TurbSimFile': ['hubValues', 'toDataset', 'fitPowerLaw', '_vertProfile', '_horizProfile', 'crosscorr_y', 'crosscorr_z', 'csd_longi', 'coherence_longi'],
    'MannBoxFile': ['y', 'z', 'vertProfile', 'toDataFrame'],
    'CactusFile': ['omega', 'TSR', 'dt', 'R', 'A', 'U', 'time'],
    'ParquetFile': ['toString'],
    'FLEXProfileFile': ['toString'],
    'HAWC2PCFile': ['toString', 'sets'],
    'HAWC2AEFile': ['toString'],
    'FASTOutputFile': ['writeDataFrame_none'],
}


def scratch(fn, *names):
    """ query that writes beside the model files """
    def go(f):
        d = tempfile.mkdtemp(prefix='mcq')
        try:
            fn(f, os.path.join(d, 'out'))
            return {k: stamp(v).replace(d.encode(), b'<d>') for k, v in tree(d).items()}
        finally:
            shutil.rmtree(d)
    return go


def ymid(f):
    return float(f.y[len(f.y) // 2]), float(f.z[len(f.z) // 2])


# queries with arguments
CALLS = {
    'TurbSimFile': {
        'valuesAt': lambda f: f.valuesAt(*ymid(f)), 'closestPoint': lambda f: f.closestPoint(1e3, -1e3), 'midValues': lambda f: f.midValues(),
        'iMid': lambda f: f.iMid, 'hubValues': lambda f: f.hubValues(), 'hubValues z': lambda f: f.hubValues(zHub=float(f.z[0])),
        'horizontalPlane': lambda f: f.horizontalPlane(), 'horizontalPlane z': lambda f: f.horizontalPlane(z=float(f.z[0]), removeMean=True),
        'horizontalPlane mean': lambda f: f.horizontalPlane(removeMean=True),
        'verticalPlane': lambda f: f.verticalPlane(), 'verticalPlane y': lambda f: f.verticalPlane(y=float(f.y[-1]), removeMean=True),
        'verticalPlane mean': lambda f: f.verticalPlane(removeMean=True),
        'vertProfile': lambda f: f.vertProfile(), 'vertProfile mid': lambda f: f.vertProfile(y_span='mid'),
        'longiline': lambda f: f._longiline(removeMean=True), 'latline': lambda f: f._latline(removeMean=True), 'vertline': lambda f: f._vertline(removeMean=True),
        'crosscorr_y': lambda f: f.crosscorr_y(), 'crosscorr_z': lambda f: f.crosscorr_z(iy0=0, iz0=0),
        'csd_longi': lambda f: f.csd_longi(), 'csd_lat': lambda f: f.csd_lat(), 'csd_vert': lambda f: f.csd_vert(), 'coherence_longi': lambda f: f.coherence_longi(),
        'checkPeriodic': lambda f: f.checkPeriodic(), 'checkPeriodic tol': lambda f: f.checkPeriodic(sigmaTol=0.1, aTol=0.1),
        'fitPowerLaw': lambda f: f.fitPowerLaw()[:2], 'writeInfo': scratch(lambda f, p: f.writeInfo(p)),
        'writeProbes': scratch(lambda f, p: f.writeProbes(p, [0], f.z[:2])),
        'toMannBox': scratch(lambda f, p: f.toMannBox(base=p)), 'toMannBox mean': scratch(lambda f, p: f.toMannBox(base=p, removeAllUMean=True)),
        'toMannBox U': scratch(lambda f, p: f.toMannBox(base=p, removeUConstant=1.5)),
    },
    'MannBoxFile': {
        'valuesAt': lambda f: f.valuesAt(*ymid(f)), 'closestPoint': lambda f: f.closestPoint(1e3, -1e3), 't': lambda f: f.t(2., 10.),
        'y': lambda f: f.y, 'z': lambda f: f.z, 'vertProfile': lambda f: f.vertProfile,
    },
    'HAWC2HTCFile': {
        'input_files': lambda f: [fp(x) for x in f.data.input_files()], 'output_files': lambda f: f.data.output_files(), 'turbulence_files': lambda f: f.data.turbulence_files(),
        'res_file_lst': lambda f: f.data.res_file_lst(), 'compare': lambda f: f.data.compare(corpus.klass('HAWC2HTCFile')(f.filename).data),
        'time': lambda f: f.data.expected_simulation_time(), 'deltat': lambda f: f.data.deltat(), 'text': lambda f: str(f.data),
        'bodyByName': lambda f: [str(f.bodyByName(n)) for n in f.bodyNames], 'bodyC2': lambda f: [f.bodyC2(b) for b in f.bodyDict.values()],
        'items': lambda f: [(s.name_, list(s.keys())) for s in f.data], 'get': lambda f: [str(f.data.get(n, 'none')) for n in ('wind', 'aero', 'dll', 'hydro')],
        'copy': lambda f: str(f.data.new_htc_structure.copy()), 'in': lambda f: ['wind' in f.data, 'simulation' in f.data, 'nothing' in f.data],
        'absent': lambda f: f.data.no_such_section, 'absent item': lambda f: f.data['no_such_section'],
        'shear': lambda f: f.data.get_shear(), 'body': lambda f: str(f.data.new_htc_structure.get_subsection_by_name(f.bodyNames[0])),
    },
    'HAWC2AEFile': {
        'chord': lambda f: f.data.chord(), 'chord r': lambda f: f.data.chord(1.5), 'thickness': lambda f: f.data.thickness(1.5), 'radius_ae': lambda f: f.data.radius_ae(),
        'radius_ae r': lambda f: f.data.radius_ae(1.5), 'pc_set_nr': lambda f: f.data.pc_set_nr(1.5), 'text': lambda f: str(f.data), 'sets': lambda f: f.sets,
    },
    'HAWC2PCFile': {
        'CL': lambda f: f.data.CL(20., 5.), 'CD': lambda f: f.data.CD(20., 5.), 'CM': lambda f: f.data.CM(20., 5.), 'text': lambda f: str(f.data), 'sets': lambda f: f.sets,
    },
    'HAWC2StFile': {
        'm': lambda f: f.data.m(), 'm r': lambda f: f.data.m(1.5), 'E': lambda f: f.data.E(1.5), 'radius_st': lambda f: f.data.radius_st(), 'text': lambda f: f.data.to_str(), 'str': lambda f: str(f.data),
    },
    'CactusFile': {
        'toDataFrame Cactus': lambda f: f.toDataFrame(format='CACTUS'), 'toDataFrame alpha': lambda f: f.toDataFrame(alphaSign=1),
        'timeDataToOpenFAST': lambda f: f.timeDataToOpenFAST(f['dfTime']),
        'values': lambda f: [f.omega, f.TSR, f.dt, f.R, f.A, f.U],
    },
    'FASTInputFile': {
        'getID': lambda f: [f.fixedfile.getID(l) for l in some(f)], 'getIDSafe': lambda f: [f.fixedfile.getIDSafe(l) for l in some(f)], 'getIDs': lambda f: [f.fixedfile.getIDs(l) for l in some(f)],
        'absent': lambda f: f['NoSuchLabel'], 'absentID': lambda f: f.fixedfile.getIDSafe('NoSuchLabel'), 'comment': lambda f: f.comment, 'module': lambda f: f.module,
        'iter': lambda f: [repr(d) for d in f.fixedfile], 'iter twice': lambda f: both(f.fixedfile), 'in': lambda f: ['NoSuchLabel' in f.keys()] + [l in f.keys() for l in some(f)], 'graph': lambda f: graph(f.toGraph()),
        'toString': lambda f: f.toString(),
    },
    'FASTSummaryFile': {
        'getModes': lambda f: f.getModes(maxDisp=1., sortDim=0), 'getModes none': lambda f: f.getModes(sortDim=None), 'graph': lambda f: graph(f.toGraph()),
        'json': scratch(lambda f, p: f.toJSON(p)), 'json none': lambda f: f.toJSON(), 'dof': lambda f: f.NodesDisp(f['DOF___B'].ravel().astype(int)[:6], np.eye(6), maxDisp=1.),
    },
    'FASTLinearizationFile': {
        'short': lambda f: f.short_descr(f['y_info']['Description']), 'short x': lambda f: f.short_descr(f['x_info']['Description']),
        'descr': lambda f: [list(f.xdescr()) if callable(f.xdescr) else list(f.xdescr)],
    },
}


def both(f):
    """ a loop over the entries, with another loop over the same object after its first steps """
    a = [repr(d) for d in f]
    b, n = [], 0
    for d in f:
        b.append(repr(d))
        n += 1
        if n in (1, 3):
            for d2 in f:
                if repr(d2) == a[-1]:
                    break
    if a != b:
        raise Violation('a loop over the entries gives %d of %d after another loop over the same object' % (len(b), len(a)))
    return len(a)


def some(f):
    return [d['label'] for d in f.fixedfile.data[:40:7] if not d['isComment']]


def fp(x):
    return str(x).replace(os.getcwd(), '.')


def query(f, q):
    if isinstance(q, tuple):
        f2 = CALLS[q[0]][q[1]]
        r = obs.res(lambda: f2(f))
        return obs.clean(r, f) if isinstance(r, str) else r
    if q == 'toDataFrame':
        return obs.res(f.toDataFrame)
    if q == 'repr':
        return obs.res(lambda: obs.clean(repr(f), f))
    if q == 'keys':
        return obs.res(lambda: [str(k) for k in f.keys()])
    if q == 'toGraph':
        return obs.res(lambda: graph(f.toGraph()))

    def get_():
        a = getattr(f, q)
        return a() if callable(a) else a
    r = obs.res(get_)
    if isinstance(r, str):
        r = obs.clean(r, f)
    return r


def graph(g):
    return dict(n=[(n.ID, n.x, n.y, n.z, dict(n.data)) for n in g.Nodes], e=[(e.ID, list(e.nodeIDs), dict(e.data)) for e in g.Elements])


def written(f, name):
    """ bytes of what the object writes """
    import re
    d = 'wr_' + name
    os.makedirs(d)
    k, v = outcome(f.write, os.path.join(d, 'out' + os.path.splitext(str(f.filename))[1]))
    if k == 'err':
        return {'error': type(v).__name__}
    return {a: stamp(b) for a, b in tree(d).items()}


def stamp(b):
    """ without the time stamps some formats write """
    import re
    b = re.sub(rb'\d\d-\w\w\w-\d\d\d\d at \d\d:\d\d:\d\d', b'<date>', b)
    b = re.sub(rb'\d\d:\d\d:\d\d *', b'<time>', b)
    b = re.sub(rb'\d\d[:.-]\d\d[:.-]\d\d(\d\d)?', b'<date>', b)
    return re.sub(rb'\w\w\w-\d\d-\d\d ', b'<date> ', b)


def make(cls, es, depth, calls=False):
    def h(ch):
        e = ch.pick('file', es)
        qs = ['toDataFrame', 'repr', 'keys'] + [q for q in Q.get(cls, []) if hasattr(corpus.klass(cls), q) or q in ('getModes', 'toJSON')]
        if calls:
            qs = [(cls, n) for n in CALLS[cls]] + ['toDataFrame', 'repr']
        f = e.read('v')
        t0 = tree('.')
        i0 = obs.items(f)
        fresh = corpus.klass(cls)
        n = depth
        hist = []
        for k in range(n):
            q = ch.pick('query', qs)
            ch.op()
            r = query(f, q)
            hist.append(q)
            if k:   # the first query is on a new object itself
                ref = ref_query(cls, e, q)
                ch.eq(r, ref, '%s %s: %s after %s' % (cls, e.name, q, hist[:-1]))
        ch.check(tree('.') == t0, '%s %s: queries %s changed a file' % (cls, e.name, hist))
        ch.eq(obs.items(f), i0, '%s %s: entries after %s' % (cls, e.name, hist))
        g = fresh(os.path.join('v', e.main), **e.kw)
        ch.eq(obs.content(f), obs.content(g), '%s %s: content after %s' % (cls, e.name, hist))
        if cls not in ('ExcelFile', 'ParquetFile', 'NetCDFFile'):
            ch.eq(written(f, 'a'), written(fresh(os.path.join('v', e.main), **e.kw), 'b'), '%s %s: written file after %s' % (cls, e.name, hist))
        ch.state(cls, e.name, tuple(hist))
    return h


_REF = {}


def ref_query(cls, e, q):
    k = (e.name, q)
    if k not in _REF:
        _REF[k] = query(corpus.klass(cls)(os.path.join('v', e.main), **e.kw), q)
    return _REF[k]


def h_slow(ch):
    pass


def harnesses(tier):
    out = []
    for cls, es in sorted(corpus.by_class().items()):
        d = 3
        if cls in ('TurbSimFile', 'RAAWMatFile', 'ExcelFile'):
            d = 2
        if tier != 'quick':
            d += 1
        if cls == 'HAWC2DatFile' and tier == 'quick':
            es = [e for e in es if 'ascii.sel' not in e.name or 'BHAWC' in e.name]
        out.append((cls, make(cls, es, d)))
        if cls in CALLS:
            out.append((cls + ' calls', make(cls, es, 2 if tier == 'quick' or cls == 'TurbSimFile' else 3, True)))
    return out
