"""observations of file objects, for the cross-format properties"""
import os, re, pickle, sys, copy
import numpy as np
import pandas as pd
from .core import canon, diff, Violation
from .util import outcome


def plain(o, depth=0):
    """ value made of plain python / numpy / pandas, deep copied; other objects give their public content """
    if isinstance(o, pd.DataFrame):
        return o.copy(deep=True)
    if isinstance(o, np.ndarray):
        return o.copy() if o.dtype.kind != 'O' else [plain(x, depth + 1) for x in o]
    if isinstance(o, dict):
        return {str(k): plain(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [plain(x, depth + 1) for x in o]
    if isinstance(o, (str, bytes, bool, int, float, complex, type(None), np.generic)):
        return o
    if isinstance(o, pd.Series):
        return o.values.copy()
    if isinstance(o, (set, frozenset)):
        return sorted(map(str, o))
    t = type(o).__name__
    if t in ('Dataset', 'DataArray'):
        return plain({str(k): np.asarray(o[k].values) for k in o.keys()}) if t == 'Dataset' else np.asarray(o.values).copy()
    if t in ('HTCFile', 'HTCSection') or 'HTC' in t:
        return str(o)
    if depth < 6 and hasattr(o, '__dict__'):
        return {'<%s>' % t: plain({k: v for k, v in vars(o).items() if not k.startswith('_')}, depth + 1)}
    return '<%s>' % t


def clean(s, f):
    """ text without the name of the file, memory addresses and time stamps """
    if getattr(f, 'filename', None):
        s = s.replace(os.path.basename(str(f.filename)), '<FILE>').replace(str(f.filename), '<FILE>')
    return re.sub(r'0x[0-9a-f]+', '0x', s)


def res(fn):
    k, v = outcome(fn)
    if k == 'err':
        return {'error': type(v).__name__}
    return plain(v)


def items(f):
    return plain({k: v for k, v in dict.items(f)}) if isinstance(f, dict) else {}


ATTR = {'VTKFile': ['points', 'point_data', 'cells', 'cell_data', 'xp_grid', 'yp_grid', 'zp_grid', 'point_data_grid'],
        'CSVFile': ['header', 'colNames'], 'FASTOutputFile': ['info'], 'HAWC2DatFile': ['info'], 'FASTInputFile': ['module', 'comment']}


def nofile(o):
    """ plain content without the folder of the file (v, w, ... in the harnesses) """
    if isinstance(o, dict):
        return {k: nofile(v) for k, v in o.items()}
    if isinstance(o, list):
        return [nofile(v) for v in o]
    if isinstance(o, str):
        return re.sub(r'^(v0|v|w|o|p|q)/', '', o)
    return o


def content(f):
    """ what a user gets from the object: entries, data and table """
    d = {'items': items(f)}
    for a in ATTR.get(type(f).__name__, []):
        d[a] = res(lambda: getattr(f, a))
    a = getattr(f, 'data', None) if 'data' in getattr(f, '__dict__', {}) else None
    if a is not None:
        d['data'] = plain(a)
    if type(f).__name__ == 'FASTInputFile':
        d['entries'] = res(lambda: [[x['label'], x['value'], x['descr'], x['isComment'], x['tabType'], x.get('tabColumnNames'), x.get('tabUnits')] for x in f.fixedfile.data])
    d['table'] = res(f.toDataFrame)
    return nofile(d)


def full(f):
    d = content(f)
    d['repr'] = res(lambda: clean(repr(f), f))
    return d


def in_child(fn):
    """ runs fn in a forked process: the history of this process does not count and is not changed """
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = ('ok', fn())
            except Violation as e:
                out = ('viol', (e.msg, e.key))
            except BaseException as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                loc = ' <- '.join('%s:%s' % (os.path.basename(t.filename), t.name) for t in list(reversed(tb))[:4])
                out = ('err', 'unexpected %s: %s [%s]' % (type(e).__name__, str(e)[:300], loc))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(out, f, protocol=4)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        b = f.read()
    os.waitpid(pid, 0)
    if not b:
        raise Violation('the process died')
    k, v = pickle.loads(b)
    if k == 'viol':
        raise Violation(*v)
    if k == 'err':
        raise Violation(v)
    return v
