"""C24: Tecplot text tables"""
import os, re
from ..core import Violation
from ..util import *

INFO = dict(bounds='1..3 variables over 9 names, 7 separations, quoted or not, continued over lines at every place; 0..3 rows, 6 number styles; zone headers of up to 3 entries over 6 entries and 4 layouts; auxiliary data; keywords in 3 letter cases; comments and blank lines at every place; written tables of 1..4 columns and 0..5 rows and sizes around the display limits of numpy (999..1001 columns or rows), all precisions; tables of hundreds of variables and rows, histories of read/edit/write/read')

FULL = False


def K():
    from weio.tecplot_file import TecplotFile
    return TecplotFile


NAMES = ['x', 'Alpha_[deg]', 'u[m/s]', 'Cl_[-]', 'P(bar)', 'Wind speed', 'a,b', 'a=b', 'a__b']


def norm(n):
    """ names are compared up to what separates the unit from the name """
    return re.sub(r'[\s_]*([\[(])', r'_\1', str(n))


NUM = {'plain': lambda x: '%.4f' % x, 'exp': lambda x: '%.8E' % x, 'repr': repr, 'int': lambda x: '%d' % round(x), 'plus': lambda x: '%+g' % x, 'wide': lambda x: '%20.12g' % x}


def vals(nr, nc, k=0):
    return np.array([[(-1) ** (i + j) * (1.5 + 3 * i + 0.25 * j + 100 * k) for j in range(nc)] for i in range(nr)]).reshape(nr, nc)


def rows(D, style, sep='  ', lead=''):
    return [lead + sep.join(NUM[style](float(x)) for x in r) for r in D]


def opened(ch, fn, how='class'):
    ch.op()
    if how == 'class':
        return K()(fn)
    import weio
    f = weio.read(fn)
    ch.check(type(f).__name__ == 'TecplotFile', 'opened as %s' % type(f).__name__)
    return f


def check(ch, f, names, D, style=None):
    ch.eq([norm(v) for v in f['variables']], [norm(n) for n in names], 'variables')
    df = f.toDataFrame()
    ch.eq([norm(v) for v in df.columns], [norm(n) for n in names], 'columns')
    W = D if style is None else np.array([[float(NUM[style](float(x))) for x in r] for r in D]).reshape(D.shape)
    ch.eq(df.values.shape, W.shape, 'shape of the table')
    ch.eq(np.asarray(df.values, dtype=float), W, 'values')


def h_variables(ch):
    nc = ch.pick('variables', [1, 2, 3])
    names = [ch.pick('name %d' % j, NAMES) for j in range(nc)]
    if len(set(names)) < nc:
        return
    sep = ch.pick('separation', ['","', '" "', '", "', '"  "', '" , "', '"\n"', '"\t"', 'unquoted'])
    eq = ch.pick('equal sign', [' = ', '=', ' =  ', ' '])
    kw = ch.pick('keyword', ['VARIABLES', 'variables', 'Variables'])
    if not FULL and nc == 3 and (kw != 'VARIABLES' or eq != ' = '):
        return
    if sep == 'unquoted':
        if any(re.search(r'[ ,=]', n) for n in names):
            return
        v = ' '.join(names)
    else:
        v = '"' + sep.join(names) + '"'
    D = vals(2, nc)
    put('a.dat', kw + eq + v + '\n' + '\n'.join(rows(D, 'plain')) + '\n')
    f = opened(ch, 'a.dat')
    check(ch, f, names, D, 'plain')
    f.write('b.dat')
    ch.op()
    g = opened(ch, 'b.dat')
    ch.eq(list(g['variables']), list(f['variables']), 'variables read back')
    ch.eq(g['data'], f['data'], 'data read back')
    ch.state((names, sep))


def h_values(ch):
    nc, nr = ch.pick('variables', [1, 2, 3, 4]), ch.pick('rows', [0, 1, 2, 3])
    style = ch.pick('numbers', list(NUM))
    sep = ch.pick('separation', [' ', '   ', '\t'])
    lead = ch.pick('indent', ['', '  ', '\t'])
    title = ch.pick('title', [None, 'TITLE = "A title = 3"', 'title="x"', 'TITLE     = a b'])
    nl = ch.pick('line ends', ['\n', '\r\n'])
    end = ch.flag('newline at the end')
    extra = ch.pick('extra lines', ['none', 'comments', 'blank lines', 'comment in the data'])
    names = ['v%d' % j for j in range(nc)]
    D = vals(nr, nc)
    L = ([title] if title else []) + ['VARIABLES = ' + ' '.join('"%s"' % n for n in names)] + rows(D, style, sep, lead)
    if extra == 'comments':
        L = ['# a comment 1 2', '# VARIABLES = "wrong"', '#TITLE="wrong"', '#'] + L[:1] + ['  # another', '#"last"'] + L[1:]
    elif extra == 'blank lines':
        L = ['', '   '] + [x for l in L for x in [l, '']]
    elif extra == 'comment in the data':
        L = L + ['# end of the data 1 2']
    put('a.dat', nl.join(L) + (nl if end else ''))
    f = opened(ch, 'a.dat', 'weio' if nr and nc > 1 else 'class')
    check(ch, f, names, D, style)
    if title:
        ch.eq(str(f['title']).strip().strip('"'), title.split('=', 1)[1].strip().strip('"'), 'title')
    f.write('b.dat')
    g = opened(ch, 'b.dat')
    for k in ['variables', 'data'] + (['title'] if title else []):
        ch.eq(g[k], f[k], k + ' read back')
    ch.state((nc, nr, style, title, extra))


ENTRY = [('T', '"zone one"', 'zone one'), ('I', '2', 2.0), ('DATAPACKING', 'POINT', 'POINT'), ('SOLUTIONTIME', '15.5894049', 15.5894049), ('DT', '(SINGLE DOUBLE )', '(SINGLE DOUBLE )'), ('STRANDID', ' 7', 7.0)]
AUX = [('PATH', '"/a/b c"', '/a/b c'), ('NORM_m.s', '"0.28762452E+03 "', 287.62452), ('EXPR', '"y=2*x"', 'y=2*x'), ('N', '3', 3.0), ('EPS', '"-1.23456789E-09"', -1.23456789e-9)]


def h_zone(ch):
    n = ch.pick('entries', [0, 1, 2, 3])
    E = [ch.pick('entry %d' % i, ENTRY) for i in range(n)]
    if len(set(e[0] for e in E)) < n:
        return
    lay = ch.pick('layout', [', ', ' ', '\n ', ',\n'])
    aux = ch.pick('auxiliary data', ['none', 'before', 'after', 'before two'])
    a = [ch.pick('entry', AUX)] if aux != 'none' else []
    if aux == 'before two':
        a += [x for x in AUX if x is not a[0]][:1]
    sp = ch.pick('equal sign', ['=', ' = '])
    kw = ch.pick('keywords', [('ZONE', 'DATASETAUXDATA'), ('zone', 'DatasetAuxData')])
    z = [kw[0] + ' ' + lay.join(k + sp + v.strip() for k, v, _ in E)]
    x = [kw[1] + ' ' + k + sp + v for k, v, _ in a]
    names = ['x', 'y']
    D = vals(3, 2)
    L = ['VARIABLES = "x", "y"'] + (z + x if aux == 'after' else x + z)
    put('a.dat', '\n'.join(L + rows(D, 'plain')) + '\n')
    f = opened(ch, 'a.dat')
    for when in ['', ' read back']:
        check(ch, f, names, D, 'plain')
        ch.eq(dict(f.get('zone', {})), {k: w for k, _, w in E}, 'zone' + when)
        if a:
            ch.eq(dict(f['datasetauxdata']), {k: w for k, _, w in a}, 'auxiliary data' + when)
        f.write('b.dat')
        f = opened(ch, 'b.dat')
    ch.state((E, lay, a))


def h_refuse(ch):
    w = ch.pick('file', ['two zones', 'block', 'block old', 'too few columns', 'too many columns', 'ragged', 'word in the data', 'no variables', 'numbers only', 'title only', 'text'])
    nc = ch.pick('variables', [2, 3])
    D = rows(vals(3, nc), 'plain')
    v = 'VARIABLES = ' + ' '.join('"v%d"' % j for j in range(nc))
    t = {'two zones': [v, 'ZONE T="a"'] + D + ['ZONE T="b"'] + D, 'block': [v, 'ZONE DATAPACKING=BLOCK'] + D, 'block old': [v, 'ZONE I=3, F=BLOCK'] + D,
         'too few columns': [v] + [d.rsplit(' ', 1)[0] for d in D], 'too many columns': [v] + [d + ' 3' for d in D], 'ragged': [v] + D[:1] + [D[1] + ' 3'] + D[2:],
         'word in the data': [v] + D[:2] + [' '.join(['1', 'x', '2'][:nc])], 'no variables': ['TITLE = "x"'] + D, 'numbers only': D, 'title only': ['TITLE = "x"'],
         'text': ['Title of my notes', 'some text']}[w]
    put('a.dat', '\n'.join(t) + '\n')
    e = raises(K(), 'a.dat')
    ch.op()
    ch.check(e is not None, 'accepted')
    ch.check(type(e).__name__ in ['WrongFormatError', 'BrokenFormatError'], 'refused with %s' % type(e).__name__)
    ch.state((w, nc))


def table(nr, nc, kind):
    n = nr * nc
    if kind == 'integers':
        v = (np.arange(n) * 37 - 50)
    elif kind == 'single':
        v = (np.arange(n) * 0.1 - 3).astype('f4')
    elif kind == 'small and large':
        v = np.array([10.0 ** ((7 * i) % 40 - 20) * (1 / 3) * (-1) ** i for i in range(n)])
    elif kind == 'special':
        v = np.array([[np.nan, np.inf, -np.inf, -0.0, 5e-324, 1.7976931348623157e308, 0.1, 1e16][i % 8] for i in range(n)])
    else:
        v = np.arange(n) * 1.23456789012345 - 2
    return np.asarray(v).reshape(nr, nc)


def h_write(ch):
    """ tables made in memory """
    size = ch.pick('size', [(r, c) for r in [0, 1, 2, 3, 5] for c in [1, 2, 3, 4]] + [(2, 6), (2, 7), (7, 2), (2, 20), (1, 75), (1, 300), (1001, 1), (999, 1), (1, 999), (1, 1000), (1, 1001), (400, 3), (3, 400), (2, 1500)])
    kind = ch.pick('values', ['doubles', 'integers', 'single', 'small and large', 'special'])
    header = ch.pick('header', ['none', 'title', 'zone', 'aux'])
    layout = ch.pick('memory', ['rows', 'columns', 'view'])
    D = table(size[0], size[1], kind)
    if layout == 'columns':
        D = np.asfortranarray(D)
    elif layout == 'view':
        D = np.repeat(np.repeat(D, 2, 0), 2, 1)[::2, ::2]
    f = K()()
    f['variables'] = ['c%d' % j if j % 2 else 'c%d_[m/s]' % j for j in range(size[1])]
    f['data'] = D
    if header == 'title':
        f['title'] = '"My title"'
    elif header == 'zone':
        f['zone'] = {'T': 'z 1', 'I': 3.0, 'SOLUTIONTIME': 0.1}
    elif header == 'aux':
        f['datasetauxdata'] = {'A': 1.5, 'B': 'text here'}
    before = D.copy()
    opts = np.get_printoptions()
    f.write('b.dat')
    ch.op()
    ch.eq(np.get_printoptions(), opts, 'printing options of numpy')
    ch.eq(np.asarray(f['data']), before, 'data of the object')
    g = opened(ch, 'b.dat')
    ch.eq(list(g['variables']), list(f['variables']), 'variables')
    ch.eq(np.asarray(g['data']).shape, D.shape, 'size')
    ch.eq(np.asarray(g['data'], dtype=float).astype(D.dtype), D, 'values')
    for k in ['title', 'zone', 'datasetauxdata']:
        ch.eq(g.get(k), f.get(k), k)
    ch.state((size, kind, header))


def h_precision(ch):
    """ the precision asked for """
    p = ch.pick('precision', [1, 2, 3, 4, 5, 6, 8, 10, 12, 15])
    kind = ch.pick('values', ['doubles', 'small and large', 'integers'])
    nr, nc = ch.pick('size', [(1, 1), (3, 2), (2, 4), (2, 1100)])
    D = table(nr, nc, kind)
    if kind == 'small and large':
        D = np.sign(D) * 10.0 ** (np.round(np.log10(np.abs(D))) % 3) / 3
    f = K()()
    f['variables'] = ['c%d' % j for j in range(nc)]
    f['data'] = D
    f.write('b.dat', precision=p)
    g = opened(ch, 'b.dat')
    ch.eq(np.asarray(g['data']).shape, D.shape, 'size')
    # p decimals, in plain or in scientific notation
    tol = 0.51 * 10.0 ** -p * np.maximum(1, np.abs(D))
    ch.check(bool(np.all(np.abs(np.asarray(g['data'], dtype=float) - D) <= tol)), 'values differ by more than the precision: %s instead of %s' % (g['data'].tolist(), D.tolist()))
    ch.state((p, kind, nr, nc))


def h_history(ch):
    """ read, edit, write and read again """
    src = ch.pick('file', ['plain', 'zone', 'example 1', 'example 2'])
    if src == 'plain':
        put('a.dat', 'TITLE = "t"\nVARIABLES = "x" "y"\n' + '\n'.join(rows(vals(3, 2), 'repr')) + '\n')
    elif src == 'zone':
        put('a.dat', 'VARIABLES = "x" "y" "z"\nDATASETAUXDATA A="1"\nZONE T="dom", I=3\n' + '\n'.join(rows(vals(3, 3), 'repr')) + '\n')
    else:
        put('a.dat', get(os.path.join(EX, 'TecplotASCII_%s.dat' % src[-1])))
    f = opened(ch, 'a.dat')
    M = {k: (np.array(v) if k == 'data' else (dict(v) if isinstance(v, dict) else (list(v) if isinstance(v, list) else v))) for k, v in f.items()}
    fn = 'a.dat'
    for i in range(3):
        op = ch.pick('step %d' % i, ['scale', 'add row', 'add column', 'rename', 'title', 'write other', 'write same', 'read again', 'stop'])
        if op == 'stop':
            break
        if op == 'scale':
            f['data'] = f['data'] * 1.1
            M['data'] = M['data'] * 1.1
        elif op == 'add row':
            r = np.arange(M['data'].shape[1]) * 1.5
            f['data'] = np.vstack([f['data'], r])
            M['data'] = np.vstack([M['data'], r])
        elif op == 'add column':
            c = np.arange(len(M['data'])) - 0.5
            f['data'] = np.column_stack([f['data'], c])
            f['variables'] = f['variables'] + ['new%d_[-]' % i]
            M['data'] = np.column_stack([M['data'], c])
            M['variables'] = M['variables'] + ['new%d_[-]' % i]
        elif op == 'rename':
            f['variables'][0] = 'ren%d' % i
            M['variables'][0] = 'ren%d' % i
        elif op == 'title':
            f['title'] = M['title'] = '"T%d"' % i
        elif op.startswith('write'):
            fn = 'b%d.dat' % i if op == 'write other' else fn
            f.write(fn)
            g = opened(ch, fn)
            for k in M:
                ch.eq(g.get(k), M[k], k + ' read back')
        else:
            f.write('c.dat')
            f.read('c.dat')
            fn = 'c.dat'
        ch.op()
        for k in M:
            ch.eq(f.get(k), M[k], k + ' after ' + op)
        df = f.toDataFrame()
        ch.eq(list(df.columns), M['variables'], 'columns')
        ch.eq(np.asarray(df.values), M['data'], 'table')
    ch.state((src, M['variables'], M['data']))


def h_sections(ch):
    """ sections that are kept as they are """
    S = ['TEXT X=50, Y=50, T="Some text"', 'GEOMETRY X=1, Y=2, T=CIRCLE', 'CUSTOMLABELS "Jan", "Feb"', 'VARAUXDATA 1 Unit="m"']
    n = ch.pick('sections', [1, 2, 3])
    U = []
    for i in range(n):
        U.append(ch.pick('section %d' % i, [s for s in S if s not in U]))
    cont = ch.flag('continued')
    case = ch.flag('lower case')
    where = ch.pick('zone', ['none', 'before', 'after'])
    k = [s.split()[0] for s in U]
    L = [s.replace(', ', ',\n  ') if cont else s for s in U]
    L = [s.replace(a, a.lower(), 1) if case else s for s, a in zip(L, k)]
    z = ['ZONE T="dom", I=3']
    D = vals(3, 2)
    put('a.dat', '\n'.join(['VARIABLES = "x" "y"'] + (z if where == 'before' else []) + L + (z if where == 'after' else []) + rows(D, 'plain')) + '\n')
    f = opened(ch, 'a.dat')
    for when in ['', ' read back', ' read back twice']:
        check(ch, f, ['x', 'y'], D, 'plain')
        for a, s in zip(k, U):
            ch.eq(' '.join(str(f[a.lower()]).split()), s[len(a):].strip(), 'section %s%s' % (a, when))
        ch.eq(dict(f.get('zone', {})), {'T': 'dom', 'I': 3.0} if where != 'none' else {}, 'zone' + when)
        f.write('b.dat')
        f = opened(ch, 'b.dat')
    ch.state((U, cont, case, where))


def h_long(ch):
    """ long tables """
    nr = ch.pick('rows', [9999, 65537, 120000])
    nc = ch.pick('variables', [1, 3])
    D = np.arange(nr * nc).reshape(nr, nc) * 0.5
    put('a.dat', 'VARIABLES = ' + ' '.join('"v%d"' % j for j in range(nc)) + '\n' + '\n'.join(' '.join('%.1f' % x for x in r) for r in D) + '\n')
    f = opened(ch, 'a.dat')
    check(ch, f, ['v%d' % j for j in range(nc)], D)
    ch.state((nr, nc))


def h_badwrite(ch):
    w = ch.pick('object', ['no variables', 'data of a wrong kind', 'aux without name'])
    f = K()()
    if w != 'no variables':
        f['variables'] = ['x']
    f['data'] = np.zeros((2, 1)) if w != 'data of a wrong kind' else 3.5
    if w == 'aux without name':
        f['datasetauxdata'] = {3: 'x'}
    put('t.dat', 'previous content')
    e = raises(f.write, 't.dat')
    ch.op()
    ch.check(e is not None, 'written')
    ch.check(get('t.dat') == b'previous content', 'the target was changed by a write that failed')
    ch.state(w)


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('variables', h_variables), ('values', h_values), ('zone', h_zone), ('refuse', h_refuse), ('write', h_write), ('precision', h_precision), ('history', h_history), ('badwrite', h_badwrite), ('sections', h_sections), ('long', h_long)]
