"""C07: delimited text tables"""
import os
from ..core import Violation
from ..util import *

INFO = dict(bounds='0 to 150 comment lines, 1 to 101 columns, 1 to 150 rows; all combinations of separator (comma, semicolon, tab, blanks), heading (none, comment lines, names inside comments), names (none, plain, with units, with blanks), units line, encoding (utf-8, with BOM, utf-16), line ends, last line end, 1..3 columns x 1..3 rows, value kinds (integers, reals, missing, text, blanks in text), detected or described by options; tables of 0..3 rows x 1..3 columns written in every layout and read back')

NAMES = {'plain': ['Time', 'Speed', 'Power'], 'units': ['t_[s]', 'V_[m/s]', 'P_[kW]'], 'blank': ['the time', 'wind speed', 'el power'],
         'digits': ['t1', '2nd', 'c3'], 'accent': ['T_[°C]', 'Vé', 'µ']}
UNITS = [None, ['(s)', '(m/s)', '(-)'], ['[s]', '[m/s]', '[-]'], ['[s]', '-', '(kW)']]
VALS = {
    'int': [[1, 20, 3], [4, -5, 6], [7, 8, 0]],
    'real': [[0.5, -1.25e-7, 3e10], [1.5, 2.0, -0.0], [2.5, 12345.678901, 7.0]],
    'missing': [[1.0, None, 3.0], [2.0, 5.0, None], [3.0, None, 7.5]],
    'first missing': [[None, 2.0, 3.0], [1.5, 5.0, 4.0], [None, 3.0, 7.5]],
    'text': [['ab', 1.5, 2.5], ['cd', 2.5, 4.5], ['e', 3.5, 6.5]],
    'text last': [[1.5, 2.5, 'ab'], [2.5, 3.5, 'cd'], [3.0, 4.0, 'x-1']],
    'blank text': [['a b', 1.5, 2.5], ['c', 2.5, 4.5], ['d e f', 3.5, 6.5]],
}
SEPS = {'comma': ',', 'semi': ';', 'tab': '\t', 'blank': ' ', 'blanks': '   ', 'comma blank': ', '}


def cell(v):
    return '' if v is None else (v if isinstance(v, str) else repr(v))


def table(kind, nr, nc):
    rows = VALS[kind]
    if kind == 'text last':
        rows = [r[3 - nc:] for r in rows]
    return [r[:nc] for r in rows[:nr]]


def same(ch, df, names, rows, what):
    ch.eq([str(c) for c in df.columns], list(names), what + ': column names')
    ch.eq(list(df.shape), [len(rows), len(names)], what + ': shape')
    for j, n in enumerate(names):
        got = list(df.iloc[:, j].values)
        for i, r in enumerate(rows):
            w, g = r[j], got[i]
            if w is None:
                ok = isinstance(g, float) and np.isnan(g)
            elif isinstance(w, str):
                ok = isinstance(g, str) and g.strip() == w   # blanks around a cell are not specified
            else:
                ok = not isinstance(g, str) and abs(float(g) - w) <= 1e-14 * abs(w)
            ch.check(ok, '%s: row %d of %r is %r instead of %r' % (what, i, n, g, w))


def text(sep, names, units, rows, pre, eol, last):
    s = SEPS[sep]
    L = list(pre)
    if names:
        L.append(s.join(names))
    if units:
        L.append(s.join(units))
    for r in rows:
        L.append(s.join(cell(v) for v in r))
    return eol.join(L) + (eol if last else '')


def amb(sep, nk, vk, nc, nr, names):
    """ layouts where the text does not say what the table is: not in the domain """
    if sep in ('blank', 'blanks') and (nk == 'blank' or 'missing' in vk or vk == 'blank text'):
        return True
    if sep == 'comma blank' and ('missing' in vk):
        return True
    if nc == 1 and ('missing' in vk or nk == 'blank' or vk == 'blank text'):
        return True    # one column: no separator in the line
    if not names and vk in ('text', 'blank text', 'text last'):
        return True    # is the first line a row or the names?
    if sep == 'tab' and 'missing' in vk and nc < 3:
        return True
    if not names and vk == 'first missing':
        return True    # (; at the start of the first line is a comment)
    return False


def K():
    from weio.csv_file import CSVFile
    return CSVFile


def enc_(s, e):
    return s.encode({'utf-8': 'utf-8', 'bom': 'utf-8-sig', 'utf-16': 'utf-16'}[e])


def opener(ch, fn, kw):
    if ch.pick('opened with', ['class', 'weio.read']) == 'class' or kw:
        return K()(fn, **kw)
    import weio
    f = weio.read(fn)
    ch.check(type(f).__name__ == 'CSVFile', 'read as %s' % type(f).__name__)
    return f


def h_layout(ch):
    """ separator x names x units x size x values, detected """
    sep = ch.pick('sep', list(SEPS))
    nk = ch.pick('names', ['plain', 'units', 'blank', 'digits', 'accent', None])
    vk = ch.pick('values', list(VALS))
    nc, nr = ch.pick('columns', [1, 2, 3]), ch.pick('rows', [1, 2, 3])
    if amb(sep, nk, vk, nc, nr, nk):
        return
    units = ch.pick('units line', UNITS) if nk in ('plain', 'blank') and sep != 'x' else None
    if units and units[1] == '-' and nc != 3:
        return     # (units are recognised by their brackets)
    names = NAMES[nk][:nc] if nk else None
    rows = table(vk, nr, nc)
    pre = ch.pick('before', [[], ['# a comment', '# another one, with; all\tseparators here']])
    if not nk and pre:
        if nc == 1:
            return
        pre = ['#comment', '#a,b,c,d,e;f;g;h;i']   # (a comment with as many fields as the rows may be the column names)
    s = text(sep, names, units[:nc] if units else None, rows, pre, '\n', True)
    put('a.csv', s)
    f = opener(ch, 'a.csv', {})
    ch.op()
    if names and units:
        want = [a + '_' + b for a, b in zip(names, units)]
    else:
        want = names or ['C%d' % i for i in range(nc)]
    same(ch, f.toDataFrame(), want, rows, repr(s))
    ch.state(s)


def h_encoding(ch):
    sep = ch.pick('sep', list(SEPS))
    e = ch.pick('encoding', ['utf-8', 'bom', 'utf-16'])
    nk = ch.pick('names', ['plain', 'accent', None])
    nc, nr = ch.pick('columns', [1, 2, 3]), ch.pick('rows', [1, 2, 3])
    vk = ch.pick('values', ['int', 'real', 'text'])
    eol = ch.pick('line end', ['\n', '\r\n'])
    last = ch.pick('last line ends', [True, False])
    if amb(sep, nk, vk, nc, nr, nk):
        return
    if not nk and nc == 1:
        return
    pre = ch.pick('before', [[], ['! header'], ['# a comment with °, é, µ', '#b']])
    if not nk and len(pre) == 2:
        pre = ['#°é', '#']
    rows = table(vk, nr, nc)
    s = text(sep, NAMES[nk][:nc] if nk else None, None, rows, pre, eol, last)
    put('a.csv', enc_(s, e))
    f = opener(ch, 'a.csv', {})
    ch.op()
    same(ch, f.toDataFrame(), NAMES[nk][:nc] if nk else ['C%d' % i for i in range(nc)], rows, repr(s))
    ch.eq(list(f.header), pre, 'comment lines')
    ch.state(s, e)


def h_pad(ch):
    """ a character beyond ascii at every position around the bytes looked at to guess the encoding """
    n = ch.pick('position', range(0, 80))
    c = ch.pick('character', ['°', 'é', '日', 'µ'])
    s = 'a' * n + c + ',b\n1,2\n3,4.5\n'
    put('a.csv', s)
    f = K()('a.csv')
    ch.op()
    same(ch, f.toDataFrame(), ['a' * n + c, 'b'], [[1, 2], [3, 4.5]], repr(s))
    f.write('b.csv')
    same(ch, K()('b.csv').toDataFrame(), ['a' * n + c, 'b'], [[1, 2], [3, 4.5]], 'written ' + repr(s))
    ch.state(s)


def h_options(ch):
    """ the layout is described by options """
    sep = ch.pick('sep', ['comma', 'semi', 'tab', 'blank', 'blanks'])
    nc, nr = ch.pick('columns', [1, 2, 3]), ch.pick('rows', [1, 2, 3])
    vk = ch.pick('values', ['int', 'real', 'text', 'missing'])
    head = ch.pick('heading', ['none', 'comment', 'free lines', 'names in comments', 'names first'])
    how = ch.pick('described', ['sep', 'sep detected'])
    who = ch.pick('column names', ['in file', 'given', 'none', 'detect off'])
    if 'missing' in vk and (sep in ('blank', 'blanks') or nc == 1 or sep == 'tab' and nc < 3):
        return
    if who in ('none',) and vk in ('text',):
        return
    kw = {}
    if how == 'sep':
        kw['sep'] = {'comma': ',', 'semi': ';', 'tab': '\t', 'blank': ' ', 'blanks': r'\s+'}[sep]
    names = NAMES['plain'][:nc]
    rows = table(vk, nr, nc)
    s0 = SEPS[sep]
    pre, infile = [], None
    if head == 'comment':
        pre = ['% one', '% two; with, separators']
        kw['commentChar'] = '%'
    elif head == 'free lines':
        pre = ['This file', 'was made by hand']
        kw['commentLines'] = [0, 1]
    elif head == 'names in comments':
        if who != 'in file':
            return
        pre = ['#intro', '#' + s0.join(names), '#more text']
        kw['colNamesLine'] = -2
        kw['commentChar'] = '#'
    elif head == 'names first':
        if who != 'in file':
            return
        pre = [s0.join(names), 'a line between', 'another one']
        kw['colNamesLine'] = 0
        kw['commentLines'] = [1, 2]
    if who == 'in file' and head in ('none', 'comment', 'free lines'):
        infile = names
        if ch.flag('names line given'):
            kw['colNamesLine'] = len(pre)
    want = names
    if who == 'given':
        want = kw['colNames'] = ['A%d' % i for i in range(nc)]
    elif who == 'none':
        if nc == 1 and pre:
            return
        pre = {'comment': ['%comment', '%a,b,c,d;e;f;g'], 'free lines': ['This', 'file']}.get(head, pre)
        want = ['C%d' % i for i in range(nc)]
    elif who == 'detect off':
        want = ['C%d' % i for i in range(nc)]
        kw['detectColumnNames'] = False
    given = list(want)
    s = text(sep, infile, None, rows, pre, '\n', True)
    put('a.csv', s)
    kw0 = cp(kw)
    if ch.pick('opened with', ['class', 'weio.read']) == 'class':
        f = K()('a.csv', **kw)
    else:
        import weio
        f = weio.read('a.csv', fileformat=[x for x in weio.fileFormats() if x.name == 'CSV file'][0], **kw)
    ch.op()
    same(ch, f.toDataFrame(), given, rows, repr((s, kw0)))
    ch.eq(kw, kw0, 'options after reading')
    if head != 'names first' and head != 'none':
        ch.eq(list(f.header), pre, 'comment lines of ' + repr((s, kw0)))
    ch.state(s, repr(sorted(kw0)))


def h_ragged(ch):
    """ a row with more cells than the others: the file is refused, no row or cell is dropped """
    sep = ch.pick('sep', list(SEPS))
    nc, nr = ch.pick('columns', [2, 3, 4]), ch.pick('rows', [2, 3, 4])
    k = ch.pick('long row', range(1, nr))
    more = ch.pick('cells too many', [1, 2, 5])
    named = ch.flag('names')
    how = ch.pick('described', ['detected', 'sep'])
    rows = [[i + 10 * j + 0.5 for j in range(nc + (more if i == k else 0))] for i in range(nr)]
    s = text(sep, ['c%d' % j for j in range(nc)] if named else None, None, rows, [], '\n', True)
    put('a.csv', s)
    kw = {'sep': {'comma': ',', 'semi': ';', 'tab': '\t', 'comma blank': ','}.get(sep, r'\s+')} if how == 'sep' else {}
    r = outcome(K(), 'a.csv', **kw)
    ch.op()
    if r[0] == 'ok':
        ch.check(len(r[1].toDataFrame()) == nr and r[1].toDataFrame().shape[1] == nc + more, 'row %d of %r has %d cells too many, but the table is %r' % (k, s, more, r[1].toDataFrame()))
    ch.state(s)


def h_many(ch):
    """ many comment lines, rows and columns """
    n = ch.pick('comment lines', [0, 9, 10, 11, 12, 99, 100, 101, 150])
    nc = ch.pick('columns', [1, 2, 12, 101])
    nr = ch.pick('rows', [1, 2, 150])
    sep = ch.pick('sep', ['comma', 'tab', 'blank'])
    how = ch.pick('described', ['detected', 'comment character', 'comment lines', 'names line', 'names given', 'names in comments'])
    s0 = SEPS[sep]
    pre = ['# line %d' % i for i in range(n)]
    rows = [[i + 1000 * j + 0.5 for j in range(nc)] for i in range(nr)]
    names = ['c%d' % j for j in range(nc)]
    kw, want, infile = {}, names, names
    if how != 'detected' and n > 99 and nr == 150:
        return
    if how == 'comment character':
        kw = dict(commentChar='#')
    elif how == 'comment lines':
        pre = ['line %d' % i for i in range(n)]
        kw = dict(commentLines=list(range(n)))
    elif how == 'names line':
        kw = dict(colNamesLine=n, commentChar='#')
    elif how == 'names given':
        want = ['g%d' % j for j in range(nc)]
        kw = dict(colNames=list(want))
        infile = None
    elif how == 'names in comments':
        if n == 0:
            return
        pre[-1] = '# ' + s0.join(names)
        kw = dict(colNamesLine=-1, commentChar='#')
        infile = None
    put('a.csv', text(sep, infile, None, rows, pre, '\n', True))
    f = K()('a.csv', **kw)
    ch.op()
    w = '%d comment lines, %d columns, %d rows, %s %s' % (n, nc, nr, sep, how)
    same(ch, f.toDataFrame(), want, rows, w)
    ch.eq(list(f.header), pre, w + ': comment lines')
    f.write('b.csv')
    if how == 'detected':
        g = K()('b.csv')
        same(ch, g.toDataFrame(), want, rows, w + ' written')
        ch.eq(list(g.header), pre, w + ': comment lines written')
    ch.state(w)


def h_write(ch):
    """ tables given by the user, written and read back """
    sep = ch.pick('sep', [None, ',', ';', '\t', ' ', r'\s+'])
    nk = ch.pick('names', ['plain', 'units', 'blank', 'accent'])
    vk = ch.pick('values', list(VALS) + ['long'])
    nc, nr = ch.pick('columns', [1, 2, 3]), ch.pick('rows', [0, 1, 2, 3])
    header = ch.pick('header', [None, ['# made by me', '#,;']])
    blanks = sep in ('\t', ' ', r'\s+')
    if vk == 'long':
        rows = [[0.1 + 0.2, 1e-300, 123456789.123456789], [1 / 3., -2e300, 5e-324], [np.pi, 1.0, 2 ** 53 + 0.0]]
        rows = [r[:nc] for r in rows[:nr]]
    else:
        rows = table(vk, nr, nc)
    if nc == 1 and (nk == 'blank' or vk == 'blank text' or vk.endswith('missing')):
        return
    if sep == ' ' and (nk == 'blank' or vk == 'blank text'):
        return
    df = pd.DataFrame({n: [r[j] for r in rows] for j, n in enumerate(NAMES[nk][:nc])}, columns=NAMES[nk][:nc])
    ref = df.copy(deep=True)
    f = K()(**({} if sep is None else {'sep': sep}), **({} if header is None else {'header': header}))
    f.data = df
    f.write('a.csv')
    ch.op()
    ch.eq(f.data, ref, 'table after writing')
    g = K()('a.csv')
    ch.op()
    w = 'sep=%r: %r' % (sep, get('a.csv'))
    same(ch, g.toDataFrame(), NAMES[nk][:nc], rows, w)
    ch.eq(list(g.header), header or [], w + ': comment lines')
    # edit, write, read back
    if nr:
        k = ch.pick('edit', ['none', 'value', 'row', 'column'])
        d = g.data.copy()
        rows2 = cp(rows)
        names2 = list(NAMES[nk][:nc])
        if k == 'value':
            j = nc - 1 if not isinstance(rows[0][nc - 1], str) else 0
            if isinstance(rows[0][j], str):
                return
            d.iloc[0, j] = 42.5 if vk != 'int' else 42
            rows2[0][j] = 42.5 if vk != 'int' else 42
        elif k == 'row':
            d = pd.concat([d, d.iloc[[0]]], ignore_index=True)
            rows2.append(list(rows2[0]))
        elif k == 'column':
            d['New_[-]'] = np.arange(nr) + 0.5
            names2.append('New_[-]')
            for i, r in enumerate(rows2):
                r.append(i + 0.5)
        g.data = d
        g.write('b.csv')
        ch.op()
        same(ch, K()('b.csv').toDataFrame(), names2, rows2, 'edit %s: %r' % (k, get('b.csv')))
    ch.state(w)


def harnesses(tier):
    return [('layouts', h_layout), ('encodings', h_encoding), ('positions', h_pad), ('options', h_options), ('written', h_write), ('many', h_many), ('ragged', h_ragged)]
