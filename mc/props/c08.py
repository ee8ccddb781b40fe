"""C08: FAST input files as dictionaries"""
import os
from ..core import Violation
from ..util import *
from .. import corpus, obs

INFO = dict(bounds='every "value label description" entry of every example input file x 7 values (integer, real, tiny and huge real, logical, quoted text with blanks, word, list for lists) set under a label in another case, written and read back with all entries compared; all generated lines of 30 value shapes x 7 labels x 9 descriptions x 3 spacings x 3 positions; labels given 2..3 times; 7 forms of repeated old values; lists of 2..6 elements of 8 forms; 3 of 11 kinds of comment lines; files of many entries, long lists, texts and descriptions; all histories of 4 operations (set, write, write over, read again, add) on 3 files against a reference dictionary')


def K():
    from weio.fast_input_file import FASTInputFile
    return FASTInputFile


def entries(f):
    return [dict(label=d['label'], value=obs.plain(d['value']), descr=d['descr'], com=d['isComment'], tab=d['tabType'], cols=d.get('tabColumnNames'), units=d.get('tabUnits')) for d in f.fixedfile.data]


def nd(s):
    return s.strip().strip('-').strip()


def cmp_entries(ch, got, want, what):
    ch.eq([e['label'] for e in got], [e['label'] for e in want], what + ': labels')
    for i, (g, w) in enumerate(zip(got, want)):
        t = '%s: entry %d (%s)' % (what, i, w['label'])
        if w['com']:
            ch.eq(str(g['value']).rstrip(), str(w['value']).rstrip(), t)
            continue
        if type(g['value']) is not type(w['value']) and not (isinstance(g['value'], (int, float)) and isinstance(w['value'], (int, float)) and not isinstance(g['value'], bool) and not isinstance(w['value'], bool)):
            raise Violation('%s: %r instead of %r' % (t, g['value'], w['value']))
        ch.eq(g['value'], w['value'], t, None if w['tab'] in (0, 3) else (1e-7, 1e-300))
        if w['tab'] in (0, None):
            ch.eq(nd(g['descr']), nd(w['descr']), t + ' description')
        else:
            ch.eq([g['cols'], g['units']], [w['cols'], w['units']], t + ' headings')


# entries that say how the rest of the file is laid out
LAYOUT = ['numtabs', 'numcoords', 'kp_total', 'member_total', 'numfoil', 'numaffiles', 'station_total', 'numblnds', 'nmoutputs', 'njoutputs', 'usedynamicstall', 'numalf', 'nguyandampsize', 'guyandampsize', 'ngridout']
VALUES = [7, -12.5, 1.23456789012345e-30, 98765432.125, 'flip', '"two words.dat"', 'word']


def h_example(ch):
    es = [e for e in corpus.by_class()['FASTInputFile'] if '#' not in e.name]
    e = ch.pick('file', [x for x in es if not x.name.startswith(('FASTIn_AD14_arf', 'FASTIn_ExtPtfm'))])   # (tables only)
    f = e.read('v')
    w0 = entries(f)
    dims = {str(d.get('tabDimVar')).lower() for d in f.fixedfile.data if d.get('tabDimVar') is not None} | set(LAYOUT)
    skip = set(getattr(f.fixedfile, '_IComment', []))
    cand = [i for i, d in enumerate(w0) if not d['com'] and d['tab'] == 0 and i > 1 and i not in skip and d['label'].strip('-!') and not isinstance(d['value'], dict)
            and d['label'].lower() not in dims and d['label'].rstrip('_123').lower() not in dims]
    # labels that occur once
    low = [d['label'].lower() for d in w0]
    cand = [i for i in cand if low.count(low[i]) == 1]
    if e.name.startswith('FASTIn_BD') and 'bld' not in e.name:
        cand = [i for i in cand if not isinstance(w0[i]['value'], str) or ' ' not in w0[i]['value']]
    if not cand:
        return
    i = ch.pick('entry', cand)
    lab = w0[i]['label']
    old = w0[i]['value']
    v = ch.pick('value', VALUES)
    if isinstance(old, list):
        v = {7: [7, 8], -12.5: [-12.5, 3, 4.25], 'flip': [True, False]}.get(v, [1, 2, 3, 4])
        if lab == 'AirfoilRefPoint' and (len(v) != 2 or v[0] is True):
            return    # a point
    elif v == 'flip':
        v = not old if isinstance(old, bool) else True
    if f.module == 'EDBlade' and isinstance(v, (str, bool)) and not isinstance(old, (str, bool)):
        return    # the writer adds the coefficients of the mode shapes
    # other labels are not in the way
    if any(j < i and low[j] == lab.lower() for j in range(i)):
        return
    f[lab.swapcase() if ch.flag('other case') else lab] = v
    ch.op()
    ch.eq(f[lab], v, '%s: f[%r]' % (e.name, lab))
    ch.eq(f[lab.upper()], v, '%s: f[%r]' % (e.name, lab.upper()))
    w1 = cp(w0)
    w1[i]['value'] = v
    cmp_entries(ch, entries(f), w1, '%s after setting %s' % (e.name, lab))
    f.write('v/out.dat')
    ch.op()
    cmp_entries(ch, entries(f), w1, '%s after writing' % e.name)
    g = K()('v/out.dat')
    ch.op()
    cmp_entries(ch, entries(g), w1, '%s with %s=%r, read back' % (e.name, lab, v))
    if g.module != f.module:
        raise Violation('%s with %s=%r: module %s instead of %s' % (e.name, lab, v, g.module, f.module))
    ch.state(e.name, lab, repr(v))


VAL = [('1', 1), ('-3', -3), ('+2', 2), ('0', 0), ('007', 7), ('1.5', 1.5), ('-1e-3', -1e-3), ('1E+5', 1e5), ('.5', 0.5), ('5.', 5.0), ('123456789012', 123456789012),
       ('True', True), ('FALSE', False), ('t', True), ('F', False), ('"text"', '"text"'), ('"a b c"', '"a b c"'), ('""', '""'), ('"1.5"', '"1.5"'), ('"x, y"', '"x, y"'),
       ('default', 'default'), ('DEFAULT', 'DEFAULT'), ('../a/b.dat', '../a/b.dat'), ('@file', '@file'), ('1,2,3', [1, 2, 3]), ('1, 2', [1, 2]), ('0.5 , -1e3', [0.5, -1e3]),
       ('True, False', [True, False]), ('3, 3, 3', [3, 3, 3]), ('10, 1, 0', [10, 1, 0]), ('"a.dat", "b c.dat"', '"a.dat", "b c.dat"')]
LAB = ['TMax', 'BldFile(1)', 'Tip_Rad', 'DT_Out2', 'X', 'a-b', 'Endo']
DESC = ['- Total run time (s)', 'no dash here', '', '- a, b, 1, 2', '- "quoted" {1: x; 2=y} [0, inf)', '! remark', '- True/false 3 4', '-', '- 5']
SPACE = ['{} {} {}', '     {}\t{}      {}  ', '{}\t\t{}\t{}']
FILL = ['%d   Filler%d   - filler %d' % (k, k, k) for k in range(10)]


def h_lines(ch):
    vt, v = ch.pick('value', VAL)
    lab = ch.pick('label', LAB)
    d = ch.pick('description', DESC)
    sp = ch.pick('spacing', SPACE)
    pos = ch.pick('position', [0, 5, 10])
    L = ['------- Some FAST INPUT FILE -----------', 'A heading', '---------------------- SECTION -----------------']
    body = FILL[:pos] + [sp.format(vt, lab, d)] + FILL[pos:]
    put('a.dat', '\n'.join(L + body) + '\n')
    f = K()('a.dat')
    ch.op()
    line = repr(body[pos])
    got = entries(f)
    n = len(L)
    ch.check(len(got) == len(L + body), '%s: %d entries instead of %d' % (line, len(got), len(L + body)))
    for g in (f[lab], f[lab.lower()], f[lab.upper()], got[n + pos]['value']):
        ch.check(type(g) is type(v) and g == v, '%s: read as %r' % (line, g))
        if isinstance(v, list):
            ch.check([type(x) for x in g] == [type(x) for x in v], '%s: read as %r' % (line, g))
    ch.eq(got[n + pos]['label'], lab, line + ': label')
    ch.eq(got[n + pos]['descr'].split(), d.split(), line + ': description')
    for k in range(10):
        ch.eq(f['filler%d' % k], k, line + ': another entry')
    f['Filler3'] = 33
    f.write('b.dat')
    ch.op()
    want = cp(got)
    for w in want:
        if w['label'] == 'Filler3':
            w['value'] = 33
    cmp_entries(ch, entries(K()('b.dat')), want, line + ' read back')
    ch.state(line, v)


def file_of(body):
    return '\n'.join(['------- Some FAST INPUT FILE -----------', 'A heading', '---------------------- SECTION -----------------'] + FILL + body + ['%d   Tail%d   - tail' % (k, k) for k in range(6)]) + '\n'


def around(ch, f, what):
    for k in range(10):
        ch.eq(f['Filler%d' % k], k, what + ': entry before')
    for k in range(6):
        ch.eq(f['Tail%d' % k], k, what + ': entry after')


def h_twice(ch):
    """ labels that occur several times: the first is given, all are set """
    n = ch.pick('times', [2, 3])
    labs = [ch.pick('case', ['Dup', 'DUP', 'dup']) for _ in range(n)]
    gap = ch.pick('between', [0, 1])
    vals = [ch.pick('value', [1, 2.5, '"a"']) for _ in range(n)]
    L = []
    for i in range(n):
        L += ['%s  %s  - number %d' % (vals[i], labs[i], i)] + ['%d  Gap%d  - gap' % (i, i)] * gap
    put('a.dat', file_of(L))
    f = K()('a.dat')
    ch.op()
    w = repr(list(zip(labs, vals)))
    def all_(f):
        return [d['value'] for d in f.fixedfile.data if d['label'].lower() == 'dup']
    ch.eq(f['dUp'], vals[0], w + ': first')
    ch.eq(all_(f), vals, w)
    f.write('b.dat')
    g = K()('b.dat')
    ch.eq(all_(g), vals, w + ' read back')
    g['dUp'] = 77
    ch.op()
    ch.eq(all_(g), [77] * n, w + ' set')
    around(ch, g, w)
    g.write('c.dat')
    h = K()('c.dat')
    ch.eq(all_(h), [77] * n, w + ' set, read back')
    ch.eq([d['label'] for d in h.fixedfile.data if d['label'].lower() == 'dup'], labs, w + ' labels')
    around(ch, h, w)
    ch.state(w, gap)


def h_repeats(ch):
    """ old values repeated before the label, remarks between value and label """
    vt, v = ch.pick('value', [('1', 1), ('-2.5', -2.5), ('True', True), ('"a b"', '"a b"'), ('word', 'word')])
    rep = ch.pick('old values', [[], ['7'], ['7', '-8.5'], ['1e3', '2', '3'], ['!old:', '5'], ['9', '!old:', '6'], ['!a:', 'x', '!b:', 'y']])
    lab = ch.pick('label', ['Lab', 'Lab(1)', 'e1'])
    d = ch.pick('description', ['', '- text', 'text', '12', '- 1 2'])
    put('a.dat', file_of(['  '.join([vt] + rep + [lab, d])]))
    f = K()('a.dat')
    f.write('b.dat')
    for g, w in ((f, 'read'), (K()('b.dat'), 'read back')):
        w = '%s %s' % ([vt] + rep + [lab, d], w)
        ch.op()
        ch.check(type(g[lab]) is type(v) and g[lab] == v, '%s: %r' % (w, g[lab]))
        e = [x for x in entries(g) if x['label'] == lab]
        ch.eq(nd(e[0]['descr']).split(), nd(d).split(), w + ': description')
        around(ch, g, w)
    ch.state(vt, repr(rep), lab, d)


def h_lists(ch):
    """ lists of numbers and logicals """
    n = ch.pick('length', [2, 3, 4, 6])
    el = [('1', 1), ('-2', -2), ('0.25', 0.25), ('1e-3', 1e-3), ('TRUE', True), ('f', False), ('11', 11), ('10', 10), ('-1.2345678901234567890E+00', -1.2345678901234567890)]
    a, b = ch.pick('first', el), ch.pick('other', el)
    sep = ch.pick('separator', [',', ', ', ' , ', ',   '])
    pat = ch.pick('pattern', ['a first', 'b first', 'alternating'])
    c = [a] + [b] * (n - 1) if pat == 'a first' else ([b] * (n - 1) + [a] if pat == 'b first' else [(a, b)[i % 2] for i in range(n)])
    d = ch.pick('description', ['- one, two', 'text', '- 3, 4, 5 [-]', ''])
    line = sep.join(x[0] for x in c) + '   Lst   ' + d
    v = [x[1] for x in c]
    put('a.dat', file_of([line]))
    f = K()('a.dat')
    f.write('b.dat')
    for g, w in ((f, line), (K()('b.dat'), line + ' read back')):
        ch.op()
        x = g['lst']
        ch.check(isinstance(x, list) and x == v and [type(i) for i in x] == [type(i) for i in v], '%s: %r' % (w, x))
        e = [x for x in entries(g) if x['label'] == 'Lst']
        ch.eq(nd(e[0]['descr']).split(), nd(d).split(), w + ': description')
        around(ch, g, w)
    ch.state(line)


def h_comments(ch):
    """ lines that are no entries are kept as they are """
    C = ['', '   ', '! note 1 2', '# note', '-- note', '== note ==', '---- note, with 1 2 3 ----', '  !indented', 'END of something here', '5.5', '---']
    body = [ch.pick('line', C) for _ in range(3)]
    n = ch.pick('place', [0, 4])
    L = FILL[:n] + body[:2] + ['3  Mid  - mid'] + body[2:] + FILL[n:]
    put('a.dat', '\n'.join(['------- Some FAST INPUT FILE -----------', 'A heading', '---------------------- SECTION -----------------'] + L) + '\n')
    f = K()('a.dat')
    f['mid'] = 4
    f.write('b.dat')
    for g, w in ((f, 'read'), (K()('b.dat'), 'read back')):
        ch.op()
        w = '%r %s' % (body, w)
        ch.eq(g['MID'], 4, w)
        ch.eq([str(e['value']).rstrip() for e in entries(g)[3:] if e['com']], [c.rstrip() for c in body], w + ': comments')
        ch.eq([k for k in g.keys()][1:], ['Filler%d' % k for k in range(n)] + ['Mid'] + ['Filler%d' % k for k in range(n, 10)], w + ': keys')
    ch.state(repr(body), n)


def h_large(ch):
    """ long lists, long texts, many entries and comments """
    kind = ch.pick('kind', ['list', 'text', 'description', 'entries', 'comments', 'outputs'])
    if kind == 'list':
        n = ch.pick('length', [7, 19, 20, 21, 25, 60])
        how = ch.pick('elements', ['whole', 'real', 'logical'])
        v = [{'whole': 10 + i, 'real': 0.5 + i, 'logical': i % 3 == 0}[how] for i in range(n)]
        put('a.dat', file_of([', '.join(str(x) for x in v) + '   Lst   - a list']))
        want = {'Lst': v}
    elif kind == 'text':
        n = ch.pick('length', [12, 13, 14, 29, 30, 31, 80, 255, 256, 1000])
        c = ch.pick('character', ['a', '/', ' ', ',', '-', '!', '#', '1'])
        x = '"' + ('b' + c) * (n // 2) + '"'
        put('a.dat', file_of([x + '   Txt   - a text']))
        want = {'Txt': x}
    elif kind == 'description':
        n = ch.pick('length', [20, 100, 1000])
        c = ch.pick('word', ['word ', '1, 2 ', '(-) ', '"q" ', '- '])
        put('a.dat', file_of(['3.5   Val   - ' + (c * n)[:n].strip() + ' end', '7   Val2    - next']))
        want = {'Val': 3.5, 'Val2': 7}
    elif kind == 'entries':
        n = ch.pick('entries', [50, 99, 100, 101, 1000])
        put('a.dat', file_of(['%d  Key%d  - number %d' % (i, i, i) for i in range(n)]))
        want = {'Key%d' % i: i for i in range(n)}
    elif kind == 'comments':
        n = ch.pick('entries', [30, 300])
        m = n // 4
        put('a.dat', file_of(['%d  Key%d  - number %d' % (i, i, i) for i in range(n // 2)] + ['! comment %d' % i for i in range(m)] + ['%d  Key%d  - number %d' % (i, i, i) for i in range(n // 2, n)]))
        want = {'Key%d' % i: i for i in range(n)}
    else:
        lab = ch.pick('section', ['OutList', 'SSOutList', 'SDOutList', 'SSOUTLIST', 'sdoutlist'])
        n = ch.pick('channels', [0, 1, 3, 99, 100, 101, 150, 190])
        title = '-- OUTPUT CHANNELS --' if lab == 'OutList' else '---- OUTPUT ----'
        chan = ['"M%dN1FKxe, M%dN2FKxe"' % (i, i) for i in range(n)]
        if lab == 'OutList':
            L = ['              OutList      - The next line(s) contains a list of output parameters.  See OutListParameters.xlsx for a listing of available output channels, (-)']
        else:
            L = ['---------------------- %s: The next line(s) contains a list of output parameters that will be output in <SS>.out ------' % lab]
        put('a.dat', '\n'.join(['---- FAST INPUT FILE ----', 'heading', '----'] + FILL + L + chan + ['END of output channels and end of file. (the word "END" must appear in the first 3 columns of this line)']) + '\n')
        f = K()('a.dat')
        f.write('b.dat')
        for g in (f, K()('b.dat')):
            ch.op()
            for k in range(10):
                ch.eq(g['Filler%d' % k], k, lab + ': entry before')
            if lab == 'OutList':
                ch.eq(list(g['OutList'])[1:], chan, 'channels')
            else:
                ch.eq([d['value'] for d in g.fixedfile.data if d['isComment'] and str(d['value']).startswith('"M')], chan, lab + ': channels')
        t = [x.strip() for x in get('b.dat').decode().split('\n')]
        ch.eq([x for x in t if x.startswith('"M')], chan, lab + ': channels in the file')
        ch.eq(len([x for x in t if x.startswith('END')]), 1, lab + ': end of the channels')
        ch.state(kind, lab, n)
        return
    f = K()('a.dat')
    f.write('b.dat')
    for g, w in ((f, 'read'), (K()('b.dat'), 'read back')):
        ch.op()
        for k, v in want.items():
            x = g[k.upper()]
            ch.check(type(x) is type(v) and x == v, '%s %s: %r instead of %r' % (w, k, x, v))
        around(ch, g, kind)
        if kind == 'description':
            ch.check([e['descr'] for e in entries(g) if e['label'] == 'Val'][0].strip().endswith('end'), 'end of the description')
    if kind == 'comments':
        ch.eq([x.strip() for x in get('b.dat').decode().split('\n') if x.startswith('! comment')], ['! comment %d' % i for i in range(m)], 'comments')
    ch.state(kind, n, get('a.dat')[:400])


BASE = {
    'generic': ['---- FAST INPUT FILE ----', 'A heading', '---- SECTION ----', '1.5  DT  - step', '"a b"  Name  - name', 'True  Flag  - flag', '1, 2, 3  List  - list', '---- MORE ----', '3  Last  - last'],
}


def h_history(ch, n=3):
    """ operations in lock step with a reference dictionary """
    src = ch.pick('file', ['generic', 'FASTIn_ED.dat', 'FASTIn_AD15_bld.dat'])
    if src == 'generic':
        put('a.dat', '\n'.join(BASE[src]) + '\n')
        keys = ['DT', 'Name', 'Flag', 'List']
    else:
        put('a.dat', get(os.path.join(EX, src)))
        keys = ['EDfile', 'DT', 'TipRad', 'RotSpeed'][1:] if src == 'FASTIn_ED.dat' else ['BldAeroNodes']
    f = K()('a.dat')
    c0 = entries(f)
    ref = cp(c0)
    others = tree('.')
    cur = 'a.dat'
    disk = cp(c0)
    ops = [('set', k, v) for k in keys for v in ([42, '"x y"'] if k != 'BldAeroNodes' else ['table'])] + [('write', 'b.dat'), ('write', 'c.dat'), ('write',), ('read',), ('unknown',), ('iterate',)]
    hist = []
    for _ in range(n):
        op = ch.pick('op', ops)
        hist.append(op)
        w = '%s %s' % (src, hist)
        ch.op()
        if op[0] == 'set':
            v = op[2]
            if v == 'table':
                T = np.asarray(f['BldAeroNodes'])
                v = T[:-1, :] * 1.0
                v[:, 0] += 0.5
            f[op[1].lower()] = v
            for r in ref:
                if r['label'].lower() == op[1].lower():
                    r['value'] = cp(v)
        elif op[0] == 'write':
            f.write(*op[1:])
            if src == 'FASTIn_AD15_bld.dat':   # the number of rows follows the table
                for r in ref:
                    if r['label'].lower() == 'numblnds':
                        r['value'] = [x for x in ref if x['label'] == 'BldAeroNodes'][0]['value'].shape[0]
            cur = op[1] if len(op) > 1 else cur
            disk = cp(ref)
            cmp_entries(ch, entries(K()(cur)), ref, w + ': file read back')
        elif op[0] == 'read':
            f.read()
            ref = cp(disk)
        elif op[0] == 'unknown':
            e = raises(lambda: f['NotThere'])
            ch.check(isinstance(e, KeyError), w + ': unknown label: %r' % e)
            e = raises(lambda: f.__setitem__('NotThere', 3))
            ch.check(isinstance(e, KeyError), w + ': setting an unknown label: %r' % e)
        else:
            ch.eq([d['label'] for d in f], [r['label'] for r in ref], w + ': iteration')
            com = set(getattr(f.fixedfile, '_IComment', []))
            ch.eq(list(f.keys()), [r['label'] for i, r in enumerate(ref) if not r['com'] and i not in com], w + ': keys')
        cmp_entries(ch, entries(f), ref, w)
        for r in ref:
            if r['label'] and not r['com'] and [x['label'].lower() for x in ref].count(r['label'].lower()) == 1:
                ch.eq(obs.plain(f[r['label'].upper()]), r['value'], w + ': f[%r]' % r['label'].upper(), (1e-7, 1e-300))
        if cur != 'a.dat' and ('write',) not in hist[:1]:
            pass
    ch.state(src, repr(hist))


def h_build(ch, n=3):
    """ files made from nothing: entries added in any order are written and read back """
    from weio.fast_input_file import FASTInputFileBase
    vals = [3, -1.5e-9, True, '"a b"', [1, 2, 3], 'word']
    f = FASTInputFileBase()
    f.addComment('------- made by hand ----')
    f.addComment('! second line')
    ref = {}
    order = []
    for _ in range(n):
        k = ch.pick('key', ['Alpha', 'beta', 'ALPHA', 'Gamma'])
        v = ch.pick('value', vals)
        how = ch.pick('how', ['addKeyVal', 'addValKey'])
        f.addKeyVal(k, v, 'about ' + k) if how == 'addKeyVal' else f.addValKey(v, k, 'about ' + k)
        ch.op()
        hit = [x for x in order if x.lower() == k.lower()]
        if hit:
            order[order.index(hit[0])] = k
            ref.pop(hit[0])
        else:
            order.append(k)
        ref[k] = v
    for k in order:
        ch.eq(f[k], ref[k], 'f[%r]' % k)
    ch.eq(list(f.keys()), order, 'keys')
    for i in range(12):
        f.addKeyVal('Filler%d' % i, i, 'filler')
    f.write('a.dat')
    g = K()('a.dat')
    for k in order:
        ch.eq(g[k], ref[k], 'read back: f[%r]' % k)
    ch.eq(list(g.keys())[:len(order)], order, 'keys read back')
    ch.state(repr(order), repr(ref))


def harnesses(tier):
    q = tier == 'quick'
    return [('examples', h_example), ('lines', h_lines), ('twice', h_twice), ('repeats', h_repeats), ('lists', h_lists), ('comments', h_comments), ('large', h_large), ('histories', lambda ch: h_history(ch, 3 if q else 4)), ('built', lambda ch: h_build(ch, 2 if q else 3))]
