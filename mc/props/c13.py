"""C13: summary files and their YAML subset"""
import os, json, itertools
from ..core import Violation
from ..util import *

INFO = dict(bounds='all documents of 1..3 entries out of 31 kinds (60 kinds in documents of 1 and 2) (numbers, texts, lists, matrices of 0..3 rows, integer, real and mixed) x 5 ways of separating them x line ends; structural summaries of 2..3 nodes x 5 partitions of the degrees of freedom x 0..2 internal modes x 2 layouts x 3 geometries: positions, displacements, modes, tables and JSON against loops over nodes, for 5 scalings and 4 sortings; all histories of 3 operations on 2 objects over 4 files')

# kind: (lines after the key, value)
E = {
    'int': (' 3', 3), 'negative': (' -12', -12), 'zero': (' 0', 0), 'real': (' 1.5', 1.5), 'exponent': ('   -3.25E-04', -3.25e-4), 'point': (' 7.', 7.0), 'int comment': ('      6 # Number of nodes: "x" (I)', 6), 'real comment': (' 2.5# c', 2.5),
    'word': (' hello', 'hello'), 'words': ('  hello world ', 'hello world'), 'quoted': (' "a b"', '"a b"'), 'colon': (' 12:30:15', '12:30:15'), 'path': (' C:/a/b.dat', 'C:/a/b.dat'), 'bool': (' true', 'true'), 'text comment': (' some text # comment', 'some text'),
    'row int': ('\n  - [      1,      2,      3,]', np.array([[1, 2, 3]])), 'row real': (' # 1 x 2\n  - [   0.000000E+00,   4.782174E-03,]', np.array([[0.0, 4.782174e-3]])), 'one': ('\n- [5]', np.array([[5]])), 'empty row': (' # 1 x 0\n  - [ ]', np.zeros((1, 0))),
    'time': ('12:30:15', '12:30:15'), 'tight': ('4', 4), 'url': ('http://a:80/b', 'http://a:80/b'), 'round real': ('\n  - [1., -2.]\n  - [3., 4.]', np.array([[1., -2.], [3., 4.]])), 'round real row': ('\n  - [7., 8., 0.,]', np.array([[7., 8., 0.]])),
    'nothing': ('', np.zeros((0, 0))), 'nothing comment': (' # nothing here', np.zeros((0, 0))),
    'matrix int': ('\n  - [ 1, 2] # 1\n  - [ -3, 4] # 2', np.array([[1, 2], [-3, 4]])), 'matrix real': (' # 2 x 3\n  - [      1.,          0.500,         -1.000,]\n  - [      2.,          0.000,          1.5E+10,]', np.array([[1, 0.5, -1], [2, 0, 1.5e10]])),
    'int then real': ('\n  - [ 1, 2]\n  - [ 1.5, 4]\n  - [ 3, 1e-3 ]', np.array([[1, 2], [1.5, 4], [3, 1e-3]])), 'comment inside': ('\n  - [ 1, 2]\n  # remark: here\n  - [ 3, 4]', np.array([[1, 2], [3, 4]])), 'column': ('\n  - 1.5\n  - 2\n  - -3.5', np.array([[1.5], [2], [-3.5]])),
}
# numbers and texts that look like each other (documents of one or two entries)
E1 = {k: (' ' + k, v) for k, v in [('007', 7), ('-012', -12), ('+5', 5), ('0x1F', '0x1F'), ('0b1', '0b1'), ('0o7', '0o7'), ('1e3', 1000.0), ('1E-2', 0.01), ('.5', 0.5), ('-.5', -0.5), ('5e', '5e'), ('1.2.3', '1.2.3'), ('12 13', '12 13'), ('1,2', '1,2'),
                                   ('1.0', 1.0), ('-0', 0), ('123456789012345678', 123456789012345678), ('0.1', 0.1), ('1d3', '1d3'), ('True', 'True'), ('no', 'no'), ('None', 'None'), ("'7'", "'7'"), ('"7"', '"7"'), ('7 m', '7 m'), ('- 7', '- 7'), ('-', '-'), ('[1, 2]', '[1, 2]'), ('{a: 1}', '{a: 1}')]}
E.update(E1)
SEP = {'none': '\n', 'blank': '\n\n', 'comment': '\n# a comment: with colon - and [dash]\n', 'line': '\n#____________\n#CB frequencies [Hz]\n', 'blanks': '\n   \n\t\n'}


def typed(v):
    return type(v).__name__ if not isinstance(v, np.ndarray) else 'array'


def cmp_val(ch, g, w, what):
    ch.eq(typed(g), typed(w), what + ' type')
    if isinstance(w, np.ndarray):
        ch.eq(g.shape, w.shape, what + ' shape')
        ch.eq(np.asarray(g, float), np.asarray(w, float), what)
        if w.size:
            ch.check(g.dtype.kind == w.dtype.kind, '%s: numbers of kind %s instead of %s' % (what, g.dtype, w.dtype))
    else:
        ch.eq(g, w, what)


def h_yaml(ch):
    from weio.mini_yaml import yaml_read
    n = ch.pick('entries', [1, 2, 3])
    full = [k for k in E if k not in E1]
    ks = [ch.pick('entry', list(E) if n == 1 or (n == 2 and i == 0) else full) for i in range(n)]
    sep = ch.pick('separator', list(SEP)) if n < 3 else 'none'
    end = ch.pick('end', ['\n', '', '\n\n# end']) if n < 3 else '\n'
    nl = ch.pick('line end', ['\n', '\r\n']) if n == 1 else '\n'
    sp = ch.pick('key', ['', '  ']) if n == 1 else ''
    s = SEP[sep].lstrip('\n') if sep != 'none' else ''
    names = ['key_A', 'nDOF__B', 'K(1,2)'][:n]
    for i, k in enumerate(ks):
        s += names[i] + sp + ':' + E[k][0] + (SEP[sep] if i < n - 1 else end)
    put('a.yaml', s.replace('\n', nl))
    d = yaml_read('a.yaml')
    ch.op()
    ch.eq(list(d.keys()), names, 'keys of %r' % s)
    for i, k in enumerate(ks):
        cmp_val(ch, d[names[i]], E[k][1], '%s in %r' % (k, s))
    # into a given dictionary
    given = {'old': 1, names[0]: 'x'}
    e = yaml_read('a.yaml', given)
    ch.check(e is given and e['old'] == 1, 'given dictionary')
    cmp_val(ch, e[names[0]], E[ks[0]][1], 'given dictionary')
    ch.state(repr(ks), sep, end, nl)


def h_bad(ch):
    from weio.mini_yaml import yaml_read
    k = ch.pick('document', ['key:\n - [a, b]\n', 'no colon here\n', 'key:\n - [1, 2]\n - [1]\n', 'a: 1\n- [1, 2]\n', 'key:\n  other: 1\n - [1]\n', 'a: 2\nb:\n - [1, x]\n'])
    pre = ch.pick('before', ['', 'z: 1\n', '# c\n\n'])
    put('a.yaml', pre + k)
    ch.check(raises(yaml_read, 'a.yaml') is not None, 'no error for %r' % k)
    ch.state(k, pre)


class Sub:
    """ a structural summary """

    def __init__(self, nn=2, part='IL', nm=1, four=False, geo='vertical', off=0, extra=False, pin=False):
        G = {'vertical': lambda i: (0.0, 0.0, -10.0 * i), 'slanted': lambda i: (1.5 * i, -2.0 * i, 5.0 - 7.0 * i), 'shuffled': lambda i: (float(i), 3.0, [0.0, 12.0, -4.0][i % 3])}[geo]
        self.pos = np.array([G(i) for i in range(nn)]) + off
        dof = []
        for i in range(nn):
            m = 7 if pin and i == 1 else 6
            dof += [(i + 1, m, k + 1) for k in range(m)]
        N = len(dof)
        B, L, F = {'IL': (range(0, 6), range(6, N), []), 'FI': (range(N - 6, N), range(6, N - 6), range(0, 6)), 'mix': ([0, 1, 2, N - 1], range(6, N - 1), [3, 4, 5]), 'noL': (range(0, N - 6), [], range(N - 6, N)), 'rev': (list(range(N - 6, N))[::-1], list(range(6, N - 6))[::-1] + [0, 1, 2], [5, 4, 3])}[part]
        self.dof, self.B, self.L, self.F = dof, list(B), list(L), list(F)
        v = lambda i, j, s: float('%.6E' % ((-1) ** (i + j) * (s + 1 + i * 1.7 + j * 0.3 + off) / 10)) if (i + j) % 4 else 0.0
        self.PhiM = np.array([[v(i, j, 1) for j in range(nm)] for i in range(len(self.L))]).reshape(len(self.L), nm)
        self.PhiR = np.array([[v(i, j, 5) for j in range(len(self.B))] for i in range(len(self.L))]).reshape(len(self.L), len(self.B))
        self.freq = [0.5 + i * 3 + off for i in range(nm)]
        self.el = [(i + 1, i + 1, i + 2, 1 + i % 2, 1, 1 + i % 3, 10.0, 0.011 * (i + 1), 7850.0) for i in range(nn - 1)]
        r = lambda xs, f='%7d,': '  - [%s ]' % ''.join(f % x for x in xs)
        Lx = ['', '#This summary file was generated by SubDyn  on 21-Jul-2020', '', '#Unless specified, units are SI', '#____', 'nNodes_I:       1 # Number of Nodes', 'nNodes  :       %d # Number of Nodes: total' % nn]
        if extra:
            Lx += ['SomethingElse: 12.5', 'KBBt: # 2 x 2', '  - [ 1.5, 2.5]', '  - [ 3.5, 4.5]']
        for k, x in (('DOF___B', self.B), ('DOF___F', self.F), ('DOF___L', self.L)):
            Lx += ['%s: # 1 x %d' % (k, len(x)), r([i + 1 for i in x])]
        Lx += ['', '#Index map', 'DOF2Nodes: # %d' % N]
        Lx += [r(((i + 1,) if four else ()) + d) + ' # %d' % (i + 1) for i, d in enumerate(dof)]
        Lx += ['# nodes', 'Nodes: # x 9'] + [r((i + 1,), ' %d.,') [:-2] + ''.join('%15.3f,' % x for x in p) + ' 1., 0.0,]' for i, p in enumerate(self.pos)]
        Lx += ['Elements: # x'] + ['  - [' + ''.join('%.3f,' % x if k > 5 else ' %d.,' % x for k, x in enumerate(e)) + ']' for e in self.el]
        Lx += ['CB_frequencies: # 1', r(self.freq, '%15.6E,'), '#CB Matrices']
        for k, M in (('PhiM', self.PhiM), ('PhiR', self.PhiR)):
            Lx += ['%s: # %d x %d' % ((k,) + M.shape)] + ([r(row, '%15.6E,') for row in M] if M.size else ['  - [ ]'])
        self.extra = extra
        self.text = '\n'.join(Lx) + '\n'

    # reference: loops over nodes
    def disp(self, rows, maxDisp, sortDim):
        """ rows: {dof: displacements} """
        nodes = sorted({self.dof[d][0] for d in rows})
        n = len(next(iter(rows.values())))
        out = np.full((len(nodes), 3, n), np.nan)
        pos = np.full((len(nodes), 3), np.nan)
        for a, nd in enumerate(nodes):
            for d, val in rows.items():
                if self.dof[d][0] == nd and self.dof[d][2] <= 3:
                    pos[a] = self.pos[nd - 1]
                    out[a, self.dof[d][2] - 1] = val
        for m in range(n):
            if maxDisp is not None:
                top = np.nanmax(np.abs(out[:, :, m]))
                if top > 1e-5:
                    out[:, :, m] *= maxDisp / top
        if sortDim is not None:
            I = np.argsort(pos[:, sortDim])
            nodes, out, pos = [nodes[i] for i in I], out[I], pos[I]
        return out, pos, nodes

    def modes(self, maxDisp, sortDim):
        if maxDisp is None:
            maxDisp = 0.1 * max(self.pos.max(axis=0) - self.pos.min(axis=0))
        nb, nm = len(self.B), self.PhiM.shape[1]
        cb, gy = {}, {}
        for i, d in enumerate(self.B):
            cb[d], gy[d] = [0.0] * nm, [1.0 if i == j else 0.0 for j in range(nb)]
        for i, d in enumerate(self.L):
            cb[d], gy[d] = list(self.PhiM[i]), list(self.PhiR[i])
        for d in self.F:
            cb[d], gy[d] = [0.0] * nm, [0.0] * nb
        return self.disp(gy, maxDisp, sortDim), self.disp(cb, maxDisp, sortDim)

    def table(self):
        (dg, p, _), (dc, _, _) = self.modes(None, 2)
        T = {'z_[m]': p[:, 2], 'x_[m]': p[:, 0], 'y_[m]': p[:, 1]}
        for word in ('Mode', 'Disp'):
            for pre, D in (('Guyan', dg), ('CB', dc)):
                D = np.nan_to_num(D)
                for m in range(D.shape[2]):
                    for c, x in enumerate('xyz'):
                        if (D[:, c, m] != 0).any():
                            T['%s%s%d%s_[m]' % (pre, word, m + 1, x)] = D[:, c, m] + (p[:, c] if word == 'Mode' else 0)
        return T


def S():
    from weio.fast_summary_file import FASTSummaryFile
    return FASTSummaryFile


def verify(ch, f, s, what, sortable=True):
    ch.eq(f['module'], 'SubDyn', what)
    ch.eq([f['nNodes_I'], f['nNodes']], [1, len(s.pos)], what + ' scalars')
    ch.eq('SomethingElse' in f.keys(), s.extra, what + ' extra entries')
    ch.eq(np.column_stack([f['X'], f['Y'], f['Z']]), s.pos, what + ' positions')
    ch.eq(np.asarray(f['DOF2Nodes']), np.array([(i,) + d for i, d in enumerate(s.dof)]), what + ' DOF2Nodes')
    for k, x in (('DOF___B', s.B), ('DOF___L', s.L), ('DOF___F', s.F)):
        ch.eq(list(np.asarray(f[k]).ravel()), x, what + ' ' + k)
    ch.eq(np.asarray(f['CB_frequencies']), np.array(s.freq, float), what + ' frequencies')
    for k, M in (('PhiM', s.PhiM), ('PhiR', s.PhiR)):
        if M.size:
            ch.eq(np.asarray(f[k]), M, what + ' ' + k)
    ch.eq(np.asarray(f['Elements'])[:, :9], np.array(s.el), what + ' elements')


def cmp3(ch, g, w, what):
    ch.eq(list(g[2]), list(w[2]), what + ' nodes')
    ch.eq(np.asarray(g[1]), w[1], what + ' positions')
    ch.eq(np.asarray(g[0]), w[0], what + ' displacements', (1e-12, 1e-14))


def derived(ch, f, s, what, mD=None, sd=2):
    gy, cb = s.modes(mD, sd)
    r = f.getModes(maxDisp=mD, sortDim=sd)
    cmp3(ch, r[:3], gy, what + ' Guyan')
    cmp3(ch, r[3:], cb, what + ' CB')


def table(ch, f, s, what):
    df = f.toDataFrame()
    T = s.table()
    ch.eq(list(df.columns), list(T), what + ' table columns')
    for c in T:
        ch.eq(df[c].values, T[c], what + ' table %s' % c, (1e-12, 1e-14))


def js(ch, f, s, what):
    (dg, _, _), (dc, _, _) = s.modes(None, 2)
    d = f.toJSON('o.json')
    for x in (d, json.load(open('o.json'))):
        ch.eq(x['Connectivity'], [[e[1] - 1, e[2] - 1] for e in s.el], what + ' connectivity')
        ch.eq(np.array(x['Nodes']), s.pos, what + ' nodes')
        ch.eq(len(x['Modes']), dg.shape[2] + dc.shape[2], what + ' number of modes')
        for m, D, i, nm in [(x['Modes'][i], dg, i, 'GY%d' % (i + 1)) for i in range(dg.shape[2])] + [(x['Modes'][dg.shape[2] + i], dc, i, 'CB%d' % (i + 1)) for i in range(dc.shape[2])]:
            ch.eq(m['name'], nm, what + ' mode name')
            ch.eq(np.array(m['Displ'], float), D[:, :, i], what + ' mode %s' % nm, (1e-12, 1e-14))
            ch.eq(m['omega'], 1 if nm[0] == 'G' else s.freq[i] * 2 * np.pi, what + ' frequency', (1e-12, 0))
        ch.eq(x['groundLevel'], s.pos[:, 2].min(), what + ' ground')
        ch.eq([p['type'] for p in x['ElemProps']], [e[5] for e in s.el], what + ' types')


PARTS = ['IL', 'FI', 'mix', 'noL', 'rev']


def h_sub(ch):
    nn = ch.pick('nodes', [2, 3])
    part = ch.pick('partition', PARTS)
    nm = ch.pick('modes', [1, 2, 0]) if part != 'noL' else 0
    four, geo = ch.flag('four columns'), ch.pick('geometry', ['vertical', 'slanted', 'shuffled'])
    pin = ch.flag('seven dofs') if part == 'IL' else False
    s = Sub(nn, part, nm, four, geo, 0, False, pin)
    put('a.SD.sum.yaml', s.text)
    f = S()('a.SD.sum.yaml')
    ch.op()
    w = '%d nodes %s %d modes %s' % (nn, part, nm, geo)
    verify(ch, f, s, w)
    mD, sd = ch.pick('scaling', [None, 1.0, 0.25, 1e-7, 1e4]), ch.pick('sorting', [2, 0, 1, None])
    if sd is not None and len(set(s.pos[:, sd])) < nn:
        sd = None
    if s.L:
        derived(ch, f, s, w, mD, sd)
        if len(set(s.pos[:, 2])) == nn:
            table(ch, f, s, w)
            js(ch, f, s, w)
            table(ch, f, s, w + ' again')
            derived(ch, f, s, w + ' again', mD, sd)
    verify(ch, f, s, w + ' after queries')
    # displacements of chosen degrees of freedom
    I = [[0, 1, 2], [6, 7, 8, 0], [len(s.dof) - 1, 2, 1]][nn % 3]
    U = np.array([[1.0 + i, -2.0 * i] for i in range(len(I))])
    cmp3(ch, f.NodesDisp(I, U, maxDisp=mD, sortDim=None), s.disp({d: U[i] for i, d in enumerate(I)}, mD, None), w + ' NodesDisp')
    ch.state(nn, part, nm, four, geo, repr(mD), repr(sd))


def h_objects(ch):
    V = [Sub(2, 'IL', 1), Sub(3, 'FI', 2, True, 'slanted', 2, True), Sub(3, 'mix', 1, False, 'slanted', 5), Sub(2, 'rev', 2, True, 'slanted', 1)]
    for i, s in enumerate(V):
        put('v%d.SD.sum.yaml' % i, s.text)
    O = [S()(), S()()]
    cur = [None, None]
    for k in range(3):
        o = ch.pick('object', [0, 1]) if k else 0
        op = ch.pick('operation', ['read', 'table', 'json', 'modes'] if cur[o] is not None else ['read'])
        if op == 'read':
            i = ch.pick('file', range(len(V)))
            O[o].read('v%d.SD.sum.yaml' % i)
            cur[o] = i
        elif op == 'table':
            table(ch, O[o], V[cur[o]], 'table')
        elif op == 'json':
            js(ch, O[o], V[cur[o]], 'json')
        else:
            derived(ch, O[o], V[cur[o]], 'modes', 0.5, 2)
        ch.op()
        for j in (0, 1):
            if cur[j] is not None:
                verify(ch, O[j], V[cur[j]], 'object %d' % j)
    for j in (0, 1):
        if cur[j] is not None:
            table(ch, O[j], V[cur[j]], 'object %d' % j)
            derived(ch, O[j], V[cur[j]], 'object %d' % j)
    ch.state(repr(cur))


def harnesses(tier):
    return [('yaml', h_yaml), ('bad yaml', h_bad), ('SubDyn', h_sub), ('objects', h_objects)]
