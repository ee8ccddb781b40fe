"""C12: linearization files"""
import os, json, itertools
from ..core import Violation
from ..util import *
from .. import lindesc

INFO = dict(bounds='0..3 states x 0..3 inputs x 0..3 outputs x (no, all, x only, xdot only) state vectors x all subsets of {A, B, C, D} x Jacobians x mass matrix; all orders of the sections; operating points of one or three values at every position, with and without derivative order; headers with and without azimuth, rotor speed and wind speed; every description of a catalogue of 740 OpenFAST descriptions; histories of 3 reads on one object')
LAB = json.load(open(os.path.join(os.path.dirname(os.path.dirname(__file__)), 'data', 'lin_labels.json')))


def K():
    from weio.fast_linearization_file import FASTLinearizationFile
    return FASTLinearizationFile


HEAD = ['Azimuth', 'Rotor Speed', 'Wind Speed']


class Lin:
    def __init__(self, nx, nu, ny, ops=('x', 'xdot', 'u', 'y'), mats=('A', 'B', 'C', 'D'), jac=False, M=False, order=None, triple=None, deriv=False, head=HEAD, off=0, lib=None, extra=False, notes=0, gap=False):
        self.n = dict(x=nx, xdot=nx, u=nu, y=ny)
        self.head = {h: [5.8684, 1.2367, 13.5][i] + off for i, h in enumerate(HEAD) if h in head}
        self.op, self.des, self.rot, self.der, self.lab = {}, {}, {}, {}, {}
        sec = []
        for k in ops:
            n = self.n[k]
            if n == 0:
                continue
            self.op[k] = [float('%.8E' % ((-1) ** i * (ord(k[0]) + len(k) + i * 1.37 + off) * 10.0 ** (i % 9 * 3 - 4))) for i in range(n)]
            cat = lib or LAB
            s = (off * 7) % len(cat[k])
            D = [cat[k][(s + i) % len(cat[k])] for i in range(n)]
            self.des[k], self.lab[k] = [d[0] for d in D], [d[1] for d in D]
            self.rot[k] = ['T' if (i + len(k)) % 2 else 'F' for i in range(n)]
            dv = deriv and k in ('x', 'xdot')
            self.der[k] = [2 - i % 2 if dv else -1 for i in range(n)]
            title = {'x': 'Order of continuous states:', 'xdot': 'Order of continuous state derivatives:', 'u': 'Order of inputs:', 'y': 'Order of outputs:'}[k]
            L = [title, '   Row/Column Operating Point                                    Rotating Frame? ' + ('Derivative Order ' if dv else '') + 'Description', '   ---------- ---------------                                    --------------- ' + ('---------------- ' if dv else '') + '-----------']
            for i in range(n):
                v = '%15.8E' % self.op[k][i]
                if triple == (k, i) or triple == 'all':
                    v += ', %15.8E, %15.8E' % (7.5 + i, -8.5)
                L.append('%11d %s %60s %s       %s' % (i + 1, v, self.rot[k][i], '%11d' % self.der[k][i] if dv else '', self.des[k][i]))
            sec.append((k, L + ['']))
        self.mat = {}
        dims = dict(A=(nx, nx), B=(nx, nu), C=(ny, nx), D=(ny, nu), dUdu=(nu, nu), dUdy=(nu, ny), M=(24, 24))
        todo = [m for m in mats] + (['dUdu', 'dUdy'] if jac else []) + (['M'] if M else [])
        for m in todo:
            r, c = dims[m]
            if r == 0 or c == 0:
                continue
            A = np.array([[float('%.4E' % ((-1) ** (i + j) * (sum(map(ord, m)) + 10 * i + j + off) * 10.0 ** ((i - j) % 5))) for j in range(c)] for i in range(r)])
            self.mat[m] = A
            self.dof = ['DOF_%d' % i for i in range(24)]
            L = ['ED M: ' + ' '.join(self.dof) if m == 'M' else '%s: %d x %d' % (m, r, c)]
            sec.append((m, L + [' '.join('%11.4E' % x for x in row) for row in A] + ['']))
        if order is not None:
            sec = [sec[i] for i in order if i < len(sec)]
        H = ['', 'Linearized model: Predictions were generated on 16-Feb-2020 at 10:36:41 using OpenFAST', ' linked with  NWTC Subroutine Library; ElastoDyn', '', 'Description from the FAST input file: a test', '', 'Simulation information:', '   Simulation time:                   100.0000 s'] + ['   Note %d: 1 2' % i for i in range(notes)]
        for h, v in self.head.items():
            H.append('   %-30s %.4f rad/s' % (h + ':', v))
        if gap:
            H += ['']
        H += ['   Number of continuous states:         %d' % nx, '   Number of discrete states:           0', '   Number of constraint states:         0', '   Number of inputs:                    %d' % nu, '   Number of outputs:                  %d' % ny, '   Jacobians included in this file?    ' + ('Yes' if jac else 'No'), '']
        self.nsec = len(sec)
        if extra:      # sections that are not kept
            sec.insert(len(sec) // 2, ('xd', ['Order of discrete states:', '   Row/Column Operating Point', '   ----------', '          1    2.55136520E-01        F        SrvD something, m', '']))
            sec.insert(0, ('t', ['Jacobian matrices:', '']))
            sec.append(('t', ['Linearized state matrices:', '']))
        self.text = '\n'.join(H + [l for k, s in sec for l in s]) + '\n'


def verify(ch, f, L, what):
    want = set(L.op) | {k + '_info' for k in L.op} | set(L.mat) | ({'EDDOF'} if 'M' in L.mat else set()) | {'header', 'Azimuth', 'RotSpeed', 'WindSpeed'}
    ch.eq(sorted(f.keys()), sorted(want), what + ' keys')
    for k, h in (('Azimuth', 'Azimuth'), ('RotSpeed', 'Rotor Speed'), ('WindSpeed', 'Wind Speed')):
        g, w = f[k], L.head.get(h)
        ch.check(g is None and w is None or g is not None and w is not None and abs(g - w) < 1e-4, '%s %s: %r instead of %r' % (what, k, g, w))
    for k in L.op:
        ch.eq(list(f[k]), L.op[k], what + ' operating point ' + k)
        i = f[k + '_info']
        ch.eq(list(i['Description']), [' '.join(d.split()) for d in L.des[k]], what + ' descriptions ' + k)
        ch.eq(list(i['RotatingFrame']), L.rot[k], what + ' frames ' + k)
        ch.eq(list(i['DerivativeOrder']), L.der[k], what + ' derivative orders ' + k)
    for m in L.mat:
        ch.eq(np.asarray(f[m]), L.mat[m], what + ' matrix ' + m)
    for k, fn in (('x', f.xdescr), ('xdot', f.xdotdescr), ('y', f.ydescr), ('u', f.udescr)):
        ch.eq(list(fn()), L.lab.get(k, []), what + ' labels of ' + k)
    if 'M' in L.mat:
        ch.eq(list(f['EDDOF']), L.dof, what + ' degrees of freedom')


def tables(ch, f, L, what):
    """ only with all descriptions """
    dfs = f.toDataFrame()
    ch.eq(sorted(dfs), sorted(set(L.op) | set(L.mat)), what + ' tables')
    ax = dict(A=('x', 'x'), B=('x', 'u'), C=('y', 'x'), D=('y', 'u'), dUdu=('u', 'u'), dUdy=('u', 'y'))
    for k, df in dfs.items():
        if k in L.op:
            ch.eq(list(df.columns), L.lab[k], what + ' table %s' % k)
            ch.eq(df.values, np.array([L.op[k]]), what + ' table %s' % k)
        else:
            ch.eq(df.values, L.mat[k], what + ' table %s' % k)
            r, c = (L.dof, L.dof) if k == 'M' else (L.lab[ax[k][0]], L.lab[ax[k][1]])
            ch.eq(list(df.index), r, what + ' rows of %s' % k)
            ch.eq(list(df.columns), c, what + ' columns of %s' % k)


def run(ch, L, what, tab=True):
    put('a.lin', L.text)
    f = K()('a.lin')
    ch.op()
    verify(ch, f, L, what)
    if tab:
        tables(ch, f, L, what)
        verify(ch, f, L, what + ' after tables')
    return f


def h_sections(ch):
    nx, nu, ny = ch.pick('states', [0, 1, 2, 3]), ch.pick('inputs', [0, 1, 2, 3]), ch.pick('outputs', [0, 1, 2, 3])
    st = ch.pick('state vectors', [('x', 'xdot'), ('x',)])
    mats = [m for m in 'ABCD' if ch.flag(m)]
    jac, M = ch.flag('Jacobians'), ch.flag('mass matrix') if (nx, nu, ny) in ((2, 1, 3), (1, 1, 1), (0, 0, 0)) else False
    L = Lin(nx, nu, ny, st + ('u', 'y'), mats, jac, M, off=nx * 5 + nu)
    if L.nsec == 0:
        return
    run(ch, L, 'nx=%d nu=%d ny=%d %s' % (nx, nu, ny, mats))
    ch.state(nx, nu, ny, repr(st), repr(mats), jac, M)


def h_order(ch):
    """ every order of the sections """
    kind = ch.pick('file', ['plain', 'jacobians'])
    n = 6 if kind == 'plain' else 7
    left, order = list(range(n)), []
    while left:
        i = ch.pick('section', left)
        left.remove(i)
        order.append(i)
    L = Lin(2, 1, 3, ('x', 'u', 'y'), ('A', 'C', 'D') if kind == 'plain' else ('B', 'D'), kind != 'plain', order=order, extra=order[0] % 2 == 0)
    run(ch, L, 'order %r' % order)
    ch.state(kind, repr(order))


def h_op(ch):
    """ operating points """
    n = ch.pick('size', [1, 2, 3])
    k = ch.pick('vector', ['x', 'xdot', 'u', 'y'])
    i = ch.pick('three values at', list(range(n)) + ['all', None])
    deriv = ch.flag('derivative order')
    head = [h for h in HEAD if ch.flag(h)]
    L = Lin(n, n, n, triple='all' if i == 'all' else (k, i), deriv=deriv, head=head)
    run(ch, L, 'three values at %s %s' % (k, i))
    ch.state(n, k, i, deriv, repr(head))


def h_header(ch):
    n, gap = ch.pick('notes', [0, 1, 5, 9]), ch.flag('blank line')
    head = [h for h in HEAD if ch.flag(h)]
    run(ch, Lin(2, 3, 1, head=head, notes=n, gap=gap), 'header with %d notes' % n)
    ch.state(n, gap, repr(head))


def h_names(ch):
    """ every description """
    k = ch.pick('vector', ['x', 'xdot', 'u', 'y'])
    i = ch.pick('description', range(len(LAB[k])))
    cat = {q: (LAB[q] if q != k else LAB[q][i:] + LAB[q][:i]) for q in LAB}
    L = Lin(2, 2, 2, lib=cat, off=0)
    f = run(ch, L, 'description %r' % LAB[k][i][0])
    # alone or among others: the same label
    ch.eq(list(f.short_descr([LAB[k][i][0]])), [LAB[k][i][1]], 'label')
    if i == 0:
        alls = [d[0] for d in LAB[k]]
        s = list(f.short_descr(alls))
        ch.eq(s, [d[1] for d in LAB[k]], 'all labels')
        ch.eq(len(set(s)), len(alls), 'distinct labels')
    ch.state(k, i)


def h_again(ch):
    V = [Lin(2, 1, 3, jac=True), Lin(1, 0, 2, off=3), Lin(0, 2, 1, mats=('D',), head=[], off=5), Lin(3, 3, 3, M=True, deriv=True, off=9, mats=())]
    f = None
    for k in range(3):
        i = ch.pick('file', range(len(V)))
        put('a%d.lin' % i, V[i].text)
        if f is None:
            f = K()('a%d.lin' % i)
        else:
            f.read('a%d.lin' % i)
        ch.op()
        verify(ch, f, V[i], 'read %d' % k)
        tables(ch, f, V[i], 'read %d' % k)
    ch.state(i)


def h_large(ch):
    """ sizes of real models """
    nx, nu, ny = ch.pick('size', [(36, 120, 60), (1, 200, 1), (52, 1, 250), (12, 10, 11), (99, 100, 101)])
    L = Lin(nx, nu, ny, jac=ch.flag('Jacobians'), M=ch.flag('mass'), deriv=ch.flag('deriv'), triple=ch.pick('three values', [None, 'all']))
    run(ch, L, 'large')
    ch.state(nx, nu, ny)


def harnesses(tier):
    return [('sections', h_sections), ('order', h_order), ('operating points', h_op), ('header', h_header), ('descriptions', h_names), ('again', h_again), ('large', h_large)]
