"""C25: graph models"""
import os, json
from ..core import Violation
from ..util import *

INFO = dict(bounds='all histories of 3 (thorough: 4) operations over 25 additions, divisions, sorts, re-connections and queries from 3 starting graphs, all divisions of 1..3 elements in 1..4 parts, all substructure files with 2..3 joints, 1..3 members over 3 types, 0..2 masses, 3 column layouts, all HydroDyn files over 3 coefficient models x 2 layouts, summary files with 1..3 elements')

FULL = False


def G():
    import weio.tools.graph as g
    return g


# --- a plain model -------------------------------------------------------
class M(object):
    """ nodes: list of [ID, (x,y,z), data]; elems: list of [ID, [node IDs], propset, propIDs, data] """
    def __init__(self):
        self.nodes, self.elems, self.modes = [], [], []

    def node(self, ID):
        return [n for n in self.nodes if n[0] == ID][0]

    def copy(self):
        return cp(self)

    def divide(self, n, excluded, method, skip=()):
        nid = max([x[0] for x in self.nodes], default=0)
        eid = max([x[0] for x in self.elems], default=0)
        out, new = [], []
        for e in self.elems:
            if excluded(e) or len(e[1]) != 2:
                out.append([e])
                continue
            a, b = [self.node(i) for i in e[1]]
            chain = [a[0]]
            for k in range(1, n):
                nid += 1
                f = k / n
                d = {}
                for q, v in a[2].items():
                    if q in skip:
                        continue
                    w = b[2].get(q)
                    d[q] = v * (1 - f) + w * f if isinstance(v, (int, float)) and isinstance(w, (int, float)) else v
                self.nodes.append([nid, tuple(p * (1 - f) + q * f for p, q in zip(a[1], b[1])), d])
                chain.append(nid)
            chain.append(b[0])
            grp = [e]
            for k in range(1, n):
                eid += 1
                grp.append([eid, chain[k:k + 2], e[2], e[3], {q: v for q, v in e[4].items() if q not in skip}])
            e[1] = chain[:2]
            out.append(grp)
        if method == 'insert':
            self.elems = [e for g in out for e in g]
        else:
            self.elems = [g[0] for g in out] + [e for g in out for e in g[1:]]


def same(ch, a, b, what):
    if isinstance(b, float) or isinstance(a, float):
        if not (a == b or abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))):
            raise Violation('%s: %r instead of %r' % (what, a, b))
    elif isinstance(b, (list, tuple)):
        if len(a) != len(b):
            raise Violation('%s: %r instead of %r' % (what, a, b))
        for i, (x, y) in enumerate(zip(a, b)):
            same(ch, x, y, what)
    elif isinstance(b, dict):
        if sorted(a) != sorted(b):
            raise Violation('%s: %r instead of %r' % (what, sorted(a), sorted(b)))
        for k in b:
            same(ch, a[k], b[k], '%s[%r]' % (what, k))
    elif isinstance(b, np.ndarray):
        if np.shape(a) != b.shape or not np.allclose(np.asarray(a, float), b, rtol=1e-12, atol=0):
            raise Violation('%s: %r instead of %r' % (what, a, b))
    elif a != b:
        raise Violation('%s: %r instead of %r' % (what, a, b))


def base(ch, g, m):
    """ nodes and elements, without touching the derived quantities """
    ch.eq([n.ID for n in g.Nodes], [n[0] for n in m.nodes], 'node IDs')
    for n, o in zip(g.Nodes, m.nodes):
        same(ch, [float(n.x), float(n.y), float(n.z)], [float(v) for v in o[1]], 'position of node %d' % n.ID)
        same(ch, n.data, o[2], 'data of node %d' % n.ID)
    ch.eq([e.ID for e in g.Elements], [e[0] for e in m.elems], 'element IDs')
    for e, o in zip(g.Elements, m.elems):
        ch.eq([int(i) for i in e.nodeIDs], o[1], 'nodes of element %d' % e.ID)
        ch.eq([n.ID for n in e.nodes], o[1], 'node objects of element %d' % e.ID)
        ch.check(all(n is g.getNode(n.ID) for n in e.nodes), 'element %d has nodes which are not those of the graph' % e.ID)
        ch.eq(e.propset, o[2], 'property set of element %d' % e.ID)
        ch.eq(None if e.propIDs is None else [int(i) for i in e.propIDs], o[3], 'properties of element %d' % e.ID)
        if o[3] is not None:
            ch.eq([p.ID for p in e.nodeProps], o[3], 'property objects of element %d' % e.ID)
            ch.check(all(p is g.getNodeProperty(o[2], p.ID) for p in e.nodeProps), 'properties not those of the set')
        same(ch, e.data, o[4], 'data of element %d' % e.ID)


QUERIES = ['n2id', 'n2e', 'e2n', 'conn', 'lines', 'frame', 'json', 'repr', 'lookup']


def query(ch, g, m, q):
    idx = [n[0] for n in m.nodes]
    if q == 'n2id':
        ch.eq({k: list(v) for k, v in g.nodeIDs2ElementIDs.items()}, {i: [e[0] for e in m.elems if i in e[1]] for i in idx}, 'element IDs per node')
    elif q == 'n2e':
        ch.eq({k: [e.ID for e in v] for k, v in g.nodeIDs2Elements.items()}, {i: [e[0] for e in m.elems if i in e[1]] for i in idx}, 'elements per node')
    elif q == 'e2n':
        ch.eq({k: list(v) for k, v in g.elementIDs2NodeIDs.items()}, {e[0]: e[1] for e in m.elems}, 'node IDs per element')
    elif q == 'conn':
        ch.eq([list(c) for c in g.connectivity], [[idx.index(i) for i in e[1]] for e in m.elems], 'connectivity')
    elif q == 'lines':
        same(ch, g.points, np.array([n[1] for n in m.nodes], float).reshape(-1, 3), 'points')
        same(ch, g.toLines(), np.array([[m.node(e[1][0])[1], m.node(e[1][-1])[1]] for e in m.elems], float).reshape(-1, 2, 3), 'lines')
        for e, o in zip(g.Elements, m.elems):
            if len(o[1]) == 2:
                a, b = [np.array(m.node(i)[1], float) for i in o[1]]
                same(ch, float(e.length), float(np.sqrt(((a - b)**2).sum())), 'length')
        if m.nodes:
            P = np.array([n[1] for n in m.nodes], float)
            mn, mx, d = g.extent
            same(ch, [np.array(mn, float), np.array(mx, float), np.array(d, float)], [P.min(0), P.max(0), P.max(0) - P.min(0)], 'extent')
            same(ch, float(g.maxDimension), float((P.max(0) - P.min(0)).max()), 'largest dimension')
    elif q == 'frame':
        for by in [None, ['z', 'ID', 'D', 'x', 'y'][(len(m.nodes) + len(m.elems)) % 5]]:
            if not m.nodes or (by == 'D' and not all('D' in n[2] for n in m.nodes)):
                continue
            df = g.nodalDataFrame(sortBy=by)
            ch.eq(sorted(df['ID'].values.tolist()), sorted(idx), 'rows of the nodal table')
            if by is None:
                ch.eq(df['ID'].values.tolist(), idx, 'rows of the nodal table')
            else:
                v = df[by].values.tolist()
                ch.eq(v, sorted(v), 'sorted nodal table')
            cols = {c: df[c].values for c in df.columns}
            for i in range(len(df)):
                r = {c: v[i] for c, v in cols.items()}
                n = m.node(int(r['ID']))
                same(ch, [float(r[c]) for c in 'xyz'], [float(v) for v in n[1]], 'row of the nodal table')
                for k, v in n[2].items():
                    if isinstance(v, (int, float)):
                        same(ch, float(r[k]), float(v), 'nodal table, %s' % k)
    elif q == 'json':
        if not m.nodes:
            return
        f = os.path.join(ch.dir, 'g.json')
        d = g.toJSON(f)
        with open(f, encoding='utf-8') as fid:
            d2 = json.load(fid)
        for x, w in [(d, 'export'), (d2, 'exported file')]:
            ch.eq([list(map(int, c)) for c in x['Connectivity']], [[idx.index(i) for i in e[1]] for e in m.elems], w + ' connectivity')
            same(ch, np.array(x['Nodes'], float), np.array([n[1] for n in m.nodes], float), w + ' nodes')
            ch.eq([(p['shape'], p['type']) for p in x['ElemProps']], [('cylinder', e[4].get('Type', 1)) for e in m.elems], w + ' element properties')
            same(ch, [float(p['Diam']) for p in x['ElemProps']], [float(e[4].get('D', 1)) for e in m.elems], w + ' diameters')
            same(ch, float(x['groundLevel']), float(min(n[1][2] for n in m.nodes)), w + ' ground level')
            ch.eq([p['name'] for p in x['Modes']], [p[0] for p in m.modes], w + ' modes')
            same(ch, [np.array(p['Displ'], float) for p in x['Modes']], [p[1] for p in m.modes], w + ' mode shapes')
            same(ch, [float(p['omega']) for p in x['Modes']], [float(p[2] * 2 * np.pi) for p in m.modes], w + ' mode frequencies')
    elif q == 'repr':
        s = repr(g)
        for n in m.nodes:
            ch.check('<Node{:4d}>'.format(n[0]) in s, 'node %d not in the representation' % n[0])
        for e in m.elems:
            ch.check('<Elem{:4d}>'.format(e[0]) in s, 'element %d not in the representation' % e[0])
    elif q == 'lookup':
        for i in idx:
            ch.eq(g.getNode(i).ID, i, 'node lookup')
        for e in m.elems:
            ch.eq(g.getElement(e[0]).ID, e[0], 'element lookup')
        for f, a in [(g.getNode, (987,)), (g.getElement, (987,)), (g.getNodeProperty, ('Beam', 987)), (g.getNodeProperty, ('None', 1)), (g.getElementProperty, ('None', 1)), (g.getMiscProperty, ('None', 1))]:
            ch.check(isinstance(raises(f, *a), KeyError), 'unknown %r found by %s' % (a, f.__name__))


XYZ = [(0.0, 0.0, -4.0), (1.5, -2.0, 3.0), (-3.0, 6.0, 0.5), (2.0, 2.0, 2.0), (-1.0, 4.0, -8.0), (0.0, 1.0, 7.0), (9.0, 8.0, 1.0)]


def new(ch, scheme):
    g, m = G().GraphModel(), M()
    g.addNodePropertySet('Beam')
    for i in [1, 2]:
        g.addNodeProperty('Beam', G().NodeProperty(ID=i, D=float(i), E=10. * i))
    return g, m


def nid(m, scheme):
    k = len(m.nodes)
    return k + 1 if scheme == 'up' else (50 - k if k == 0 or min(n[0] for n in m.nodes) == 51 - k else max(n[0] for n in m.nodes) + 3)


def add_node(g, m, scheme, data=True):
    ID = nid(m, scheme)
    k = len(m.nodes) % len(XYZ)
    d = {'D': 2.0 + (k * 5) % 7, 'tag': 'n%d' % k} if data else {}
    X = XYZ[k] if scheme == 'up' else (XYZ[k][0] + 10, XYZ[k][1] - 20, XYZ[k][2] + 30)
    g.addNode(G().Node(ID, *X, **d))
    m.nodes.append([ID, X, dict(d)])
    return ID


def add_elem(g, m, ids, props=None, **data):
    eid = 7 if not m.elems else max(e[0] for e in m.elems) + 2
    kw = dict(propset='Beam', propIDs=list(props)) if props else {}
    g.addElement(G().Element(eid, list(ids), **kw, **data))
    m.elems.append([eid, list(ids), 'Beam' if props else None, list(props) if props else None, dict(data)])
    return eid


def h_history(ch):
    """ additions, divisions, sorts, changes and queries in any order """
    scheme = ch.pick('IDs', ['up', 'down'])
    start = ch.pick('start', ['empty', 'line', 'triangle'])
    g, m = new(ch, scheme)
    for _ in range({'empty': 0, 'line': 2, 'triangle': 3}[start]):
        add_node(g, m, scheme)
    if start != 'empty':
        ids = [n[0] for n in m.nodes]
        add_elem(g, m, ids[:2], (1, 1), Type='Beam', D=3.5)
        if start == 'triangle':
            add_elem(g, m, ids[1:3], None, Type='Cable')
    base(ch, g, m)
    depth = 4 if FULL else 3
    for step in range(depth):
        last = step == depth - 1
        ops = ['node']
        if len(m.nodes) > 1:
            ops += ['elem01', 'elem_last', 'elem_props', 'move']
        if m.nodes:
            ops += ['sort_x', 'sort_y', 'sort_z', 'sort_ID', 'setdata']
            if all('D' in n[2] for n in m.nodes):
                ops += ['sort_D']
        ops += ['div_append', 'div_insert', 'div_exclude', 'mode', 'bad_elem', 'bad_div']
        if not last:
            ops += ['q_n2id', 'q_n2e', 'q_e2n', 'q_conn', 'q_json']
        op = ch.pick('op%d' % step, ops)
        ch.op()
        ids = [n[0] for n in m.nodes]
        if op == 'node':
            add_node(g, m, scheme)
        elif op == 'elem01':
            add_elem(g, m, ids[:2])
        elif op == 'elem_last':
            add_elem(g, m, [ids[-1], ids[0]], None, Type='Rigid', D=1.25)
        elif op == 'elem_props':
            add_elem(g, m, ids[:2], (2, 2), Type='Beam')
        elif op == 'move':
            if m.elems:
                g.Elements[-1].nodeIDs = [ids[-1], ids[1]] if ids[-1] != ids[1] else [ids[0], ids[1]]
                m.elems[-1][1] = list(g.Elements[-1].nodeIDs)
                if m.elems[-1][3] is not None:
                    q = 3 - m.elems[-1][3][0]
                    g.Elements[-1].propIDs = [q, q]
                    m.elems[-1][3] = [q, q]
                g.updateConnectivity()
        elif op.startswith('sort'):
            k = op[5:]
            if m.modes:
                ch.check(raises(g.sortNodesBy, k) is not None, 'nodes sorted although modes are present')
            else:
                g.sortNodesBy(k)
                key = lambda n: n[1]['xyz'.index(k)] if k in 'xyz' else (n[0] if k == 'ID' else n[2][k])
                new_ids = [n.ID for n in g.Nodes]
                ch.eq(sorted(new_ids), sorted(ids), 'nodes after sorting')
                m.nodes = [m.node(i) for i in new_ids]
                v = [key(n) for n in m.nodes]
                ch.eq(v, sorted(v), 'order of the nodes sorted by %s' % k)
        elif op == 'setdata':
            g.setNodalData(ids[-1], load=5.5)
            m.node(ids[-1])[2]['load'] = 5.5
        elif op.startswith('div'):
            kw = {'div_append': dict(nPerElement=2), 'div_insert': dict(nPerElement=3, method='insert'), 'div_exclude': dict(nPerElement=2, excludeDataKey='Type', excludeDataList=['Cable', 'Rigid'], method='insert')}[op]
            if m.modes and m.elems:
                if op != 'div_exclude' or any(e[4].get('Type') not in ['Cable', 'Rigid'] for e in m.elems):
                    ch.check(raises(lambda: g.divideElements(**kw)) is not None, 'elements divided although modes are present')
                    base(ch, g, m)
                    continue
            ch.check(g.divideElements(**kw) is g, 'divideElements does not return the graph')
            m.divide(kw['nPerElement'], (lambda e: e[4].get('Type') in ['Cable', 'Rigid']) if op == 'div_exclude' else (lambda e: False), kw.get('method', 'append'))
        elif op == 'mode':
            if m.nodes:
                a = np.arange(3. * len(m.nodes)).reshape(-1, 3)
                if len(m.modes) % 2:
                    g.addMode(a + 1)
                    m.modes.append(('Mode %d' % len(m.modes), a + 1, 1))
                else:
                    g.addMode(a, name='m%d' % len(m.modes), freq=2.5)
                    m.modes.append(('m%d' % len(m.modes), a.copy(), 2.5))
        elif op == 'bad_elem':
            e = raises(g.addElement, G().Element(99, [987, 988]))
            ch.check(isinstance(e, KeyError), 'element with unknown nodes: %r' % e)
        elif op == 'bad_div':
            ch.check(raises(g.divideElements, 0) is not None, 'division in 0 parts accepted')
            ch.check(raises(lambda: g.divideElements(2, method='none')) is not None, 'unknown method accepted')
        elif op.startswith('q_'):
            query(ch, g, m, op[2:])
        base(ch, g, m)
        ch.state((op, [n[0] for n in m.nodes], [(e[0], tuple(e[1])) for e in m.elems], len(m.modes), start, scheme))
    if FULL:
        query(ch, g, m, ch.pick('first query', QUERIES[:4]))
    for q in QUERIES:
        query(ch, g, m, q)
    base(ch, g, m)


def h_divide(ch):
    """ division of elements """
    method = ch.pick('method', ['append', 'insert'])
    n = ch.pick('parts', [1, 2, 3, 4])
    ne = ch.pick('elements', [0, 1, 2, 3])
    shape = ch.pick('shape', ['chain', 'star'])
    props = ch.pick('properties', ['none', 'list', 'array', 'tuple', 'different ends'])
    skip = ch.pick('skip', [(), ('D',), ('D', 'tag', 'w')])
    excl = ch.pick('excluded', [None, 'first', 'second', 'key missing', 'all'])
    g, m = new(ch, 'up')
    for _ in range(ne + 1):
        add_node(g, m, 'up')
    if ne > 1:   # a node without the data of the others
        del g.Nodes[1].data['tag'], m.nodes[1][2]['tag']
    for k in range(ne):
        ids = [m.nodes[k][0], m.nodes[k + 1][0]] if shape == 'chain' else [m.nodes[0][0], m.nodes[k + 1][0]]
        if k == 1:
            ids = ids[::-1]
        d = dict(w=float(k))
        if excl in ['first', 'second', 'all']:
            d['Type'] = 'Cable' if excl == 'all' or k == ['first', 'second'].index(excl) else 'Beam'
        p = {'none': None, 'list': [2, 2], 'array': np.array([2, 2]), 'tuple': (2, 2), 'different ends': [1, 2]}[props]
        eid = 10 * (ne - k)
        g.addElement(G().Element(eid, list(ids) if k != 2 else np.array(ids), **(dict(propset='Beam', propIDs=p) if p is not None else {}), **d))
        m.elems.append([eid, ids, 'Beam' if p is not None else None, None if p is None else [int(i) for i in p], d.copy()])
    if ch.flag('query first'):
        for q in QUERIES[:4]:
            query(ch, g, m, q)
    kw = dict(method=method, keysNotToCopy=list(skip))
    ex = lambda e: False
    if excl:
        kw.update(excludeDataKey='Type', excludeDataList=['Cable'])
        ex = lambda e: e[4].get('Type') == 'Cable'
    ch.op()
    if props == 'different ends' and n > 1 and any(not ex(e) for e in m.elems):
        ch.check(raises(lambda: g.divideElements(n, **kw)) is not None, 'element with two properties divided')
    else:
        g.divideElements(n, **kw)
        m.divide(n, ex, method, skip)
    base(ch, g, m)
    for q in QUERIES:
        query(ch, g, m, q)
    ch.check(len(set(n.ID for n in g.Nodes)) == len(g.Nodes) and len(set(e.ID for e in g.Elements)) == len(g.Elements), 'IDs used twice')


def h_props(ch):
    """ property sets, nodal properties, elements with several nodes """
    g, m = new(ch, 'up')
    for _ in range(3):
        add_node(g, m, 'up', data=ch.flag('data') if _ == 0 else True)
    kind = ch.pick('kind', ['Node', 'Element', 'Misc'])
    cls = ch.pick('class', ['NodeProperty', 'ElemProperty', 'Property', 'dict'])
    n = ch.pick('number', [1, 2, 3])
    how = ch.pick('how', ['kwargs', 'data'])
    add_set = {'Node': g.addNodePropertySet, 'Element': g.addElementPropertySet, 'Misc': g.addMiscPropertySet}[kind]
    add = {'Node': g.addNodeProperty, 'Element': g.addElementProperty, 'Misc': g.addMiscProperty}[kind]
    getp = {'Node': g.getNodeProperty, 'Element': g.getElementProperty, 'Misc': g.getMiscProperty}[kind]
    add_set('S')
    ok = {'Node': cls == 'NodeProperty', 'Element': cls == 'ElemProperty', 'Misc': cls != 'dict'}[kind]
    vals = {}
    for k in range(n):
        d = {'Cd': 1.5 + k, 'name': 'p%d' % k}
        if cls == 'dict':
            p = d
        else:
            C = getattr(G(), cls)
            p = C(ID=float(9 - k), **d) if how == 'kwargs' else C(9 - k, data=d)
        ch.op()
        e = raises(add, 'S', p)
        if ok:
            if e is not None:
                raise Violation('%s property of class %s refused: %r' % (kind, cls, e))
            vals[9 - k] = d
        else:
            ch.check(e is not None, '%s property of class %s accepted' % (kind, cls))
    for i in range(6, 11):
        if i in vals:
            p = getp('S', i)
            ch.eq((p.ID, dict(p.data), dict(p)), (i, vals[i], vals[i]), 'property %d' % i)
        else:
            ch.check(isinstance(raises(getp, 'S', i), KeyError), 'property %d found' % i)
    if kind == 'Node' and ok:
        how = ch.pick('nodal', ['element', 'node'])
        ids = [x[0] for x in m.nodes]
        if how == 'element':
            eid = add_elem(g, m, ids, None, Type='T')
            el = g.getElement(eid)
            g.setElementNodalProp(el, 'S', ([9] * 3 if n == 1 else [9, 8, 9]))
            for x, i in zip(m.nodes, [9] * 3 if n == 1 else [9, 8, 9]):
                x[2].update(vals[i])
        else:
            g.setNodeNodalProp(g.getNode(ids[1]), 'S', 9)
            m.nodes[1][2].update(vals[9])
        base(ch, g, m)
        if ch.flag('divide'):
            g.divideElements(2)
            m.divide(2, lambda e: False, 'append')
    base(ch, g, m)
    for q in QUERIES:
        query(ch, g, m, q)
    s = repr(g)
    for i in vals:
        ch.check('{:4d}>'.format(i) in s, 'property %d not in the representation' % i)
    g.Motions.append({'name': 'mo', 'data': np.zeros(3)})
    ch.check('mo' in repr(g), 'motion not in the representation')
    ch.check(raises(g.divideElements, 2) is not None or not m.elems, 'divided although motions are present')
    ch.check(raises(g.sortNodesBy, 'x') is not None, 'sorted although motions are present')


# --- graphs of substructure files ---------------------------------------
def settab(txt, key, rows, head=None):
    """ replace the rows (and column names) of the table of a FAST input file """
    L = txt.split('\n')
    i = [k for k, l in enumerate(L) if len(l.split()) > 1 and l.split()[1] == key][0]
    n = int(L[i].split()[0])
    L[i] = L[i].replace(L[i].split()[0], str(len(rows)), 1)
    if head:
        L[i + 1] = head
        L[i + 2] = ' '.join(['(-)'] * len(head.split()))
    L[i + 3:i + 3 + n] = rows
    return '\n'.join(L)


SD = """----------- SubDyn MultiMember Support Structure Input File ------------
generated
-------------------------- SIMULATION CONTROL ---------------------------------
False            Echo        - Echo input data to "<rootname>.SD.ech" (flag)
             1   NDiv        - Number of sub-elements per member
---- STRUCTURE JOINTS: joints connect structure members (~Hydrodyn Input File)---
        0  NJoints     - Number of joints (-)
JointID          JointXss               JointYss               JointZss
  (-)               (m)                    (m)                    (m)
------------------- BASE REACTION JOINTS: 1/0 for Locked/Free DOF @ each Reaction Node ---------------------
             0   NReact      - Number of Joints with reaction forces
RJointID   RctTDXss    RctTDYss    RctTDZss    RctRDXss    RctRDYss    RctRDZss     SSIfile
  (-)       (flag)      (flag)      (flag)      (flag)      (flag)      (flag)      (string)
------- INTERFACE JOINTS: 1/0 for Locked (to the TP)/Free DOF @each Interface Joint (only Locked-to-TP implemented thus far (=rigid TP)) ---------
             0   NInterf     - Number of interface joints locked to the Transition Piece (TP)
IJointID   ItfTDXss    ItfTDYss    ItfTDZss    ItfRDXss    ItfRDYss    ItfRDZss
  (-)       (flag)      (flag)      (flag)      (flag)      (flag)      (flag)
----------------------------------- MEMBERS --------------------------------------
          0   NMembers    - Number of frame members
MemberID   MJointID1   MJointID2   MPropSetID1   MPropSetID2
  (-)         (-)         (-)          (-)           (-)
------------------ MEMBER X-SECTION PROPERTY data 1/2 [isotropic material for now: use this table for circular-tubular elements] ------------------------
            0   NPropSets   - Number of structurally unique x-sections
PropSetID     YoungE          ShearG          MatDens          XsecD           XsecT
  (-)         (N/m2)          (N/m2)          (kg/m3)           (m)             (m)
------------------ MEMBER X-SECTION PROPERTY data 2/2 [isotropic material for now: use this table if any section other than circular, however provide COSM(i,j) below] ------------------------
             0   NXPropSets  - Number of structurally unique non-circular x-sections (if 0 the following table is ignored)
PropSetID     YoungE          ShearG          MatDens          XsecA          XsecAsx       XsecAsy       XsecJxx       XsecJyy        XsecJ0
  (-)         (N/m2)          (N/m2)          (kg/m3)          (m2)            (m2)          (m2)          (m4)          (m4)          (m4)
-------------------------- CABLE PROPERTIES  -------------------------------------
             0   NCablePropSets   - Number of cable cable properties
PropSetID     EA          MatDens        T0
  (-)        (N)      (kg/m)        (N)
----------------------- RIGID LINK PROPERTIES ------------------------------------
             0   NRigidPropSets - Number of rigid link properties
PropSetID   MatDens
  (-)       (kg/m)
---------------------- MEMBER COSINE MATRICES COSM(i,j) ------------------------
             0   NCOSMs      - Number of unique cosine matrices
COSMID    COSM11    COSM12    COSM13    COSM21    COSM22    COSM23    COSM31    COSM32    COSM33
 (-)       (-)       (-)       (-)       (-)       (-)       (-)       (-)       (-)       (-)
------------------------ JOINT ADDITIONAL CONCENTRATED MASSES--------------------------
           0   NCmass      - Number of joints with concentrated masses; Global Coordinate System
CMJointID       JMass            JMXX             JMYY             JMZZ          JMXY        JMXZ         JMYZ        MCGX      MCGY        MCGZ
  (-)            (kg)          (kg*m^2)         (kg*m^2)         (kg*m^2)      (kg*m^2)    (kg*m^2)     (kg*m^2)       (m)      (m)          (m)
---------------------------- OUTPUT: SUMMARY & OUTFILE ------------------------------
True             SumPrint    - Output a Summary File (flag).
END of output channels and end of file. (the word "END" must appear in the first 3 columns of this line)
"""

JXYZ = [(0.0, 1.25, -20.5), (3.0, -2.0, 10.125), (-7.5, 0.5, 0.001)]


def mass(m, J, c):
    """ mass matrix at a point of a body with mass m, inertia J about its centre, centre at c """
    S = np.array([[0, -c[2], c[1]], [c[2], 0, -c[0]], [-c[1], c[0], 0]])
    I = np.array([[J[0], J[3], J[4]], [J[3], J[1], J[5]], [J[4], J[5], J[2]]], float)
    A = np.zeros((6, 6))
    A[:3, :3] = m * np.eye(3)
    A[:3, 3:] = -m * S
    A[3:, :3] = m * S
    A[3:, 3:] = I - m * S @ S
    return A


def h_subdyn(ch):
    """ graph of a SubDyn input file """
    ids = ch.pick('joints', [[1, 2], [7, 3], [1, 2, 3], [12, 5, 9]])
    cols = ch.pick('joint columns', [4, 5, 9])
    mtype = ch.pick('member types', ['no type', 'beams', 'mixed'])
    nm = ch.pick('members', [1, 2, 3])
    ncm = ch.pick('masses', [0, 1, 2])
    ncab = ch.pick('cable columns', [4, 5])
    ssi = ch.flag('soil file')
    t = SD
    jt = [1, 2, 4]
    rows = ['  %d %r %r %r' % ((i,) + JXYZ[k]) + ('' if cols == 4 else ' %d' % jt[k]) + (' 0.0 1.0 0.0 100.5' if cols == 9 else '') for k, i in enumerate(ids)]
    t = settab(t, 'NJoints', rows, 'JointID JointXss JointYss JointZss' + ('' if cols == 4 else ' JointType') + (' JointDirX JointDirY JointDirZ JointStiff' if cols == 9 else ''))
    pairs = [(ids[0], ids[1]), (ids[-1], ids[0]), (ids[1], ids[-1] if len(ids) > 2 else ids[0])][:nm]
    types = [1] * nm if mtype != 'mixed' else [3, 2, 1][:nm]
    eids = [21, 4, 13][:nm]
    props = {1: (11, 12), 2: (3, 3), 3: (8, 8)}
    t = settab(t, 'NMembers', ['%d %d %d %d %d' % ((e,) + p + props[y]) + ('' if mtype == 'no type' else ' %d' % y) for e, p, y in zip(eids, pairs, types)],
               'MemberID MJointID1 MJointID2 MPropSetID1 MPropSetID2' + ('' if mtype == 'no type' else ' MType'))
    B = [(11, 2.1e11, 8.1e10, 7850.5, 6.25, 0.06), (12, 2.2e11, 8.2e10, 7900., 5.75, 0.05)]
    C = [(3, 1.5e9, 77.5, 1e5, 2.)]
    R = [(8, 7860.5)]
    t = settab(t, 'NPropSets', [' '.join(map(repr, p)) for p in B])
    t = settab(t, 'NCablePropSets', [' '.join(map(repr, p[:ncab])) for p in C], 'PropSetID EA MatDens T0' + (' CtrlChannel' if ncab == 5 else ''))
    t = settab(t, 'NRigidPropSets', [' '.join(map(repr, p)) for p in R])
    t = settab(t, 'NReact', ['%d 1 1 1 0 1 1 %s' % (ids[0], '"ssi.txt"' if ssi else '""')])
    t = settab(t, 'NInterf', ['%d 1 1 1 1 1 0' % ids[1]])
    cm = [(ids[-1], 1000.5, 10., 20., 30., 1., 2., 3., 0.5, -1.5, 2.5), (ids[0], 5., 0., 0., 0., 0., 0., 0., 0., 0., 0.)][:ncm]
    t = settab(t, 'NCmass', [' '.join(map(repr, c)) for c in cm])
    from weio.fast_input_file import FASTInputFile
    ch.op()
    g = FASTInputFile(put(os.path.join(ch.dir, 'SubDyn.dat'), t)).toGraph()
    ch.eq([n.ID for n in g.Nodes], ids, 'joints')
    for k, n in enumerate(g.Nodes):
        same(ch, [float(n.x), float(n.y), float(n.z)], [float(v) for v in JXYZ[k]], 'position of joint %d' % n.ID)
        ch.eq(float(n.data['Type']), float(1 if cols == 4 else jt[k]), 'type of joint %d' % n.ID)
        mm = [c for c in cm if c[0] == n.ID]
        if mm:
            same(ch, n.data['addedMassMatrix'], mass(mm[0][1], mm[0][2:8], mm[0][8:]), 'mass matrix')
        else:
            ch.check('addedMassMatrix' not in n.data, 'mass without mass')
        if k == 0:
            r = list(n.data['RBC'])
            ch.eq([int(v) for v in r[:6]], [1, 1, 1, 0, 1, 1], 'reaction flags')
            if ssi:
                ch.eq([str(v).strip('"') for v in r[6:]], ['ssi.txt'], 'soil file')
        else:
            ch.check('RBC' not in n.data, 'reaction at another joint')
        if k == 1:
            ch.eq([int(v) for v in n.data['IBC']], [1, 1, 1, 1, 1, 0], 'interface flags')
        else:
            ch.check('IBC' not in n.data, 'interface at another joint')
    ch.eq([(e.ID, [int(i) for i in e.nodeIDs], e.propset, [int(i) for i in e.propIDs], e.data['Type'], [p.ID for p in e.nodeProps]) for e in g.Elements],
          [(i, list(p), s, list(props[y]), s, list(props[y])) for i, p, y in zip(eids, pairs, types) for s in [{1: 'Beam', 2: 'Cable', 3: 'Rigid'}[y]]], 'members')
    got = {k: [(p.ID, {q: float(v) for q, v in p.items()}) for p in v] for k, v in g.NodePropertySets.items()}
    exp = {'Beam': [(p[0], dict(zip(['E', 'G', 'rho', 'D', 't'], map(float, p[1:])))) for p in B],
           'Cable': [(p[0], dict(EA=p[1], rho=p[2], T0=p[3], Chan=(p[4] if ncab == 5 else -1.))) for p in C],
           'Rigid': [(p[0], dict(rho=p[1])) for p in R]}
    ch.eq(got, exp, 'properties')
    m = M()
    m.nodes = [[n.ID, (n.x, n.y, n.z), dict(n.data)] for n in g.Nodes]
    m.elems = [[e.ID, [int(i) for i in e.nodeIDs], e.propset, [int(i) for i in e.propIDs], dict(e.data)] for e in g.Elements]
    for q in QUERIES:
        query(ch, g, m, q)
    if nm == 2 and mtype == 'mixed':
        g.divideElements(2, excludeDataKey='Type', excludeDataList=['Beam'], keysNotToCopy=['IBC', 'RBC', 'addedMassMatrix'])
        m.divide(2, lambda e: False, 'append', ['IBC', 'RBC', 'addedMassMatrix'])
        ch.eq([[n.ID, [float(n.x), float(n.y), float(n.z)]] for n in g.Nodes], [[n[0], [float(v) for v in n[1]]] for n in m.nodes], 'divided members')
        for q in QUERIES:
            query(ch, g, m, q)


def h_hydrodyn(ch):
    """ graph of a HydroDyn input file """
    t = open(os.path.join(EX, 'FASTIn_HD.dat')).read()
    ids = ch.pick('joints', [[1, 2], [7, 3, 5]])
    nm = ch.pick('members', [1, 2, 3])
    cols = ch.pick('axial drag columns', [False, True])
    mod = ch.pick('models', [[1, 1, 1], [1, 2, 3], [3, 1, 2], [2, 3, 1]])[:nm]
    nd = ch.pick('depths', [0, 1, 2])
    nmem = ch.pick('member coefficients', [0, 1, 2])
    nmg = ch.pick('marine growth', [0, 2])
    nax = ch.pick('axial coefficients', [1, 2])
    jax = [1 + (k % nax) for k in range(len(ids))]
    t = settab(t, 'NAxCoef', ['%d %r %r %r' % (k + 1, .1 + k, .2 + k, .3 + k) for k in range(nax)])
    t = settab(t, 'NJoints', ['%d %r %r %r %d 0' % ((i,) + JXYZ[k] + (jax[k],)) for k, i in enumerate(ids)])
    t = settab(t, 'NPropSets', ['1 9.5 0.25', '4 6.5 0.125'])
    sn = ['Cd', 'CdMG', 'Ca', 'CaMG', 'Cp', 'CpMG'] + (['AxCd', 'AxCdMG'] if cols else []) + ['AxCa', 'AxCaMG', 'AxCp', 'AxCpMG']
    S = [0.5 + k for k in range(len(sn))]
    L = t.split('\n')
    i = [k for k, l in enumerate(L) if 'SimplCd' in l][0]
    L[i] = ' '.join('Simpl' + x for x in sn)
    L[i + 1] = ' '.join(['(-)'] * len(sn))
    L[i + 2] = ' '.join(map(repr, S))
    t = '\n'.join(L)
    D = [[-5. * r] + [10. * r + 0.25 + k for k in range(len(sn))] for r in range(nd)]
    t = settab(t, 'NCoefDpth', [' '.join(map(repr, d)) for d in D], 'Dpth ' + ' '.join('Dpth' + x for x in sn))
    mn = [x + s for x in sn for s in '12']
    Mm = [[[21, 4][r]] + [100. * r + 0.75 + k for k in range(len(mn))] for r in range(nmem)]
    t = settab(t, 'NCoefMembers', [' '.join(map(repr, d)) for d in Mm], 'MemberID ' + ' '.join('Member' + x for x in mn))
    MG = [(-10.5, 0.1, 1000.), (-20.5, 0.2, 1001.)][:nmg]
    t = settab(t, 'NMGDepths', [' '.join(map(repr, d)) for d in MG])
    eids = [21, 4, 13][:nm]
    pairs = [(ids[0], ids[1]), (ids[-1], ids[0]), (ids[1], ids[0])][:nm]
    pot = [True, False, True][:nm]
    t = settab(t, 'NMembers', ['%d %d %d 1 %d 0.5%d %d %s' % ((e,) + p + ([1, 4, 1][k], k, mod[k], ['TRUE', 'false', 'True'][k])) for k, (e, p) in enumerate(zip(eids, pairs))])
    from weio.fast_input_file import FASTInputFile
    ch.op()
    g = FASTInputFile(put(os.path.join(ch.dir, 'HydroDyn.dat'), t)).toGraph()
    ch.eq([n.ID for n in g.Nodes], ids, 'joints')
    hit = set(i for k, p in enumerate(pairs) if mod[k] == 1 for i in p)
    for k, n in enumerate(g.Nodes):
        same(ch, [float(n.x), float(n.y), float(n.z)], [float(v) for v in JXYZ[k]], 'position of joint %d' % n.ID)
        d = {'JAxCd': .1 + jax[k] - 1, 'JAxCa': .2 + jax[k] - 1, 'JAxCp': .3 + jax[k] - 1}
        if n.ID in hit:
            d.update(dict(zip(sn, S)))
        same(ch, {q: float(v) for q, v in n.data.items()}, d, 'coefficients of joint %d' % n.ID)
    ch.eq([(e.ID, [int(i) for i in e.nodeIDs], e.propset, [int(i) for i in e.propIDs], e.data['CoefMod'], e.data['DivSize'], bool(e.data['Pot'])) for e in g.Elements],
          [(e, list(p), 'Section', [1, [1, 4, 1][k]], {1: 'SimpleCoefs', 2: 'DepthCoefs', 3: 'MemberCoefs'}[mod[k]], float('0.5%d' % k), pot[k]) for k, (e, p) in enumerate(zip(eids, pairs))], 'members')
    cols_ = [e.data['color'] for e in g.Elements]
    ch.check(all(len(c) == 3 for c in cols_), 'colours: %r' % (cols_,))
    ch.check(len(set(cols_)) == len(set(pot)), 'colours do not tell the theory: %r' % (cols_,))
    low = lambda d: {q.lower(): float(v) for q, v in d.items()}
    ns = {k: [(p.ID, low(p)) for p in v] for k, v in g.NodePropertySets.items()}
    ch.eq(ns, {'Section': [(1, dict(d=9.5, t=0.25)), (4, dict(d=6.5, t=0.125))], 'AxCoefs': [(k + 1, dict(jaxcd=.1 + k, jaxca=.2 + k, jaxcp=.3 + k)) for k in range(nax)], 'SimpleCoefs': [(1, low(dict(zip(sn, S))))]}, 'property sets')
    ms = {k: [(p.ID, low(p)) for p in v] for k, v in g.MiscPropertySets.items()}
    ch.eq(ms.get('DepthCoefs', []), [(r + 1, low(dict(zip(['Dpth'] + sn, D[r])))) for r in range(nd)], 'depth coefficients')
    ch.eq(ms.get('MemberCoefs', []), [(r + 1, low(dict(zip(['MemberID'] + mn, Mm[r])))) for r in range(nmem)], 'member coefficients')
    ch.eq(ms.get('MG', []), [(r + 1, low(dict(zip(['MGDpth', 'MGThck', 'MGDens'], MG[r])))) for r in range(nmg)], 'marine growth')
    ch.eq(ms.get('FillGroups', []), [], 'filled members')
    m = M()
    m.nodes = [[n.ID, (n.x, n.y, n.z), dict(n.data)] for n in g.Nodes]
    m.elems = [[e.ID, [int(i) for i in e.nodeIDs], e.propset, [int(i) for i in e.propIDs], dict(e.data)] for e in g.Elements]
    for q in QUERIES:
        query(ch, g, m, q)


def h_summary(ch):
    """ graph of a SubDyn summary file """
    t = open(os.path.join(EX, 'FASTSum_Pendulum.SD.sum.yaml')).read()
    ne = ch.pick('elements', [1, 2, 3])
    types = ch.pick('types', [[1, 1, 1], [1, 2, 3], [3, 2, 1]])[:ne]
    k0 = ch.pick('first', [1, 11])
    xyz = ch.pick('positions', [[(0.1, 0.2, 0.3), (0., 0., -1.), (0., 7.7, -6.)], [(1e4 + 0.0625, 0., 0.), (0., 123456.789, 0.), (0., 0., 1 / 3.)]])
    pairs = [(1, 2), (3, 2), (1, 3)][:ne]
    rows = []
    for k in range(ne):
        rows.append([k0 + 2 * k, pairs[k][0], pairs[k][1], 1, 1, types[k], 1.5 + k, 0.011 * (k + 1), 7850. + k, 2.1e11 + k, 8.1e10 + k, 0.51, 4.6e-5, 4.7e-5, 9.3e-5, -9.99e36])
    L = t.split('\n')
    i = [k for k, l in enumerate(L) if l.startswith('Elements:')][0]
    L[i:i + 3] = ['Elements: # %d x 16' % ne] + ['  - [ ' + ', '.join(repr(float(v)) for v in r) + ',]' for r in rows]
    i = [k for k, l in enumerate(L) if l.startswith('Nodes:')][0]
    for k in range(3):
        w = L[i + 1 + k].split(',')
        w[1:4] = [' %r' % v for v in xyz[k]]
        L[i + 1 + k] = ','.join(w)
    from weio.fast_summary_file import FASTSummaryFile
    ch.op()
    F = FASTSummaryFile(put(os.path.join(ch.dir, 'a.SD.sum.yaml'), '\n'.join(L)))
    g = F.toGraph()
    ch.eq([n.ID for n in g.Nodes], [1, 2, 3], 'nodes')
    ndof = [6, 7, 6]
    for k, n in enumerate(g.Nodes):
        same(ch, [float(n.x), float(n.y), float(n.z)], [float(v) for v in xyz[k]], 'position of node %d' % n.ID)
        ch.eq(int(n.data['Type']), [1, 3, 1][k], 'type of node %d' % n.ID)
        ch.eq([int(v) for v in n.data['DOFs']], list(range(sum(ndof[:k]), sum(ndof[:k + 1]))), 'degrees of freedom of node %d' % n.ID)
    ch.eq([e.ID for e in g.Elements], [int(r[0]) for r in rows], 'elements')
    for e, r in zip(g.Elements, rows):
        ch.eq([int(i) for i in e.nodeIDs], r[1:3], 'nodes of element %d' % e.ID)
        same(ch, {k: float(e.data[k]) for k in ['Type', 'Area', 'rho', 'E', 'G']}, {'Type': float(r[5]), 'Area': r[7], 'rho': r[8], 'E': r[9], 'G': r[10]}, 'element %d' % e.ID)
    ch.eq([mo['name'] for mo in g.Modes], ['GY%d' % (i + 1) for i in range(6)] + ['CB%d' % (i + 1) for i in range(5)], 'modes')
    cb = [2.571561E-02, 5.154897E+00, 3.448768E+01, 3.639185E+01, 9.826435E+01]
    same(ch, [float(mo['freq']) for mo in g.Modes[6:]], cb, 'mode frequencies')
    dispGy, _, _, dispCB, _, _ = F.getModes(sortDim=None)
    for i, mo in enumerate(g.Modes):
        same(ch, mo['data'], (dispGy[:, :, i] if i < 6 else dispCB[:, :, i - 6]), 'mode %d' % i)
    m = M()
    m.nodes = [[n.ID, (n.x, n.y, n.z), dict(n.data)] for n in g.Nodes]
    m.elems = [[e.ID, [int(i) for i in e.nodeIDs], None, None, dict(e.data)] for e in g.Elements]
    m.modes = [(mo['name'], mo['data'], mo['freq']) for mo in g.Modes]
    for q in QUERIES:
        query(ch, g, m, q)


def h_tojson(ch):
    """ text of to_json """
    tj = G().to_json
    vals = [1, -2, 2.5, 0.0, True, False, None, 'a', [], [1, 2.5], (3, 'b'), {'k': 1}, {'k': [None, {'z': 1.5}]}, {}, np.array([1, 2]), np.array([1.5, 2.5]), [[1, 2], [3, 4]]]
    plain = lambda v: [plain(x) for x in v] if isinstance(v, (list, tuple)) else ({k: plain(x) for k, x in v.items()} if isinstance(v, dict) else (v.tolist() if isinstance(v, np.ndarray) else v))
    n = ch.pick('keys', [0, 1, 2])
    d = {'key%d' % i: ch.pick('v%d' % i, vals) for i in range(n)}
    ch.op()
    s = tj(d)
    ch.eq(json.loads(s), plain(d), 'json text')
    ch.check(isinstance(raises(tj, {'a': object()}), TypeError), 'unknown type written')


def harnesses(tier):
    global FULL
    FULL = tier == 'thorough'
    return [('history', h_history), ('divide', h_divide), ('props', h_props), ('subdyn', h_subdyn), ('hydrodyn', h_hydrodyn), ('summary', h_summary), ('to_json', h_tojson)]
