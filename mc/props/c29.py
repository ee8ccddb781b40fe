"""C29: HAWC2 models: files named by a command file, model directory, comparison of command files"""
import os
from ..core import Violation
from ..util import *
from .c18 import K, L, X, S, O, text, fview

INFO = dict(bounds='every pair of 20 kinds of input references x place of the command file (0 to 3 levels below the model directory) x spelling (plain, other letter case, backslashes, absolute, missing, decoys); every pair of 15 kinds of result references, 1 to 3 output blocks of 5 formats; turbulence files (formats, missing components); structural tables of bodies x places x sets; every history of up to 2 (thorough 3) edits out of 23, compared both ways')


# ------------------------------------------------------------------ input files
# kind -> function(names) giving the tree, names: list of file names to use; required / allowed
def mb(i, *kids):
    return S('main_body', L('name', 'b%d' % i), *kids)


def dtu(name, pitch):
    """ controller whose fifth constant is the minimum pitch angle, or the number of its table """
    return S('dll', S('type2_dll', L('name', 'dtu_we_controller'), L('filename', name), S('init', *[L('constant', i + 1, pitch if i == 4 else 100 + i) for i in range(6)])))


WP = {'dtu90': 'control/wpdata.90', 'dtu95': 'control/wpdata.95'}
KINDS = {
    'st': (['data/st.dat'], lambda n: S('new_htc_structure', mb(0, S('timoschenko_input', L('filename', n[0]), L('set', 1, 1))))),
    'st2': (['data/st1.dat', 'data/st2.dat'], lambda n: S('new_htc_structure', mb(0, S('timoschenko_input', L('filename', n[0]))), mb(1, S('timoschenko_input', L('filename', n[1]))))),
    'bodydll': (['data/body.inp'], lambda n: S('new_htc_structure', mb(0, L('external_bladedata_dll', 'company', 'sub', n[0])))),
    'ae': (['data/blade.ae'], lambda n: S('aero', L('nblades', 3), L('ae_filename', n[0]))),
    'pc': (['data/blade.pc'], lambda n: S('aero', L('pc_filename', n[0]))),
    'aepc': (['data/b_ae.dat', 'data/b_pc.dat'], lambda n: S('aero', L('ae_filename', n[0]), L('pc_filename', n[1]), L('ae_sets', 1, 1, 1))),
    'aerodll': (['data/aero.inp'], lambda n: S('aero', L('external_bladedata_dll', 'company', 'sub', n[0]))),
    'flap': (['data/flap.ds'], lambda n: S('aero', S('dynstall_ateflap', L('ais', 0.0525), L('flap', 59, 77, n[0])))),
    'flaps': (['data/flap1.ds', 'data/flap2.ds', 'data/flap3.ds'], lambda n: S('aero', S('dynstall_ateflap', L('ais', 0.0525), *[L('flap', i, 77, x) for i, x in enumerate(n)]))),
    'bemwake': (['data/act.dat'], lambda n: S('aero', S('bemwake_method', L('nazi', 16), L('a-ct-filename', n[0])))),
    'dll': (['control/ctrl.dll'], lambda n: S('dll', S('type2_dll', L('name', 'c'), L('filename', n[0])))),
    'dll2': (['control/a.dll', 'control/b.dll'], lambda n: S('dll', S('type2_dll', L('name', 'c'), L('filename', n[0])), S('hawc_dll', L('filename', n[1])), S('type2_dll', L('name', 'none')))),
    'dllso': (['control/x.so', 'control/Name.With.Dots.DLL'], lambda n: S('dll', S('hawc_dll', L('filename', n[0])), S('type2_dll', L('name', 'd'), L('filename', n[1])))),
    'dtu': (['control/dtu.dll'], lambda n: dtu(n[0], 89)),
    'dtu90': (['control/dtu.dll'], lambda n: dtu(n[0], 90)),
    'dtu95': (['control/dtu.dll'], lambda n: dtu(n[0], 95.5)),
    'st same': (['data/st.dat'], lambda n: S('new_htc_structure', mb(0, S('timoschenko_input', L('filename', n[0]))), mb(1, S('timoschenko_input', L('filename', n[0]))))),
    'shear': (['data/shear.dat'], lambda n: S('wind', L('turb_format', 0), L('user_defined_shear', n[0]))),
    'shearturb': (['data/shear_t.dat'], lambda n: S('wind', L('turb_format', 0), L('user_defined_shear_turbulence', n[0]))),
    'mast': (['data/mast.dat'], lambda n: S('wind', L('turb_format', 0), L('met_mast_wind', n[0]))),
    'deficit': (['data/deficit.dat'], lambda n: S('wakes', L('nsource', 1), L('use_specific_deficit_file', n[0]))),
    'waves': (['waves/kin.dll', 'waves/kin.inp'], lambda n: S('hydro', S('water_properties', L('rho', 1027), L('water_kinematics_dll', n[0], n[1])))),
    'soil': (['soil/soil.dat'], lambda n: S('soil', S('soil_element', L('body', 'b0'), L('datafile', n[0])))),
    'soils': (['soil/soil1.dat', 'soil/soil2.dat'], lambda n: S('soil', S('soil_element', L('datafile', n[0])), S('soil_element', L('body', 'b0')), S('soil_element', L('datafile', n[1])))),
    'force': (['control/force.dll'], lambda n: S('force', S('dll', L('dll', n[0]), L('update', 'f')))),
}
DLL64 = ('dll', 'dll2', 'dllso', 'dtu', 'dtu90', 'dtu95')


def merge(nodes):
    """ blocks of the same name become one """
    out = []
    for n in nodes:
        o = [m for m in out if m.name == n.name]
        if o and n.kind == 'S':
            o[0].kids += n.kids
        else:
            out.append(n.copy())
    return out


def spell(ref, how, root):
    return {'plain': './' + ref, 'bare': ref, 'case': './' + ref.swapcase(), 'backslash': '.\\' + ref.replace('/', '\\'), 'absolute': os.path.join(root, ref), 'missing': './' + ref}[how]


def norm(p, root):
    return os.path.normpath(os.path.join(root, p.replace('\\', '/')))


def inputs(ch, kinds, place, how, extra):
    root = os.path.realpath('.')
    nodes, need = [], []
    put('other.txt', 'x')
    for i, k in enumerate(kinds):
        names, fn = KINDS[k]
        h = how if i == 0 else 'plain'
        for n in names:
            if h != 'missing':
                put(n, 'x')
            need.append(n)
            if k in DLL64:
                f64 = n[:n.rindex('.')] + '_64' + n[n.rindex('.'):]
                if h != 'missing':
                    put(f64, 'x')
                need.append(f64)
        if k in WP:
            if h != 'missing':
                put(WP[k], 'x')
            need.append(WP[k])
        nodes.append(fn([spell(n, h, root) for n in names]))
    nodes = merge(nodes)
    T = text(nodes, 'plain')
    if extra == 'include':
        put('inc/part.htc', 'begin simulation;\ntime_stop 3;\nend simulation;\n')
        T = b'continue_in_file ./inc/part.htc;\n' + T
        need.append('inc/part.htc')
    if extra == 'decoy' and place != '.':
        put(os.path.join(place, KINDS[kinds[0]][0][0]), 'x')
    if extra == 'twin':
        for n in KINDS[kinds[0]][0]:
            d, b = os.path.split(n)
            put(os.path.join(d, b.swapcase()), 'x')
            put(os.path.join(d, b.upper()), 'x') if b != b.upper() else None
    fn = os.path.join(place, 'a.htc')
    put(fn, T)
    f = K()(fn)
    ch.op()
    return root, f, need, fn


def one_inputs(ch, kinds, place, how, extra):
    root, f, need, fn = inputs(ch, kinds, place, how, extra)
    ch.eq(os.path.realpath(f.modelpath), root, 'model directory')
    before = fview(f)
    got = f.input_files()
    ch.op()
    G = sorted(set(norm(g, root) for g in got))
    E = sorted(set(norm(n, root) for n in need + [fn]))
    if how == 'missing':
        G, E = [g.lower() for g in G], [e.lower() for e in E]
    ch.eq(G, E, 'input files')
    if how in ('plain', 'bare', 'absolute'):
        ch.eq(len(got), len(set(got)), 'number of input files: a file is listed twice: %r' % sorted(got))
    ch.eq(fview(f), before, 'tree after listing')
    ch.eq(sorted(f.input_files()), sorted(got), 'listed again')
    ch.state(kinds, place, how, extra)


PLACES = ['htc', '.', 'htc/sub', 'htc/sub/deep']


def h_single(ch):
    k = ch.pick('reference', list(KINDS))
    place = ch.pick('place', PLACES)
    how = ch.pick('spelling', ['plain', 'bare', 'case', 'backslash', 'absolute', 'missing'])
    extra = ch.pick('also', ['nothing', 'include', 'decoy', 'twin'])
    if k == 'dllso' and how == 'missing':
        return
    if how == 'absolute' and extra != 'include' or how == 'missing' and extra != 'include':
        extra = 'include'          # the model directory is found by means of the relative references
    if extra == 'twin' and how not in ('plain', 'bare'):
        return
    if extra == 'decoy' and (len(KINDS[k][0]) == 1 or how in ('case', 'backslash') or k in DLL64):
        return
    one_inputs(ch, [k], place, how, extra)


def h_pairs(ch):
    a = ch.pick('first', list(KINDS))
    b = ch.pick('second', list(KINDS))
    ab = {a, b}
    if a == b or len(ab & set(DLL64)) == 2 or 'st same' in ab and len(ab & {'st', 'st2'}) or ab in ({'st', 'st2'}, {'aepc', 'ae'}, {'aepc', 'pc'}, {'dll', 'dll2'}, {'flap', 'flaps'}):
        return
    place = ch.pick('place', ['htc', '.', 'htc/sub/deep'])
    extra = ch.pick('also', ['nothing', 'decoy'])
    if extra == 'decoy' and place == '.':
        return
    one_inputs(ch, [a, b], place, 'plain', extra)


def h_all(ch):
    """ all references at once, and all but one """
    drop = ch.pick('without', ['nothing'] + list(KINDS))
    place = ch.pick('place', PLACES)
    how = ch.pick('first spelled', ['plain', 'case', 'missing'])
    kinds = [k for k in KINDS if k not in (drop, 'st2', 'aepc', 'dll2', 'flap', 'st same', 'dtu', 'dtu90', 'dtu95', 'dllso')]
    one_inputs(ch, kinds, place, how, 'include')


def h_none(ch):
    """ without relative references that exist: the directory above, or an exception """
    place = ch.pick('place', PLACES[:3])
    what = ch.pick('references', ['none', 'missing'])
    nodes = [S('simulation', L('time_stop', 1))] + ([S('aero', L('ae_filename', './data/nowhere.ae'))] if what == 'missing' else [])
    fn = os.path.join(place, 'a.htc')
    put(fn, text(nodes, 'plain'))
    r = outcome(K(), fn)
    ch.op()
    if what == 'none':
        ch.check(r[0] == 'ok', 'reading: %r' % (r,))
        f = r[1]
        ch.eq(os.path.realpath(f.modelpath), os.path.realpath(os.path.join(place, '..')), 'model directory')
        ch.eq([norm(p, f.modelpath) for p in f.input_files()], [os.path.realpath(fn)], 'input files')
    else:
        ch.check(r[0] == 'err', 'a model directory is found without any of the files')
        f = K()(fn, modelpath=os.path.realpath('.'))
        ch.eq(sorted(norm(p, f.modelpath) for p in f.input_files()), sorted([os.path.realpath(fn), os.path.realpath('./data/nowhere.ae')]), 'input files, directory given')
    ch.state(place, what)


# ------------------------------------------------------------------ results
OUTK = {
    'logfile': lambda n: S('simulation', L('logfile', n)),
    'animation': lambda n: S('simulation', L('animation', n)),
    'visualization': lambda n: S('simulation', L('visualization', n, 'x', 2)),
    'beam': lambda n: S('new_htc_structure', L('beam_output_file_name', n)),
    'body': lambda n: S('new_htc_structure', L('body_output_file_name', n)),
    'inertia': lambda n: S('new_htc_structure', L('struct_inertia_output_file_name', n)),
    'bodyeig': lambda n: S('new_htc_structure', L('body_eigenanalysis_file_name', n)),
    'constraint': lambda n: S('new_htc_structure', L('constraint_output_file_name', n)),
    'syseig': lambda n: S('new_htc_structure', L('system_eigenanalysis', n)),
    'structeig': lambda n: S('new_htc_structure', L('structure_eigenanalysis_file_name', n)),
    'export u': lambda n: S('wind', S('turb_export', L('filename_u', n))),
    'export vw': lambda n: S('wind', S('turb_export', L('filename_v', n + 'v'), L('filename_w', n + 'w'))),
    'at time': lambda n: O('output_at_time aero 5.0', [L('filename', n)], [X('alfa', 1)]),
    'none': lambda n: S('simulation', L('time_stop', 7)),
}


def out_expected(k, n):
    d = os.path.dirname(n)
    if k == 'none':
        return []
    if k in ('syseig', 'structeig'):
        return [n, d + '/mode*.dat']
    if k == 'export vw':
        return [n + 'v', n + 'w']
    if k == 'at time':
        return [n + '.dat']
    return [n]


FORMATS = {'absent': ['.sel', '.dat'], 'hawc_ascii': ['.sel', '.dat'], 'hawc_binary': ['.sel', '.dat'], 'gtsdf': ['.hdf5'], 'gtsdf64': ['.hdf5'], 'flex_int': ['.int', None]}


def t_text(nodes):
    return text(nodes, 'plain')


def outblock(name, fmt):
    return O('output', [L('filename', name)] + ([] if fmt == 'absent' else [L('data_format', fmt)]) + [L('time', 0, 9)], [X('general time')])


def res_expected(name, fmt):
    return [name + e if e else os.path.dirname(name) + '/sensor' for e in FORMATS[fmt]]


def h_results(ch):
    a = ch.pick('first', list(OUTK))
    b = ch.pick('second', list(OUTK))
    fmt = ch.pick('format', list(FORMATS))
    nout = ch.pick('output blocks', [1, 0, 2])
    if nout == 0 and fmt != 'absent' or a == b:
        return
    nodes = merge([OUTK[a]('./log/First.x'), OUTK[b]('./eig/sub/second.x')])
    exp = out_expected(a, './log/first.x') + out_expected(b, './eig/sub/second.x')
    res = []
    for i in range(nout):
        f = fmt if i == 0 else 'hawc_binary'
        nodes.append(outblock('./res/run%d' % i, f))
        res += res_expected('./res/run%d' % i, f)
    put('a.htc', t_text(nodes))
    h = K()('a.htc', modelpath='.')
    ch.op()
    ch.eq(h.res_file_lst(), res, 'result files')
    ch.eq(sorted(x.lower() for x in h.output_files()), sorted(exp + res), 'output files')
    ch.op(2)
    ch.eq(sorted(x.lower() for x in h.output_files()), sorted(exp + res), 'output files, listed again')
    ch.state(a, b, fmt, nout)


def h_turb(ch):
    tf = ch.pick('format', [1, 0, 2, 'no wind'])
    have = ch.pick('blocks', ['mann', 'flex', 'both', 'none'])
    comps = ch.pick('components', ['uvw', 'u', 'vw', ''])
    wind = S('wind', L('wsp', 10), L('turb_format', tf))
    for b in ('mann', 'flex'):
        if have in (b, 'both'):
            wind.kids.append(S(b, L('other', 1), *[L('filename_' + c, './turb/%s_%s.bin' % (b, c)) for c in comps]))
    nodes = [S('simulation', L('time_stop', 1))] + ([wind] if tf != 'no wind' else [])
    put('a.htc', text(nodes, 'plain'))
    f = K()('a.htc', modelpath='.')
    b = {1: 'mann', 2: 'flex'}.get(tf)
    exp = ['./turb/%s_%s.bin' % (b, c) for c in comps] if b and have in (b, 'both') else []
    ch.eq(f.turbulence_files(), exp, 'turbulence files')
    ch.op(2)
    ch.state(tf, have, comps)


# ------------------------------------------------------------------ structural tables of the bodies
def st_text(sets):
    T = ''
    for i, v in sets:
        T += '#%d main data set\n' % i
        for j, w in v:
            T += '$%d 2 a sub set\n' % j + ''.join(' '.join(['%.3f' % (w + r + c / 100.) for c in range(19)]) + '\n' for r in range(2))
    return T


def h_st(ch):
    from weio.hawc2_htc_file import HAWC2HTCFile
    place = ch.pick('place of the command file', PLACES)
    where = ch.pick('place of the structural file', ['model', 'next'])
    sets = ch.pick('sets', [(1, 1), None, (2, 1), (2, 2)])
    ref = ch.pick('reference', ['./data/st.dat', 'data/st.dat', 'data\\st.dat'])
    two = ch.pick('bodies', [1, 2])
    moved = ch.pick('written to', ['no', 'other', '.'])
    put('data/blade.ae', 'x')
    put('data/blade.pc', 'x')
    d = '.' if where == 'model' else place
    put(os.path.join(d, 'data/st.dat'), st_text([(1, [(1, 0.)]), (2, [(1, 10.), (2, 20.)])]))
    tim = [L('filename', ref)] + ([L('set', *sets)] if sets else [])
    c2 = S('c2_def', L('nsec', 1), L('sec', 1, 0, 0, 0, 0))
    bodies = [S('main_body', L('name', 'b0'), S('timoschenko_input', *tim), c2)]
    if two == 2:
        bodies.append(S('main_body', L('name', 'b1'), S('timoschenko_input', L('filename', ref), L('set', 2, 1)), c2.copy()))
    put(os.path.join(place, 'a.htc'), text([S('new_htc_structure', *bodies), S('aero', L('ae_filename', './data/blade.ae'), L('pc_filename', './data/blade.pc'))], 'plain'))
    f = HAWC2HTCFile(os.path.join(place, 'a.htc'))
    ch.op()
    T = f.toDataFrame()
    base = {(1, 1): 0., (2, 1): 10., (2, 2): 20.}

    def chk(T, what):
        ch.eq(sorted(T), sorted(b + e for b in (['b0'] + (['b1'] if two == 2 else [])) for e in ('_c2', '_st')), what + ': tables')
        for b, s in [('b0', sets or (1, 1))] + ([('b1', (2, 1))] if two == 2 else []):
            V = np.array([[base[s] + r + c / 100. for c in range(19)] for r in range(2)])
            ch.check(T[b + '_st'].shape == (2, 19) and np.allclose(T[b + '_st'].values, np.round(V, 3), rtol=0, atol=1e-12), '%s: structural table of %s\n%r' % (what, b, T[b + '_st']))
    chk(T, 'file')
    if moved != 'no' and where == 'model':
        mkdirs(moved)
        f.write(os.path.join(moved, 'b.htc'))
        ch.op()
        chk(f.toDataFrame(), 'after writing elsewhere')
    ch.state(place, where, sets, ref, two, moved)


def mkdirs(d):
    os.makedirs(d, exist_ok=True)


# ------------------------------------------------------------------ comparison
def base_nodes():
    return [S('simulation', L('time_stop', 10), S('newmark', L('deltat', 0.02)), L('text', 'abc', 'def')),
            S('new_htc_structure', S('main_body', L('name', 'b0'), S('c2_def', L('nsec', 2), L('sec', 1, 0, 0), L('sec', 2, 0, 5))), S('main_body', L('name', 'b1'))),
            O('output', [L('filename', './res/a'), L('time', 0, 10)], [X('general time'), X('mbdy forcevec', 'b0', 1), X('aero omega')]),
            O('output_at_time aero 5.0', [L('filename', './at')], [X('alfa x', 1)])]


class Gone(Exception):
    pass


def nd(kids, name, i=0):
    r = [n for n in kids if n.name.split()[0] == name]
    if len(r) <= i:
        raise Gone(name)
    return r[i]


def o(T):
    return nd(T, 'output')


def at(T):
    return nd(T, 'output_at_time')


def sim(T):
    return nd(T, 'simulation')


def st(T):
    return nd(T, 'new_htc_structure')


def sv(n, *v):
    n.vals = list(v)


def sens(T, i):
    if len(o(T).sens) <= i:
        raise Gone('sensor')
    return o(T).sens[i]


def drop(kids, n):
    kids.remove(n)


EDITS = {
    'value': lambda T: sv(nd(sim(T).kids, 'time_stop'), 20),
    'nested value': lambda T: sv(nd(sim(T).kids, 'newmark').kids[0], 0.01),
    'word': lambda T: sv(nd(sim(T).kids, 'text'), 'abc', 'ghi'),
    'value less': lambda T: sv(nd(sim(T).kids, 'text'), 'abc'),
    'value more': lambda T: sv(nd(sim(T).kids, 'text'), 'abc', 'def', 1),
    'new line': lambda T: sim(T).kids.append(L('extra', 5)),
    'line gone': lambda T: drop(sim(T).kids, nd(sim(T).kids, 'time_stop')),
    'block gone': lambda T: drop(sim(T).kids, nd(sim(T).kids, 'newmark')),
    'second of a name': lambda T: sv(nd(nd(nd(st(T).kids, 'main_body').kids, 'c2_def').kids, 'sec', 1), 2, 0, 6),
    'body renamed': lambda T: sv(nd(st(T).kids, 'main_body', 1).kids[0], 'b9'),
    'new body': lambda T: st(T).kids.append(S('main_body', L('name', 'bx'))),
    'new block': lambda T: T.insert(1, S('hydro', S('water', L('rho', 1027)))),
    'all of it gone': lambda T: drop(T, st(T)),
    'sensor value': lambda T: sv(sens(T, 1), 'b0', 2),
    'sensor name': lambda T: setattr(sens(T, 0), 'name', 'general step'),
    'sensor type': lambda T: setattr(sens(T, 1), 'name', 'mbdy2 forcevec'),
    'sensor more': lambda T: o(T).sens.append(X('wind free', 1)),
    'sensor gone': lambda T: drop(o(T).sens, sens(T, len(o(T).sens) - 1)),
    'output name': lambda T: sv(nd(o(T).kids, 'filename'), './res/b'),
    'at time': lambda T: setattr(at(T), 'name', 'output_at_time aero 6.0'),
    'at type': lambda T: setattr(at(T), 'name', 'output_at_time mbdy 5.0'),
    'at name': lambda T: sv(at(T).kids[0], './at2'),
    'comment': lambda T: setattr(sim(T), 'com', ['note']),
}


def sview(T):
    """ what a comparison looks at: blocks, lines, values and sensors (no comments) """
    def v(n):
        if n.kind in 'LX':
            return [n.kind, n.name, list(n.vals)]
        return [n.kind, n.name, [v(k) for k in n.kids], [v(k) for k in n.sens]]
    return [v(n) for n in T]


def words(T):
    """ texts of the lines """
    def w(n):
        if n.kind in 'LX':
            return [' '.join([n.name] + [str(x) for x in n.vals])]
        return ['begin ' + n.name] + [x for k in n.kids + n.sens for x in w(k)] + ['end ' + n.name.split()[0]]
    return [x for n in T for x in w(n)]


def cmp_edit(ch, depth):
    T = base_nodes()
    done = []
    for k in range(depth):
        e = ch.pick('edit %d' % k, ['none'] + list(EDITS))
        if e != 'none':
            try:
                EDITS[e](T)
            except Gone:
                return
            done.append(e)
    A = base_nodes()
    put('a.htc', t_text(A))
    put('b.htc', t_text(T))
    a, b = K()('a.htc', modelpath='.'), K()('b.htc', modelpath='.')
    va = fview_raw(a)
    same = sview(A) == sview(T)
    for x, y, what in ((a, b, 'a with b'), (b, a, 'b with a')):
        s = x.compare(y)
        ch.op()
        ch.check((s.strip() == '') == same, '%s after %s: %s, reported %r' % (what, done, 'same' if same else 'different', s))
        if not same:
            rep = [' '.join(l[1:].split(';')[0].split()) for l in s.split('\n') if l.strip()]
            wa, wb = words(A), words(T)
            for w in [w for w in wa if w not in wb] + [w for w in wb if w not in wa]:
                ch.check(w in rep, '%s: the line %r is not reported: %s' % (what, w, s))
    ch.eq(a.compare(a), '', 'a file with itself')
    ch.eq(a.compare(K()('a.htc', modelpath='.')), '', 'a file read twice')
    ch.eq(fview_raw(a), va, 'tree after the comparison')
    r = a.compare('b.htc')
    ch.check((r.strip() == '') == same, 'comparison with a file name: %r' % r)
    ch.state(sview(T))


def fview_raw(f):
    return [str(e) for e in f]


def h_cmp1(ch):
    cmp_edit(ch, 1)


def h_cmp2(ch):
    cmp_edit(ch, 2)


def h_cmp3(ch):
    cmp_edit(ch, 3)


def harnesses(tier):
    H = [('inputs', h_single), ('input_pairs', h_pairs), ('input_all', h_all), ('nofiles', h_none), ('results', h_results), ('turbulence', h_turb), ('structural', h_st), ('compare', h_cmp2)]
    if tier == 'thorough':
        H += [('compare3', h_cmp3)]
    return H
