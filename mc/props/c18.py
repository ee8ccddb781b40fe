"""C18: HAWC2 command files (htc): tree, edits, saving, included files"""
import os
from ..core import Violation
from ..util import *

INFO = dict(bounds='every sequence of up to 3 elements out of 9 kinds (lines, repeated names, nested blocks, output blocks) x 13 layouts (indentation, case, blank and comment lines, CRLF, BOM, text after exit); every history of 3 edits out of 27 on 2 start files, saved and read again; 5..40 lines of the same name; names that look alike; searches; included files (nesting, position, letter case, model path); bodies and their c2_def')


def K():
    from weio.wetb.hawc2.htc_file import HTCFile
    return HTCFile


# ------------------------------------------------------------------ reference tree
class N:
    """ kind: S (block), O (output block), L (line), X (sensor) """
    def __init__(self, kind, name, vals=(), com=(), kids=(), end=(), sens=()):
        self.kind, self.name, self.vals, self.com, self.kids, self.end, self.sens = kind, name, list(vals), list(com), list(kids), list(end), list(sens)

    def copy(self):
        return N(self.kind, self.name, self.vals, self.com, [k.copy() for k in self.kids], self.end, [k.copy() for k in self.sens])

    def view(self, sort=False):
        kids = self.kids
        if sort:
            kids = [k for k in kids if k.name == 'main_body'] + [k for k in kids if k.name != 'main_body']
        if self.kind in 'LX':
            return [self.kind, self.name, list(self.vals), list(self.com)]
        v = ['S', self.name, list(self.com), [k.view(sort) for k in kids], list(self.end)]
        if self.kind == 'O':
            v.append([k.view(sort) for k in self.sens])
        return v


def L(name, *vals, com=()):
    return N('L', name, vals, com)


def X(name, *vals, com=()):
    return N('X', name, vals, com)


def S(name, *kids, com=(), end=()):
    return N('S', name, (), com, kids, end)


def O(name, kids, sens, com=(), end=()):
    return N('O', name, (), com, kids, end, sens)


# ------------------------------------------------------------------ observation of the real tree
def coms(s):
    return [c for c in (x.strip().lstrip(';').strip() for x in s.split('\n')) if c]


def view(e):
    from weio.wetb.hawc2.htc_contents import HTCSection, HTCSensor
    if isinstance(e, HTCSensor):
        return ['X', '%s %s' % (e.type, e.sensor), list(e.values), coms(e.comments)]
    if isinstance(e, HTCSection):
        name = e.name_
        if name == 'output_at_time':
            name = 'output_at_time %s %g' % (e.type, e.time)
        v = ['S', name, coms(e.begin_comments), [view(e[k]) for k in e.keys()], coms(e.end_comments)]
        if getattr_(e, 'sensors') is not None:
            v.append([view(s) for s in e.sensors])
        return v
    return ['L', e.name_, list(e.values), coms(e.comments)]


def getattr_(e, k):
    return e.__dict__.get(k)


def fview(f):
    return [view(f[k]) for k in f.keys()]


def keynames(f):
    """ names under which the elements are found, next to the names of the elements """
    return [(k, f[k].name_) for k in f.keys()]


def numbered(names):
    seen, out = {}, []
    for n in names:
        seen[n] = seen.get(n, 0) + 1
        out.append(n if seen[n] == 1 else '%s__%d' % (n, seen[n]))
    return out


def check_keys(ch, e, what):
    """ after reading: repeated names are numbered in the order of the file, and every element knows its parent """
    from weio.wetb.hawc2.htc_contents import HTCSection, HTCSensor
    ch.eq(e.keys(), numbered([e[k].name_ for k in e.keys()]), 'names of the elements of %s' % what)
    for k in e.keys():
        c = e[k]
        ch.check(c.parent is e, 'the parent of %s in %s is not the block that holds it' % (k, what))
        ch.check(k in e and e.get(k) is c and (hasattr(type(e), k) or getattr(e, k) is c), '%s is not found in %s' % (k, what))
        if isinstance(c, HTCSection):
            check_keys(ch, c, k)


# ------------------------------------------------------------------ text of a tree
def val(v):
    return v if isinstance(v, str) else ('%d' % v if isinstance(v, int) else repr(v))


LAY = ['plain', 'flush', 'tabs', 'CAPS', 'blank1', 'blank2', 'crlf', 'bom', 'noexit', 'after exit', 'tail', 'space;', 'comment block']


def text(nodes, lay, cstyle='plain', head=()):
    out = [';' + h for h in head]

    def emit(lvl, s, com):
        ind = {'flush': '', 'tabs': '\t' * lvl}.get(lay, '  ' * lvl)
        semi = ' ;' if lay == 'space;' else ';'
        if com and cstyle == 'own line':
            out.append(ind + s + semi)
            for c in com:
                out.append(ind + ';' + c)
        else:
            out.append(ind + s + semi + (' ' + com[0] if com else ''))
            for c in com[1:]:
                out.append('; ' + c)
        if lay == 'blank1':
            out.append('')
        if lay == 'blank2':
            out.extend(['', '   '])
        if lay == 'comment block':
            out.extend(['', ';'])

    def rec(n, lvl):
        if n.kind in 'LX':
            emit(lvl, ' '.join([n.name] + [val(v) for v in n.vals]) if lay != 'tabs' else '\t'.join([n.name] + [val(v) for v in n.vals]), n.com)
        else:
            b, e = ('BEGIN', 'End') if lay == 'CAPS' else ('begin', 'end')
            nm = n.name.upper() if lay == 'CAPS' and n.kind == 'S' else n.name
            nm = nm.replace(' ', '\t') if lay == 'tabs' and n.kind == 'O' else nm
            sep = '\t' if lay == 'tabs' else ('  ' if lay == 'space;' else ' ')
            emit(lvl, b + sep + nm, n.com)
            for k in n.kids + n.sens:
                rec(k, lvl + 1)
            emit(lvl, e + sep + nm.split()[0], n.end)
    for n in nodes:
        rec(n, 1)
    if lay != 'noexit':
        out.append('exit;')
    if lay == 'after exit':
        out += ['begin simulation;', 'not a command']
    if lay == 'tail':
        out += ['', '', '  ']
    s = ('\r\n' if lay == 'crlf' else '\n').join(out)
    if lay != 'noexit':
        s += '\n'
    b = s.encode('cp1252')
    return b'\xef\xbb\xbf' + b if lay == 'bom' else b


def lower(nodes):
    """ what a reader reports: same tree """
    return [n.view() for n in nodes]


# ------------------------------------------------------------------ reading any tree, saving it, reading it again
def elements():
    return [
        L('wsp', 10),
        L('wsp', 8.25, com=['wind speed']),
        L('windfield_rotations', 0, -1.5, 1e-05, com=['a;b', 'second line']),
        L('animation', './a/b.dat'),
        L('damp'),
        S('main_body', L('name', 'shaft'), S('c2_def', L('nsec', 2), L('sec', 1, 0, 0, 0.5, 0), L('sec', 2, 0, 0, 3, 90)), com=['the shaft']),
        S('empty', end=['nothing here']),
        S('main_body', L('name', 'tower', com=['n']), com=['x', 'y'], end=['z']),
        S('orientation', S('base', L('body', 'tower'), S('deep', L('v', 1)))),
    ]


def check_file(ch, fn, nodes, head=(), what='file'):
    f = K()(fn, modelpath='.')
    ch.op()
    ch.eq(fview(f), lower(nodes), what)
    ch.eq([c for h in f.initial_comments for c in coms(h)], list(head), 'comments at the start of the ' + what)
    check_keys(ch, f, what)
    return f


def saved(nodes):
    """ the order of a saved file: main bodies before what refers to them, otherwise unchanged """
    return N('S', 'x', kids=nodes).view(True)[3]


def check_saved(ch, f, fn, nodes, head=(), what='saved file'):
    before = fview(f)
    f.save(fn)
    ch.op()
    ch.eq(fview(f), before, 'tree after saving')
    g = K()(fn, modelpath='.')
    ch.op()
    ch.eq(fview(g), saved(nodes), what)
    ch.eq([c for h in g.initial_comments for c in coms(h)], list(head), 'comments at the start of the ' + what)
    check_keys(ch, g, what)
    return g


def h_read(ch):
    E = elements()
    n = ch.pick('elements', [2, 0, 1, 3])
    in_block = ch.flag('inside a block')
    lay = ch.pick('layout', LAY)
    cs = ch.pick('comments', ['plain', 'own line'])
    kids = [ch.pick('element %d' % i, range(len(E))) for i in range(n)]
    if n == 3 and not (lay in ('plain', 'blank1') and cs == 'plain'):
        return
    kids = [E[k].copy() for k in kids]
    # HAWC2 files hold blocks at their top level
    nodes = [S('new_htc_structure', *kids, com=['first block'])] if in_block else kids
    nodes = nodes + [S('dll', L('filename', './dll/a.dll'))]
    head = ['Created by hand', 'for tests'] if lay not in ('noexit', 'bom') else []
    put('a.htc', text(nodes, lay, cs, head))
    f = check_file(ch, 'a.htc', nodes, head)
    g = check_saved(ch, f, 'b.htc', nodes, head)
    g.save('c.htc')
    ch.op()
    ch.check(get('c.htc') == get('b.htc'), 'saving what was just saved and read changes the file')
    ch.state(fview(f))


def h_output(ch):
    """ output blocks: settings, then sensors """
    kind = ch.pick('block', ['output', 'output_at_time aero 12.5', 'output_at_time aero 600'])
    ns = ch.pick('sensors', [2, 0, 1, 3])
    lay = ch.pick('layout', LAY)
    cs = ch.pick('comments', ['plain', 'own line'])
    com = ch.pick('comment of the block', [[], ['c'], ['long comment'], ['one', 'two']])
    SE = [X('general time'), X('wind free_wind', 1, 0.0 + 0.5, 0, -97, com=['free wind']), X('mbdy momentvec', 'blade1', 1, 1, 'blade1', '#', 'comment'),
          X('dll inpvec', 1, 2, com=['a', 'b']), X('general time')]
    SET = [L('filename', './res/x'), L('data_format', 'hawc_ascii', com=['format']), L('buffer', 1), L('time', 0, 10.5)]
    k0 = ch.pick('first sensor', range(len(SE)))
    s0 = ch.pick('first setting', range(len(SET)))
    nset = ch.pick('settings', [2, 0, 1])
    if s0 and (k0 or lay != 'plain'):
        return      # all sensors with the first setting, all settings with the first sensor
    if k0 > 1 and lay not in ('plain', 'blank2', 'own line', 'tabs'):
        return
    sens = [SE[(k0 + i) % len(SE)].copy() for i in range(ns)]
    sets = [SET[(s0 + i) % len(SET)].copy() for i in range(nset)]
    nodes = [S('wind', L('wsp', 5)), O(kind, sets, sens, com=com, end=com[:1])]
    if ch.flag('two'):
        nodes.append(O('output_at_time aero 2', [L('filename', './res/y')], [X('induc a', 1)]))
    put('a.htc', text(nodes, lay, cs))
    f = check_file(ch, 'a.htc', nodes)
    check_saved(ch, f, 'b.htc', nodes)
    ch.state(fview(f))


VALUES = ['1', '-1', '1.5', '1e-3', '1E+05', '-2.50d0', 'abc', './data/File.dat', '.\\data\\x.dat', '1_2', 'inf', 'nan', '-Infinity', '007', '1e400', '+3', '.5', '5.', '"a', 'x=1', '%d', '#', '{a}', 'begin', 'end', 'exit', '\xe6\xf8', '1,2']
READ = {'1': 1, '-1': -1, '1.5': 1.5, '1e-3': 0.001, '1E+05': 100000, '.\\data\\x.dat': './data/x.dat', '007': 7, '+3': 3, '.5': 0.5, '5.': 5}


def h_values(ch):
    """ every kind of value, as a value of a line, of a sensor, or of an assignment """
    v = ch.pick('value', VALUES)
    how = ch.pick('in', ['line', 'assigned text', 'sensor'])
    pos = ch.pick('position', [0, 1])
    want = READ.get(v, v)
    if how == 'sensor' and '\\' in v:
        want = v
    txt = ' '.join(['x', v] if pos else [v, 'x'])
    w = ['x', want] if pos else [want, 'x']
    if how == 'line':
        nodes = [S('wind', L('wsp', *w, com=[v]), L('other', 1))]
        put('a.htc', ('begin wind;\n  wsp %s; %s\n other 1;\nend wind;\nexit;\n' % (txt, v)).encode('cp1252'))
    elif how == 'sensor':
        nodes = [O('output', [L('filename', './x')], [X('dll outvec', *w), X('general time')])]
        put('a.htc', ('begin output;\n filename ./x;\n  dll outvec %s;\ngeneral time;\nend output;\nexit;\n' % txt).encode('cp1252'))
    else:
        nodes = [S('wind', L('wsp', *w), L('other', 1))]
        put('a.htc', 'begin wind;\n  wsp 1 2 3;\n other 1;\nend wind;\nexit;\n')
        f = K()('a.htc', modelpath='.')
        f.wind.wsp = txt
        f.save('a.htc')
        ch.op(2)
    f = check_file(ch, 'a.htc', nodes)
    check_saved(ch, f, 'b.htc', nodes)
    ch.state(v, how, pos)


def h_bytes(ch):
    """ every byte of a comment or name is kept """
    b = bytes([ch.pick('byte', [i for i in range(0x80, 0x100)])])
    w = ch.pick('in', ['comment', 'value', 'first line', 'utf-8 quotes'])
    if w == 'utf-8 quotes':
        b = '\u201ca\u201d \u00c1'.encode()
    s = b';first ' + (b if w == 'first line' else b'') + b'\nbegin wind;\n  wsp 1 ' + (b.replace(b' ', b'_') if w == 'value' else b'x') + b'; c ' + (b if w in ('comment', 'utf-8 quotes') else b'') + b' d\nend wind;\nexit;\n'
    put('a.htc', s)
    f = K()('a.htc', modelpath='.')
    v = fview(f)
    f.save('b.htc')
    g = K()('b.htc', modelpath='.')
    ch.op(3)
    strip = lambda t: [l.split() for l in t.replace(b';', b' ; ').split(b'\n')]
    ch.eq(strip(get('b.htc')), strip(s)[:-1], 'words of the saved file') if b not in b'\x85\xa0' else None
    ch.eq(fview(g), v, 'saved file')
    ch.state(b, w)


# ------------------------------------------------------------------ histories of edits
def start():
    return [
        S('simulation', L('time_stop', 10.0 + 0.5), L('logfile', './log/a.log', com=['log']), S('newmark', L('deltat', 0.02))),
        S('new_htc_structure',
          L('beam_output_file_name', './b.dat'),
          S('main_body', L('name', 'tower'), L('type', 'timoschenko'), S('c2_def', L('nsec', 2), L('sec', 1, 0, 0, 0, 0), L('sec', 2, 0, 0, -10, 0), com=['axis']), com=['Tower']),
          S('main_body', L('name', 'shaft'), end=['end of shaft'])),
        S('wind', L('wsp', 8, com=['speed']), L('turb_format', 0), L('center_pos0', 0, 0, -90)),
        O('output', [L('filename', './res/a'), L('time', 0, 10)], [X('general time'), X('wind free_wind', 1, 0, 0, -90, com=['hub'])]),
    ]


def find(nodes, name, k=0):
    return [n for n in nodes if n.name == name][k]


def real(sec, name, k=0):
    """ the k-th element of that name, in the order of the file """
    return [sec[q] for q in sec.keys() if sec[q].name_ == name][k]


def op_set_scalar(f, T):
    f.wind.wsp = 12.5
    find(find(T, 'wind').kids, 'wsp').vals = [12.5]


def op_set_list(f, T):
    f.wind.center_pos0 = [1, 2.5, 'x']
    find(find(T, 'wind').kids, 'center_pos0').vals = [1, 2.5, 'x']


def op_set_tuple_new(f, T):
    if 'tint' in f.wind:
        return False
    f.wind.tint = 0.1, 2
    find(T, 'wind').kids.append(L('tint', 0.1, 2))


def op_set_text(f, T):
    f.simulation.logfile = './log/b.log 2 1.5'
    find(find(T, 'simulation').kids, 'logfile').vals = ['./log/b.log', 2, 1.5]


def op_set_index(f, T):
    f.wind.wsp[0] = 99
    find(find(T, 'wind').kids, 'wsp').vals[0] = 99


def op_set_path(f, T):
    f['simulation.newmark'].deltat = 0.5
    find(find(find(T, 'simulation').kids, 'newmark').kids, 'deltat').vals = [0.5]


def op_set_values(f, T):
    v = [5, 6, 7]
    f['wind/center_pos0'].values = v
    v[0] = 'later'
    find(find(T, 'wind').kids, 'center_pos0').vals = [5, 6, 7]


def op_comment(f, T):
    f.wind.wsp.comments = ' new comment '
    find(find(T, 'wind').kids, 'wsp').com = ['new comment']


def op_add_line(f, T):
    f.wind.add_line('gust', [1, 2.5, 'eog'], 'a gust')
    find(T, 'wind').kids.append(L('gust', 1, 2.5, 'eog', com=['a gust']))


def op_add_line_dup(f, T):
    f.wind.add_line('wsp', [3])
    find(T, 'wind').kids.append(L('wsp', 3))


def op_item(f, T):
    f.wind['tower_shadow'] = 2
    find(T, 'wind').kids.append(L('tower_shadow', 2))


def op_add_section(f, T):
    s = f.wind.add_section('mann')
    w = find(T, 'wind').kids
    if not [n for n in w if n.name == 'mann']:
        w.append(S('mann'))
    s.add_line('seed', [len(find(w, 'mann').kids)])
    find(w, 'mann').kids.append(L('seed', len(find(w, 'mann').kids)))


def op_add_section_dup(f, T):
    f.new_htc_structure.add_section('main_body', allow_duplicate=True, name='hub', type='x')
    find(T, 'new_htc_structure').kids.append(S('main_body', L('name', 'hub'), L('type', 'x')))


def op_add_section_members(f, T):
    m = {'mwl': 0.0 + 1.5, 'water_depth': [1, 2]}
    if 'hydro' in f:
        return False
    f.add_section('hydro', members=m)
    T.append(S('hydro', L('mwl', 1.5), L('water_depth', 1, 2)))
    if m != {'mwl': 1.5, 'water_depth': [1, 2]}:
        raise Violation('add_section changed the members given to it')


def op_add_output(f, T):
    s = f.add_section('output_at_time aero 3', allow_duplicate=True)
    s.add_line('filename', ['./at'])
    s.add_sensor('induc', 'a', [1], 'ind')
    T.append(O('output_at_time aero 3', [L('filename', './at')], [X('induc a', 1, com=['ind'])]))


def op_delete_line(f, T):
    k = find(T, 'wind').kids
    if 'turb_format' not in f.wind:
        return False
    f.wind.turb_format.delete()
    k.remove(find(k, 'turb_format'))


def op_del_attr(f, T):
    if 'logfile' not in f.simulation:
        return False
    del f.simulation.logfile
    k = find(T, 'simulation').kids
    k.remove(find(k, 'logfile'))


def op_delete_first_body(f, T):
    real(f.new_htc_structure, 'main_body', 0).delete()
    k = find(T, 'new_htc_structure').kids
    k.remove(find(k, 'main_body', 0))


def op_delete_last_body(f, T):
    real(f.new_htc_structure, 'main_body', -1).delete()
    k = find(T, 'new_htc_structure').kids
    k.remove(find(k, 'main_body', -1))


def op_copy_line(f, T):
    c = f.wind.wsp.copy()
    c.values[0] = -1
    c.comments = 'copied'
    f.wind.gust2 = c
    n = find(find(T, 'wind').kids, 'wsp').copy()
    n.vals[0], n.com = -1, ['copied']
    k = find(T, 'wind').kids
    old = [i for i, x in enumerate(k) if getattr(x, 'mark', None) == 'gust2']
    n.mark = 'gust2'
    if old:
        k[old[0]] = n
    else:
        k.append(n)


def op_copy_body(f, T):
    b = real(f.new_htc_structure, 'main_body', 0)
    c = b.copy()
    c.name = 'copy'
    c.name.comments = 'the copy'
    f.new_htc_structure.add_section(c, allow_duplicate=True)
    kids = find(T, 'new_htc_structure').kids
    n = find(kids, 'main_body', 0).copy()
    k = find(n.kids, 'name')
    k.vals, k.com = ['copy'], ['the copy']
    kids.append(n)


def op_copy_body_del(f, T):
    """ a copy from which a line is deleted """
    b = real(f.new_htc_structure, 'main_body', 0)
    c = b.copy()
    c.name.delete()
    f.new_htc_structure.add_section(c, allow_duplicate=True)
    kids = find(T, 'new_htc_structure').kids
    n = find(kids, 'main_body', 0).copy()
    n.kids.remove(find(n.kids, 'name'))
    n.kids_noname = True
    kids.append(n)


def op_copy_output(f, T):
    c = real(f, 'output', 0).copy()
    c.filename = './res/copy'
    f.add_section(c, allow_duplicate=True)
    n = find(T, 'output').copy()
    find(n.kids, 'filename').vals = ['./res/copy']
    if len(c.sensors):
        c.sensors[0].values.append(77)
        n.sens[0].vals.append(77)
    T.append(n)


def op_sensor(f, T):
    v = [1, 2]
    f.output.add_sensor('aero', 'omega', v, 'speed')
    v.append(3)
    find(T, 'output').sens.append(X('aero omega', 1, 2, com=['speed']))


def op_sensor_first(f, T):
    f.output.add_sensor('aero', 'power', nr=0)
    find(T, 'output').sens.insert(0, X('aero power'))


def op_sensor_delete(f, T):
    if not find(T, 'output').sens:
        return False
    f.output.sensors[-1].delete()
    find(T, 'output').sens.pop()


def op_time(f, T):
    f.set_time(start=1, stop=7, step=0.25)
    find(find(T, 'simulation').kids, 'time_stop').vals = [7]
    find(find(find(T, 'simulation').kids, 'newmark').kids, 'deltat').vals = [0.25]
    find(find(T, 'output').kids, 'time').vals = [1, 7]
    w = find(T, 'wind').kids
    if [n for n in w if n.name == 'scale_time_start']:
        find(w, 'scale_time_start').vals = [1]
    else:
        w.append(L('scale_time_start', 1))


OPS = [op_set_scalar, op_set_list, op_set_tuple_new, op_set_text, op_set_index, op_set_path, op_set_values, op_comment, op_add_line, op_add_line_dup, op_item,
       op_add_section, op_add_section_dup, op_add_section_members, op_add_output, op_delete_line, op_del_attr, op_delete_first_body, op_delete_last_body, op_copy_line,
       op_copy_body, op_copy_body_del, op_copy_output, op_sensor, op_sensor_first, op_sensor_delete, op_time]
REDUCED = [op_set_scalar, op_add_line_dup, op_add_section_dup, op_delete_first_body, op_delete_last_body, op_copy_line, op_copy_body, op_copy_body_del, op_copy_output, op_sensor_delete, op_add_output]


def edit(ch, depth, ops):
    T = [n.copy() for n in start()]
    put('a.htc', text(T, 'plain'))
    f = K()('a.htc', modelpath='.')
    for i in range(depth):
        o = ch.pick('edit %d' % i, ops)
        if 'body' in o.__name__ and not [n for n in find(T, 'new_htc_structure').kids if n.name == 'main_body']:
            return
        if 'set_text' in o.__name__ and not [n for n in find(T, 'simulation').kids if n.name == 'logfile']:
            find(T, 'simulation').kids.append(L('logfile'))
        if 'body' in o.__name__ and 'copy' in o.__name__ and not [n for n in find(find(T, 'new_htc_structure').kids, 'main_body').kids if n.name == 'name']:
            return
        if o(f, T) is False:
            return
        ch.op()
        ch.eq(fview(f), lower(T), 'tree after %s' % o.__name__[3:])
        ch.state(fview(f))
        if i < depth - 1 and ch.flag('save and read again %d' % i):
            f = check_saved(ch, f, 'b%d.htc' % i, T)
            T = reorder(T)
    g = check_saved(ch, f, 'z.htc', T)
    # the name of an element never depends on how it was made
    for n in T:
        ch.check(n.name.split()[0] in g, '%s is not in the file' % n.name)


def reorder(T):
    for n in T:
        for k in n.kids:
            k.mark = None
        n.kids = [k for k in n.kids if k.name == 'main_body'] + [k for k in n.kids if k.name != 'main_body']
    return T


def h_edit2(ch):
    edit(ch, 2, OPS)


def h_edit3(ch):
    edit(ch, 3, REDUCED)


def h_edit3all(ch):
    edit(ch, 3, OPS)


# ------------------------------------------------------------------ finding elements
def h_find(ch):
    names = ch.pick('names', [['a'], ['a', 'b'], ['b', 'a', 'c'], ['a', 'a'], [], ['ab', 'a'], ['a', 'ab', 'A'], ['ab', 'xa', 'a1']])
    q = ch.pick('asked', ['a', 'b', 'c'] + (['ab', 'A', 'a1', 'x'] if len(''.join(names)) > len(names) or 'A' in names else []))
    bodies = [S('main_body', L('name', n), L('node', i)) for i, n in enumerate(names)]
    nodes = [S('new_htc_structure', L('first', 1), *bodies), S('c2_def', *[L('sec', i + 1, n, len(names) - i) for i, n in enumerate(names)])]
    put('a.htc', text(nodes, 'plain'))
    f = K()('a.htc', modelpath='.')
    st = f.new_htc_structure
    hit = [i for i, n in enumerate(names) if n == q]
    how = ch.pick('how', ['get_section', 'get_subsection_by_name', 'get_element', 'call', 'call value', 'call position', 'get_element position'])
    if how == 'get_section':
        r = outcome(st.get_section, q)
    elif how == 'get_subsection_by_name':
        r = outcome(st.get_subsection_by_name, q)
    elif how == 'get_element':
        r = outcome(st.get_element, 'name', q)
    elif not names:
        return
    elif how == 'call':
        r = outcome(st.main_body, name=q)
    elif how == 'call value':
        r = outcome(f.c2_def.sec, v1=q)
    elif how == 'call position':
        k = ['a', 'b', 'c', 'ab', 'A', 'a1', 'x'].index(q)
        r = outcome(f.c2_def.sec, v0=k + 1)
        hit = [k] if k < len(names) else []
    else:
        r = outcome(f.c2_def.get_element, 1, q)
    ch.op()
    if len(hit) != 1:
        ch.check(r[0] == 'err' and not isinstance(r[1], NameError), '%s(%r) among %s: %r' % (how, q, names, r))
    else:
        ch.check(r[0] == 'ok', '%s(%r) among %s: %r' % (how, q, names, r))
        if how in ('call value', 'call position', 'get_element position'):
            ch.eq(list(r[1].values), [hit[0] + 1, names[hit[0]], len(names) - hit[0]], 'line found')
        else:
            ch.eq(r[1].node[0], hit[0], 'block found')
    for i in range(len(names)):
        k = 'main_body' if i == 0 else 'main_body__%d' % (i + 1)
        ch.eq(getattr(st, k).node[0], i, 'block ' + k)
        ch.eq(st[k]['node'][0], i, 'block ' + k)
        ch.eq(f['new_htc_structure/%s/node' % k][0], i, 'block ' + k)
        ch.eq(f['new_htc_structure.%s.node' % k][0], i, 'block ' + k)
    if names:
        ch.eq(st.main_body__1.node[0], 0, 'block main_body__1')
    ch.eq(st.get('nothing', 'default'), 'default', 'missing element')
    ch.state(names, q, how)


# ------------------------------------------------------------------ included files
def h_include(ch):
    pos = ch.pick('position', ['block', 'inside', 'inside sub', 'end'])
    nest = ch.pick('included again', [0, 1, 2])
    ext = ch.pick('exit in the included file', ['', 'exit', 'EXIT', '  Exit '])
    if ext not in ('', 'exit') and nest == 2:
        return
    case = ch.pick('letter case', ['same', 'file has capitals', 'command has capitals', 'backslash', 'indented command'])
    where = ch.pick('place', ['.', 'htc'])
    mp = ch.pick('model path', ['detected', 'given'])
    tail = ch.pick('after the file name', ['', ' ', 'c'])
    inner = [L('x', 5, com=['in']), L('y', 'abc')]
    fname = 'Part1.htc' if case == 'file has capitals' else 'part1.htc'
    ref = {'same': './inc/part1.htc', 'file has capitals': './inc/Part1.htc', 'command has capitals': './INC/PART1.HTC', 'backslash': '.\\inc\\part1.htc', 'indented command': './inc/part1.htc'}[case]
    lines = ['x 5; in', 'y abc;']
    exp = list(inner)
    for k in range(nest):
        put('inc/nest%d.htc' % k, 'n%d 1;\n' % k + ('continue_in_file ./inc/nest%d.htc;\n' % (k + 1) if k + 1 < nest else '') + (ext + ';\nlost 1;\n' if ext else ''))
    if nest:
        lines.append('continue_in_file ./inc/nest0.htc;')
        exp += [L('n%d' % k, 1) for k in range(nest)]
    lines.append('z 1;')
    exp.append(L('z', 1))
    if ext:
        lines += [ext + ';', 'lost 2;']
    blk = pos == 'block' or pos == 'end'
    put('inc/' + fname, '\n'.join((['begin part;'] if blk else []) + lines[:len(lines) - (2 if ext else 0)] + (['end part;'] if blk else []) + (lines[-2:] if ext else [])) + '\n')
    cmd = {'indented command': '   Continue_in_file  '}.get(case, 'continue_in_file ') + ref + {'': ' ;', ' ': '; comment', 'c': ' ; c ; d'}[tail]
    sim = S('simulation', L('time_stop', 1))
    if pos == 'block':
        main = ['begin simulation;', 'time_stop 1;', 'end simulation;', cmd, 'begin last;', 'end last;']
        nodes = [sim, S('part', *exp), S('last')]
    elif pos == 'end':
        main = ['begin simulation;', 'time_stop 1;', 'end simulation;', cmd]
        nodes = [sim, S('part', *exp)]
    elif pos == 'inside':
        main = ['begin simulation;', 'time_stop 1;', cmd, 'u 1;', 'end simulation;']
        nodes = [S('simulation', L('time_stop', 1), *(exp + [L('u', 1)]))]
    else:
        main = ['begin simulation;', 'begin sub;', cmd, 'end sub;', 'end simulation;']
        nodes = [S('simulation', S('sub', *exp))]
    put(os.path.join(where, 'a.htc'), '\n'.join(main + ['exit;', 'begin lost;', 'end lost;']))
    root = os.getcwd()
    f = K()(os.path.join(where, 'a.htc'), **({} if mp == 'detected' else dict(modelpath=root)))
    ch.op()
    ch.eq(fview(f), lower(nodes), 'tree')
    check_keys(ch, f, 'file')
    inc = sorted(os.path.realpath(p) for p in f.htc_inputfiles)
    ch.eq(len(inc), 1 + nest, 'number of included files')
    before = tree('inc')
    f.save('out.htc')
    ch.op()
    ch.check(tree('inc') == before, 'an included file was changed by saving')
    g = K()('out.htc', modelpath='.')
    ch.eq(fview(g), lower(nodes), 'saved file')
    ch.state(pos, nest, ext, case, where, mp)


# ------------------------------------------------------------------ bodies
def h_body(ch):
    from weio.hawc2_htc_file import HAWC2HTCFile
    nb = ch.pick('bodies', [2, 1, 3])
    ns = ch.pick('sections', [2, 1, 3])
    order = ch.pick('order of the sections', ['ascending', 'descending'])
    bodies, C = [], {}
    for b in range(nb):
        V = [[i + 1, 0.25 * b, -1.0 - i, 10.0 * i + b, 90.0 - i] for i in range(ns)]
        C['b%d' % b] = np.array(V)
        secs = [L('sec', *[int(x) if float(x).is_integer() else x for x in v]) for v in (V if order == 'ascending' else V[::-1])]
        bodies.append(S('main_body', L('name', 'b%d' % b), S('c2_def', L('nsec', ns), *secs)))
    nodes = [S('new_htc_structure', *(bodies + [S('main_body', L('name', 'noaxis')), S('orientation', L('body', 'b0'))]))]
    put('a.htc', text(nodes, 'plain'))
    f = HAWC2HTCFile('a.htc')
    ch.op()
    ch.eq(f.bodyNames, list(C) + ['noaxis'], 'body names')

    def check(f, C, what):
        for b in C:
            ch.eq(f.bodyC2(f.bodyByName(b)), C[b], '%s: axis of %s' % (what, b))
        T = f.toDataFrame()
        ch.eq(T, {b + '_c2': pd.DataFrame(C[b][:, [3, 1, 2, 4]], columns=['z_[m]', 'x_[m]', 'y_[m]', 'twist_[deg]']) for b in C}, what)
    check(f, C, 'file')
    ch.check(raises(f.bodyByName, 'nobody') is not None, 'a body that does not exist is found')
    for k in range(2):
        b = ch.pick('changed body %d' % k, list(C))
        m = ch.pick('new sections %d' % k, [1, 2, 3])
        V = np.array([[2 * i + 1 + k, 0.5 * k, 7. + i, -3.25 * i, 0.] for i in range(m)])
        n0 = len(C[b])
        r = outcome(f.setBodyC2, f.bodyByName(b), V.copy())
        ch.op()
        if m > n0:
            ch.check(r[0] == 'err' and 'NotImplementedError' in mro_names(r[1]), 'more sections: %r' % (r,))
        else:
            ch.check(r[0] == 'ok', 'setBodyC2: %r' % (r,))
            C[b] = V
        check(f, C, 'after setBodyC2')
        ch.eq([f.bodyByName(q).c2_def.nsec[0] for q in C], [len(C[q]) for q in C], 'number of sections')
        ch.state(k, {q: C[q] for q in C})
    f.write('w.htc')
    g = HAWC2HTCFile('w.htc')
    ch.op(2)
    check(g, C, 'file read back')
    ch.eq(view(g.data.new_htc_structure.orientation), ['S', 'orientation', [], [['L', 'body', ['b0'], []]], []], 'other block')


# ------------------------------------------------------------------ prepared edits
def h_tools(ch):
    T = [n.copy() for n in start()]
    put('htc/a.htc', text(T, 'plain'))
    f = K()('htc/a.htc', modelpath='..')
    root = os.path.realpath('.')
    sim, wind, out = (find(T, n) for n in ('simulation', 'wind', 'output'))
    for k in range(2):
        o = ch.pick('call %d' % k, ['set_name', 'set_name sub', 'set_time stop', 'set_time start', 'hydro', 'mann list', 'mann text', 'mann scaled'])
        if o.startswith('set_name'):
            sub = 'case/one' if 'sub' in o else ''
            f.set_name('new', sub)
            d = '/' + sub if sub else ''
            find(sim.kids, 'logfile').vals = ['./log%s/new.log' % d]
            find(out.kids, 'filename').vals = ['./res%s/new' % d]
            ch.eq(f.filename, '%s/htc%s/new.htc' % (root, d), 'name of the htc file')
        elif o == 'set_time stop':
            f.set_time(stop=33)
            find(sim.kids, 'time_stop').vals = [33]
        elif o == 'set_time start':
            f.set_time(start=2)
            find(out.kids, 'time').vals = [2, find(sim.kids, 'time_stop').vals[0]]
            w = [n for n in wind.kids if n.name == 'scale_time_start']
            wind.kids.append(L('scale_time_start', 2)) if not w else setattr(w[0], 'vals', [2])
        elif o == 'hydro':
            f.add_hydro(10, 0.5)
            h = [n for n in T if n.name == 'hydro']
            if not h:
                T.append(S('hydro', S('water_properties', L('mudlevel', 10), L('mwl', 0.5), L('gravity', 9.81), L('rho', 1027))))
        else:
            scaled = (1.0, 0.8, 0.5) if 'scaled' in o else None
            fn = 'box' if 'text' in o else ['./turb/%s.bin' % c for c in 'uvw']
            f.add_mann_turbulence(seed=5, filenames=fn, no_grid_points=(8, 4, 2), box_dimension=(80, 10, 5), dont_scale='text' in o, std_scaling=scaled)
            find(wind.kids, 'turb_format').vals = [1]
            m = [n for n in wind.kids if n.name == 'mann']
            if not m:
                m = [S('mann')]
                wind.kids.append(m[0])
            m = m[0]

            def setl(name, *vals, com=()):
                l = [n for n in m.kids if n.name == name]
                if l:
                    l[0].vals = list(vals)
                else:
                    m.kids.append(L(name, *vals, com=com))

            def dell(name):
                m.kids = [n for n in m.kids if n.name != name]
            setl('create_turb_parameters', 29.4, 1, 3.9, 5, 1, com=['L, alfaeps, gamma, seed, highfrq compensation'])
            for c in 'uvw':
                setl('filename_' + c, './turb/box_s0005%s.bin' % c if 'text' in o else './turb/%s.bin' % c)
            for c, n, d in zip('uvw', (8, 4, 2), (10, 2.5, 2.5)):
                setl('box_dim_' + c, n, d)
            setl('dont_scale', 1) if 'text' in o else dell('dont_scale')
            setl('std_scaling', 1, 0.8, 0.5) if scaled else dell('std_scaling')
            ch.eq(f.turbulence_files(), [find(m.kids, 'filename_' + c).vals[0] for c in 'uvw'], 'turbulence files')
        ch.op()
        ch.eq(fview(f), lower(T), 'tree after %s' % o)
        ch.state(fview(f))
    ch.eq(f.res_file_lst(), [find(out.kids, 'filename').vals[0] + e for e in ('.sel', '.dat')], 'result files')
    f.save()
    ch.check(os.path.isfile(f.filename), 'the file was not saved under its name')
    g = K()(f.filename, modelpath=root)
    ch.op(2)
    ch.eq(fview(g), saved(T), 'saved file')


def h_export(ch):
    """ export of the turbulence box """
    tm = ch.pick('output time', [[50, 100], [0, 100], None])
    wsp = ch.pick('wsp', [10, 0.5])
    T = [S('simulation', L('time_stop', 100), S('newmark', L('deltat', 0.02))),
         S('wind', L('wsp', wsp), S('mann', L('box_dim_u', 8, 1.5), L('box_dim_v', 4, 2.5), L('box_dim_w', 2, 3.5))),
         O('output', [L('filename', './res/a')] + ([L('time', *tm)] if tm else []), [])]
    put('a.htc', text(T, 'plain'))
    f = K()('a.htc', modelpath='.')
    wind = find(T, 'wind')
    for k in range(2):
        kw = ch.pick('call %d' % k, [{}, dict(filename='x/y_%s.dat'), dict(samplefrq=3), dict(filename='z%s', samplefrq=7), 'box'])
        ch.op()
        if kw == 'box':   # an exported block keeps the box of its time
            f.wind.mann.box_dim_v = '6 1.25'
            find(find(wind.kids, 'mann').kids, 'box_dim_v').vals = [6, 1.25]
        else:
            f.add_turb_export(**kw)
            t0 = tm[0] if tm else 0
            fn = kw.get('filename', 'export_%s.turb')
            v, w = (list(find(find(wind.kids, 'mann').kids, 'box_dim_' + c).vals) for c in 'vw')
            wind.kids.append(S('turb_export', *[L('filename_' + c, fn % c) for c in 'uvw'], L('samplefrq', kw.get('samplefrq') or max(1, int(1.5 / (wsp * 0.02)))),
                               L('time_start', t0), L('nsteps', (100 - t0) / 0.02), L('box_dim_v', *v), L('box_dim_w', *w)))
        ch.eq(fview(f), lower(T), 'tree after %s' % kw)
        ch.state(fview(f))
    check_saved(ch, f, 'b.htc', T)


def h_controller(ch):
    """ import of controller gains """
    pos = ch.pick('blocks before', [0, 1, 2])
    n = ch.pick('constants', [22, 39])
    g = [ch.pick('gain', [0.125, 9.85e+07, -3.5e-08])] + [1.5, 2.25e6, 0.0625, 0.5, 11.5, 480.25]
    if ch.flag('rotated'):
        g = g[3:] + g[:3]

    def dll(name):
        return S('type2_dll', L('name', name), L('filename', './c.dll'), S('init', *[L('constant', i, i * 10.5) for i in range(1, n + 1)]))
    T = [S('wind', L('wsp', 10)), S('dll', *[dll('other%d' % i) for i in range(pos)], dll('dtu_we_controller'), dll('last'))]
    put('a.htc', text(T, 'plain'))
    put('c.txt', 'PI generator torque controller in region 2\nK = %r [Nm/(rad/s)^2]\nI = 1.0 [kg*m^2]\nPI generator\nKp = %r [Nm/(rad/s)]\nKi = %r [Nm/rad]\nPI pitch\nKp = %r [rad/(rad/s)]\nKi = %r [rad/rad]\nK1 = %r [deg], K2 = %r [deg^2]\n' % tuple(g))
    f = K()('a.htc', modelpath='.')
    ch.op(2)
    f.import_dtu_we_controller_input('c.txt')
    init = find(find(T, 'dll').kids[pos].kids, 'init')
    for i, v in zip([11, 12, 13, 16, 17, 21, 22], g):
        init.kids[i - 1].vals[1] = float('%.6E' % v)

    def num(v):
        if isinstance(v, list):
            return [num(x) for x in v]
        try:
            return float(v)
        except (TypeError, ValueError):
            return v
    ch.eq(num(fview(f)), num(lower(T)), 'tree with the gains')
    f.save('b.htc')
    ch.eq(num(fview(K()('b.htc', modelpath='.'))), num(saved(T)), 'saved file')
    ch.eq(get('c.txt').decode().split('\n')[1], 'K = %r [Nm/(rad/s)^2]' % g[0], 'the file of the gains')
    ch.state(pos, n, tuple(g))


def h_names(ch):
    """ set_name and set_time on every combination of the lines they act on """
    aero = ch.flag('HAWC2 aero')
    has = {k: ch.flag(k) for k in ('animation', 'visualization', 'output', 'wind')}
    tf = ch.pick('turb_format', [0, 1]) if has['wind'] else 0
    more = ch.pick('values after the file name', [[], ['x', 2, 0.5]]) if has['visualization'] else []
    kids = [L('time_stop', 12.5), L('logfile', './log/a.log')]
    if has['animation']:
        kids.append(L('animation', './animation/a.dat'))
    if has['visualization']:
        kids.insert(0, L('visualization', './visualization/a.hdf5', *more))
    if aero:
        kids.append(L('deltat', 0.02))
    else:
        kids.append(S('newmark', L('beta', 0.27), L('deltat', 0.02)))
    T = [S('test_structure' if aero else 'simulation', *kids)]
    if has['wind']:
        T.append(S('wind', L('wsp', 10), L('turb_format', tf)))
    if has['output']:
        T.append(O('output', [L('filename', './res/a'), L('time', 0, 12.5)], [X('general time')]))
    put('htc/a.htc', text(T, 'plain'))
    if aero:
        from weio.wetb.hawc2.htc_file import H2aeroHTCFile as C
    else:
        C = K()
    f = C('htc/a.htc', modelpath='..')
    sim = T[0]
    out = [n for n in T if n.name == 'output']
    wind = [n for n in T if n.name == 'wind']
    for k in range(2):
        c = ch.pick('call %d' % k, ['name', 'name in a folder', 'stop', 'start', 'step', 'all'])
        if c.startswith('name'):
            sub = 'sub' if 'folder' in c else ''
            d = '/sub' if sub else ''
            f.set_name('new', sub)
            find(sim.kids, 'logfile').vals = ['./log%s/new.log' % d]
            if not aero:
                if has['animation']:
                    find(sim.kids, 'animation').vals = ['./animation%s/new.dat' % d]
                if has['visualization']:
                    find(sim.kids, 'visualization').vals[0] = './visualization%s/new.hdf5' % d
            for o in out:
                find(o.kids, 'filename').vals = ['./res%s/new' % d]
            ch.eq(f.filename, '%s/htc%s/new.htc' % (os.path.realpath('.'), d), 'name of the htc file')
        else:
            if c in ('start', 'all') and not out:
                return
            a = {'stop': dict(stop=33), 'start': dict(start=2.5), 'step': dict(step=0.125), 'all': dict(start=5, stop=44.5, step=0.25)}[c]
            f.set_time(**a)
            if 'stop' in a:
                find(sim.kids, 'time_stop').vals = [a['stop']]
            if 'step' in a:
                find(sim.kids if aero else find(sim.kids, 'newmark').kids, 'deltat').vals = [a['step']]
            if 'start' in a:
                find(out[0].kids, 'time').vals = [a['start'], find(sim.kids, 'time_stop').vals[0]]
                if wind and (tf > 0 or not aero):
                    w = [n for n in wind[0].kids if n.name == 'scale_time_start']
                    wind[0].kids.append(L('scale_time_start', a['start'])) if not w else setattr(w[0], 'vals', [a['start']])
        ch.op()
        ch.eq(fview(f), lower(T), 'tree after %s' % c)
        ch.state(aero, has, tf, more, fview(f))
    f.save()
    g = K()(f.filename, modelpath=os.path.realpath('.'))
    ch.eq(fview(g), saved(T), 'saved file')


def h_damage(ch):
    """ a file that ends inside of a block is rejected; a file that cannot be saved is left as it was """
    what = ch.pick('case', ['no end', 'no end of the inner block', 'cannot be encoded'])
    if what == 'cannot be encoded':
        put('a.htc', text(start(), 'plain'))
        before = get('a.htc')
        f = K()('a.htc', modelpath='.')
        f.wind.wsp.comments = '\u03c9'
        r = outcome(f.save)
        ch.op()
        if r[0] == 'err':
            ch.check(get('a.htc') == before, 'a failed save destroyed the file')
        else:
            check_file(ch, 'a.htc', start())
    else:
        s = text(start(), ch.pick('layout', LAY)).replace(b'\r', b'').split(b'\n')
        i = [k for k, l in enumerate(s) if l.strip().lower().startswith(b'end')]
        cut = ch.pick('cut before end number', i[:-1])
        put('a.htc', b'\n'.join(s[:cut]) + b'\n' if what == 'no end' else b'\n'.join(s[:cut] + s[cut + 1:]))
        lvl = 0
        ends = [l.strip().lower() for l in s[:cut]]
        lvl = sum(l.startswith(b'begin') for l in ends) - sum(l.startswith(b'end') for l in ends)
        if what == 'no end' and lvl > 0:
            r = outcome(K(), 'a.htc', modelpath='.')
            ch.op()
            ch.check(r[0] == 'err', 'a file without the end of a block was read')
    ch.state(what)


# ------------------------------------------------------------------ many elements of one name
def h_many(ch):
    n = ch.pick('number', [2, 9, 10, 11, 12, 19, 21, 30, 99, 101, 112])
    kind = ch.pick('of', ['lines', 'blocks', 'sensors', 'lines of two names'])
    if kind == 'lines':
        T = [S('a', *[L('sec', i + 1, 'x%d' % i) for i in range(n)], L('last', 1))]
    elif kind == 'blocks':
        T = [S('main_body', L('name', 'b%d' % i), S('c2_def', L('nsec', i))) for i in range(n)]
    elif kind == 'sensors':
        T = [O('output', [L('filename', 'r')], [X('mbdy state', 'pos', 'b', i) for i in range(n)])]
    else:
        T = [S('a', *[L(['sec', 'node'][i % 2], i, i + 1) for i in range(n)])]
    put('a.htc', text(T, 'plain'))
    f = check_file(ch, 'a.htc', T)
    after = ch.pick('then', ['save', 'one deleted', 'one added'])
    i = 0
    if kind != 'sensors' and after != 'save':
        sec = f if kind == 'blocks' else f.a
        top = T if kind == 'blocks' else T[0].kids
        if after == 'one deleted':
            i = ch.pick('position', [0, 1, n // 2, n - 1])
            list(sec.contents.values())[i].delete()
            del top[i]
        elif kind == 'blocks':
            sec.add_section('main_body', allow_duplicate=True, name='new')
            T.append(S('main_body', L('name', 'new')))
        else:
            sec.add_line('sec', ['new'])
            top.append(L('sec', 'new'))
    elif after != 'save':
        if after == 'one deleted':
            del f.output.sensors[n // 2]
            del T[0].sens[n // 2]
        else:
            f.output.add_sensor('mbdy', 'state', ['pos', 'b', n])
            T[0].sens.append(X('mbdy state', 'pos', 'b', n))
    ch.op()
    ch.eq(fview(f), lower(T), 'tree')
    f.save('b.htc')
    check_file(ch, 'b.htc', T, what='saved file')
    ch.state(n, kind, after, i)


def harnesses(tier):
    H = [('read', h_read), ('output', h_output), ('values', h_values), ('bytes', h_bytes), ('edit2', h_edit2), ('edit3', h_edit3), ('find', h_find), ('include', h_include), ('body', h_body), ('tools', h_tools), ('export', h_export), ('controller', h_controller), ('names', h_names), ('many', h_many), ('damage', h_damage)]
    if tier == 'thorough':
        H.append(('edit3all', h_edit3all))
    return H
