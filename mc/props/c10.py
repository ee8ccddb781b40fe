"""C10: FAST model decks"""
import os, itertools
from ..core import Violation
from ..util import *

INFO = dict(bounds='decks of up to 17 files: all combinations of the module switches (CompElast 1..2, CompInflow, CompAero 0..2, CompServo, CompHydro, CompSub 0..2, CompMooring 0..4) x 5 placements of the files (same, below, above, mixed, absolute); all pairs of files missing or named unused/none/NA in any case, with files of these names; all requests of 0..2 and all but 0..2 modules (thorough: every subset); lists of 1..3 airfoils each present, missing, unreadable, with, without or missing coordinates; all histories of 3 reads and writes over 5 decks on one object against a new object; decks written to 4 places with prefixes and suffixes')

KEYS = ['Fst', 'ElastoDyn', 'ElastoDynBlade', 'ElastoDynTower', 'InflowWind', 'AeroDyn14', 'AeroDyn15', 'AeroDynBlade', 'ServoDyn', 'HydroDyn', 'MoorDyn', 'SubDyn', 'MAP', 'BeamDyn', 'BeamDynBlade']
ALL = ['ED', 'AD', 'BD', 'BDbld', 'EDtwr', 'EDbld', 'ADbld', 'AF', 'AC', 'IW', 'HD', 'SrvD', 'SD', 'MD']
# file id: (parent, label in the parent, key of the deck, short key)
FILES = {
    'ED': ('Fst', 'EDFile', 'ElastoDyn'), 'EDtwr': ('ED', 'TwrFile', 'ElastoDynTower'), 'EDbld': ('ED', 'BldFile(1)', 'ElastoDynBlade'),
    'IW': ('Fst', 'InflowFile', 'InflowWind'), 'AD': ('Fst', 'AeroFile', 'AeroDyn15'), 'ADbld': ('AD', 'ADBlFile(1)', 'AeroDynBlade'),
    'SrvD': ('Fst', 'ServoFile', 'ServoDyn'), 'HD': ('Fst', 'HydroFile', 'HydroDyn'), 'SD': ('Fst', 'SubFile', 'SubDyn'), 'MD': ('Fst', 'MooringFile', None),
    'BD': ('Fst', 'BDBldFile(1)', 'BeamDyn'), 'BDbld': ('BD', 'BldFile', 'BeamDynBlade')}
DEF = dict(CompElast=1, CompInflow=1, CompAero=2, CompServo=1, CompHydro=1, CompSub=1, CompMooring=2, CompIce=0)


def D():
    from weio.fast_input_deck import FASTInputDeck
    return FASTInputDeck


def doc(id, pairs):
    L = ['------- INPUT FILE -----------', 'A heading line', '---- GENERAL ----', '"%s"  Id  - identification of the file' % id]
    L += ['%s   %s   - something (-)' % (v, k) for k, v in pairs]
    return L + ['%d  Filler%d  - filler' % (k, k) for k in range(8)]


def place(style, root, i, name):
    """ (reference as written in the parent, folder of the child) for a child of a file in folder root """
    st = {'same': 0, 'below': 1, 'above': 2, 'absolute': 3, 'mixed': 1 + i % 3}[style]
    ref = [name, 'sub %d/%s' % (i, name) if style == 'mixed' and i % 2 else 'sub/%s' % name, '../o%d/%s' % (i, name), os.path.abspath(os.path.join('abs', str(i), name))][st]
    return ref, os.path.normpath(os.path.join(root, ref))


class Deck:
    """ a generated deck and what reading it has to give """

    def __init__(self, main, sw, style='same', status={}, polars=('ok', 'coords'), id='', ad=None, bld='BldFile(1)', kind='OF2', quote='"'):
        self.main, self.sw, self.id, self.kind = main, dict(DEF, **sw), id, kind
        root = os.path.dirname(main)
        q = lambda s: quote + s + quote if quote or ' ' not in s else '"%s"' % s
        ad = ad or ('AD14' if self.sw['CompAero'] == 1 else 'AD15')
        path, ref = {}, {}
        order = list(FILES)
        for f in order:
            parent = FILES[f][0]
            base = root if parent == 'Fst' else os.path.dirname(path[parent])
            r, p = place(style, base, order.index(f), f + id + '.dat')
            st = status.get(f, 'ok')
            if st not in ('ok', 'missing'):
                put(os.path.join(base, st), '\n'.join(doc('named ' + st, [])) + '\n')      # a file of that name is not read
                r, p = st, os.path.join(base, 'gone', f)
            path[f], ref[f] = p, r
        self.path, self.status = path, status
        fst = list(self.sw.items()) + [('EDFile', q(ref['ED'])), ('BDBldFile(1)', q(ref['BD'])), ('BDBldFile(2)', q(ref['BD'])), ('BDBldFile(3)', q(ref['BD'])), ('InflowFile', q(ref['IW'])), ('AeroFile', q(ref['AD'])),
                                       ('ServoFile', q(ref['SrvD'])), ('HydroFile', q(ref['HD'])), ('SubFile', q(ref['SD'])), ('MooringFile', q(ref['MD'])), ('IceFile', '"unused"')]
        if kind == 'OF2':
            fst = [('InterpOrder', 2)] + fst
        elif kind == 'driver':
            fst = [('AeroFile', q(ref['AD'])), ('CompInflow', self.sw['CompInflow']), ('InflowFile', q(ref['IW'])), ('NumTurbines', 1)]
        put(main, '\n'.join(doc('Fst' + id, fst)) + '\n')
        # airfoils
        self.polars, self.coords = [], []
        adir = os.path.dirname(path['AD'])
        names = []
        for i, st in enumerate(polars):
            r, p = place(style, adir, 20 + i, 'AF%d%s.dat' % (i, id))
            names.append(q(r))
            if st == 'missing':
                self.polars.append(None)
                continue
            if st == 'broken':
                put(p, 'no input file\n\n,;,;\n-\n')
                self.polars.append(None)
                continue
            self.polars.append('AF%d%s' % (i, id))
            nc = {'ok': 0, 'coords': '"@AFc%d%s.txt"' % (i, id), 'coords below': '@sub/AFc%d%s.txt' % (i, id), 'nocoords': '"@AFc%d%s.txt"' % (i, id)}[st]
            put(p, '\n'.join(doc('AF%d%s' % (i, id), ([('NumCoords', nc)] if ad == 'AD15' else []))) + '\n')
            if ad == 'AD15' and st != 'ok':
                c = os.path.join(os.path.dirname(p), nc.strip('"').strip('@'))
                if st == 'nocoords':
                    self.coords.append(None)
                else:
                    put(c, '\n'.join(doc('AFc%d%s' % (i, id), [])) + '\n')
                    self.coords.append('AFc%d%s' % (i, id))
        sub = {'ED': [(bld.replace('1', '%d' % k), q(ref['EDbld'])) for k in (1, 2, 3)] + [('TwrFile', q(ref['EDtwr']))], 'BD': [('BldFile', q(ref['BDbld']))],
               'AD': [('ADBlFile(%d)' % k, q(ref['ADbld'])) for k in (1, 2, 3)] if ad == 'AD15' else []}
        for f in order:
            if status.get(f, 'ok') != 'ok':
                continue
            L = doc(f + id, sub.get(f, []))
            if f == 'AD':
                L += ['%d  %s  - number of airfoils' % (len(names), 'NumAFfiles' if ad == 'AD15' else 'NumFoil'), '%s   %s  - names' % (names[0], 'AFNames' if ad == 'AD15' else 'FoilNm')] + names[1:] + ['%d  Last%d  - filler' % (k, k) for k in range(4)]
            put(path[f], '\n'.join(L) + '\n')
        self.ad = ad

    def want(self, req=None):
        """ reference resolver: {key: id}, airfoils, coordinates """
        r = set(ALL) if req is None or 'all' in req else set(req)
        s, w = self.sw, {k: None for k in KEYS}
        w['Fst'] = 'Fst' + self.id
        act = {'ED': self.kind == 'OF2', 'IW': self.kind != 'F7' and s['CompInflow'] > 0, 'AD': self.kind == 'driver' or self.kind == 'OF2' and s['CompAero'] > 0, 'SrvD': s['CompServo'] > 0, 'HD': s['CompHydro'] == 1, 'SD': s['CompSub'] == 1,
               'MD': s['CompMooring'] in (1, 2), 'BD': s['CompElast'] == 2}
        if self.kind != 'OF2':
            for k in ('ED', 'SrvD', 'HD', 'SD', 'MD', 'BD'):
                act[k] = False
        have = {}
        for f, (parent, lab, key) in FILES.items():
            ok = act[f] if parent == 'Fst' else have[parent]
            if f == 'ADbld' and self.ad == 'AD14':
                ok = False
            have[f] = bool(ok and f in r and self.status.get(f, 'ok') == 'ok')
            if have[f]:
                k = key or ('MAP' if s['CompMooring'] == 1 else 'MoorDyn')
                if f == 'AD':
                    k = 'AeroDyn14' if self.kind == 'OF2' and s['CompAero'] == 1 else 'AeroDyn15'
                w[k] = f + self.id
        af, ac = [], []
        if have['AD']:
            af = [p if 'AF' in r else None for p in self.polars]
            if 'AF' in r:
                ac = [c if 'AC' in r else None for c in self.coords]
        return w, af, ac, have


def ident(f):
    return None if f is None else str(f['Id']).strip('"')


def got(d):
    v = d.fst_vt
    return {k: ident(v[k]) for k in KEYS}, [ident(x) for x in v['af_data']], [ident(x) for x in v['ac_data']]


def verify(ch, d, deck, req=None, what=''):
    w, af, ac, have = deck.want(req)
    g = got(d)
    ch.eq(g[0], w, what + ' modules')
    ch.eq(g[1], af, what + ' airfoils')
    ch.eq(g[2], ac, what + ' coordinates')
    ch.eq(d.version, {'OF2': 'OF2', 'driver': 'AD_driver', 'F7': 'F7'}[deck.kind], what + ' version')
    ch.eq([ident(d.fst), ident(d.ED), ident(d.AD), ident(d.IW), ident(d.BD), ident(d.BDbld)],
          [w['Fst'], w['ElastoDyn'], w['AeroDyn14'] or w['AeroDyn15'], w['InflowWind'], w['BeamDyn'], w['BeamDynBlade']], what + ' short names')
    if d.AD is not None:
        ch.eq([ident(d.AD.Bld1), [ident(x) for x in d.AD.AF]], [w['AeroDynBlade'], af], what + ' AD.Bld1, AD.AF')
        ch.eq(d.ADversion, 'AD14' if w['AeroDyn14'] else 'AD15', what + ' AD version')
    files = {k: os.path.normpath(os.path.abspath(p)) for k, p in d.inputfiles.items() if k not in ('AF', 'AC')}
    ch.eq(files, dict({f: os.path.abspath(deck.path[f]) for f in FILES if have[f]}, Fst=os.path.abspath(deck.main)), what + ' files read')
    if have['ED']:
        for p, f in ((d.ED_path, 'ED'), (d.ED_twr_path, 'EDtwr'), (d.ED_bld_path, 'EDbld')):
            if deck.status.get(f, 'ok') in ('ok', 'missing'):
                ch.eq(os.path.abspath(p), os.path.abspath(deck.path[f]), what + ' path of ' + f)
            else:
                ch.eq(p, 'none', what + ' path of unused ' + f)
        ch.check(all(x in d.inputFiles for x in (d.ED_path, d.ED_twr_path, d.ED_bld_path) if x != 'none') and 'none' not in d.inputFiles, what + ' inputFiles: %r' % d.inputFiles)
    repr(d)


STYLES = ['same', 'below', 'above', 'mixed', 'absolute']
MAINS = ['m/main.fst', 'main.fst', 'm/n/main.fst', 'ABS']


def mainpath(m):
    return os.path.abspath('am/main.fst') if m == 'ABS' else m


def h_switches(ch):
    style = ch.pick('placement', STYLES)
    sw = dict(CompElast=ch.pick('CompElast', [1, 2]), CompInflow=ch.pick('CompInflow', [0, 1]), CompAero=ch.pick('CompAero', [0, 1, 2]), CompServo=ch.pick('CompServo', [0, 1]), CompHydro=ch.pick('CompHydro', [0, 1]),
              CompSub=ch.pick('CompSub', [0, 1, 2] if style == 'same' else [0, 1]), CompMooring=ch.pick('CompMooring', [0, 1, 2, 3, 4] if style == 'same' else [0, 1, 2]))
    main = mainpath(ch.pick('main file', MAINS[:2]) if style in ('same', 'mixed') else 'm/main.fst')
    deck = Deck(main, sw, style, quote='' if style == 'below' else '"')
    t0 = tree('.')
    d = D()(main)
    ch.op()
    verify(ch, d, deck, None, 'deck')
    ch.eq(tree('.'), t0, 'files after reading')
    ch.state(style, repr(sw))


def h_missing(ch):
    el = ch.pick('CompElast', [1, 2])
    fs = list(FILES)
    a = ch.pick('first', fs)
    b = ch.pick('second', [f for f in fs if fs.index(f) > fs.index(a)] + [None])
    names = ['missing', 'unused', 'none', 'NA', 'Unused', '../x/NONE', '"nan"'][:]
    st = {a: ch.pick('first is', names).strip('"')}
    if b:
        st[b] = ch.pick('second is', ['missing', 'unused'])
    style = ch.pick('placement', ['same', 'mixed'])
    deck = Deck('m/main.fst', dict(CompElast=el), style, st)
    d = D()('m/main.fst')
    ch.op()
    verify(ch, d, deck, None, '%r' % st)
    ch.state(el, repr(st), style)


def h_request(ch, tier):
    aero = ch.pick('CompAero', [2, 1])
    how = ch.pick('request', ['one', 'two', 'all but', 'string', 'with all'] if tier == 'quick' else ['any', 'string', 'with all'])
    if how == 'any':
        req = [k for k in ALL if ch.flag(k)]
    elif how == 'string':
        req = ch.pick('module', ALL + ['all'])
    elif how == 'with all':
        req = ch.pick('list', [['all'], ['ED', 'all'], ['all', 'SD']])
    elif how == 'one':
        req = [ch.pick('module', ALL)]
    elif how == 'two':
        i = ch.pick('module', range(len(ALL)))
        req = [ALL[i], ALL[ch.pick('other', [j for j in range(len(ALL)) if j != i])]]
    else:
        i, j = ch.pick('module', range(len(ALL))), ch.pick('other', range(len(ALL)))
        req = [k for n, k in enumerate(ALL) if n not in (i, j)]
    deck = Deck('m/main.fst', dict(CompElast=2, CompAero=aero), 'mixed')
    given = list(req) if isinstance(req, list) else req
    d = D()('m/main.fst', given)
    ch.op()
    verify(ch, d, deck, [req] if isinstance(req, str) else req, 'request %r' % (req,))
    ch.eq(given, req, 'list of the caller')
    # a following deck read by default loads all
    e = D()('m/main.fst')
    verify(ch, e, deck, None, 'default after request %r' % (req,))
    ch.state(aero, repr(req))


def h_polars(ch):
    aero = ch.pick('CompAero', [2, 1])
    n = ch.pick('airfoils', [1, 2, 3])
    kinds = ['ok', 'coords', 'coords below', 'nocoords', 'missing', 'broken'] if aero == 2 else ['ok', 'missing', 'broken']
    st = [ch.pick('airfoil', kinds) for _ in range(n)]
    style = ch.pick('placement', STYLES)
    req = ch.pick('request', [None, ['AD', 'AF'], ['AD', 'AC']]) if n == 2 else None
    kind = ch.pick('deck', ['OF2', 'driver']) if aero == 2 and n < 3 else 'OF2'
    deck = Deck('m/main.fst', dict(CompAero=aero), style, polars=st, kind=kind)
    d = D()('m/main.fst') if req is None else D()('m/main.fst', req)
    ch.op()
    verify(ch, d, deck, req, 'airfoils %r' % st)
    if ch.flag('AeroDyn read again'):
        d.readAD(key='AeroDyn14' if aero == 1 else 'AeroDyn15')
        ch.op()
        g = got(d)
        w = deck.want(req)
        ch.eq(g, w[:3], 'after readAD')
    ch.state(aero, repr(st), style, kind, repr(req))


def variants():
    return [
        Deck('d1/main.fst', {}, 'mixed', id='x1'),
        Deck('d2/main.fst', dict(CompElast=2, CompAero=0, CompInflow=0, CompMooring=1), 'same', id='x2'),
        Deck('d3/main.fst', dict(CompAero=1, CompServo=0, CompHydro=0, CompSub=0, CompMooring=0), 'below', polars=['ok', 'missing', 'ok'], id='x3'),
        Deck('d4/main.fst', dict(CompInflow=1), 'same', polars=['nocoords'], id='x4', kind='driver'),
        Deck('d5/main.fst', dict(), 'same', dict(ED='missing', AD='unused', IW='missing'), id='x5'),
        Deck('d6/main.fst', dict(), 'same', id='x6', kind='F7'),
    ]


def h_again(ch):
    """ several decks, one or two objects """
    V = variants()
    d, e = D()(), D()()
    last = {}
    for k in range(3):
        o = ch.pick('object', [0, 1]) if k else 0
        i = ch.pick('deck', range(len(V)))
        obj = (d, e)[o]
        how = ch.pick('how', ['read(name)', 'filename, read()'])
        if how == 'read(name)':
            obj.read(V[i].main)
        else:
            obj.filename = V[i].main
            obj.read()
        ch.op()
        last[o] = i
        for n, j in last.items():
            verify(ch, (d, e)[n], V[j], None, 'after %d reads' % (k + 1))
    ch.state(repr(last))


def h_missing_main(ch):
    V = variants()
    first = ch.pick('before', [None] + list(range(len(V))))
    d = D()()
    if first is not None:
        d.read(V[first].main)
    bad = ch.pick('main', ['d1/nothing.fst', 'nowhere/main.fst', 'd1'])
    ch.check(raises(d.read, bad) is not None, 'no error for main file %s' % bad)
    ch.check(raises(D(), bad) is not None, 'no error for main file %s' % bad)
    ch.check(raises(D(), V[0].main, ['all'], 'yes') is not None, 'verbose that is no boolean')
    i = ch.pick('after', range(len(V)))
    d.read(V[i].main)
    ch.op()
    verify(ch, d, V[i], None, 'after a failure')
    ch.state(repr(first), bad, i)


def h_write(ch):
    sw = dict(CompElast=ch.pick('CompElast', [1, 2]), CompInflow=ch.pick('CompInflow', [0, 1]), CompAero=ch.pick('CompAero', [2, 0, 1]), CompServo=ch.pick('CompServo', [1, 0]), CompHydro=ch.pick('CompHydro', [1, 0]),
              CompSub=ch.pick('CompSub', [1, 0]), CompMooring=ch.pick('CompMooring', [2, 0, 1]))
    style = ch.pick('placement', ['mixed', 'same'])
    target = ch.pick('target', ['out/new.fst', 'out', 'NEW.fst', 'ABS'])
    bld = ch.pick('labels', ['BldFile(1)', 'BldFile1']) if target == 'out' else 'BldFile(1)'
    deck = Deck('m/main.fst', sw, style, bld=bld)
    os.makedirs('out/files')
    t0 = tree('.')
    d = D()('m/main.fst')
    pre, suf = ch.pick('names', [('', ''), ('p_', '_s')]) if target == 'out/new.fst' else ('', '')
    if target == 'out':
        fn, dr = 'out/new.fst', 'out/files'
        d.write(fn, directory=dr)
    elif target == 'ABS':
        fn, dr = os.path.abspath('out/new.fst'), os.path.abspath('out')
        d.write(fn)
    else:
        fn, dr = target, os.path.dirname(target)
        d.write(fn, prefix=pre, suffix=suf)
    ch.op()
    dr = os.path.relpath(dr or '.')
    t1 = tree('.')
    for p in t0:
        ch.eq(t1.get(p), t0[p], 'original file %s after writing' % p)
    w, af, ac, have = deck.want()
    skip = {'ADbld'} | ({'EDbld'} if sw['CompElast'] == 2 else set())
    short = {'SrvD': 'SvD', 'EDtwr': 'ED_twr', 'EDbld': 'ED_bld', 'BDbld': 'BD_bld'}
    exp = {os.path.relpath(fn)} | {os.path.normpath(os.path.join(dr, pre + short.get(f, f) + suf + '.dat')) for f in FILES if have[f] and f not in skip}
    ch.eq(sorted(set(t1) - set(t0)), sorted(exp), 'files written')
    e = D()(fn)
    ch.op()
    g = got(e)[0]
    # every reference is to a file that was written, or to none
    to = dict(EDFile='ED', InflowFile='IW', AeroFile='AD', ServoFile='SrvD', HydroFile='HD', SubFile='SD', MooringFile='MD', **{'BDBldFile(%d)' % k: 'BD' for k in (1, 2, 3)})
    refs = [(e.fst_vt['Fst'], l, f, os.path.dirname(fn)) for l, f in to.items()] + [(e.fst_vt['ElastoDyn'], l, f, dr) for l, f in [('TwrFile', 'EDtwr')] + ([(bld.replace('1', '%d' % k), 'EDbld') for k in (1, 2, 3)] if sw['CompElast'] == 1 else [])]
    for obj, l, f, base in refs:
        r = str(obj[l]).strip('"')
        if have[f]:
            ch.eq(os.path.relpath(os.path.join(base, r)), os.path.normpath(os.path.join(dr, pre + short.get(f, f) + suf + '.dat')), 'reference %s' % l)
        else:
            ch.check(os.path.basename(r).lower() in ('none', 'unused'), 'reference %s: %r' % (l, r))
    for k in KEYS:
        if k in ('AeroDynBlade', 'ElastoDynBlade') and not (k == 'ElastoDynBlade' and sw['CompElast'] == 1):
            continue
        ch.eq(g[k], w[k], 'written deck: ' + k)
    # everything but the references is the same
    for k in KEYS:
        if w[k] and g[k]:
            a, b = d0(deck, k, w[k]), e.fst_vt[k]
            for lab in a:
                if lab and not lab.endswith('File') and not lab.lower().startswith(('bldfile', 'bdbldfile')):
                    ch.eq(repr(b[lab]), repr(a[lab]), 'written deck: %s %s' % (k, lab))
    ch.eq(got(d), (w, af, ac), 'deck after writing')
    # written again, from the new deck
    if ch.flag('again') and style == 'same':
        d.write(fn, prefix=pre, suffix=suf, directory=dr)
        ch.eq(tree('.'), t1, 'written twice')
    ch.state(repr(sw), style, target, pre, bld)


def d0(deck, k, id):
    """ entries of an original file """
    from weio.fast_input_file import FASTInputFile
    f = FASTInputFile(deck.main if k == 'Fst' else [deck.path[x] for x in FILES if x + deck.id == id][0])
    return {l: f[l] for l in f.keys()}


def h_readad(ch):
    """ AeroDyn alone, without main file """
    style = ch.pick('placement', STYLES)
    deck = Deck('m/main.fst', {}, style, polars=['ok', 'coords'])
    d = D()()
    req = ch.pick('request', [None, 'all', ['AD', 'ADbld'], ['AD', 'AF'], 'AD', 'ADbld', ['ADbld'], 'AF'])
    p = deck.path['AD']
    d.readAD(os.path.abspath(p) if ch.flag('absolute') else p, readlist=req)
    ch.op()
    r = [req] if isinstance(req, str) else req
    w, af, ac, have = deck.want(r)
    g = got(d)
    ch.eq([g[0]['AeroDyn15'], g[0]['AeroDynBlade'], g[1], g[2]], [w['AeroDyn15'], w['AeroDynBlade'], af, ac], 'readAD %r' % (req,))
    ch.eq({k for k, v in g[0].items() if v} - {'AeroDyn15', 'AeroDynBlade'}, set(), 'other modules')
    # the request does not stay
    d.read('m/main.fst')
    verify(ch, d, deck, None, 'after readAD')
    ch.state(style, repr(req))


def harnesses(tier):
    return [('switches', h_switches), ('missing', h_missing), ('request', lambda ch: h_request(ch, tier)), ('airfoils', h_polars), ('again', h_again), ('main file', h_missing_main), ('write', h_write), ('AeroDyn alone', h_readad)]
