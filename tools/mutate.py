"""Self-evaluation: plants small random changes in a copy of the repository, drops those that the tests notice, and reports
which of the rest the checks notice.   mutate.py OUT.jsonl SEED N [file ...]        (never used by a check)"""
import ast, copy, random, sys, os, json, subprocess, shutil, tempfile, signal

CHECKS = {
 '__init__.py': ['C01', 'C02'], 'file_formats.py': ['C01'], 'file.py': ['C03', 'C04', 'C05', 'C06', 'C07'],
 'csv_file.py': ['C07', 'C28'], 'fast_input_file.py': ['C08', 'C09', 'C10'], 'fast_input_deck.py': ['C10'],
 'fast_output_file.py': ['C11'], 'fast_linearization_file.py': ['C12'], 'fast_summary_file.py': ['C13'], 'mini_yaml.py': ['C13'],
 'turbsim_file.py': ['C14', 'C15'], 'mannbox_file.py': ['C16', 'C15'], 'hawc2_dat_file.py': ['C17'], 'wetb/hawc2/Hawc2io.py': ['C17'],
 'hawc2_htc_file.py': ['C18'], 'wetb/hawc2/htc_file.py': ['C18'], 'wetb/hawc2/htc_contents.py': ['C18'],
 'hawc2_st_file.py': ['C19'], 'hawc2_pc_file.py': ['C19'], 'hawc2_ae_file.py': ['C19'], 'wetb/hawc2/st_file.py': ['C19'], 'wetb/hawc2/pc_file.py': ['C19'], 'wetb/hawc2/ae_file.py': ['C19'],
 'flex_out_file.py': ['C20'], 'flex_blade_file.py': ['C21'], 'flex_profile_file.py': ['C21'], 'flex_doc_file.py': ['C21'], 'flex_wavekin_file.py': ['C21'],
 'bladed_out_file.py': ['C22'], 'vtk_file.py': ['C23'], 'tecplot_file.py': ['C24'], 'fast_input_file_graph.py': ['C25'],
 'excel_file.py': ['C27'], 'parquet_file.py': ['C27'], 'netcdf_file.py': ['C27'], 'tdms_file.py': ['C27'],
 'hawcstab2_pwr_file.py': ['C28'], 'hawcstab2_ind_file.py': ['C28'], 'hawcstab2_cmb_file.py': ['C28'], 'bmodes_out_file.py': ['C28'], 'rosco_performance_file.py': ['C28'],
 'turbsim_ts_file.py': ['C28'], 'fast_wind_file.py': ['C28'], 'cactus_file.py': ['C28'], 'raawmat_file.py': ['C28'],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
DROP = {'strip', 'lower', 'upper', 'copy', 'replace', 'lstrip', 'rstrip', 'ravel', 'squeeze', 'astype', 'title'}


def sites(tree):
    """ list of (description, line, function that changes a copy of the node in place) """
    out = []
    for parent in ast.walk(tree):
        for field, v in ast.iter_fields(parent):
            for i, n in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(n, ast.AST):
                    n._parent, n._field, n._i = parent, field, i if isinstance(v, list) else None
    def skip(n):
        while n is not None:
            if isinstance(n, ast.FunctionDef) and n.name in ('__repr__', 'print', 'plot'):
                return True
            if isinstance(n, (ast.Raise, ast.JoinedStr)):
                return True
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('print', 'warn'):
                return True
            if isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and getattr(n.test.left, 'id', '') == '__name__':
                return True
            n = getattr(n, '_parent', None)
        return False
    def infun(n):
        while n is not None:
            if isinstance(n, ast.FunctionDef):
                return True
            n = getattr(n, '_parent', None)
        return False
    def repl(n, new):
        p = n._parent
        if n._i is None:
            setattr(p, n._field, new)
        else:
            getattr(p, n._field)[n._i] = new
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno') or skip(n) or not infun(n):
            continue
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            out.append(('compare', n.lineno, lambda n=n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
            if type(n.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                out.append(('compare', n.lineno, lambda n=n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right))):
            out.append(('operator', n.lineno, lambda n=n: setattr(n, 'op', BIN[type(n.op)]())))
        elif isinstance(n, ast.BoolOp):
            out.append(('and/or', n.lineno, lambda n=n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            out.append(('first term only', n.lineno, lambda n=n: repl(n, n.values[0])))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            out.append(('negation', n.lineno, lambda n=n: repl(n, n.operand)))
        elif isinstance(n, ast.Constant) and type(n.value) is int and abs(n.value) < 100:
            out.append(('constant+1', n.lineno, lambda n=n: setattr(n, 'value', n.value + 1)))
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            out.append(('bool', n.lineno, lambda n=n: setattr(n, 'value', not n.value)))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DROP:
            out.append(('drop .%s()' % n.func.attr, n.lineno, lambda n=n: repl(n, n.func.value)))
        elif isinstance(n, ast.Call) and n.keywords:
            out.append(('drop keyword', n.lineno, lambda n=n: n.keywords.pop()))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and random.random() < .7:
                continue
            out.append(('delete statement', n.lineno, lambda n=n: repl(n, ast.copy_location(ast.Pass(), n))))
        elif isinstance(n, ast.If):
            out.append(('if always', n.lineno, lambda n=n: setattr(n, 'test', ast.Constant(True))))
            out.append(('if never', n.lineno, lambda n=n: setattr(n, 'test', ast.Constant(False))))
        elif isinstance(n, ast.Slice) and n.upper is not None and n.step is None:
            out.append(('open slice', n.lineno, lambda n=n: setattr(n, 'upper', None)))
    return out


def run(cmd, timeout, **k):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **k)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return 'timeout', ''


def main():
    out, seed, N = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or list(CHECKS)
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    random.seed(seed)
    pool = []
    for f in files:
        src = open('/repo/weio/' + f, encoding='utf-8', errors='surrogateescape').read()
        k = len(sites(ast.parse(src)))
        pool += [(f, i) for i in random.sample(range(k), min(k, max(2, N * k // 6000 if len(files) > 1 else N)))]
    random.shuffle(pool)
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    C = tempfile.mkdtemp(prefix='mutrepo', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo/.', C], check=True)
    ts = C + '_t.sh'
    open(ts, 'w').write(open('/opt/vp/test.sh').read().replace('/repo', C).replace('unset PYTHONPATH', 'export PYTHONPATH=' + C))
    for f, i in pool:
        p = C + '/weio/' + f
        orig = open('/repo/weio/' + f, encoding='utf-8', errors='surrogateescape').read()
        random.seed(seed)
        tree = ast.parse(orig)
        S = sites(tree)
        if i >= len(S):
            continue
        what, line, fn = S[i]
        fn()
        ast.fix_missing_locations(tree)
        try:
            new = ast.unparse(tree)
            compile(new, p, 'exec')
        except Exception:
            continue
        open(p, 'w', encoding='utf-8', errors='surrogateescape').write(new)
        rec = dict(file=f, line=line, what=what, text=orig.split('\n')[line - 1].strip()[:150])
        J = C + '_o.json'
        if os.path.exists(J):
            os.remove(J)
        rc, o = run(['bash', ts, J], 60)
        ok = rc != 'timeout' and os.path.exists(J) and not (set(base) - set(json.load(open(J))['passed']))
        if ok:
            rec['checks'] = {}
            for c in CHECKS[f]:
                rc, o = run(['bash', V + '/check.sh', c, 'quick'], 400, env=dict(os.environ, WEIO_REPO=C, MC_MAXV='1', MC_JOBS=os.environ.get('MC_JOBS', '4')))
                rec['checks'][c] = rc
                if rc == 1:
                    break
            rec['result'] = 'caught' if 1 in rec['checks'].values() else 'timeout' if 'timeout' in rec['checks'].values() else 'SURVIVED'
        else:
            rec['result'] = 'tests'
        with open(out, 'a') as g:
            g.write(json.dumps(rec) + '\n')
        subprocess.run(['cp', '/repo/weio/' + f, p], check=True)
    shutil.rmtree(C)


if __name__ == '__main__':
    main()
