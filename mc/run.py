"""usage: python -m mc.run <PROPERTY> [quick|thorough]
        python -m mc.run --replay <file>
exit 0: the property held on every execution explored; exit 1 + VIOLATION line otherwise."""
import os, sys, json, time, tempfile, shutil, traceback, warnings, importlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for _v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[_v] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['TZ'] = 'UTC'

from . import core


def prepare():
    """ private scratch folder and HOME (weio looks for user formats below HOME), weio imported from the working tree """
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    s = tempfile.mkdtemp(prefix='weio_mc_', dir=base)
    os.environ['MC_SCRATCH'] = s
    home = os.path.join(s, 'home')
    os.makedirs(home)
    os.environ['HOME'] = home
    os.environ['XDG_CACHE_HOME'] = os.path.join(home, '.cache')
    os.environ['MPLCONFIGDIR'] = os.path.join(home, '.mpl')
    sys.dont_write_bytecode = True
    sys.path.insert(0, core.REPO)
    warnings.simplefilter('ignore')
    return s


def load(pid):
    return importlib.import_module('mc.props.' + pid.lower())


def known_keys(pid):
    """ known-findings.jsonl: {"status": "open", "property":, "key":, "what":} """
    out = {}
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('status') == 'open' and d['property'] == pid:
                    out[d['key']] = d['what']
    return out


_MOD = None
_TIER = None


def _init(pid, tier):
    global _MOD, _TIER
    warnings.simplefilter('ignore')
    core.limit_memory()
    _TIER = tier
    _MOD = dict(load(pid).harnesses(tier))


def _task(a):
    name, prefix, deadline, known = a
    try:
        return name, prefix, core.subtree(_MOD[name], prefix, deadline, known)
    except BaseException as e:
        return name, prefix, dict(error=traceback.format_exc())


def _shard_task(a):
    name, want = a
    try:
        return (name,) + core.shards(_MOD[name], want)
    except BaseException as e:
        return name, [[]], None


def check(pid, tier):
    import concurrent.futures as cf
    import multiprocessing
    t0 = time.time()
    budget = {'quick': 780, 'thorough': 3 * 3600}[tier]
    deadline = t0 + budget
    viols = []
    knowns = {}
    stats = {}
    sigs = set()
    samples = []
    complete = True
    kk = known_keys(pid)
    try:
        import numpy, pandas
        import weio
        mod = load(pid)
        hs = mod.harnesses(tier)
        info = getattr(mod, 'INFO', {})
    except BaseException:
        viols.append(('import', [], 'the code cannot be imported: ' + traceback.format_exc()[-600:], None, []))
        hs = []
        info = {}
    only = os.environ.get('MC_ONLY')
    if only:
        hs = [h for h in hs if only in h[0]]
    seen_errs = []
    if hs:
        ctx = multiprocessing.get_context('fork')
        ncpu = max(1, min(8, int(os.environ.get('MC_JOBS', os.cpu_count() or 4))))
        ex = cf.ProcessPoolExecutor(ncpu, mp_context=ctx, initializer=_init, initargs=(pid, tier))
        try:
            tasks = []
            for name, pre, hang in ex.map(_shard_task, [(n, 64) for n, _ in hs]):
                stats[name] = dict(executions=0, skipped=0, operations=0, choices=0, states=0, shards=len(pre), _s=set(), complete=True)
                if hang:
                    viols.append((name, pre[0], hang[0], hang[1], hang[2]))
                    stats[name]['complete'] = False
                    continue
                tasks += [(name, p, deadline, set(kk)) for p in pre]
            if viols:
                tasks = []
            futs = [ex.submit(_task, t) for t in tasks]
            for f in cf.as_completed(futs):
                if f.cancelled():
                    continue
                name, prefix, r = f.result()
                st = stats[name]
                if 'error' in r:
                    seen_errs.append((name, prefix, r['error']))
                    continue
                st['executions'] += r['execs']
                st['skipped'] += r['skips']
                st['operations'] += r['ops']
                st['choices'] += r['points']
                st['_s'] |= r['sigs']
                if not r['complete']:
                    st['complete'] = False
                if len(samples) < 60:
                    samples += [dict(harness=name, choices=s) for s in r['samples'][:1]]
                for k, v in r['knowns'].items():
                    knowns.setdefault(k, (name,) + v)
                for (msg, key, choices, tr) in r['viols']:
                    viols.append((name, choices, msg, key, tr))
                if len(viols) >= core.MAXV:
                    for g in futs:
                        g.cancel()
                    complete = False
                    break
        except cf.process.BrokenProcessPool as e:
            viols.append(('worker', [], 'a worker process died while exploring (crash of the interpreter or out of memory)', None, []))
        finally:
            procs = list((getattr(ex, '_processes', None) or {}).values())
            ex.shutdown(wait=False, cancel_futures=True)
            for p in procs:
                try:
                    p.kill()
                except Exception:
                    pass
    for (name, prefix, err) in seen_errs:
        viols.append((name, prefix, 'the execution cannot be replayed deterministically: ' + err[-500:], None, []))
    tot = dict(executions=0, operations=0, choices=0, skipped=0)
    for n, st in stats.items():
        st['states'] = len(st['_s'])
        sigs |= {(n, x) for x in st.pop('_s')}
        complete = complete and st['complete']
        for k in tot:
            tot[k] += st[k]
    wall = time.time() - t0
    nd = len(sigs)
    # pick a spread of samples, one per harness first
    smp, seen = [], set()
    for s in samples:
        if s['harness'] not in seen:
            seen.add(s['harness'])
            smp.append(s)
    smp = smp[:12]
    # --- evidence
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=dict(states=nd, transitions=tot['operations'] + tot['choices'],
                            traces_validated_against_impl=tot['executions'] - tot['skipped'],
                            executions=tot['executions'], outside_domain=tot['skipped'],
                            real_operations=tot['operations'], choice_points=tot['choices'],
                            harnesses=stats, samples=smp or [dict(none='nothing was run')],
                            exhaustive=bool(complete and not viols),
                            bounds=info.get('bounds', ''),
                            rule='every combination of the choices of each harness is executed on the real code, in lock step with the reference model of the harness; states = distinct canonical observations; transitions = choices taken + operations executed on the real code'),
              assumptions=info.get('assumptions', []), wall_s=round(wall, 2), violations=len(viols))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d executions (%d outside the domain), %d states, %d transitions, %d harnesses, %.1f s%s' % (
        pid, tier, tot['executions'], tot['skipped'], nd, ev['coverage']['transitions'], len(stats), wall,
        '' if complete else ' (not completed)'))
    if os.environ.get('MC_VERBOSE'):
        for n, st in stats.items():
            print('   %-40s' % n, st)
    for k, (name, msg, tr) in sorted(knowns.items()):
        print('KNOWN-FINDING: property=%s %s' % (pid, kk[k]))
    if viols:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        viols.sort(key=lambda v: (len(v[1]), sum(v[1])))
        for i, (name, choices, msg, key, tr) in enumerate(viols[:core.MAXV]):
            p = os.path.join(rd, '%s_%d.json' % (pid, i))
            with open(p, 'w') as f:
                json.dump(dict(property=pid, tier=tier, harness=name, choices=choices, message=msg, key=key, trace=tr), f, indent=1)
            print('  harness %s: %s' % (name, msg))
            if key:
                print('  key: %s' % key)
            for t in tr[:30]:
                print('      %s = %s' % (t[0], t[2]))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if not complete:
        print('note: time budget reached; what was covered is in the evidence file')
    return 0


def replay(path):
    d = json.load(open(path))
    mod = load(d['property'])
    h = dict(mod.harnesses(d['tier']))[d['harness']]
    obs = []
    for k in range(2):
        r = core.run_one(h, d['choices'])
        obs.append((r.viol[:2] if r.viol else None, [p[1] for p in r.points]))
    if obs[0] != obs[1]:
        print('the two replays differ:', obs)
    if obs[0][0]:
        print('reproduced: %s' % (obs[0][0][0],))
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        return 1
    print('not reproduced')
    return 0


def main():
    s = prepare()
    rc = 1
    try:
        if sys.argv[1] == '--replay':
            rc = replay(sys.argv[2])
        else:
            tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
            rc = check(sys.argv[1].upper(), tier)
    finally:
        os.chdir('/')
        shutil.rmtree(s, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
