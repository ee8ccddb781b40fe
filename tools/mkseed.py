"""mkseed(id, property, [(path, old, new), ...], demo_python, needs, breaks): plants the change in a scratch copy of
/repo, runs the tests and the demonstration with and without it, and keeps it under /verif/seeded/<id> if it qualifies."""
import os, subprocess, shutil, json, sys, tempfile
SH = '''#!/bin/bash
# cwd: the repository
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 EX="$PWD/weio/tests/example_files"
cd "$t"
timeout 120 /opt/venv/bin/python -W ignore "$here/demo.py"
r=$?
cd /
rm -rf "$t"
exit $r
'''

def sub(s, o, n, path):
    crlf = '\r\n' in s
    if crlf: o, n = o.replace('\n', '\r\n'), n.replace('\n', '\r\n')
    assert s.count(o) == 1, (path, s.count(o), o)
    return s.replace(o, n)

def mkseed(id, prop, edits, demo, needs, breaks):
    S = os.environ.get('SEED_VERIF', '/verif') + '/seeded/' + id
    shutil.rmtree(S, ignore_errors=True); os.makedirs(S)
    open(S + '/demo.sh', 'w').write(SH); os.chmod(S + '/demo.sh', 0o755)
    open(S + '/demo.py', 'w').write(demo.strip('\n') + '\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(S + '/meta.json', 'w'), indent=1)
    C = tempfile.mkdtemp(prefix='seedrepo', dir='/tmp')
    subprocess.run(['cp', '-a', '/repo/.', C], check=True)
    ts = open('/opt/vp/test.sh').read().replace('/repo', C).replace('unset PYTHONPATH', 'export PYTHONPATH=' + C)
    open(C + '/../' + os.path.basename(C) + '_t.sh', 'w').write(ts)
    T = C + '_t.sh'; J = C + '_t.json'
    def R(c, **e): return subprocess.run(c, cwd=C, shell=True, capture_output=True, text=True, env=dict(os.environ, **e))
    try:
        r0 = R('bash %s/demo.sh' % S)
        for p, o, n in edits:
            p = C + '/weio/' + p
            s = open(p, newline='', errors='surrogateescape').read()
            open(p, 'w', newline='', errors='surrogateescape').write(sub(s, o, n, p))
        open(S + '/patch.diff', 'wb').write(subprocess.run('git diff', cwd=C, shell=True, capture_output=True).stdout)
        r1 = R('bash %s/demo.sh' % S)
        R('bash ' + T + ' ' + J)
        t = json.load(open(J))
        base = json.load(open('/opt/vp/BASELINE.json'))
        c = subprocess.run('bash check.sh %s quick' % prop, cwd=os.environ.get('SEED_VERIF', '/verif'), shell=True, capture_output=True, text=True, env=dict(os.environ, WEIO_REPO=C))
    finally:
        shutil.rmtree(C); [os.remove(x) for x in (T, J) if os.path.exists(x)]
    bl = base.get('passing') or base.get('passed') or base.get('stable') or base.get('tests')
    fl = [x for x in bl if x not in t['passed']]
    ok = r0.returncode == 0 and r1.returncode != 0 and not fl
    v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
    print('%-28s %s %s demo %d/%d lost tests %s | check rc=%d %s' % (id, prop, 'OK ' if ok else 'BAD', r0.returncode, r1.returncode, fl, c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED'))
    if not ok:
        print(r0.stdout[-800:], r0.stderr[-800:], r1.stdout[-500:], r1.stderr[-500:])
    return ok
