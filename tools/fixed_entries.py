"""Rewrites the 'fixed' entries of known-findings.jsonl from the fix commits of /repo and the table below (position of the commit -> property)."""
import json, subprocess
R = [(1, 1, 'C01'), (2, 3, 'C02'), (4, 7, 'C11'), (8, 8, 'C15'), (9, 9, 'C14'), (10, 11, 'C15'), (12, 15, 'C17'), (16, 16, 'C03'), (17, 17, 'C27'), (18, 18, 'C28'), (19, 20, 'C06'), (21, 21, 'C21'), (22, 22, 'C13'), (23, 23, 'C04'), (24, 24, 'C06'), (25, 27, 'C05'), (28, 28, 'C21'), (29, 30, 'C05'), (31, 31, 'C06'), (32, 32, 'C05'), (33, 35, 'C08'), (36, 36, 'C06'), (37, 37, 'C09'), (38, 38, 'C06'), (39, 39, 'C04'), (40, 40, 'C07'), (41, 48, 'C06'), (49, 49, 'C05'), (50, 51, 'C06'), (52, 58, 'C07'), (59, 61, 'C09'), (62, 67, 'C10'), (68, 70, 'C13'), (71, 84, 'C18'), (85, 91, 'C19'), (92, 94, 'C20'), (95, 100, 'C21'), (101, 109, 'C22'), (110, 119, 'C23'), (120, 124, 'C24'), (125, 133, 'C25'), (134, 137, 'C26'), (138, 139, 'C27'), (140, 150, 'C28'), (151, 156, 'C29'), (157, 157, 'C03'), (158, 158, 'C07'), (159, 160, 'C09'), (161, 161, 'C30'), (162, 163, 'C04'), (164, 164, 'C11'), (165, 165, 'C19'), (166, 166, 'C11'), (167, 168, 'C17'), (169, 169, 'C30'), (170, 171, 'C31')]
P = {i: p for a, b, p in R for i in range(a, b + 1)}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if l.split(' ', 1)[1].startswith('fix: ')]
keep = [l for l in open('known-findings.jsonl').read().splitlines() if l.strip() and json.loads(l)['status'] != 'fixed']
with open('known-findings.jsonl', 'w') as f:
    for l in keep:
        f.write(l + '\n')
    for i, l in enumerate(log, 1):
        h, m = l.split(' ', 1)
        p = P.get(i)
        if p is None:
            print('no property for', i, l)
            continue
        f.write(json.dumps(dict(status='fixed', property=p, commit=h, what=m[5:], line='fixed: property=%s %s %s' % (p, h, m[5:]))) + '\n')
