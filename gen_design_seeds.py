"""prints the table of planted bugs of DESIGN.md from seeded/*/meta.json"""
import glob, json, os
H = os.path.dirname(os.path.abspath(__file__))
print('## Planted bugs\n')
print('Each is in `seeded/<id>/` with a demonstration; each is reported by the check of its property (found with')
print('`tools/mkseed.py`, which verifies build, stable tests, demonstration with and without the patch, and the check).\n')
print('| planted bug | caught by | needs | what it breaks |\n|---|---|---|---|')
for f in sorted(glob.glob(H + '/seeded/*/meta.json'), key=lambda f: (json.load(open(f))['property'], f)):
    m = json.load(open(f))
    print('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], *[str(m[k]).replace('|', '/').replace('\n', ' ') for k in ('needs', 'what_it_breaks')]))
print()
