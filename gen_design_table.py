"""prints the per-property part of DESIGN.md from props_src.py and the bounds stated by the harness modules"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props_src import PROPS, NA
for p in PROPS:
    i = p['id']
    print('### %s %s\n' % (i, p['title']))
    if i in NA:
        print('Not applicable: %s\n' % NA[i]); continue
    b = p['_note']
    try:
        b = importlib.import_module('mc.props.' + i.lower()).INFO['bounds']
    except ImportError:
        b += ' (planned)'
    print('- enumerated: %s' % p['quantifier']['text'])
    print('- how: %s' % p['_technique'])
    print('- bounds: %s' % b)
    print('- beyond the tests: %s\n' % p['why_tests_cant'])
