#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props_table.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props_table import P, NA, NOTES
with open(V + '/properties.jsonl', 'w') as f:
    for p in P + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p.get('over', ['inputs']), 'text': p['forall']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}, ensure_ascii=False) + '\n')
checks = []
for p in P:
    checks.append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
                   'technique': p.get('technique', 'contract-based deductive verification of the LLVM IR of the real functions (z3/cvc5), with a labelled bounded native stand-in for what is out of reach'), 'level': p.get('level', 'proof'), 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA], 'notes': NOTES}, open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
for p in P + NA: assert len(p['title']) <= 80, p['title']
import glob
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'].replace('|', '/'), m.get('caught', 'check ' + m['property'])))
t = open(V + '/DESIGN.md').read(); a, b = t.split('<!--SEEDS-->')[0], t.split('<!--/SEEDS-->')[1]
open(V + '/DESIGN.md', 'w').write(a + '<!--SEEDS-->\n' + '\n'.join(rows) + '\n<!--/SEEDS-->' + b)
