#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (run by hand after editing)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'bounded symbolic execution of the real code (LLVM IR to CBMC, SAT)'
DS = 'src/t8_schemes/t8_default/'
P = []   # claimed
NA = []  # (id, reason) of properties that are listed but not claimed


def prop(id, title, st, over, text, why, files, mech, note, claim=True):
    P.append((claim, note, {'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}))


exec(open(V + '/props.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for _, _, d in P:
        f.write(json.dumps(d) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run.py setup',
     'checks': [{'property': d['id'], 'quick_cmd': 'python3 run.py %s quick' % d['id'], 'thorough_cmd': 'python3 run.py %s thorough' % d['id'],
                 'technique': TECH, 'level': 'model_checking', 'level_note': n} for c, n, d in P if c],
     'not_applicable': [{'property': d['id'], 'reason': n} for c, n, d in P if not c]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
for _, _, d in P:
    assert len(d['title']) <= 80, d['title']
    assert d['statement'].count('. ') <= 2, d['id']
