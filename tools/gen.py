#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'tools')]
from properties import ALL, NA
from props import PROPS
import jsonschema
rows = []
for p in ALL:
    d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['obs'], 'hook_needed': None}}
    rows.append(d)
sch = json.load(open('/root/.vp/PROPERTIES.schema.json')) if os.path.exists('/root/.vp/PROPERTIES.schema.json') else None
for d in rows: sch and jsonschema.validate(d, sch)
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(d) + '\n' for d in rows))
checks, na = [], []
for p in ALL:
    if p['id'] in PROPS:
        checks.append({'property': p['id'], 'quick_cmd': './check.py %s --tier quick' % p['id'], 'thorough_cmd': './check.py %s --tier thorough' % p['id'], 'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'symbolic execution of the compiled LLVM IR with an SMT solver (Z3); counterexamples replayed natively under ASan/UBSan', 'level': 'model_checking',
            'level_note': 'Bounded: every value of the symbolic inputs within: ' + PROPS[p['id']]['bounds'] + '. Trusts the vsym engine (its decisions cross-checked against Z3, sampled paths re-run natively), clang 18 -O1 IR, Z3, and: ' + '; '.join(PROPS[p['id']].get('assumptions', ['nothing else'])) + '.'})
    else: na.append({'property': p['id'], 'reason': NA.get(p['id'], 'No check has been built for it yet.')})
m = {'version': 1, 'setup_cmd': './engine/selftest.sh', 'checks': checks, 'not_applicable': na, 'notes': 'See DESIGN.md. No hooks: the checks compile /repo/src as it is.'}
sch = json.load(open('/root/.vp/MANIFEST.schema.json')) if os.path.exists('/root/.vp/MANIFEST.schema.json') else None
sch and jsonschema.validate(m, sch)
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not claimed:', [x['property'] for x in na])
