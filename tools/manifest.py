#!/usr/bin/env python3
"""writes MANIFEST.json from the checks present in props/"""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(d, 'properties.jsonl'))]
import sys; sys.path[:0] = [d + '/tools']; from design_notes import N
NOTES = {i: {'technique': n['technique'], 'note': 'Searches generated cases against an explicit oracle; shows nothing beyond them. Oracle: ' + n['oracle']} for i, n in N.items()}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(d, 'props', i.lower() + '.py')):
        n = NOTES.get(i, {})
        checks.append({'property': i,
                       'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': n.get('technique', 'property-based testing with a reference model'),
                       'level': 'exploration',
                       'level_note': n.get('note', 'Searches generated cases against an independent oracle; no proof of absence. Trusts the reference model in vlib/, gcc and the sandbox.')})
    else:
        na.append({'property': i, 'reason': NOTES.get(i, {}).get('na', 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 vlib/build.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check uses the public behaviour of the tools and of the parsers they generate. See DESIGN.md.'}
json.dump(m, open(os.path.join(d, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
