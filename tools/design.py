#!/usr/bin/env python3
"""writes DESIGN.md from tools/design_head.md, the properties and the checks"""
import importlib, json, os, re, sys
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [d, d + '/tools']
from design_notes import N
o = [open(d + '/tools/design_head.md').read().rstrip(), '', '## The properties and how each is decided', '']
for l in open(d + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    n = N[i]
    S = importlib.import_module('props.' + i.lower()).SPEC
    o += ['### %s %s' % (i, p['title']), '',
          '- Specified: see `properties.jsonl`; domain: %s.' % p['quantifier']['text'],
          '- Generated: %s.' % S['rule'].rstrip('.'),
          '- Oracle: %s' % n['oracle'],
          '- Why it reaches what tests cannot: %s' % n['reach'],
          '- Cases (quick / thorough): %s.' % ', '.join('%s %d / %d' % (k, v[1], v[2]) for k, v in S['tests'].items())]
    if S['assumptions']:
        o.append('- Trusted or left out: %s.' % '; '.join(S['assumptions']))
    if n['limits']:
        o.append('- %s' % n['limits'])
    o.append('')
bugs = {}
R = json.load(open(d + '/tools/bug_results.json'))
o += ['## Planted bugs', '', 'Each was written from the text of a property and the code, confirmed to compile, to pass the 542 stable tests and to be shown by its `demo.sh`. "caught by" is the result of running checks with the patch applied (quick tier); the property\'s own check unless others are named.', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(d + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (d, b)))
    o.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '\\|'), R.get(b, 'not yet run')))
o += ['', '## Defects found', '', 'Repaired by `fix:` commits and listed as `fixed:` in KNOWN_FINDINGS.txt: %d. Recorded, not repaired (the repair would change text that stable reference files pin, mostly in the driver skeletons):' % sum(l.startswith('fixed:') for l in open(d + '/KNOWN_FINDINGS.txt')), '']
for l in open(d + '/KNOWN_FINDINGS.txt'):
    m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
    if m:
        o.append('- %s `%s`: %s' % m.groups())
o.append('')
open(d + '/DESIGN.md', 'w').write('\n'.join(o))
