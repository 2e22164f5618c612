#!/usr/bin/env python3
"""DESIGN.md = design_head.md + bug table + per-property sections + design_tail.md"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/checks')
import spec
M = json.load(open(V + '/tools/design_methods.json'))
o = open(V + '/tools/design_head.md').read()
o += '\n| bug | property | needs | caught |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d)); o += '| %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], M['caught'].get(i, 'yes'))
o += '\n' + M['bugs_note'] + '\n\n## 6. Properties\n'
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']; s = spec.PROPS.get(i)
    o += '\n### %s %s\n\n' % (i, p['title'])
    if not s: o += 'Not applicable: %s.\n' % spec.NOT_APPLICABLE[i]; continue
    q = [j for j in s['jobs'] if not j.get('thorough_only')]
    o += '%s\n\n' % M['methods'][i]
    o += '* Harness: %s; %d jobs quick, %d thorough; about %s quick.\n* Bounds: %s.\n* Outside: %s.\n' % (', '.join('`%s`' % x for x in sorted({spec.UNITS[j['unit']]['src'] for j in s['jobs']})), len(q), len(s['jobs']), M['cost'].get(i, '10 s'), s.get('bounds', ''), s.get('outside') or 'nothing further')
o += '\n' + open(V + '/tools/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(o)
