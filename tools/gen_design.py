#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written text below, and for each property what checks.py, seeded/ and known-findings.txt say about it."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks  # noqa

HEAD = open(os.path.join(V, 'tools/design_head.md')).read()
# id: (oracle, why generated inputs reach what the tests do not, limits)
T = json.load(open(os.path.join(V, 'tools/design.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
fixed = {}
for l in open(os.path.join(V, 'known-findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3).strip()))
seeds = {}
sd = os.path.join(V, 'tools/seeds')
for s in sorted(os.listdir(sd)):
    ns = {}
    exec(open(os.path.join(sd, s, 'seed.py')).read(), ns)
    seeds.setdefault(ns['property'], []).append((s, ns['needs'], ns['breaks']))
o = [HEAD.rstrip(), '']
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    c = checks.CHECKS[i]
    h = ', '.join('`%s/%s`' % (('harness', q['harness']) if q['kind'] == 'cpp' else ('py', q['module'])) for q in c['parts'])
    o += ['### %s - %s' % (i, p['title']), '', '* Machinery: %s. Generated: %s.' % (h, c['rule']), '* Oracle: %s' % T[i][0], '* Beyond the tests: %s' % T[i][1]]
    if len(T[i]) > 2 and T[i][2]:
        o.append('* Bounds: %s' % T[i][2])
    for s, n, b in seeds.get(i, []):
        o.append('* Planted and caught: `%s` - %s (needs: %s).' % (s, b, n))
    if i in fixed:
        o.append('* Defects found and repaired: %s.' % '; '.join('%s (%s)' % (t, k) for k, t in fixed[i]))
    o.append('')
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(o))
print(len(props), 'properties')
