#!/usr/bin/env python3
"""Rewrites the generated part of DESIGN.md: how each property is decided, and what catches which planted change."""
import glob, json, os, re, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R + '/tools'); from props import P
units = {}
for f in sorted(glob.glob(R + '/units/*.c')):
    t = open(f).read(); m = re.match(r'\s*/\*VP(.*?)VP\*/', t, re.S)
    if not m: continue
    u = json.loads(m.group(1)); n = os.path.basename(f)[:-2]
    b = re.search(r'/\*\s*bound[^:]*:(.*?)\*/', t, re.S)
    for p in [u['property']] + u.get('also', []):
        units.setdefault(p, []).append((n, u, ' '.join(b.group(1).split()) if b else ''))
def lv(u):
    if u.get('limit'): return 'bounded: ' + u['limit']
    base = u.get('level', 'proof'); vs = u.get('variants') or []
    ls = sorted(set(v.get('level', base) for v in vs)) or [base]
    return '/'.join('proved' if l == 'proof' else l for l in ls)
o = ['## How each property is decided', '']
for p in P:
    if p.get('na'):
        o += ['### %s %s' % (p['id'], p['title']), '', 'Not applicable: ' + p['na'], '']; continue
    o += ['### %s %s' % (p['id'], p['title']), '',
          'Oracle: the postcondition of each unit (asserted on the real function, arbitrary precondition state). Why tests cannot: %s' % p['why_tests_cant'], '']
    if p.get('note'): o += ['Note: ' + p['note'], '']
    for n, u, b in units.get(p['id'], []):
        o.append('* `%s` (%s%s): %s. Functions: %s.' % (n, lv(u), ('; bound: ' + b) if b else '', u['title'], ', '.join(u['functions'])))
    o.append('')
sr = json.load(open(R + '/tools/seedresults.json')) if os.path.exists(R + '/tools/seedresults.json') else {}
o += ['## Planted changes and the checks that catch them', '', '| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    o.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], sr.get(i, 'not run')))
p = R + '/DESIGN.md'; t = open(p).read(); k = '<!-- generated by tools/mkdesign.py -->\n'
t = t.split(k)[0].rstrip() + '\n\n' + k + '\n'.join(o) + '\n'
open(p, 'w').write(t)
