#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.json and the units present."""
import glob, json, os, re, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, R + '/tools'); from props import P as props
units = {}
for f in sorted(glob.glob(R + '/units/*.c')):
    m = re.match(r'\s*/\*VP(.*?)VP\*/', open(f).read(), re.S)
    if m:
        u = json.loads(m.group(1))
        for p in [u['property']] + u.get('also', []):
            units.setdefault(p, []).append((os.path.basename(f)[:-2], u))
checks, na = [], []
with open(R + '/properties.jsonl', 'w') as out:
    for p in props:
        rec = {k: v for k, v in p.items() if k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(rec['title']) <= 80, rec['title']
        out.write(json.dumps(rec) + '\n')
        us = units.get(p['id'], [])
        if not us or p.get('na'):
            na.append({'property': p['id'], 'reason': p.get('na') or 'no unit built'})
            continue
        pr = [n for n, u in us if u.get('level', 'proof') == 'proof' and not u.get('limit')]
        bd = [n for n, u in us if u.get('level', 'proof') != 'proof' or u.get('limit')]
        note = 'proved for all inputs: %s' % ', '.join(pr) if pr else ''
        if bd:
            note += ('; ' if note else '') + 'bounded stand-in (bound in the evidence, never counted as proved): %s' % ', '.join(bd)
        note += '. ' + p.get('note', 'Trusted: CBMC and its C library models, allocation succeeds, a raise ends the path, back-end contracts named in DESIGN.md.')
        checks.append({'property': p['id'], 'quick_cmd': 'python3 vp/check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 vp/check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': 'contract-based deductive verification (CBMC function and loop contracts on the real C source)' if pr else 'contract on the real C source, decided by CBMC within a stated bound (bounded stand-in)',
                       'level': 'proof' if pr else 'other', 'level_note': note})
man = {'version': 1, 'setup_cmd': 'true',
       'hooks': {'guard': 'none', 'enable': 'no hooks: loop contracts are inserted into scratch copies of the sources', 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Every check re-extracts the real functions from /repo on each run (units #include the real source files; loop contracts are inserted mechanically after loop headers in a scratch copy). known-findings.json lists findings and fixes.'}
json.dump(man, open(R + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
