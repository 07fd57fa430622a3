#!/usr/bin/env python3
"""seedtest.py ID...  applies each planted bug to /repo, builds, runs tests, demo and the check; undoes it."""
import json, os, subprocess, sys, glob, time
base = json.load(open('/opt/vp/BASELINE.json'))
names = set(base.get('passed') or base.get('stable') or base.get('tests'))
ids = sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
nocheck = os.environ.get('NOCHECK')
def run(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, errors='replace', **k)
assert run('git -C /repo status --porcelain').stdout == ''
for i in ids:
    d = '/verif/seeded/' + i
    meta = json.load(open(d + '/meta.json'))
    res = {}
    try:
        r = run('git -C /repo apply %s/patch.diff' % d)
        if r.returncode: print(i, 'DOES NOT APPLY', r.stderr); continue
        r = run('bash /opt/vp/test.sh /tmp/x/t.json')
        t = json.load(open('/tmp/x/t.json'))
        lost = sorted(names - set(t['passed']))
        r = run('bash %s/demo.sh' % d, cwd='/repo')
        demo = r.returncode
        dout = (r.stdout + r.stderr)[-200:]
        chk = ''
        if not nocheck and not lost and demo:
            t0 = time.time()
            r = run('python3 vp/check.py %s' % meta['property'], cwd='/verif')
            caught = ' '.join(sorted(set(l.split('replay=')[1].split()[0].split('/')[-1].replace('.json','') for l in r.stdout.split('\n') if l.startswith('VIOLATION')))) if r.returncode == 1 else 'missed'
            db = json.load(open('/verif/tools/seedresults.json')) if os.path.exists('/verif/tools/seedresults.json') else {}
            db[i] = caught; json.dump(db, open('/verif/tools/seedresults.json', 'w'), indent=1, sort_keys=True)
            chk = '%d %s (%.0fs)' % (r.returncode, ' | '.join(l for l in r.stdout.split('\n') if 'VIOLATION' in l)[:200], time.time() - t0)
    finally:
        run('git -C /repo checkout -- .')
    print(i, meta['property'], 'lost=%s' % lost[:3], 'demo=%d' % demo, dout.strip().replace('\n', ' / ')[:120], 'CHECK', chk, flush=True)
run('bash /opt/vp/build.sh')
for i in ids:
    r = run('bash /verif/seeded/%s/demo.sh' % i, cwd='/repo')
    print(i, 'clean demo', r.returncode, (r.stdout + r.stderr)[-200:].strip() if r.returncode else '')
