#!/usr/bin/env python3
"""mkseed.py <dir-with spec.py...>  -- makes /verif/seeded/<id> from a spec module.
A spec file is python: SEEDS = [dict(id, prop, file, old, new, [more=[(file,old,new)]], needs, breaks, demo)]"""
import json, os, subprocess, sys, runpy, stat
R = '/verif/seeded'
SH = '''#!/bin/bash
# cwd: /repo, after the build.  Exit 0: the behaviour is right.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
L=_build/src/c/libferret.a
[ -f "$L" ] || { echo "no $L"; exit 1; }
gcc -std=gnu99 -w -g -Ic/include -Ic/src -D_FILE_OFFSET_BITS=64 %s "$D/demo.c" "$L" -lm -lpthread -o "$T/demo" || exit 1
cd "$T" && timeout 120 ./demo
'''
only = sys.argv[2:]
for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if only and s['id'] not in only: continue
    d = os.path.join(R, s['id']); os.makedirs(d, exist_ok=True)
    assert subprocess.run(['git', '-C', '/repo', 'diff', '--quiet']).returncode == 0
    try:
        for f, o, n in [(s['file'], s['old'], s['new'])] + s.get('more', []):
            p = '/repo/' + f; t = open(p, encoding='latin-1').read()
            if t.count(o) != 1: raise SystemExit('%s: %d matches of %r' % (s['id'], t.count(o), o))
            open(p, 'w', encoding='latin-1').write(t.replace(o, n))
        df = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'wb').write(df)
    open(d + '/demo.c', 'w').write(s['demo'])
    open(d + '/demo.sh', 'w').write(SH % s.get('cflags', ''))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', s['id'])
