#!/usr/bin/env python3
"""plant.py ID PROP: plant a bug described in /verif/seeded/ID/plant.json ({edits:[[file,old,new]],needs,what}) + demo.cc:
makes a scratch copy of /repo under /tmp/wt, applies it, writes patch.diff, builds, runs the stable tests, runs demo on both."""
import sys, os, json, subprocess as sp, shutil, re
i = sys.argv[1]; d = '/verif/seeded/'+i; wt = '/tmp/wt/'+i
pj = json.load(open(d+'/meta.json'))
prop = pj['property']
os.makedirs('/tmp/wt', exist_ok=True)
sp.run(['rm', '-rf', wt, wt+'.vp'])
sp.check_call(['cp', '-a', '/repo', wt])
sp.check_call(['cp', '-a', '/opt/vp', wt+'.vp'])
for r, _, fs in os.walk(wt+'.vp'):
    for f in fs:
        p = os.path.join(r, f)
        try: t = open(p).read()
        except Exception: continue
        n = t.replace('/opt/vp', wt+'.vp').replace('cd /repo', 'cd '+wt)
        if n != t: open(p, 'w').write(n)
if os.path.exists(d+'/edits.json'):
    for f, o, n in json.load(open(d+'/edits.json')):
        t = open(wt+'/'+f).read()
        if t.count(o) != 1: print(i, 'FAIL: old text occurs', t.count(o), 'times in', f, ':', o[:80]); sys.exit(1)
        open(wt+'/'+f, 'w').write(t.replace(o, n))
    open(d+'/patch.diff', 'w').write(sp.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout)
else: sp.check_call(['git', '-C', wt, 'apply', d+'/patch.diff'])
if not os.path.exists(d+'/demo.sh'):
    open(d+'/demo.sh', 'w').write('''#!/bin/bash
# cwd: the repository after build.sh. Exit 0: the property holds on the demonstration.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -DNDEBUG -I. "$D/demo.cc" -o "$T/demo" lib/libclpoly.a -lgmpxx -lgmp -lpthread || exit 3
timeout 120 "$T/demo"
''')
    os.chmod(d+'/demo.sh', 0o755)
def run(c, cwd, to=900):
    try: r = sp.run(c, cwd=cwd, capture_output=True, text=True, timeout=to); return r.returncode, (r.stdout+r.stderr)[-400:]
    except sp.TimeoutExpired: return 124, 'timeout'
r0 = run(['bash', d+'/demo.sh'], '/repo', 300)
b = run(['bash', wt+'.vp/build.sh'], wt)
if b[0]: print(i, 'FAIL build', b[1]); sys.exit(1)
r1 = run(['bash', d+'/demo.sh'], wt, 300)
ok = r0[0] == 0 and r1[0] not in (0, 3)
print(i, 'demo clean', r0, 'patched', r1, 'OK' if ok else 'FAIL'); sys.stdout.flush()
if ok or '-f' in sys.argv:
    t = run(['bash', wt+'.vp/test.sh', wt+'.out.json'], wt)
    base = json.load(open('/opt/vp/BASELINE.json')); base = base.get('stable', base.get('passed')) if isinstance(base, dict) else base
    got = json.load(open(wt+'.out.json'))['passed']
    miss = [x for x in base if x not in set(got)]
    print(i, 'tests: missing', len(miss), miss[:3], 'OK' if not miss else 'FAIL')
sp.run(['rm', '-rf', wt, wt+'.vp', wt+'.out.json'])
