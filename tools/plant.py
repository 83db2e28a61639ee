#!/usr/bin/env python3
"""Development tool: turns bug descriptions into /verif/seeded/<id>/ after
confirming each on /repo (which is restored).  plant.py FILE.py [id...]; FILE.py fills BUGS."""
import sys, os, subprocess, json, shutil
V = '/verif'; R = '/repo'
BUGS = []
def B(id, prop, edits, demo, needs, breaks, libs=''):
    BUGS.append((id, prop, edits, demo, needs, breaks, libs))
exec(open(sys.argv[1]).read())
only = set(sys.argv[2:])
DEMO = r'''#!/bin/bash
# cwd: the repository, built; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
g++ -std=gnu++17 -O1 -w -DBOOST_CB_DISABLE_DEBUG -DBOOST_BIND_GLOBAL_PLACEHOLDERS -I"$PWD" -I"$PWD/_build/sdk/include" -isystem /usr/include/eigen3 \
  "$here/demo.cpp" -o "$tmp/demo" -L"$PWD/_build/sdk/lib" -Wl,-rpath,"$PWD/_build/sdk/lib" -lalmath -lboost_filesystem -lboost_system || exit 3
cd "$tmp" && timeout 60 ./demo
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): return sh('git -C /repo status --porcelain').stdout.strip() == ''
assert clean(), 'dirty repo'
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
sh('bash /opt/vp/build.sh')
for id, prop, edits, demo, needs, breaks, libs in BUGS:
    if only and id not in only: continue
    if not only and os.path.exists('%s/seeded/%s/meta.json' % (V, id)): continue
    d = '/tmp/plant/' + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(demo); open(d + '/demo.sh', 'w').write(DEMO); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    if r0.returncode: print(id, 'demo FAILS on the unchanged tree', r0.returncode, r0.stdout[-800:]); continue
    try:
        ok = True
        for f, old, new in edits:
            t = open(R + '/' + f).read()
            if t.count(old) != 1: print(id, 'edit matches', t.count(old), f, old[:50]); ok = False; break
            open(R + '/' + f, 'w').write(t.replace(old, new))
        if not ok: continue
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        if b.returncode: print(id, 'does not build', b.stdout[-1500:]); continue
        r1 = sh('bash %s/demo.sh' % d, cwd=R)
        if r1.returncode == 0: print(id, 'demo does not notice'); continue
        sh('bash /opt/vp/test.sh /tmp/plant/o.json')
        miss = stable - set(json.load(open('/tmp/plant/o.json'))['passed'])
        if miss: print(id, 'tests notice:', sorted(miss)[:3]); continue
        c = sh('%s/run.py %s quick' % (V, prop), cwd=V)
        caught = c.returncode == 1 and ('VIOLATION property=%s ' % prop) in c.stdout
        print(id, prop, 'CAUGHT' if caught else 'MISSED (rc %d)' % c.returncode, '| demo:', r1.stdout.strip()[-60:], '|', ' '.join(l.strip() for l in c.stdout.splitlines() if 'family' in l)[:120], flush=True)
        dst = '%s/seeded/%s' % (V, id)
        shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst)
    finally:
        sh('git -C /repo checkout -- .')
sh('bash /opt/vp/build.sh')
assert clean()
