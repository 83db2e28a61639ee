#!/usr/bin/env python3
"""Development tool, not a check: textual mutants of one header; the explorers
and the library sources that include it are compiled with the mutant.  Lists
the mutants that no explorer notices (the repository's tests are not run).
  mutheader.py HEADER(relative to the repository) N CHECK..."""
import sys, os, re, random, subprocess, json, hashlib, importlib.util
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(V + '/tools/mutate.py').read().split("\nf = sys.argv[1]")[0]
exec(src)
FL = ['-std=gnu++17', '-O1', '-fPIC', '-w', '-DBOOST_CB_DISABLE_DEBUG', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS']
INC = ['-I' + V + '/harness', '-I' + V + '/include', '-I' + R, '-isystem', '/usr/include/eigen3']
h, n, CHECKS = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
os.makedirs(M + '/h', exist_ok=True)
def users():
    out = []
    for g in GR:
        for f in sorted(os.listdir(R + '/src/' + g)):
            if f.endswith('.cpp'):
                r = sh(['g++'] + FL + INC + ['-MM', R + '/src/' + g + '/' + f])
                if h in r.stdout: out.append((g, f))
    return out
U = users()
text = open(R + '/' + h).read()
def hone(m):
    s, e, new = m
    key = hashlib.sha1(('%s %d %d %s' % (h, s, e, new)).encode()).hexdigest()[:12]
    d = '%s/h/%s' % (M, key)
    p = d + '/inc/' + h
    os.makedirs(os.path.dirname(p), exist_ok=True)
    res = dict(file=h, line=line(text, s), pos=s, old=text[s:e][:200], new=new[:200], text=text[text.rfind('\n', 0, s) + 1: text.find('\n', e)].strip()[:200])
    try:
        open(p, 'w').write(text[:s] + new + text[e:])
        inc = ['-I' + d + '/inc'] + INC
        # a header included next to itself with quotes is not replaced: none is
        objs, skip = [], []
        for g, f in U:
            o = d + '/' + g + '_' + f + '.o'
            r = sh(['g++'] + FL + inc + ['-c', R + '/src/' + g + '/' + f, '-o', o])
            if r.returncode: res['result'] = 'nocompile'; return res
            objs.append(o); skip.append(g + '_' + f + '.o')
        objs += [M + '/o/' + o for o in sorted(os.listdir(M + '/o')) if o not in skip]
        for c in CHECKS:
            r = sh(['g++'] + FL + inc + [V + '/checks/' + c.lower() + '.cpp', M + '/chk/mc.o'] + objs + ['-o', d + '/x', '-lboost_filesystem', '-lboost_system', '-pthread'], 600)
            if r.returncode: res['result'] = 'nocompile'; return res
            r = sh([d + '/x', c, d + '/st', d + '/replays', V + '/known_findings.txt'], 900, env=dict(os.environ, VERIF_TIER='quick', LC_ALL='C', MC_SCRATCH=d), cwd=d)
            if r.returncode == 1: res['result'] = 'killed'; res['by'] = c; return res
            if r.returncode: res['odd'] = res.get('odd', '') + ' %s:%d' % (c, r.returncode)
        res['result'] = 'survived'
        return res
    finally:
        sh(['rm', '-rf', d])
ms = mutants(text)
random.seed(1); random.shuffle(ms); ms = ms[:n]
cnt = {}
with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
    for r in ex.map(hone, ms):
        cnt[r['result']] = cnt.get(r['result'], 0) + 1
        if r['result'] == 'survived':
            print('%s:%d  [%s -> %s]  %s %s' % (r['file'], r['line'], r['old'][:60], r['new'][:60], r['text'][:110], r.get('odd', '')), flush=True)
print(h, cnt, flush=True)
