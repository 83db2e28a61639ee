#!/usr/bin/env python3
"""run.py <property id> : build the explorer of one property against /repo's
working tree, run it, write evidence/<id>.json.  Exit 0, 1 (VIOLATION) or 2."""
import json, os, subprocess, sys, time, glob, shutil

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ALMATH_REPO', '/repo')
CFG = json.load(open(os.path.join(V, 'checks', 'config.json')))

def esc(p):
    return p.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')

def build(pid):
    cfg = CFG[pid]
    mode = cfg.get('mode', 'opt')
    bdir = os.path.join(V, 'build', mode)
    os.makedirs(bdir, exist_ok=True)
    common = ('-std=gnu++17 -pthread -DBOOST_CB_DISABLE_DEBUG -DBOOST_BIND_GLOBAL_PLACEHOLDERS '
              '-w -I%s -I%s -I%s -isystem /usr/include/eigen3' %
              (esc(os.path.join(V, 'include')), esc(os.path.join(V, 'harness')), esc(REPO)))
    flags = {'opt': '-O2 -g1 -ftrivial-auto-var-init=pattern',
             'asan': '-O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=all '
                     '-fno-omit-frame-pointer',
             # instrumented by the compiler only: harness/race.cpp is the run-time
             'race': '-O1 -g1 -fsanitize=thread -include %s -ftrivial-auto-var-init=pattern '
                     '-fno-pie --param=tsan-instrument-func-entry-exit=0' % esc(os.path.join(V, 'harness', 'race_pre.h'))}[mode]
    plain = '-O2 -g1 -fno-pie' if mode == 'race' else flags
    link = ('-no-pie -pthread -Wl,-z,now -Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset'
            if mode == 'race' else '%s %s' % (flags, common))
    groups = cfg.get('groups', ['types', 'tools'])
    srcs = []
    for g in groups:
        srcs += sorted(glob.glob(os.path.join(REPO, 'src', g, '*.cpp')))
    out = ['ninja_required_version = 1.3',
           'cxx = g++', 'flags = %s %s' % (flags, common),
           'rule cc', '  command = $cxx $flags -MMD -MF $out.d -c $in -o $out',
           '  depfile = $out.d', '  deps = gcc',
           'rule ar', '  command = rm -f $out && ar rcs $out $in',
           'plain = %s %s' % (plain, common),
           'rule plain', '  command = $cxx $plain -MMD -MF $out.d -c $in -o $out',
           '  depfile = $out.d', '  deps = gcc',
           'rule ld', '  command = $cxx %s $in $libs -o $out' % link]
    objs = []
    for s in srcs:
        o = 'r_' + os.path.relpath(s, os.path.join(REPO, 'src')).replace('/', '_') + '.o'
        out.append('build %s: cc %s' % (o, esc(s)))
        objs.append(o)
    lib = 'lib_' + '_'.join(groups) + '.a'
    out.append('build %s: ar %s' % (lib, ' '.join(objs)))
    out.append('build mc.o: plain %s' % esc(os.path.join(V, 'harness', 'mc.cpp')))
    ho = []
    if mode == 'race':
        # every other check, under its own names
        ids = [k for k in sorted(CFG) if k != pid]
        for k in ids:
            g = os.path.join(bdir, 'all_%s.cpp' % k)
            t = '#define MC_OBSERVE\n#define setup setup_%s\n#define family family_in\n' % k
            t += ''.join('#include "%s"\n' % os.path.join(V, 'checks', s) for s in CFG[k]['src'])
            if not os.path.exists(g) or open(g).read() != t:
                open(g, 'w').write(t)
            out.append('build all_%s.o: cc %s' % (k, esc(g)))
            ho.append('all_%s.o' % k)
        for s in ('checks/c30.cpp', 'harness/race.cpp'):
            o = os.path.basename(s) + '.o'
            out.append('build %s: plain %s' % (o, esc(os.path.join(V, s))))
            out.append('  plain = %s %s -fno-builtin %s' % (
                plain, common, ' '.join("'-DC30_CHECKS=%s'" % ' '.join('CHECK(%s)' % k for k in ids) for _ in [0])))
            ho.append(o)
    for s in cfg['src']:
        o = 'c_' + os.path.basename(s) + '.o'
        out.append('build %s: cc %s' % (o, esc(os.path.join(V, 'checks', s))))
        ho.append(o)
    out.append('build %s: ld mc.o %s %s' % (pid, ' '.join(ho), lib))
    out.append('  libs = -lboost_filesystem -lboost_system' if 'scenegraph' in groups else '  libs =')
    nf = os.path.join(bdir, pid + '.ninja')
    txt = '\n'.join(out) + '\n'
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, 'w').write(txt)
    env = dict(os.environ, LC_ALL='C.UTF-8')
    r = subprocess.run(['ninja', '-f', pid + '.ninja', pid], cwd=bdir, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        print('build of the explorer of %s failed' % pid)
        sys.exit(2)
    return os.path.join(bdir, pid)

def main():
    pid = sys.argv[1]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.environ['VERIF_TIER'] = tier
    exe = build(pid)
    tb = time.time() - t0
    ev = os.path.join(V, 'evidence')
    os.makedirs(ev, exist_ok=True)
    rdir = os.path.join(V, 'replays')
    stats = os.path.join(ev, pid + '.stats.tmp')
    if os.path.exists(stats):
        os.unlink(stats)
    scratch = os.path.join(V, 'build', 'scratch-%s-%d' % (pid, os.getpid()))
    os.makedirs(scratch)
    try:
        r = subprocess.run([exe, pid, stats, rdir, os.path.join(V, 'known_findings.txt')] + sys.argv[3:],
                           env=dict(os.environ, LC_ALL='C', MC_SCRATCH=scratch), cwd=scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if not os.path.exists(stats):
        print('explorer of %s ended without statistics (rc %d)' % (pid, r.returncode))
        sys.exit(2)
    st = json.load(open(stats))
    os.unlink(stats)
    cov = {
        'states': st['states'],
        'transitions': st['transitions'],
        'traces_validated_against_impl': st['executions'],
        'evaluations': st['executions'],
        'comparisons_with_reference': st['comparisons'],
        'outside_domain': st['outside_domain'],
        'state_table_saturated': st['state_table_saturated'],
        'exhaustive': st['violations'] == 0 and r.returncode == 0,
        'rule': 'every root x choice sequence of each family below is executed once on the '
                'real library; states are distinct canonical (hashed) states of the system '
                'under test; transitions are operations executed on the library; every '
                'execution is itself a trace of the reference model replayed on the library',
        'families': st['families'],
        'samples': st['samples'][:40],
    }
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking',
               'coverage': cov,
               'assumptions': CFG[pid].get('assumptions', []),
               'wall_s': round(time.time() - t0, 2), 'build_s': round(tb, 2),
               'violations': st['violations']},
              open(os.path.join(ev, pid + '.json'), 'w'), indent=1)
    sys.exit(r.returncode if r.returncode in (0, 1) else 2)

main()
