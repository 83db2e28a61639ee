#!/usr/bin/env python3
"""Development tool, not a check: textual mutants of one library source.  Each
mutant is compiled, the repository's tests are run on it, and, when they pass,
the explorers.  Reports the mutants that neither tests nor explorers notice.
  mutate.py FILE(relative to src) N CHECK...   results appended to /tmp/mut/results.jsonl"""
import sys, os, re, random, subprocess, json, hashlib
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/tmp/mut/repo'; M = '/tmp/mut'
GR = ['types', 'tools', 'dsp', 'geometrics', 'scenegraph']
FL = ['-std=gnu++17', '-O1', '-fPIC', '-w', '-DBOOST_CB_DISABLE_DEBUG', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-I' + V + '/include', '-I' + R, '-isystem', '/usr/include/eigen3']
SLOW = 'ALMathTransformHelpers.position6DFromTransformInPlace:ALMathTest.rotation3DFromQuaternion2:ALMathTest.quaternionFromRotation3D'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])

def sh(cmd, t=300, **k):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t, **k)
    except subprocess.TimeoutExpired:
        class X: returncode = 99; stdout = 'timeout'
        return X()

def base():
    os.makedirs(M + '/o', exist_ok=True)
    jobs = []
    for g in GR:
        for f in sorted(os.listdir(R + '/src/' + g)):
            if f.endswith('.cpp'):
                o = M + '/o/' + g + '_' + f + '.o'
                s = R + '/src/' + g + '/' + f
                if not os.path.exists(o) or os.path.getmtime(o) < os.path.getmtime(s): jobs.append((s, o))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: sh(['g++'] + FL + ['-c', j[0], '-o', j[1]]), jobs):
            assert r.returncode == 0, r.stdout
    r = sh('g++ -shared -o %s/libalmath.so %s/o/*.o -lboost_filesystem -lboost_system' % (M, M), shell=True); assert r.returncode == 0, r.stdout
    for c in CHECKS:
        d = M + '/chk'
        r = sh('g++ -o %s/%s %s/mc.o %s/c_%s.cpp.o -L%s -lalmath -lboost_filesystem -lboost_system -pthread' % (M, c, d, d, c.lower(), M), shell=True)
        assert r.returncode == 0, r.stdout

def mutants(text):
    """list of (pos, end, new, label)"""
    out = []
    mask = list(text)
    for m in re.finditer(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|^[ \t]*#[^\n]*', text, re.S | re.M):
        for i in range(m.start(), m.end()):
            if mask[i] != '\n': mask[i] = ' '
    t = ''.join(mask)
    def add(m, new, g=0):
        out.append((m.start(g), m.end(g), new))
    for m in re.finditer(r'(?<=[\w\)\]] )([-+*/])(?= [\w\(\-])', t): 
        for n in {'+': '-', '-': '+', '*': '/', '/': '*'}[m.group(1)]: add(m, n)
    for m in re.finditer(r'(?<=[\w\)])([-+*])(?=[\w\(])', t):
        add(m, {'+': '-', '-': '+', '*': '/'}[m.group(1)])
    for m in re.finditer(r'(?<=[=(,] )-(?=\w)|(?<=return )-(?=\w)|(?<=\()-(?=\w)', t): add(m, '')
    for m in re.finditer(r'(?<= )(<=|>=|==|!=|<|>)(?= )', t):
        for n in {'<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['=='], '<': ['<=', '>'], '>': ['>=', '<']}[m.group(1)]: add(m, n)
    for m in re.finditer(r'&&|\|\|', t):
        if re.match(r'\s*\w*>', t[m.end():m.end()+1]): continue
        add(m, '||' if m.group(0) == '&&' else '&&')
    for m in re.finditer(r'(?<![\w.])(\d+\.\d*f?|\d+)(?![\w.])', t):
        v = m.group(1); n = v.rstrip('f')
        suf = 'f' if v.endswith('f') else ''
        if '.' in n:
            x = float(n)
            add(m, ('%r' % (x * 2 if x else 1.0)) + suf)
            if x: add(m, ('%r' % (x * 0.5)) + suf)
        else:
            add(m, str(int(n) + 1))
            if int(n) > 0: add(m, str(int(n) - 1))
    for m in re.finditer(r'\br([123])_c([1234])\b', t):
        a, b = m.group(1), m.group(2)
        if b != '4': add(m, 'r%s_c%s' % (b, a)) if a != b else None
        add(m, 'r%d_c%s' % (int(a) % 3 + 1, b))
    for m in re.finditer(r'\.(x|y|z|w|wx|wy|wz|xd|yd|zd|wxd|wyd|wzd|theta|angle)\b', t):
        sw = {'x': 'y', 'y': 'z', 'z': 'x', 'w': 'x', 'wx': 'wy', 'wy': 'wz', 'wz': 'wx', 'xd': 'yd', 'yd': 'zd', 'zd': 'xd', 'wxd': 'wyd', 'wyd': 'wzd', 'wzd': 'wxd', 'theta': 'x', 'angle': 'x'}
        add(m, sw[m.group(1)], 1)
    for m in re.finditer(r'\b(cosf?|sinf?|min|max|true|false|begin|end|push_back|push_front|ceil|floor|acosf?|asinf?|sqrt)\b(?=[\(;,)])', t):
        w = m.group(1)
        sw = {'cos': 'sin', 'sin': 'cos', 'cosf': 'sinf', 'sinf': 'cosf', 'min': 'max', 'max': 'min', 'true': 'false', 'false': 'true', 'ceil': 'floor', 'floor': 'ceil', 'acos': 'asin', 'asin': 'acos', 'acosf': 'asinf', 'asinf': 'acosf', 'push_back': 'push_front', 'push_front': 'push_back', 'sqrt': 'std::abs'}
        if w in sw: add(m, sw[w])
    for m in re.finditer(r'\bif \((?=[^;{]*\)\s*\{?)', t):
        # negate or force the condition
        i = m.end(); d = 1
        while d and i < len(t):
            d += (t[i] == '(') - (t[i] == ')'); i += 1
        cond = text[m.end():i - 1]
        out.append((m.end(), i - 1, '!(' + cond + ')'))
        out.append((m.end(), i - 1, '(' + cond + ') && false'))
        out.append((m.end(), i - 1, '(' + cond + ') || true'))
    for m in re.finditer(r'(?<=[;{}])(\s*)([A-Za-z_][^;{}]*;)', t):
        s = m.group(2)
        if re.match(r'(return|typedef|using|namespace|const|auto|float|double|int|bool|unsigned|size_t|Transform|std::vector|template|class|struct|throw|else|public|private|virtual|explicit|operator)\b', s): continue
        if '=' not in s and '(' not in s: continue
        if re.match(r'[\w:<>]+[ &]+\w+(\s*[=(]|;)', s): continue
        out.append((m.start(2), m.end(2), ';'))
    for m in re.finditer(r'\b(continue|break);', t): out.append((m.start(), m.end(), ';'))
    return sorted(set(out))

def line(text, pos): return text.count('\n', 0, pos) + 1

def one(a):
    f, text, (s, e, new) = a
    key = hashlib.sha1(('%s %d %d %s %s' % (f, s, e, new, text[s:e])).encode()).hexdigest()[:12]
    d = '%s/w/%s' % (M, key)
    os.makedirs(d, exist_ok=True)
    res = dict(file=f, line=line(text, s), pos=s, old=text[s:e][:200], new=new[:200], text=text[text.rfind('\n', 0, s) + 1: text.find('\n', e)].strip()[:200])
    try:
        mt = text[:s] + new + text[e:]
        src = d + '/' + os.path.basename(f)
        open(src, 'w').write(mt)
        r = sh(['g++'] + FL + ['-I' + os.path.dirname(R + '/src/' + f), '-c', src, '-o', d + '/m.o'])
        if r.returncode: res['result'] = 'nocompile'; return res
        skip = f.replace('/', '_') + '.o'
        objs = [M + '/o/' + o for o in sorted(os.listdir(M + '/o')) if o != skip]
        r = sh(['g++', '-shared', '-o', d + '/libalmath.so', d + '/m.o'] + objs + ['-lboost_filesystem', '-lboost_system'])
        if r.returncode: res['result'] = 'nolink'; return res
        env = dict(os.environ, LD_LIBRARY_PATH=d, LC_ALL='C.UTF-8', TMPDIR=d)
        def tests(flt):
            for t in sorted(os.listdir(R + '/_build/sdk/bin')):
                if t != 'almath_tests' and flt != '-' + SLOW: continue
                r = sh([R + '/_build/sdk/bin/' + t, '--gtest_filter=' + flt, '--gtest_brief=1'], 60, env=env, cwd=d)
                if r.returncode: return False
            return True
        if not tests('-' + SLOW): res['result'] = 'tests'; return res
        env['VERIF_TIER'] = 'quick'
        for c in CHECKS:
            r = sh([M + '/' + c, c, d + '/st', d + '/replays', V + '/known_findings.txt'], 900, env=dict(env, LC_ALL='C', MC_SCRATCH=d), cwd=d)
            if r.returncode == 1:
                res['result'] = 'killed'; res['by'] = c
                return res
            if r.returncode: res['odd'] = res.get('odd', '') + ' %s:%d' % (c, r.returncode)
        res['result'] = 'survived' if tests(SLOW) else 'slowtests'
        return res
    finally:
        sh(['rm', '-rf', d])

f = sys.argv[1]; n = int(sys.argv[2]); CHECKS = sys.argv[3:]
base()
text = open(R + '/src/' + f).read()
ms = mutants(text)
random.seed(int(os.environ.get('SEED', '1')))
random.shuffle(ms)
done = set()
if os.path.exists(M + '/results.jsonl'):
    for l in open(M + '/results.jsonl'):
        x = json.loads(l); done.add((x['file'], x['pos'], x['new']))
ms = [m for m in ms if (f, m[0], m[2][:200]) not in done][:n]
cnt = {}
with ThreadPoolExecutor(int(os.environ.get('J', '8'))) as ex, open(M + '/results.jsonl', 'a') as out:
    for r in ex.map(one, [(f, text, m) for m in ms]):
        out.write(json.dumps(r) + '\n'); out.flush()
        cnt[r['result']] = cnt.get(r['result'], 0) + 1
        if r['result'] == 'survived':
            print('%s:%d  [%s -> %s]  %s %s' % (r['file'], r['line'], r['old'][:60], r['new'][:60], r['text'][:110], r.get('odd', '')), flush=True)
print(f, cnt)
