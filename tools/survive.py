#!/usr/bin/env python3
"""usage: survive.py N SEED [FILE-REGEX]   random mutants that build and pass the stable tests (in a scratch copy /tmp/amr);
survivors are written to /tmp/am/s-SEED-NUM.diff"""
import difflib, json, os, random, re, subprocess, sys
import importlib.util
D = '/tmp/amr'
os.makedirs('/tmp/am', exist_ok=True)
N, SEED = int(sys.argv[1]), int(sys.argv[2])
src = open('/verif/tools/automut.py').read()
ns = {'__name__': 'x'}
exec(src[:src.index('random.seed(SEED)')], ns)
if not os.path.exists(D):
    subprocess.run('mkdir %s && git -C /repo archive HEAD | tar -x -C %s' % (D, D), shell=True, check=True)
    subprocess.run('cp -a /repo/external/. %s/external/ 2>/dev/null; true' % D, shell=True)
    subprocess.run('CC=gcc CXX=g++ cmake -S %s -B %s/_b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_POLICY_VERSION_MINIMUM=3.5 -DNS_BUILD_TESTS=ON '
                   '-DNS_BUILD_EXAMPLES=OFF -DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON -DCMAKE_C_FLAGS=-Wno-error "-DCMAKE_CXX_FLAGS=-Wno-error -Wno-deprecated -w"' % (D, D), shell=True, check=True)
b = json.load(open('/opt/vp/BASELINE.json'))
base = set(b.get('passed') or b['stable'])


def test():
    if subprocess.run(['ninja', '-C', D + '/_b'], capture_output=True).returncode:
        return 'build'
    x = '/tmp/am/ctest%d.xml' % SEED
    subprocess.run(['ctest', '--test-dir', D + '/_b', '-j8', '--timeout', '20', '--output-junit', x, '--test-output-size-passed', '100000000', '--test-output-size-failed', '100000000'], capture_output=True)
    l = subprocess.run(['python3', '/opt/vp/nst2lines.py', x], capture_output=True, text=True).stdout.split('\n')
    ok = {q[5:] for q in l if q.startswith('PASS ')} - {q[5:] for q in l if q.startswith('FAIL ')}
    return sorted(base - ok)


t = test()
assert t == [], t if t == 'build' else t[:5]
random.seed(SEED)
S = ns['sites']()
byf = {}
for x in S:
    byf.setdefault(x[0], []).append(x)
fs = sorted(byf)
w = [len(byf[f]) ** 0.6 for f in fs]
pick = []
while len(pick) < N:
    x = random.choice(byf[random.choices(fs, w)[0]])
    if x not in pick:
        pick.append(x)
n = {'build': 0, 'killed': 0, 'survived': 0}
for num, (f, line, r) in enumerate(pick):
    rel = f[len(ns['SRC']):]
    p = D + '/src/lib' + rel
    old = open(p).read()
    ls = old.split('\n')
    ls[line] = r
    new = '\n'.join(ls)
    open(p, 'w').write(new)
    try:
        t = test()
    finally:
        open(p, 'w').write(old)
    k = 'build' if t == 'build' else 'killed' if t else 'survived'
    n[k] += 1
    if k == 'survived':
        with open('/tmp/am/s-%d-%d.diff' % (SEED, num), 'w') as o:
            o.write(''.join(difflib.unified_diff(old.splitlines(1), new.splitlines(1), 'a/src/lib' + rel, 'b/src/lib' + rel, n=3)))
    print(num, os.path.basename(f), line + 1, k, r.strip()[:90], n, flush=True)
