#!/usr/bin/env python3
"""usage: tryseed.py [--nocheck] ID...   applies each planted change to /repo, builds, tests, runs its demo and check, undoes it"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json')).get('passed') or json.load(open('/opt/vp/BASELINE.json'))['stable'])
args = [a for a in sys.argv[1:] if not a.startswith('--')]
nocheck = '--nocheck' in sys.argv
checkonly = '--checkonly' in sys.argv
assert not sh('git -C /repo status --porcelain').stdout.strip()
for i in args or sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    out = []
    try:
        if not checkonly:
            r = sh('bash %s/demo.sh' % d, cwd=R)
            out.append('clean-demo %s' % ('ok' if r.returncode == 0 else 'FAILS: ' + (r.stdout + r.stderr)[-600:]))
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'patch does not apply', r.stderr); continue
        if not checkonly:
            sh('bash /opt/vp/test.sh /tmp/seed.json')
            j = json.load(open('/tmp/seed.json'))
            miss = base - set(j['passed'])
            out.append('tests %s' % ('ok' if not miss else 'BROKEN %d' % len(miss)))
            r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
            out.append('demo %s' % ('detects(%d)' % r.returncode if r.returncode else 'DOES NOT DETECT'))
        if not nocheck:
            r = sh('python3 sa/check.py ' + prop, cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % prop)]
            out.append('check rc=%d %s %s' % (r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED', (r.stdout + r.stderr).strip()[-300:] if True else ''))
    finally:
        sh('git -C /repo checkout -- .')
    print(i, '|', ' | '.join(out), flush=True)
if not checkonly:
    sh('bash /opt/vp/build.sh')
