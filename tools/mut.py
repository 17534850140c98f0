#!/usr/bin/env python3
"""Development aid: apply small source changes to scratch copies and see what a check says.
usage: mut.py SPEC.py [CHECK|-] [ID-PREFIX...]      SPEC: M = [(id, 'C02', [(file below /repo/src, old, new), ...], 'bug'|'ok')]"""
import os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = runpy.run_path(sys.argv[1])['M']
only = sys.argv[2] if len(sys.argv) > 2 else '-'
pre = sys.argv[3:]
bad = 0
for mid, prop, edits, kind in spec:
    if pre and not any(mid.startswith(x) for x in pre):
        continue
    d = tempfile.mkdtemp(prefix='mut')
    try:
        subprocess.run('git -C /repo archive HEAD src | tar -x -C ' + d, shell=True, check=True)
        for f, o, n in edits:
            p = d + '/src/' + f
            s = open(p).read()
            if s.count(o) < 1:
                print(mid, 'EDIT DOES NOT APPLY', f, repr(o)[:60]); break
            open(p, 'w').write(s.replace(o, n, 1))
        else:
            for c in (prop.split() if only == '-' else [only]):
                e = dict(os.environ, NS_REPO=d)
                r = subprocess.run(['python3', V + '/sa/check.py', c], capture_output=True, text=True, env=e)
                got = {0: 'quiet', 1: 'CAUGHT'}.get(r.returncode, 'rc%d' % r.returncode)
                ok = (kind == 'bug') == (got == 'CAUGHT') and r.returncode in (0, 1)
                bad += not ok
                t = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
                print('%-34s %s %-4s %-7s %s %s' % (mid, c, kind, got, 'ok ' if ok else '<<<<', (t[0] if got != 'quiet' else t[-1] if t else r.stderr[-200:])[:190]), flush=True)
    finally:
        shutil.rmtree(d)
print('unexpected:', bad)
