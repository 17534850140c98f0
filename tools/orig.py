#!/usr/bin/env python3
"""orig.py: planted changes that remove lines which are not of the original repository"""
import glob, re, subprocess
base = subprocess.run('git -C /repo rev-list --max-parents=0 HEAD', shell=True, capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = n = None
    bad = []
    for l in open(d, newline='').read().split('\n'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            n = None
            continue
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if f and n and l and l[0] in ' -':
            if l[0] == '-':
                b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', '-L%d,%d' % (n, n), '--', f], capture_output=True, text=True).stdout
                if not b.lstrip('^').startswith(base[:20]):
                    bad.append((f, n))
            n += 1
    if bad:
        print(d, bad)
