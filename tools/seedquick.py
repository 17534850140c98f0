#!/usr/bin/env python3
"""seedquick.py SPEC.py [ID...]: verdict of the property's check on each planted change, in scratch copies (no build, no demo)"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[2:]


def make(ID, PROP, NEEDS, BREAKS, EDITS, DEMO, SH=None, FLAGS=''):
    if ids and ID not in ids:
        return
    d = tempfile.mkdtemp(prefix='sq')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C ' + d, shell=True, check=True)
        for f, a, b in EDITS:
            p = d + '/src/' + f
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            assert s.count(a) == 1, (ID, f, s.count(a), a)
            s = s.replace(a, b)
            open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
        q = subprocess.run(['python3', V + '/sa/check.py', PROP], capture_output=True, text=True, env=dict(os.environ, NS_REPO=d))
        print(ID, 'CAUGHT' if q.returncode == 1 else 'MISSED rc=%d' % q.returncode, (q.stdout + q.stderr).strip().split('\n')[0][:230], flush=True)
    finally:
        shutil.rmtree(d)


exec(open(sys.argv[1]).read(), {'make': make})
