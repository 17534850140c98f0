#!/usr/bin/env python3
"""usage: judge.py DIFF...   what the checks of the touched file say about each diff (applied to a scratch copy)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
src = open('/verif/tools/automut.py').read()
ns = {}
exec(src[src.index('MAP = ['):src.index('OPS = [')], ns)


def one(a):
    c, d = a
    q = subprocess.run(['python3', '/verif/sa/check.py', c], capture_output=True, text=True, env=dict(os.environ, NS_REPO=d))
    return c, q.returncode, q.stdout


for x in sys.argv[1:]:
    t = open(x).read()
    f = re.search(r'^\+\+\+ b/src/lib(\S+)', t, re.M)[1]
    d = tempfile.mkdtemp(prefix='jd')
    try:
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q && git apply %s' % (d, d, os.path.abspath(x)), shell=True, check=True)
        chk = next(c for a, c in ns['MAP'] if re.search(a, f)).split()
        got = None
        with ThreadPoolExecutor(2) as ex:
            for c, rc, o in ex.map(one, [(c, d) for c in chk]):
                if rc == 1 and not got:
                    got = c + ' ' + o.split('\n')[0][:150]
                elif rc not in (0, 1):
                    print('   rc', rc, c)
                if got:
                    break
            if got:
                ex.shutdown(cancel_futures=True)
        ch = [l for l in t.split('\n') if l[:1] in '+-' and l[:3] not in ('+++', '---')]
        print('CAUGHT' if got else 'MISSED', os.path.basename(x), f, ' | '.join(ch)[:200], '->', got, flush=True)
    finally:
        shutil.rmtree(d)
