#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C++ source) [FLAGS]; writes seeded/ID"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(ID, PROP, NEEDS, BREAKS, EDITS, DEMO, SH=None, FLAGS=''):
    assert not subprocess.run('git -C /repo status --porcelain', shell=True, capture_output=True, text=True).stdout.strip()
    d = V + '/seeded/' + ID
    os.makedirs(d, exist_ok=True)
    try:
        for f, a, b in EDITS:
            p = '/repo/src/' + f
            raw = open(p, 'rb').read()
            crlf = b'\r\n' in raw
            s = raw.decode('utf-8').replace('\r\n', '\n')
            assert s.count(a) == 1, (ID, f, s.count(a), a)
            s = s.replace(a, b)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'wb').write(s.encode())
        diff = subprocess.run('git -C /repo diff --binary', shell=True, capture_output=True).stdout
        open(d + '/patch.diff', 'wb').write(diff)
    finally:
        subprocess.run('git -C /repo checkout -- .', shell=True, capture_output=True)
    if DEMO is not None:
        open(d + '/demo.cpp', 'w').write(DEMO)
    open(d + '/demo.sh', 'w').write(SH or ('''#!/bin/bash
# fails (nonzero) when the planted change is in effect
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
g++ -std=c++11 -w -O1 %s -I/repo/src/lib -I/repo/src/objloader "$D/demo.cpp" -o "$W/demo" || exit 1
cd "$W" && timeout 120 ./demo
''' % FLAGS))
    json.dump({'property': PROP, 'needs': NEEDS, 'what_it_breaks': BREAKS}, open(d + '/meta.json', 'w'), indent=1)
if __name__ == '__main__':
    for f in sys.argv[1:]:
        g = {}
        exec(open(f).read(), {'make': make})
