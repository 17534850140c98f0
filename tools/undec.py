#!/usr/bin/env python3
"""undecided obligations of the last run of a check: undec.py ID [N]"""
import json, sys
d = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))['coverage'].get('undecided', [])
n = int(sys.argv[2]) if len(sys.argv) > 2 else 20
for x in d[:n]:
    print(str(x)[:260])
print(len(d))
