#!/usr/bin/env python3
"""check.py <property>: decide one property on /repo's current tree."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    if sys.argv[1] == '--build':
        import ir
        ir.build()
        ir.load()
        return 0
    from ir import AnalysisBroken
    try:
        m = importlib.import_module('checks.' + sys.argv[1].lower())
        return m.run()
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (sys.argv[1], e))
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == '__main__':
    rc = [3]

    def go():
        rc[0] = main()
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
