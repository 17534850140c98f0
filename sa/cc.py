"""Front end runs (syntax and semantic analysis only; nothing is executed)."""
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import ir


def syntax(code=None, path=None, defs=(), std=ir.STD):
    """run the type checker; returns the list of error lines"""
    tmp = None
    if code is not None:
        fd, tmp = tempfile.mkstemp(suffix='.cpp')
        with os.fdopen(fd, 'w') as f:
            f.write(code)
        path = tmp
    try:
        r = subprocess.run(['clang++', '-fsyntax-only', std, '-w', '-ferror-limit=8'] + list(defs) + ir.INC + [path],
                           capture_output=True, text=True)
        if r.returncode == 0:
            return []
        ls = [l for l in r.stderr.splitlines() if 'error:' in l]
        ctx = [l for l in r.stderr.splitlines() if 'requested here' in l][:3]
        return (ls or ['error: ' + r.stderr[-300:]]) + ctx
    finally:
        if tmp:
            os.unlink(tmp)


def many(jobs):
    """jobs: list of dicts for syntax(); results in order"""
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda j: syntax(**j), jobs))
