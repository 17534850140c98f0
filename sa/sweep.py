"""Runs the abstract interpreter over every entry point of the library and collects the verdict of each obligation."""
import json
import multiprocessing as mp
import os
import sys
import threading
import time
import traceback

import engine
import ir
import prover
import terms
from terms import P, N, ATOMS, TRUE, FALSE, toP, f_and, f_eq, f_ge, f_gt, f_not, show

HERE = os.path.dirname(os.path.abspath(__file__))
SURFACE = os.path.join(HERE, 'surface.json')

INTERNAL = ('exit', )


def key(p, f):
    """identity of an entry point that does not depend on parameter names, reference kinds or lines"""
    def ts(i):
        return ir._base(p.strip(i).s.rstrip(' &*')).replace('const ', '')
    r = ts(f['rec']) if f.get('rec') is not None else ''
    return '%s|%s|%s|%s' % (r, f['q'], ','.join(str(x.get('i', ts(x['t']) if 't' in x else '')) for x in f.get('targs') or []),
                            ','.join(ts(q['t']) for q in f['params']))


def callers(p):
    c = set()
    for f in p.lib():
        for n in ir.walk([f.get('body'), f.get('inits')]):
            g = n.get('f')
            if isinstance(g, dict) and g.get('id') and g['id'] != f['id']:
                c.add(g['id'])
    return c


def entries(p):
    """entry points: the public surface known at development time plus new functions nobody inside the library calls"""
    known = set(json.load(open(SURFACE)))
    used = callers(p)
    out = []
    for f in p.lib():
        if f.get('access') in (1, 2) or f.get('implicit') or 'anonymous class' in f['q'] or '(lambda' in f['q']:
            continue
        k = key(p, f)
        if k in known or f['id'] not in used:
            out.append(f)
    return out


def surface(p):
    return sorted(key(p, f) for f in p.lib()
                  if f.get('access') not in (1, 2) and not f.get('implicit') and 'anonymous class' not in f['q'])


class Ana(engine.Engine):
    """engine that records verdicts"""

    def __init__(self, p, **opt):
        super().__init__(p, **opt)
        self.rec = {}
        self.order = []
        self.ab = []

    def note(self, rule, e, verdict, text='', extra=None):
        """worst verdict per rule and site"""
        site = (rule, e.get('l') if e else '?', tuple(x[2] for x in self.callstack))
        o = self.rec.get(site)
        rank = {True: 0, None: 1, False: 2}
        if o is None or rank[verdict] > rank[o[0]]:
            self.rec[site] = (verdict, text, extra)

    # ---- aborted runs -------------------------------------------------------------------
    def on_abort(self, st, e, why='', stack=()):
        if len(self.ab) < 60:
            self.ab.append((st, e, stack))

    def aborts(self, ok=None):
        """(line, assignment) of each place where a certain run on these arguments ends the program"""
        seen = set()
        for st, e, stack in self.ab:
            l = (e.get('l') if e else None) or '?'
            if l in seen or ok is not None and not ok(st):
                continue
            w = self.feasible(st)
            if w is not None:
                seen.add(l)
                yield l, w

    def ended(self):
        """aborted runs in the form of runs left by an exception"""
        return [(st, 'an assertion failure at %s' % (e.get('l') if e else '?'), e) for st, e, _ in self.ab]

    # ---- definite refutation ------------------------------------------------------------
    def exact(self, f):
        ids, inx = set(), set()
        terms._fv(f, ids, inx)
        return not inx

    def feasible(self, st, extra=(), strict=True):
        """an assignment that reaches this state, found with exact facts only; None when there is no certain one"""
        if st.gh.get('joined'):
            return None
        fs = tuple(st.facts) + tuple(extra)
        ids = set()
        for f in fs:
            if not self.exact(f):
                return None
            if not plainf(f):
                return None
            prover._inner(f, ids)
        for i in list(ids):
            a = ATOMS[i]
            if i in self.guarded:
                fs += (f_eq(toP(a)),)
            if a.isint and a.kind not in ('sym', 'idiv', 'imod', 'ite', 'bsym') and not sizelike(a):
                return None
        for q in st.gh.get('iffy', ()):
            fs += (f_eq(q),)
        if st.alls and any(ATOMS[i].kind not in ('sym', 'bsym') for i in ids):
            return None
        return prover.witness(fs)

    def refute(self, st, goal):
        """True: goal holds; False: definitely broken in some reachable state; None: not decided"""
        if self.holds(st, goal):
            return True, None
        if not self.exact(goal):
            return None, None
        w = self.feasible(st, (f_not(goal),))
        if w is None:
            return None, None
        return False, ', '.join('%s=%s' % (show(toP(ATOMS[i])) if ATOMS[i].kind not in ('bsym',) else ATOMS[i].args[0], v) for i, v in sorted(w.items(), key=lambda t: str(t))[:10])


def merge(a, b):
    """records of a second pass can only settle what the first one left open as broken"""
    for k, x in b.items():
        o = a.get(k)
        if x[0] is False and (o is None or o[0] is not False):
            a[k] = x
    return a


def plainf(f):
    """formula over numbers and named conditions"""
    if f.kind in ('and', 'or', 'not'):
        return all(plainf(x) for x in f.args if isinstance(x, N))
    if f.kind in ('ge', 'gt', 'eq', 'ne'):
        return True
    if f.kind in ('true', 'false', 'bsym'):
        return True
    return f.kind == 'pred' and f.exact


def sizelike(a):
    return a.kind == 'sel' and isinstance(a.args[1], str) and a.args[1].split('.')[-1] in ('size', 'RowCount', 'ColumnCount', 'mRows', 'mColumnCount')


_P = None
_T = None
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
BUDGET = 900.0 if THOROUGH else 90.0       # seconds for one job
TOTAL = 1e9 if THOROUGH else 500.0         # afterwards every job is cut short
START = [None]


def _one(fid):
    t = time.time()
    left = TOTAL - (t - (START[0] or t))
    prover.LIMIT[0] = t + min(BUDGET, max(3.0, left))
    try:
        r = _T(_P, fid)
        err = None
    except engine.Stop as x:
        r, err = getattr(x, 'partial', None), 'stopped: %s' % x
    except RecursionError:
        r, err = None, 'recursion'
    except Exception as x:
        tb = traceback.extract_tb(sys.exc_info()[2])[-1]
        r, err = None, 'crash: %r %s:%d' % (x, os.path.basename(tb.filename), tb.lineno)
    return fid, r, err, time.time() - t


def _job(fid):
    res = []
    t = threading.Thread(target=lambda: res.append(_one(fid)))
    t.start()
    t.join()
    return res[0] if res else (fid, None, 'no result', 0.0)


def run(p, task, jobs, procs=None):
    """task(p, job) in parallel workers; yields (job, result, error, seconds) in job order"""
    global _P, _T
    _P, _T = p, task
    START[0] = START[0] or time.time()
    jobs = list(jobs)
    ctx = mp.get_context('fork')
    with ctx.Pool(procs or min(8, os.cpu_count() or 1)) as pool:
        for x in pool.imap(_job, jobs, chunksize=1):
            yield x


def where(e):
    return e.get('l', '?') if e else '?'


if __name__ == '__main__':
    p = ir.load()
    json.dump(surface(p), open(SURFACE, 'w'), indent=0)
    print(len(surface(p)))
