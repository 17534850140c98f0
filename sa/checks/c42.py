"""C42: every operation on sparse matrices is one step of the corresponding dense matrix, and keeps the storage canonical."""
import os
import time

import ir
import prover
import shaped
import sized
import sparsestore
import sweep
from checks import c24
from common import Report
from engine import Stop, pval
from sparsestore import SCase, chunks, plans, relevant, show_plan
from terms import P, N, num

STEP = 'the step has the effect it has on a dense matrix'
RULES = (STEP, 'storage arrays agree', 'stored entries are not zero', 'only the named entry changes', 'swap exchanges the complete state',
         'absent entries read as zero', 'zero of absent entries unchanged', 'iterators visit exactly the stored entries')


def dense(p, f, C, pl):
    """verdicts of the dense oracle of C24 for one case"""
    s = c24.sig(p, f)
    if s is None:
        return []
    name, sg, ops = s
    if not any(k == 'S' for _, k in ops):
        return []
    A, args = C.A, []
    for pos, k in ops:
        if k in 'VDS':
            e = sized.elems(A, C.st0, C.pre[pos]) if pos in C.pre else None
            if e is None:
                return []
            args.append(e)
        elif k == 'I':
            if pl.get(pos) is None:
                return []
            args.append(num(pl[pos]))
        else:
            args.append(pval(shaped.value(A, C.st0, C.vs, pos)))
    want = c24.SPEC[(name, sg)](*args)
    out = []
    if not want:
        return out
    for st, v in C.outs:
        for ok, _, text in c24.verdicts(A, st, v, want, {'this': C.base.get('this')}, args, ops, pl):
            out.append((STEP, ok, text))
    return out


def task(p, job):
    fid, pls, deep = job
    f = p.fns[fid]
    nm = sparsestore.name_of(f)
    ops = shaped.operands(p, f)
    out = []
    t0 = time.time()
    for pl in pls:
        if time.time() - t0 > (200 if deep else 16):
            out.append((pl, [(STEP, None, 'skipped: time')]))
            continue
        prover.LIMIT[0] = time.time() + (60 if deep else 8)
        m = pl.get('m', ((2, 2), ()))
        C = SCase(p, f, pl, mshape=m[0], mcells=m[1], maxsteps=60000)
        try:
            C.run()
            r = [x for x in sparsestore.check(C, nm, ops, pl, None) if x[0] in RULES]
            r += dense(p, f, C, pl)
            r += [(STEP, False, t) for t in sparsestore.ends(C, f, nm, ops, pl)]
            if C.outs and not r:
                r = [(STEP, True, '')]
            out.append((pl, r))
        except Stop as x:
            if str(x) != 'skip':
                out.append((pl, [(STEP, None, 'stopped: %s' % x)]))
    return out


def scope(p, f):
    """operations that read or change a sparse matrix"""
    if f.get('dtor') or not relevant(p, f):
        return False
    if f.get('rec') is not None:
        return True
    return c24.sig(p, f) is not None or sparsestore.name_of(f) == 'swap'


def run():
    rep = Report('C42')
    p = ir.load()
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    jobs = []
    for f in sweep.entries(p):
        if scope(p, f):
            for c in chunks(plans(p, f, deep), 12):
                jobs.append((f['id'], c, deep))
    seen = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        seen.add(ir.plain(f['q']))
        if r is None:
            rep.ob(STEP, None, '%s: %s' % (f['q'], err))
            continue
        for pl, rs in r:
            for rule, v, text in rs:
                rep.ob(rule, v, '%s %s: %s' % (f['q'], show_plan(pl), text))
                if v is False:
                    rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s (%s): %s [%s]' % (f['q'], show_plan(pl), text, rule))
    rep.need(STEP, 300)
    rep.need('storage arrays agree', 500)
    rep.cov['operations'] = sorted(seen)
    rep.cov['explanation'] = sparsestore.EXPL + ('The contents after each operation are compared with the operation of a dense matrix, and the '
                                                 'storage after it must again be canonical: ordered columns, consistent row pointers, no stored zero. '
                                                 'By induction every history of these operations on matrices of the listed shapes reads like a dense matrix.')
    return rep.finish()
