"""C02: no element access outside an object's storage."""
import time

import ir
import prover
import shaped
import sparsestore
import sweep
import terms
from common import Report
from engine import Stop, pval
from terms import P, N, ATOMS, TRUE, f_and, f_eq, f_ge, f_gt, show

STORE = 'access to the sparse storage inside its arrays'
LIBPATH = ('lib/', 'objloader/')


class A(sweep.Ana):
    def bounds(self, st, e, rule, goal, text):
        v, w = self.refute(st, goal)
        self.note(rule, e, v, text + (' for ' + w if w else ''))

    def on_index(self, st, e, idx=None, size=None, base=None):
        self.bounds(st, e, 'element access inside the array', f_and(f_ge(idx), f_gt(size - idx)),
                    'element %s of %s' % (show(idx), show(size)))

    def on_range(self, st, e, lo=None, hi=None, size=None, base=None):
        self.bounds(st, e, 'range inside the array', f_and(f_ge(lo), f_ge(size - hi)),
                    'range %s..%s of %s' % (show(lo), show(hi), show(size)))

    def on_sindex(self, st, e, i=None, j=None, rows=None, cols=None):
        # only calls the library makes itself; a caller's index is stopped by the assertion of the accessor
        if not self.own(terms.f_and(f_gt(rows - i), f_gt(cols - j))):
            return
        self.bounds(st, e, 'sparse access inside the matrix', f_and(f_gt(rows - i), f_gt(cols - j)),
                    'entry (%s, %s) of %s x %s' % (show(i), show(j), show(rows), show(cols)))

    def on_deref(self, st, e, ptr=None, how=None):
        if ptr.kind == 'null' and not st.gh.get('joined'):
            w = self.feasible(st)
            if w is not None:
                self.note('no null or dangling access', e, False, 'null pointer (%s)' % how)
            else:
                self.note('no null or dangling access', e, None, 'null pointer (%s)' % how)

    def own(self, f):
        """does the accessed index come from the library itself (not from an argument of the entry point)?"""
        for i in f.fv:
            a = ATOMS[i]
            if a.kind == 'sym' and isinstance(a.args[0], str) and a.args[0] in self.intargs:
                return False
        return True

    def on_abort(self, st, e, why='', stack=()):
        """an assertion on an index the library computes itself in a loop"""
        if len(self.callstack) < 2 or any(self.p.fns.get(x[0], {}).get('ctor') for x in self.callstack):
            return
        new = [f for f in st.facts if f.kind in ('ge', 'gt', 'eq', 'ne', 'and', 'or')]
        if not new:
            return
        f = new[-1]
        if not self.own(f):
            return
        if not any(ATOMS[i].kind == 'sym' and str(ATOMS[i].args[0]).startswith('n:') for i in f.fv):
            return
        w = self.feasible(st) if self.exact(f) else None
        self.note('loop index passes the assertion of the accessor', e, False if w is not None else None,
                  'assertion fails when %s' % show(f))

    def shapes(self, st, v, e, name):
        """containers hold rows times columns elements"""
        if isinstance(v, N) and v.kind == 'rec':
            fs = dict(v.args[1])
            if 'RowCount' in fs and 'Container' in fs and isinstance(fs['Container'], N) and fs['Container'].kind == 'arr':
                n = fs['Container'].args[0]
                q = pval(fs['RowCount']) * pval(fs['ColumnCount'])
                if n != q:
                    r, w = self.refute(st, f_eq(n - q))
                    self.note('matrix storage matches its dimensions', e, r,
                              '%s holds %s elements for %s x %s' % (name, show(n), show(fs['RowCount']), show(fs['ColumnCount'])))
                else:
                    self.note('matrix storage matches its dimensions', e, True)
                return
            for k, x in fs.items():
                self.shapes(st, x, e, name + '.' + k)


def task(p, fid):
    f = p.fns[fid]
    a = A(p, maxsteps=120000)
    a.intargs = set(q['n'] for q in f['params'] if p.strip(q['t']).k in ('int', 'uint'))
    err = None
    try:
        out, thr = a.entry(f)
        e = {'l': f['l']}
        for st, v in out:
            a.shapes(st, v, e, 'the result')
            for o, x in st.mem.items():
                if o[0] == 'p':
                    a.shapes(st, x, e, str(o[1]))
    except Stop as x:
        err = str(x)
    return [(r, l, s, v, t) for (r, l, s), (v, t, x) in a.rec.items()], err


class B(A):
    """constant layouts: the storage of sparse matrices and iterators itself"""
    intargs = ()

    def bounds(self, st, e, rule, goal, text):
        if self.holds(st, goal):
            self.note(rule, e, True)
        elif st.gh.get('joined') or st.gh.get('iffy'):
            self.note(rule, e, None, text)
        else:
            super().bounds(st, e, rule, goal, text)

    def on_abort(self, st, e, why='', stack=()):
        sweep.Ana.on_abort(self, st, e, why, stack)


def stored(p, job):
    """accesses of one entry point to the storage, case by case"""
    fid, pls = job
    f = p.fns[fid]
    rec, err = {}, []
    t0 = time.time()
    for pl in pls:
        if time.time() - t0 > 16:
            err.append('skipped: time')
            continue
        prover.LIMIT[0] = time.time() + 8
        m = pl.get('m', ((2, 2), ()))
        C = sparsestore.SCase(p, f, pl, mshape=m[0], mcells=m[1], maxsteps=60000, cls=B)
        try:
            C.run()
        except Stop as x:
            if str(x) != 'skip':
                err.append('%s: %s' % (sparsestore.show_plan(pl), x))
        for t in sparsestore.ends(C, f, sparsestore.name_of(f), shaped.operands(p, f), pl):
            C.A.rec.setdefault(('no assertion fails for positions inside the matrix', '%d' % f['l'] if isinstance(f['l'], int) else f['l'], ()), (False, t, None))
        for k, (v, t, x) in C.A.rec.items():
            o = rec.get(k)
            if o is None or RANK[v] > RANK[o[0]]:
                rec[k] = (v, '%s (%s)' % (t, sparsestore.show_plan(pl)) if v is not True else t)
    return [(r, l, s, v, t) for (r, l, s), (v, t) in rec.items()], err, len(pls)


RANK = {True: 0, None: 1, False: 2}


def run():
    rep = Report('C02')
    p = ir.load()
    es = sweep.entries(p)
    slow = []
    for fid, r, err, dt in sweep.run(p, task, [f['id'] for f in es]):
        slow.append((round(dt, 1), ir.plain(p.fns[fid]['q'])))
        f = p.fns[fid]
        if r is None:
            rep.ob('entry point analysed', None, '%s: %s' % (f['q'], err))
            continue
        recs, err = r
        rep.ob('entry point analysed', None if err else True, '%s%s' % (f['q'], ': ' + err if err else ''))
        for rule, l, stack, v, text in recs:
            rep.ob(rule, v, '%s: %s at %s' % (f['q'], text, l))
            if v is False:
                path = ' <- '.join(ir.plain(x) for x in reversed(stack)) or ir.plain(f['q'])
                rep.violation('%s:%s:%s' % (ir.plain(f['q']), ir.plain(stack[-1]) if stack else '', rule), l,
                              '%s broken: %s (%s)' % (rule, text, path))
    jobs = [(f['id'], c) for f in es if sparsestore.relevant(p, f) and not f.get('dtor') for c in sparsestore.chunks(sparsestore.plans(p, f), 12)]
    cases = 0
    for job, r, err, dt in sweep.run(p, stored, jobs):
        f = p.fns[job[0]]
        if r is None:
            rep.ob(STORE, None, '%s: %s' % (f['q'], err))
            continue
        recs, err, n = r
        cases += n - len(err)
        for x in err:
            rep.ob(STORE, None, '%s: %s' % (f['q'], x))
        for rule, l, stack, v, text in recs:
            rep.ob(STORE, v, '%s: %s at %s' % (f['q'], text, l))
            if v is False:
                path = ' <- '.join(ir.plain(x) for x in reversed(stack)) or ir.plain(f['q'])
                rep.violation('%s:%s:%s' % (ir.plain(f['q']), ir.plain(stack[-1]) if stack else '', rule), l,
                              '%s broken: %s (%s)' % (rule, text, path))
    rep.cov['storage_cases'] = cases
    rep.need(STORE, 100)
    rep.need('entry point analysed', 200)
    rep.need('element access inside the array', 200)
    rep.cov['explanation'] = EXPL
    rep.cov['slowest'] = sorted(slow, reverse=True)[:8]
    rep.assume += ASSUME
    return rep.finish()


EXPL = ('Every public function of the driver instantiation is analysed by trace-partitioned abstract interpretation over '
        'polynomial relations; each array access, range operation and sparse access in it or in the functions it calls is '
        'an obligation 0 <= index < size (holds / undecided / broken with exact facts). Sparse matrices and their iterators are analysed a '
        'second time on constant layouts with their real storage arrays.')
ASSUME = ['the assertions of the library are enabled', 'sparse matrices: the abstract model of the storage (C06)',
          'loops are summarised by induction and verified invariants']
