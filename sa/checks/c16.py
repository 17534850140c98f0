"""C16: solvers never divide by an unchecked pivot or diagonal entry."""
from fractions import Fraction

import engine as E_
import ir
import models
import numeric
import shaped
import sized
import solvers
import sweep
from common import Report
from engine import Stop, pval
from shaped import wit
from terms import P, N, ATOMS, ZERO, TRUE, FALSE, num, toP, node, f_ne, f_eq, f_gt, f_ge, f_not, show

RULES = ('the divisor is not zero', 'the divisor is above machine precision', 'the exception matches', 'well-conditioned input is not rejected', 'function analysed', 'a zero diagonal entry is rejected')
EPSF = ('LU::doolittle', 'LU::ilu0', 'LU::solve_lu', 'LU::ainv_lu', 'CG::jacobi')
FREE = ('CG::cg', 'CG::pcg')        # divide by inner products of search directions, no pivots
TYPES = {'LU::cholesky': ('NotPositiveDefinite', 'NotHermitian'), 'Iterative::jacobi': ('MatrixHasZeroInDiag', 'Singular'), 'Iterative::sor': ('MatrixHasZeroInDiag', 'Singular')}
ZDIAG = {'Iterative::jacobi': 0, 'Iterative::sor': 0, 'CG::jacobi': 0, 'LU::solve_lu': 1, 'LU::ainv_lu': 1}     # operand whose diagonal is divided by
EPS = Fraction(1, 2 ** 52)


class Ana(sweep.Ana):
    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.divs = []
        self.bad = []
        self.eps = False

    def small(self, st, d):
        c = d.const()
        if c is not None:
            return abs(c) <= EPS
        a = absP(d)
        if self.holds(st, f_gt(a - num(EPS))):
            return False
        return None

    def on_fdiv(self, st, e, num=None, den=None):
        d = den
        site = (e.get('l', '?') if e else '?', tuple(x[2] for x in self.callstack))
        if self.holds(st, f_ne(d)) or d.const() is None and self.holds(st, f_gt(absP(d))):
            self.divs.append((RULES[0], True, site, ''))
        else:
            self.ref(st, f_eq(d), RULES[0], site, 'divides by %s' % show(d)[:120])
            return
        if self.eps:
            s = self.small(st, d)
            if s is False:
                self.divs.append((RULES[1], True, site, ''))
            else:
                self.ref(st, f_ge(EPSP - absP(d)), RULES[1], site, 'divides by %s without comparing it with machine precision' % show(d)[:120])

    def ref(self, st, goal, rule, site, text):
        if st.gh.get('joined') or st.gh.get('iffy'):
            self.divs.append((rule, None, site, text))
            return
        w = tiny(st, goal)
        self.divs.append((rule, False if w else None, site, text + wit(w)))


EPSP = num(EPS)


def absP(d):
    return toP(models.absn(d)) if d.const() is None else num(abs(d.const()))


def tiny(st, goal):
    """a point with the goal; atoms may take values around machine precision"""
    w = numeric.differ(st.facts + (goal,), [(TRUE, FALSE)])
    if w:
        return w
    vals = [0, 1, -1, 2, 3, Fraction(1, 2 ** 54), Fraction(-1, 2 ** 54)]
    return numeric.differ(st.facts + (goal,), [(TRUE, FALSE)], pos=lambda n: vals if not n.isint and n.kind in numeric.DATA else None, tries=400)


def plans(p, f):
    k = solvers.size(p, f)
    out = []
    for n in ((k,) if k else (1, 2, 3)):
        for lay in (solvers.LAY[n] if solvers.inputs_sparse(p, f) else solvers.LAY[n][:1]):
            out.append((n, lay, None))
        out.append((n, tuple((i, i) for i in range(n)), 'regular'))
        if solvers.name(f) in ZDIAG:
            full = solvers.LAY[n][0]
            for i in range(n):
                out.append((n, full, ('zero', i)))
                if solvers.inputs_sparse(p, f):
                    out.append((n, tuple(x for x in full if x != (i, i)), ('absent', i)))
    return out


def zero(C, E, st, n, i, mode):
    """entry (i,i) of the operand is zero, the other diagonal entries are not"""
    pos = [q for q, k in C.ops if k in 'DS'][ZDIAG[solvers.name(C.f)]]
    el = sized.elems(E, st, E.read(st, C.base[pos]))[1]
    for j in range(n):
        if (j, j) in el and el[j, j] is not ZERO and el[j, j].const() is None:
            v = el[j, j]
            st.facts += ((f_eq(v),) if j == i else (f_ne(v), f_gt(absP(v) - num(EPS))))


def task(p, job):
    fid, n, lay, mode = job
    f = p.fns[fid]
    nm = solvers.name(f)
    pl = solvers.plan(p, f, n, lay, iters=1)
    C = solvers.Case(p, f, pl, maxsteps=500000, cls=Ana, join=200)
    C.A.eps = nm in EPSF
    if mode == 'regular':
        C.facts = lambda C, E, st, this, vs: regular(C, E, st, n)
    elif mode:
        C.facts = lambda C, E, st, this, vs: zero(C, E, st, n, mode[1], mode[0])
    res = []
    try:
        C.run()
        err = None
    except Stop as x:
        err = str(x)
        if err == 'skip':
            return []
    if mode is None:
        for rule, v, site, text in C.A.divs:
            res.append((rule, v, site, text))
        if not C.A.divs and not err:
            res.append((RULES[0], True, (f['l'], ()), 'no division'))
    if err:
        return res + [(RULES[4], None, (f['l'], ()), 'stopped: ' + err)]
    res.append((RULES[4], True, (f['l'], ()), ''))
    if mode and mode != 'regular':
        for st, v in C.outs:
            w = C.certain(st)
            res.append((RULES[5], False if w else None, (f['l'], ()), 'returns normally although diagonal entry %d is %s%s' % (mode[1], mode[0], wit(w))))
        if not C.outs:
            res.append((RULES[5], True, (f['l'], ()), ''))
    for st, ty, e in C.thr:
        t = p.ty(ty).s if isinstance(ty, int) else str(ty)
        ok = any(x in t for x in TYPES.get(nm, ('Singular',)))
        site = (e.get('l', '?') if e else '?', ())
        if mode == 'regular' and any(x.kind == 'pred' and x.args[0] == 'isnan' for x in st.facts):
            continue            # an overflowed iterate, not the matrix
        if mode == 'regular':
            w = C.certain(st)
            res.append((RULES[3], False if w else None, site, 'throws %s for the unit matrix%s' % (t, wit(w))))
        elif ok:
            res.append((RULES[2], True, site, ''))
        else:
            w = C.certain(st)
            res.append((RULES[2], False if w else None, site, 'throws %s%s' % (t, wit(w))))
    if mode == 'regular' and C.outs:
        res.append((RULES[3], True, (f['l'], ()), ''))
    return res


def regular(C, E, st, n):
    """inputs are unit matrices"""
    outs = solvers.outputs(C.p, C.f)
    for pos, k in C.ops:
        if pos in outs or k not in 'DS':
            continue
        ptr = C.base.get(pos)
        v = E.read(st, ptr)
        if k == 'S':
            fs = dict(v.args[1])
            fs['mValues'] = E_.mkarr(num(n), node('clist', (tuple(num(1) for _ in range(n)),)))
            E.write(st, ptr, E_.mkrec(v.args[0], fs))
        else:
            sized.fill(E, st, ptr, [1 if i == j else 0 for i in range(n) for j in range(n)])


def run():
    rep = Report('C16')
    p = ir.load()
    jobs = []
    for f in solvers.entries(p, (r'NS::Operations::inverse$',)):
        if solvers.name(f) in FREE:
            continue
        for n, lay, mode in plans(p, f):
            jobs.append((f['id'], n, lay, mode))
    sites = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%dx%d%s%s)' % (f['q'], job[1], job[1], ', entries %s' % (job[2],) if solvers.inputs_sparse(p, f) else '', ', unit matrix' if job[3] == 'regular' else ', entry %d of the diagonal %s' % job[3][::-1] if job[3] else '')
        if r is None:
            rep.ob(RULES[4], None, '%s: %s' % (what, err))
            continue
        for rule, v, site, text in r:
            if rule in RULES[:2]:
                sites.add((site[0], f['q']))
            rep.ob(rule, v, '%s: %s at %s' % (what, text, site[0]))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), site[0], '%s: %s [%s]' % (what, text, rule))
    rep.need(RULES[0], 100)
    rep.need(RULES[1], 50)
    rep.need(RULES[3], 10)
    rep.need(RULES[5], 20)
    rep.cov['division sites'] = sorted('%s in %s' % s for s in sites)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every factorisation, triangular solve, approximate inverse, preconditioner and stationary iteration is interpreted on square operands '
        'of size 1 to 3 (all listed sparse layouts, one iteration) with unknown values; every floating-point division is an obligation '
        'divisor != 0 (and |divisor| > machine precision for the functions that test this) under the path condition, and every exception '
        'must have the matching type.')
