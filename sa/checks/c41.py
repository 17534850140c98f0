"""C41: iterative solvers perform the steps of their method and stop early only within the tolerance."""
from fractions import Fraction

import exact
import ir
import numeric
import poly
import shaped
import sized
import solvers
import sweep
import terms
from common import Report
from engine import Stop, pval
from exact import entries, mul, apply, eye, transpose, same, sure, sym
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, inv, f_ge, f_gt, f_eq, f_ne, show
from checks import c15

RULES = ('each iterate is the step of the method from the previous one', 'an early stop is within the tolerance', 'conjugate gradients solve the system after as many steps as it has unknowns',
         'function analysed', 'a well behaved system is accepted')
NAMES = {'Iterative::jacobi': 'jacobi', 'Iterative::sor': 'sor', 'CG::cg': 'cg', 'CG::pcg': 'pcg'}


def dot(x, y):
    return sum((x[k] * y[k] for k in sorted(x)), ZERO)


def nxt(kind, A, b, x, w):
    n = len(x)
    y = {}
    for i in range(n):
        s = b[(i,)]
        for j in range(n):
            if j != i:
                s = s - A[1][i, j] * (y[(j,)] if kind == 'sor' and j < i else x[(j,)])
        s = s * inv(A[1][i, i])
        y[(i,)] = s if kind == 'jacobi' else (ONE - w) * x[(i,)] + w * s
    return y


def cgstep(A, b, C, x):
    """first step from x"""
    r = {k: b[k] - v for k, v in apply(A, x).items()}
    z = apply(C, r) if C else r
    a = dot(r, z) * inv(dot(apply(A, z), z))
    return {k: x[k] + a * z[k] for k in x}


def case(p, f, kind, n, lay, m, mats=None, start=None):
    ins = [i for i, k in shaped.operands(p, f) if k in 'DSVW']
    pl = solvers.plan(p, f, n, lay, iters=m)
    mi = [i for i in ins if shaped.kindof(p, f['params'][i]['t']) in 'DS']
    vi = [i for i in ins if i not in mi]
    if len(mi) > 1 and shaped.kindof(p, f['params'][mi[1]]['t']) == 'S' and mats is None:
        pl[mi[1]] = ((n, n), tuple((a, a) for a in range(n)))
    vals = {}

    def facts(C, E, st, this, vs):
        for k, i in enumerate(mi):
            full = {(a, b): sym('%s%d%d' % ('ac'[k], a, b)) for a in range(n) for b in range(n)}
            if kind in ('cg', 'pcg'):
                full = {(a, b): full[min(a, b), max(a, b)] for a, b in full}
                if k == 1:
                    full = {(a, b): x if a == b else ZERO for (a, b), x in full.items()}
            if mats is not None:
                full = {ab: num(x) for ab, x in mats[k].items()}
            if pl[i][1] is not None:
                full = {ab: x if ab in set(pl[i][1]) else ZERO for ab, x in full.items()}
            exact.contents(C, E, st, i, full)
            vals[i] = ((n, n), full)
        if start is not None:
            exact.contents(C, E, st, vi[-1], {(k,): start[k] for k in range(n)})
            if n == 3:
                s = sym('s')
                exact.contents(C, E, st, vi[0], {(k,): s * num((1, 2, -1)[k]) for k in range(n)})
        for i in vi:
            vals[i] = entries(C, st, i)
        if kind in ('cg', 'pcg') and mats is None:
            for k, i in enumerate(mi):
                for a in range(n):
                    x = vals[i][1][a, a]
                    if x.const() is None:
                        st.facts += (f_gt(x),)
                if k == 0 and n == 2:
                    A = vals[i][1]
                    st.facts += (f_gt(A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]),)
        C.nums = [pval(shaped.value(E, st, vs, i)) for i, k in C.ops if k == 'T']
    C = solvers.Case(p, f, pl, stat='given', maxsteps=4000000 if sweep.THOROUGH else 500000, join=200, facts=facts)
    C.A.SPLIT = 5
    C.run()
    return C, [vals[i] for i in mi], [vals[i][1] for i in vi]


def small(st, q, eps, same=()):
    """q <= eps^2 on this path: (verdict, witness)"""
    if exact.zero(q):
        return True, ''
    g = eps * eps - q
    for f in st.facts:
        if f.kind in ('ge', 'gt') and (prop(f.args[0], g) or prop(plain(f.args[0]), g)):
            return True, ''
    for f in st.facts:
        if f.kind == 'eq' and any(prop(f.args[0], x, True) for x in (q,) + tuple(same)):
            return True, ''
    # a sum of squares is zero when an equation says so
    fs, pr = exact.solved(st.facts, [(q, ZERO)])
    if exact.impossible(fs) or all(exact.zero(a - b) for a, b in pr):
        return True, ''
    if not sure(st):
        return None, 'approximated path'
    w = None
    for few in (False, True):
        w = w or numeric.differ(st.facts + (f_gt(num(4) * q - num(5) * eps * eps),), [(TRUE, FALSE)], tries=400 if few else 60,
                                pos=lambda a: fine(a, eps) if few else None)
    return (False, shaped.wit(w)) if w else (None, 'not decided')


def fine(a, eps):
    s = eps.single() if eps.const() is None else None
    if s is not None and a.id == s.id:
        return [Fraction(1, 10), Fraction(1, 4), 2, 3]
    return [0, Fraction(1, 5), Fraction(1, 4), Fraction(1, 2), 1, 2, 3] if not a.isint and a.kind in ('sym', 'sel', 'fld') else None


def prop(f, g, sign=False):
    """f is a positive (with `sign`: any) multiple of g"""
    for k in sorted(g.m):
        if k in f.m and not any(ATOMS[i].kind == 'inv' for i in k):
            r = g.m[k] / f.m[k] if not isinstance(g.m[k], int) else Fraction(g.m[k]) / Fraction(f.m[k])
            return (sign or r > 0) and exact.zero(f * num(r) - g)
    return False


def unreal(st):
    """the path needs a value that is not finite"""
    for f in st.facts:
        neg = f.kind == 'not'
        g = f.args[0] if neg else f
        if isinstance(g, N) and g.kind == 'pred' and (g.args[0] == 'isfinite' and neg or g.args[0] in ('isnan', 'isinf') and not neg):
            return True
    return False


def plain(p):
    """absolute values of sums of squares dropped"""
    r = ZERO
    for k, c in p.m.items():
        t = num(c)
        for i in k:
            t = t * (pval(ATOMS[i].args[0]) if ATOMS[i].kind == 'abs' else toP(ATOMS[i]))
        r = r + t
    return r


def task(p, job):
    fid, kind, n, lay, m, mode = job
    f = p.fns[fid]
    res = []
    mats = start = None
    if mode in ('solve', 'stiff'):
        A = {(i, j): (3 + i if i == j else 1 if abs(i - j) == 1 else 0) for i in range(n) for j in range(n)}
        mats = [A, {(i, j): ((Fraction(1, 2), 3, 2)[i] if i == j else 0) for i in range(n) for j in range(n)}]
        if mode == 'stiff':
            mats[0] = {(0, 0): 100, (0, 1): 9, (1, 0): 9, (1, 1): 1}
        start = [ZERO] * n
    C, M, V = case(p, f, kind, n, lay, m, mats, start)
    b, x0 = V
    eps = C.nums[-1]
    w = C.nums[0] if len(C.nums) > 1 else None
    res.append((RULES[3], True, ''))
    seen = set()
    for st, v in C.outs:
        if unreal(st):
            continue
        k = c15.stat(C, st).const()
        x = entries(C, st, v)
        if k is None or x is None:
            res.append((RULES[3], None, 'counter or result not constant'))
            continue
        x = x[1]
        k = int(k)
        seen.add(k)
        it = [x0]
        if kind in ('jacobi', 'sor'):
            for _ in range(k):
                it.append(nxt(kind, M[0], b, it[-1], w))
            q, t = same(st, [(x[i], it[k][i]) for i in sorted(x)])
            res.append((RULES[0], q, 'after %d steps: %s' % (k, t) if q is not True else ''))
            if 0 < k < m:
                q, t = small(st, dot({i: it[k][i] - it[k - 1][i] for i in x}, {i: it[k][i] - it[k - 1][i] for i in x}), eps)
                res.append((RULES[1], q, 'stops after %d of %d steps although the last one was longer than the tolerance%s' % (k, m, t)))
            elif k < m:
                wt = sure(st) and numeric.differ(st.facts, [(TRUE, FALSE)])
                res.append((RULES[1], False if wt else None, 'stops before the first step%s' % (shaped.wit(wt) if wt else '')))
        else:
            if mode == 'step' and k <= 1:
                y = cgstep(M[0], b, M[1] if kind == 'pcg' else None, x0) if k else x0
                q, t = same(st, [(x[i], y[i]) for i in sorted(x)])
                res.append((RULES[0], q, 'after %d steps: %s' % (k, t) if q is not True else ''))
            if mode in ('solve', 'stiff') and k == n:
                q, t = same(st, [(y, b[i]) for i, y in sorted(apply(M[0], x).items())])
                res.append((RULES[2], q, t))
            if k < m:
                r = {i: b[i] - y for i, y in apply(M[0], x).items()}
                q, t = small(st, dot(r, r), eps, [dot(r, apply(M[1], r))] if kind == 'pcg' else [])
                res.append((RULES[1], q, 'stops after %d of %d steps although the residual exceeds the tolerance%s' % (k, m, t)))
    if m and not any(k == m for k in seen) and kind in ('jacobi', 'sor') and all((i, i) in lay for i in range(n)):
        res.append((RULES[4], None, 'never performs %d steps' % m))
    for st, ty, e in C.thr + C.A.ended():
        if not sure(st) or mode != 'step' or unreal(st):
            continue
        A = M[0][1]
        if any(A[i, i].const() == 0 for i in range(n)):
            continue
        good = tuple(f_gt(A[i, j] - num(4)) if i == j else f_ge(num(1) - toP(node('abs', (A[i, j],)))) for i, j in A if A[i, j].const() is None)
        wt = numeric.differ(st.facts + good, [(TRUE, FALSE)], pos=lambda a: hint(a, A))
        res.append((RULES[4], False if wt else True, 'throws %s%s' % (p.ty(ty).s if isinstance(ty, int) else ty, shaped.wit(wt) if wt else '')))
    return res


def hint(a, A):
    for (i, j), x in A.items():
        s = x.single() if x.const() is None else None
        if s is not None and s.id == a.id:
            return [5, 6, 7] if i == j else [-1, 1, 0]
    return None


def run():
    rep = Report('C41')
    p = ir.load()
    jobs = []
    for f in solvers.entries(p):
        kind = NAMES.get(solvers.name(f))
        if kind is None or exact.iscplx(p, f):
            continue
        sp = solvers.inputs_sparse(p, f)
        k = solvers.size(p, f)
        for n in ((k,) if k else (1, 2, 3, 4)):
            L = solvers.LAY4 if n == 4 else solvers.LAY[n] if sp else solvers.LAY[n][:1]
            if kind in ('jacobi', 'sor'):
                for lay in L:
                    for m in ((1, 2) if n < 3 else (1,)):
                        jobs.append((f['id'], kind, n, lay, m, 'step'))
            elif n < 4:
                for lay in [l for l in L if all((b, a) in l for a, b in l) and all((i, i) in l for i in range(n))]:
                    jobs.append((f['id'], kind, n, lay, 1, 'step'))
                A = tuple((i, j) for i in range(n) for j in range(n) if abs(i - j) < 2)
                jobs.append((f['id'], kind, n, A, n, 'solve'))
                if n == 2:
                    jobs.append((f['id'], kind, n, A, n, 'stiff'))
    fns = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%dx%d%s, maximum %d)' % (f['q'], job[2], job[2], ', entries %s' % (job[3],) if solvers.inputs_sparse(p, f) else '', job[4])
        if r is None:
            rep.ob(RULES[3], None, '%s: %s' % (what, err))
            continue
        fns.add(f['q'])
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s at %s' % (what, text, f['l']))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for i in (0, 1):
        rep.need(RULES[i], 3)
    rep.cov['functions'] = sorted(fns)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every iterative solver is interpreted with constant maxima on systems of 1 to 3 unknowns with unknown entries, right-hand side, start '
        'value, tolerance and weight. The result at each exit is a rational function; it is compared with as many steps of the defining '
        'recurrence as the counter says. An exit before the maximum must carry a path fact that bounds the last step (stationary methods) or '
        'the residual (conjugate gradients) by the tolerance. Conjugate gradients on a fixed positive definite system must return the exact '
        'solution after as many steps as unknowns.')
