"""C40: factorisations, triangular solutions and approximate inverses satisfy their defining identities."""
import exact
import ir
import numeric
import shaped
import sized
import solvers
import sweep
from common import Report
from engine import Stop, pval
from exact import entries, mul, apply, eye, transpose, same, sure, sym
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ge, f_gt, f_eq, f_ne, show

RULES = ('the factors are triangular with the promised diagonal', 'the product of the factors is the (permuted) input', 'the pivot matrix is a permutation',
         'multipliers do not exceed one', 'entries outside the pattern stay empty', 'the result solves the system', 'the inverses invert the factors',
         'function analysed', 'an invertible leading pivot is accepted')
NAMES = {'LU::doolittle': 'lu', 'LU::cholesky': 'chol', 'LU::ilu0': 'ilu', 'LU::solve_lu': 'solve', 'LU::ainv_lu': 'ainv', 'CG::jacobi': 'diag'}


def tri(n, lower, strict=False):
    return [(i, j) for i in range(n) for j in range(n) if (i > j if lower else i < j) or (i == j and not strict)]


def lowers(n):
    full = tri(n, True)
    r = [tuple(full), tuple((i, i) for i in range(n))]
    if n == 4:
        d = solvers.D4
        return [tuple(sorted(d + x)) for x in ((), ((3, 0),), ((2, 0), (3, 1)), ((3, 0), (3, 1), (3, 2)), ((1, 0), (2, 0), (3, 0)), ((1, 0), (3, 2)))]
    if n == 3:
        r += [((0, 0), (1, 1), (2, 0), (2, 2)), ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2))]
    return r


def bound(st, x):
    """abs(x) <= 1 on this path: read off a comparison of two absolute values"""
    if x.const() is not None:
        return abs(x.const()) <= 1
    ge = {}
    for f in st.facts:
        if f.kind not in ('ge', 'gt'):
            continue
        t = list(f.args[0].m.items())
        if len(t) != 2 or any(len(k) != 1 or ATOMS[k[0]].kind != 'abs' for k, c in t):
            continue
        (a, ca), (b, cb) = t
        if ca < 0:
            a, ca, b, cb = b, cb, a, ca
        if ca == 1 and cb == -1:
            ge.setdefault(a[0], set()).add(b[0])
    for a in ge:
        seen, work = set(), [a]
        while work:
            y = work.pop()
            for z in ge.get(y, ()):
                if z not in seen:
                    seen.add(z)
                    work.append(z)
        d = pval(ATOMS[a].args[0])
        for b in seen:
            n = pval(ATOMS[b].args[0])
            if exact.zero(x * d - n) or exact.zero(x * d + n):
                return True
    return exact.impossible(st.facts)


def check(C, f, kind, n, cplx, pre):
    """[(rule, verdict, text)]"""
    p = C.p
    res = []
    outs = solvers.outputs(p, f)
    for st, v in C.outs:
        def ob(rule, pairs, what):
            q, t = same(st, pairs, cplx)
            res.append((RULES[rule], q, '%s: %s' % (what, t) if q is not True else ''))
        E = {i: entries(C, st, i) for i in outs}
        if any(x is None for x in E.values()):
            res.append((RULES[7], None, 'outputs of unknown shape'))
            continue
        if any(x[0] != (n, n) for x in E.values()):
            w = sure(st) and numeric.differ(st.facts, [(TRUE, FALSE)])
            res.append((RULES[1], False if w else None, 'an output has the shape %s' % ([x[0] for x in E.values()],)))
            continue
        if kind == 'lu':
            A = pre[0]
            L, U, Q = (E[i] for i in outs)
            ob(0, [(L[1][i, j], ZERO) for i, j in tri(n, False, True)] + [(L[1][i, i], ONE) for i in range(n)], 'left factor')
            ob(0, [(U[1][i, j], ZERO) for i, j in tri(n, True, True)], 'right factor')
            ob(1, [(a, b) for a, b in zip(mul(Q, A)[1].values(), mul(L, U)[1].values())], 'product')
            c = {k: x.const() for k, x in Q[1].items()}
            if None in c.values():
                res.append((RULES[2], None, 'no constant pivot matrix'))
            else:
                good = set(c.values()) <= {0, 1} and all(sum(c[i, j] for j in range(n)) == 1 for i in range(n)) and all(sum(c[i, j] for i in range(n)) == 1 for j in range(n))
                w = good or sure(st) and numeric.differ(st.facts, [(TRUE, FALSE)])
                res.append((RULES[2], True if good else False if w else None, 'pivot matrix %s' % sorted(c.items())))
            if not cplx:
                for i, j in tri(n, True, True):
                    x = L[1][i, j]
                    if bound(st, x):
                        res.append((RULES[3], True, ''))
                        continue
                    if not sure(st):
                        res.append((RULES[3], None, 'approximated path'))
                        continue
                    g = f_gt(toP(node('abs', (x,))) - ONE - toP(num(1)) * num(0)) if x.const() is None else None
                    w = numeric.differ(st.facts + ((g,) if g is not None else ()), [(TRUE, FALSE)])
                    res.append((RULES[3], False if w else None, 'multiplier (%d, %d) of %s can exceed one%s' % (i, j, show(x)[:60], shaped.wit(w) if w else '')))
        elif kind == 'chol':
            A = pre[0]
            (L,) = E.values()
            ob(0, [(L[1][i, j], ZERO) for i, j in tri(n, False, True)], 'factor')
            ob(1, [(a, A[1][k]) for k, a in mul(L, transpose(L))[1].items()], 'product')
            for i in range(n):
                x = L[1][i, i]
                if C.A.holds(st, f_ge(x)):
                    res.append((RULES[0], True, ''))
                else:
                    w = sure(st) and numeric.differ(st.facts + (f_gt(ZERO - x),), [(TRUE, FALSE)])
                    res.append((RULES[0], False if w else None, 'diagonal entry %d is negative%s' % (i, shaped.wit(w) if w else '')))
        elif kind == 'ilu':
            A = pre[0]
            L, U = (E[i] for i in outs)
            pat = {k for k, x in A[1].items() if x.const() != 0}
            ob(0, [(L[1][i, j], ZERO) for i, j in tri(n, False, True)] + [(L[1][i, i], ONE) for i in range(n) if (i, i) in pat], 'left factor')
            ob(0, [(U[1][i, j], ZERO) for i, j in tri(n, True, True)], 'right factor')
            ob(4, [((L if i > j else U)[1][i, j], ZERO) for i in range(n) for j in range(n) if (i, j) not in pat and i != j], 'pattern')
            if all((i, i) in pat for i in range(n)):
                pr = mul(L, U)
                ob(1, [(pr[1][k], A[1][k]) for k in sorted(pat)], 'product')
        elif kind == 'solve':
            x = entries(C, st, v)
            if x is None or x[0] != (n,):
                res.append((RULES[5], None, 'no vector of constant size'))
                continue
            b = pre[2][1]
            r = apply(pre[0], apply(pre[1], x[1]))
            ob(5, [(r[k], b[k]) for k in sorted(b)], 'solution')
        elif kind == 'ainv':
            X, Y = (E[i] for i in outs)
            for what, a, i in (('left', X, pre[0]), ('right', Y, pre[1])):
                ob(6, [(q, eye(n)[1][k]) for k, q in mul(a, i)[1].items()], what + ' inverse')
        elif kind == 'diag':
            (X,) = E.values()
            A = pre[0]
            ob(6, [(X[1][i, j] * (A[1][i, i] if i == j else ONE), ONE if i == j else ZERO) for i, j in X[1]], 'preconditioner')
    return res


def refused(C, st, f, kind, n, pre):
    """an input of the method that must not be refused: every pivot is at least one"""
    A = pre[0][1]
    if kind in ('chol', 'lu', 'ilu', 'diag'):
        good = [f_eq(A[i, j] - num(7 + i)) if i == j else f_eq(A[i, j] - num(1)) if A[i, j].const() is None else TRUE for i, j in A]
        if any(A[i, i].const() == 0 for i in range(n)):
            return None
    else:
        good = [f_eq(A[i, i] - num(1)) for i in range(n) if A[i, i].const() is None] + [f_eq(pre[1][1][i, i] - num(2)) for i in range(n)]
        if any(x.const() == 0 for x in (pre[1][1][i, i] for i in range(n))):
            return None
    return good


def case(p, f, kind, n, lay, cplx):
    pl = solvers.plan(p, f, n, lay if kind not in ('solve', 'ainv') else None)
    ins = [i for i, k in shaped.operands(p, f) if i not in solvers.outputs(p, f) and k in 'DSVW']
    if kind in ('solve', 'ainv'):
        up = tuple(sorted((j, i) for i, j in lay))
        for i, c in zip(ins[:2], (lay, up)):
            if shaped.kindof(p, f['params'][i]['t']) == 'S':
                pl[i] = ((n, n), c)
    vals = {}

    def facts(C, E, st, this, vs):
        for k, i in enumerate(ins):
            kd = shaped.kindof(p, f['params'][i]['t'])
            if kd in 'VW':
                continue
            m = {(a, b): sym('%s%d%d' % ('abc'[k], a, b)) for a in range(n) for b in range(n)}
            if kind == 'chol':
                m = {(a, b): m[max(a, b), min(a, b)] for a, b in m}
            if kind in ('solve', 'ainv'):
                low = k == 0
                keep = set(lay) if low else {(b, a) for a, b in lay}
                m = {ab: x if ab in keep else ZERO for ab, x in m.items()}
                if kind == 'ainv' and low:
                    for a in range(n):
                        m[a, a] = ONE
            if n > 3 and kd != 'S' and kind not in ('solve', 'ainv'):
                m = {ab: x if ab in set(lay) else ZERO for ab, x in m.items()}
            exact.contents(C, E, st, i, m)
            if kd == 'S':
                keep = {q for q in pl[i][1]}
                m = {ab: x if ab in keep else ZERO for ab, x in m.items()}
            vals[k] = ((n, n), m)
        for k, i in enumerate(ins):
            if k not in vals:
                vals[k] = entries(C, st, i)
    C = solvers.Case(p, f, pl, stat='null', maxsteps=5000000 if sweep.THOROUGH else 500000, join=400, facts=facts)
    C.run()
    return C, vals


def task(p, job):
    fid, kind, n, lay = job
    f = p.fns[fid]
    cplx = exact.iscplx(p, f)
    C, pre = case(p, f, kind, n, lay, cplx)
    res = [(RULES[7], True, '')]
    if not C.outs and (kind in ('solve', 'ainv') or all((i, i) in lay for i in range(n))):
        res.append((RULES[8], None, 'never returns'))
    res += check(C, f, kind, n, cplx, pre)
    for st, ty, e in C.thr + C.A.ended():
        if not sure(st):
            continue
        g = refused(C, st, f, kind, n, pre)
        if g is None:
            continue
        w = numeric.differ(st.facts + tuple(x for x in g if x is not TRUE), [(TRUE, FALSE)], cplx=False, pos=lambda a: hint(a, pre, kind))
        res.append((RULES[8], False if w else True, 'throws %s%s' % (p.ty(ty).s if isinstance(ty, int) else ty, shaped.wit(w) if w else '')))
    return res


def hint(a, pre, kind):
    """values of a well behaved system for the entries"""
    for k in pre:
        if len(pre[k][0]) != 2:
            continue
        for (i, j), x in pre[k][1].items():
            s = x.single() if x.const() is None else None
            if s is not None and s.id == a.id:
                if kind in ('chol', 'lu', 'ilu', 'diag'):
                    return [7 + i] if i == j else [1]
                return [1 + k] if i == j else [-1, 2, 3]
    return None


def jobs_of(p):
    jobs = []
    for f in solvers.entries(p):
        kind = NAMES.get(solvers.name(f))
        if kind is None:
            continue
        cplx = exact.iscplx(p, f)
        if kind == 'chol' and cplx:
            continue
        k = solvers.size(p, f)
        for n in ((k,) if k else (1, 2, 3, 4)):
            sp = solvers.inputs_sparse(p, f)
            if kind in ('solve', 'ainv'):
                L = lowers(n)
                if not sp and n < 4:
                    L = L[:1]
            elif n == 4:
                L = solvers.LAY4
            elif kind == 'chol':
                L = [x for x in solvers.LAY[n] if all((j, i) in x for i, j in x)] if sp else solvers.LAY[n][:1]
            else:
                L = solvers.LAY[n] if sp else solvers.LAY[n][:1]
            for lay in L:
                jobs.append((f['id'], kind, n, lay))
    return jobs


def run():
    rep = Report('C40')
    p = ir.load()
    jobs = jobs_of(p)
    fns = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%dx%d%s)' % (f['q'], job[2], job[2], ', entries %s' % (job[3],) if solvers.inputs_sparse(p, f) else '')
        if r is None:
            rep.ob(RULES[7], None, '%s: %s' % (what, err))
            continue
        fns.add(f['q'])
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s at %s' % (what, text, f['l']))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for i in (0, 1, 2, 3, 4, 5, 6, 8):
        rep.need(RULES[i], 3)
    rep.cov['functions'] = sorted(fns)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every factorisation, triangular solver, approximate inverse and preconditioner is interpreted on matrices of 1x1 to 3x3 unknown entries '
        '(sparse ones with listed stored positions). At every returning exit the entries of the results are rational functions of the input '
        'entries; the defining identities (P A = L U, L L^T = A, (L U) = A on the pattern, L U x = b, X L = 1) are checked by clearing denominators.')
