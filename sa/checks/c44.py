"""C44: determinants, inverses and norms are the exact functions of the entries."""
import exact
import ir
import itertools
import numeric
import poly
import shaped
import solvers
import sweep
from common import Report
from engine import Stop, pval
from exact import entries, mul, eye, same, sure, sym
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ge, f_gt, f_eq, f_ne, show
from checks import c40

RULES = ('the determinant is the sum over all permutations', 'a zero determinant is reported for singular and non-square matrices only', 'the inverse times the matrix is the identity',
         'a well behaved matrix has an inverse', 'function analysed')
NAMES = {'Operations::determinant': 'det', 'Operations::inverse': 'inv'}


def leibniz(m, n):
    s = ZERO
    for q in itertools.permutations(range(n)):
        t = ONE
        for i in range(n):
            t = t * m[i, q[i]]
        neg = sum(1 for i in range(n) for j in range(i) if q[j] > q[i]) % 2
        s = s - t if neg else s + t
    return s


def case(p, f, kind, shape, lay):
    ins = [i for i, k in shaped.operands(p, f) if k in 'DS']
    pl = {}
    for k, i in enumerate(ins):
        if shaped.kindof(p, f['params'][i]['t']) == 'S':
            c = lay[k]
            pl[i] = (shape, c)
        else:
            pl[i] = (shape, None)
    vals = {}
    n = shape[0]

    def facts(C, E, st, this, vs):
        for k, i in enumerate(ins):
            m = {(a, b): sym('%s%d%d' % ('abc'[k], a, b)) for a in range(shape[0]) for b in range(shape[1])}
            if lay[k] is not None:
                keep = set(lay[k])
                m = {ab: x if ab in keep else ZERO for ab, x in m.items()}
            if kind == 'inv' and len(ins) > 1:
                if k == 0:
                    for a in range(n):
                        m[a, a] = ONE
                if k == 2:
                    m = {ab: ONE if ab in set(lay[k]) else ZERO for ab in m}
            exact.contents(C, E, st, i, m)
            vals[k] = (shape, m)
    C = solvers.Case(p, f, pl, stat='null', maxsteps=4000000 if sweep.THOROUGH else 1800000 if n == 4 and len(ins) == 2 else 600000, join=400, facts=facts)
    C.run()
    return C, vals


def task(p, job):
    fid, kind, shape, lay = job
    f = p.fns[fid]
    cplx = exact.iscplx(p, f)
    C, pre = case(p, f, kind, shape, lay)
    res = [(RULES[4], True, '')]
    n = shape[0]
    if kind == 'det':
        d = leibniz(pre[0][1], n) if shape[0] == shape[1] else ZERO
        for st, v in C.outs:
            x = pval(v)
            if x.const() is not None and x.const() == 0:
                # a zero may also mean "singular up to rounding": a refutation needs a matrix far from that
                if shape[0] != shape[1] or exact.zero(d):
                    res.append((RULES[1], True, ''))
                    continue
                w = sure(st) and numeric.differ(st.facts + tuple(well(pre, n)), [(d, ZERO)], pos=lambda a: hint(a, pre))
                res.append((RULES[1], False if w else True, 'returns zero%s' % (shaped.wit(w) if w else '')))
                continue
            q, t = same(st, [(x, d)], cplx)
            res.append((RULES[0] if shape[0] == shape[1] else RULES[1], q, t))
    else:
        ops = len(pre)
        for st, v in C.outs:
            X = entries(C, st, v)
            if X is None or X[0] != (n, n):
                res.append((RULES[2], None, 'no matrix of constant shape'))
                continue
            if ops == 1:
                pr = mul(pre[0], X)
                want = eye(n)
            elif ops == 2:
                pr = mul(mul(pre[0], pre[1]), X)
                want = eye(n)
            else:
                pr = mul(mul(pre[0], pre[1]), X)
                want = pre[2]
            q, t = same(st, [(pr[1][k], want[1][k]) for k in sorted(pr[1])], cplx)
            res.append((RULES[2], q, t))
        if not C.outs and not (shape[0] == shape[1] and exact.zero(leibniz(pre[0][1], n))):
            res.append((RULES[3], None, 'never returns'))
    for st, ty, e in C.thr + C.A.ended():
        if not sure(st) or shape[0] != shape[1]:
            continue
        w = numeric.differ(st.facts + tuple(well(pre, n)), [(TRUE, FALSE)], pos=lambda a: hint(a, pre))
        if w and exact.zero(leibniz(pre[0][1], n)):
            w = None
        res.append((RULES[3], False if w else True, 'throws %s%s' % (p.ty(ty).s if isinstance(ty, int) else ty, shaped.wit(w) if w else '')))
    return res


def well(pre, n):
    """diagonally dominant entries"""
    out = []
    for k in pre:
        m = pre[k][1]
        if any(m[i, i].const() == 0 for i in range(n)):
            return [FALSE]
        for (i, j), x in m.items():
            if x.const() is None:
                out.append(f_gt(x - num(4)) if i == j else f_ge(num(1) - toP(node('abs', (x,)))))
    return out


def hint(a, pre):
    for k in pre:
        for (i, j), x in pre[k][1].items():
            s = x.single() if x.const() is None else None
            if s is not None and s.id == a.id:
                return [5, 6, 7] if i == j else [-1, 1, 0]
    return None


def run():
    rep = Report('C44')
    p = ir.load()
    jobs = []
    for f in sweep.entries(p):
        kind = NAMES.get(ir.plain(f['q'])[4:])
        if kind is None or f.get('rec') is not None:
            continue
        ins = [i for i, k in shaped.operands(p, f) if k in 'DS']
        if len(ins) != len(f['params']) or not ins:
            continue
        sp = solvers.inputs_sparse(p, f)
        fx = shaped.fixed(p, f, ins[0])
        for shape in ([fx] if fx else [(1, 1), (2, 2), (3, 3), (4, 4)] + ([(2, 3), (3, 2)] if kind == 'det' else [])):
            n = shape[0]
            if shape[0] != shape[1]:
                full = tuple((i, j) for i in range(shape[0]) for j in range(shape[1]))
                jobs.append((f['id'], kind, shape, (full if sp else None,)))
                continue
            if len(ins) == 1:
                for lay in (solvers.LAY4[:5 if kind == 'det' and not sp else 2 if not sp or kind == 'det' else 1] if n == 4 else solvers.LAY[n] if sp else [None]):
                    jobs.append((f['id'], kind, shape, (lay,)))
            else:
                perms = [tuple((i, q[i]) for i in range(n)) for q in itertools.permutations(range(n)) if n < 4 or q in ((0, 1, 2, 3), (1, 2, 3, 0), (2, 0, 3, 1))]
                for lay in (c40.lowers(4)[:2 if sp else 6] if n == 4 else c40.lowers(n) if sp else c40.lowers(n)[:1]):
                    up = tuple(sorted((j, i) for i, j in lay))
                    for q in (perms if len(ins) == 3 else [None]):
                        jobs.append((f['id'], kind, shape, (lay, up) + ((q,) if q else ())))
    fns = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s %s (%dx%d%s)' % (f['q'], ', '.join(p.ty(x['t']).s for x in f['params'])[:80], job[2][0], job[2][1], ', entries %s' % (job[3],) if job[3][0] is not None else '')
        if r is None:
            rep.ob(RULES[4], None, '%s: %s' % (what, err))
            continue
        fns.add(f['q'])
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s at %s' % (what, text, f['l']))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for i in (0, 1, 2):
        rep.need(RULES[i], 3)
    rep.cov['functions'] = sorted(fns)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('determinant and inverse are interpreted on matrices of 1x1 to 3x3 unknown entries (sparse ones with listed stored positions). The value '
        'at every exit is a rational function of the entries; it is compared with the Leibniz sum, and the inverse multiplied with the matrix '
        '(or the factors) with the identity (or the pivot matrix), by clearing denominators.')
