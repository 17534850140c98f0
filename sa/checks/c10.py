"""C10: quadrature rules integrate polynomials of their order exactly."""
import itertools
from fractions import Fraction
from math import factorial

import ir
import meshes
import numeric
import poly
import sized
import sweep
from common import Report
from engine import Stop, pval, mkptr
from meshes import MAna, method, run1
from shaped import wit
from terms import P, ATOMS, ZERO, ONE, num, toP, node, show, subst, f_eq

RULES = ('one weight per point', 'points lie inside the unit simplex', 'moments up to the degree are exact',
         'every point counts once with its own weight', 'evaluation starts from the start value', 'points are visited with their index',
         'construction and evaluation complete')
EPS = Fraction(1, 10 ** 11)


def degree(K, order):
    return 2 * order - 1 if K == 1 else order


def moment(e):
    r = Fraction(1, factorial(sum(e) + len(e)))
    for x in e:
        r *= factorial(x)
    return r


def mons(K, d):
    return [e for e in itertools.product(range(d + 1), repeat=K) if sum(e) <= d]


def opaque(A, st, p, f, this):
    st, r = run1(A, st, f, this, [])
    return st, (A.read(st, r) if r.kind == 'ptr' else r)


def table(p, rec):
    """points and weights of a freshly constructed rule"""
    A = MAna(p, maxsteps=200000)
    ctor = method(p, rec, None, 0)
    out = {}

    def setup(E, st, this, vs):
        out['this'] = this
        return st
    outs, thr = A.entry(ctor, setup=setup)
    if A.bad or thr:
        return A, None, None, None
    if len(outs) != 1:
        raise Stop('%d exits of the constructor' % len(outs))
    st = outs[0][0]
    res = []
    for nm in ('getQuadraturePoints', 'getQuadratureWeights'):
        s, v = opaque(A, st.fork(), p, method(p, rec, nm, 0), out['this'])
        n = v.args[0].const()
        if n is None:
            raise Stop('unknown number of ' + nm)
        res.append([A.cread(s, v.args[1], num(i)) for i in range(int(n))])
    pts = []
    for x in res[0]:
        c = sized.container(x)
        pts.append(tuple(pval(A.cread(st, c.args[1], num(i))).const() for i in range(int(c.args[0].const()))))
    return A, st, pts, [pval(x).const() for x in res[1]]


def factory(p, rec):
    t = p.strip(rec)
    r = p.rec(t.i)
    for b in (r.get('bases') or []):
        i = b['t'] if isinstance(b, dict) else b
        if p.strip(i).name == 'NS::GaussLegendreQuadratureFactory':
            return p.strip(i).i
    return None


def task(p, job):
    kind, rec, K, order, fid = job
    res = []
    if kind == 'table':
        A, st, pts, ws = table(p, rec)
        if pts is None:
            for w, e, t in A.bad:
                res.append((RULES[6], False if w else None, t + wit(w)))
            return res or [(RULES[6], None, 'constructor throws')]
        res.append((RULES[6], True, ''))
        res.append((RULES[0], len(pts) == len(ws), '%d points, %d weights' % (len(pts), len(ws))))
        if any(x is None for q in pts for x in q) or None in ws:
            return res + [(RULES[2], None, 'points are not constant')]
        for q in pts:
            ok = all(x >= -EPS for x in q) and sum(q) <= 1 + EPS and len(q) == K
            res.append((RULES[1], ok, 'point (%s)' % ', '.join('%.15g' % x for x in q)))
        for e in mons(K, degree(K, order)):
            s = 0
            for q, w in zip(pts, ws):
                t = Fraction(w)
                for x, k in zip(q, e):
                    t *= Fraction(x) ** k
                s += t
            m = moment(e)
            res.append((RULES[2], abs(s - m) <= EPS, 'the integral of %s is %.15g instead of %s' % ('*'.join('x%d^%d' % (i, k) for i, k in enumerate(e) if k) or '1', s, m)))
        return res
    # evaluation
    f = p.fns[fid]
    fac = [i for i in factories(p) if nums(p, i) == [K, order]]
    if not fac:
        return [(RULES[6], None, 'no rule')]
    _, _, pts, ws = table(p, fac[0])
    A = MAna(p, maxsteps=200000)
    g = {}

    def setup(E, st, this, vs):
        ctor = method(p, f['rec'], None, 0)
        st = run1(E, st, ctor, this, [])[0]
        c = [toP(node('sym', ('c%d' % i,), 0)) for i in range(10)]
        d = [toP(node('sym', ('d%d' % i,), 0)) for i in range(10)]
        meshes.setf(E, st, vs[0], c=meshes.mkarr(num(10), node('clist', (tuple(c),))), d=meshes.mkarr(num(10), node('clist', (tuple(d),))))
        g['c'], g['d'] = c, d
        g['s'] = toP(node('sym', ('start',), 0))
        if len(vs) > 1:
            E.write(st, vs[1], g['s'])
        return st
    outs, thr = A.entry(f, setup=setup)
    for w, e, t in A.bad:
        res.append((RULES[6], False if w else None, t + wit(w)))
    for st, ty, e in thr:
        w = A.sure(st)
        res.append((RULES[6], False if w else None, 'throws' + wit(w)))
    index = 'index' in ir.plain(f['q']).split('::')[-1]
    want = g['s']
    for i, (q, w) in enumerate(zip(pts, ws)):
        x = num(q[0])
        y = num(q[K - 1]) if K > 1 else ZERO
        c, d = g['c'], g['d']
        t = c[0] + c[1] * x + c[2] * y + c[3] * x * x + c[4] * x * y + c[5] * y * y + c[6] * x * x * x + c[7] * x * x * y + c[8] * x * y * y + c[9] * y * y * y
        if K == 1:
            t = t + d[0] * x * x * x * x + d[1] * x * x * x * x * x
        if index:
            t = t * d[i]
        want = want + num(w) * t
    for st, v in outs:
        v = pval(A.read(st, v) if getattr(v, 'kind', '') == 'ptr' else v)
        res.append((RULES[6], True, ''))
        sid = g['s'].single().id
        for rule, mp in ((RULES[4], {x.single().id: ZERO for x in g['c'] + g['d']}), (RULES[5] if index else RULES[3], {sid: ZERO})):
            a, b = toP(subst(v, mp)), toP(subst(want, mp))
            if poly.small(a - b, EPS):
                res.append((rule, True, ''))
                continue
            w = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(a, b)])
            res.append((rule, False if w else None, 'the result is %s instead of %s%s' % (show(a)[:200], show(b)[:200], wit(w))))
    return res


def nums(p, i):
    return [int(x['i']) for x in p.ty(i).targs if 'i' in x]


def factories(p):
    out = []
    for f in p.lib():
        if f.get('rec') is None:
            continue
        t = p.strip(f['rec'])
        if t.name == 'NS::GaussLegendreQuadratureFactory' and t.i not in out and not t.s.startswith('const'):
            out.append(t.i)
    return sorted(out)


def run():
    rep = Report('C10')
    p = ir.load()
    jobs = [('table', i, *nums(p, i), None) for i in factories(p)]
    for f in p.lib():
        if f.get('rec') is None or p.strip(f['rec']).name != 'NS::Quadrature' or f.get('ctor'):
            continue
        if ir.plain(f['q']).split('::')[-1] not in ('eval', 'eval_index') or p.strip(f['params'][0]['t']).name is None or not p.strip(f['params'][0]['t']).name.endswith('Probe'):
            continue
        jobs.append(('eval', f['rec'], *nums(p, p.strip(f['rec']).i), f['id']))
    rep.cov['rules analysed'] = [p.ty(i).s for i in factories(p)]
    for job, r, err, dt in sweep.run(p, task, jobs):
        kind, rec, K, order, fid = job
        f = p.fns[fid] if fid else method(p, rec, None, 0)
        what = '%s, dimension %d, order %d' % (f['q'], K, order)
        if r is None:
            rep.ob(RULES[6], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%d,%d:%s' % (ir.plain(f['q']), K, order, rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for x, n in zip(RULES, (6, 13, 25, 6, 12, 6, 18)):
        rep.need(x, n)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('The constructor of every rule is interpreted; its constant points and weights are compared with the exact moments of the unit '
        'simplex. eval and eval_index are interpreted with a function of unknown coefficients; the result must be the polynomial start + sum of weight * value.')
