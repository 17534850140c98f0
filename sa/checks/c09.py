"""C09: shape functions form a nodal basis and gradients are their derivatives."""
import itertools
from fractions import Fraction

import ir
import meshes
import numeric
import poly
import sweep
from common import Report
from engine import Stop, pval
from meshes import MAna
from shaped import wit
from terms import P, ATOMS, ZERO, ONE, num, toP, node, show, subst

RULES = ('one at the own node, zero at the others', 'components are listed in node order', 'sum of all components is one',
         'without node values every value is one', 'gradient is the first derivative', 'gradient2 is the pure second derivative',
         'evaluation completes')
EPS = Fraction(1, 10 ** 9)
# documented node order of the triangle (vertices, then the edges 0-1, 1-2, 2-0, then the interior)
ORDER = {(1, 1): [(0,), (1,)], (1, 2): [(0,), (2,), (1,)],
         (2, 1): [(0, 0), (1, 0), (0, 1)],
         (2, 2): [(0, 0), (2, 0), (0, 2), (1, 0), (1, 1), (0, 1)],
         (2, 3): [(0, 0), (3, 0), (0, 3), (1, 0), (2, 0), (2, 1), (1, 2), (0, 2), (0, 1), (1, 1)],
         (3, 1): [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}


def grid(K, order):
    return [q for q in itertools.product(range(order + 1), repeat=K) if sum(q) <= order]


def args_of(p, f):
    """(component, point, node values) positions"""
    vecs = [i for i, x in enumerate(f['params']) if p.strip(x['t']).name in ('NS::Vector', 'NS::FixedVector')]
    return vecs


def evaluate(p, f, K, comp):
    """exits of a shape function call with symbolic point and node values: (engine, [(state, value, point atoms, node atoms)])"""
    A = MAna(p, maxsteps=200000)
    g = {}

    def setup(E, st, this, vs):
        vs[0] = num(comp)
        xs = [toP(node('sym', ('x%d' % i,), 0)) for i in range(K)]
        E.write(st, vs[1], meshes.vecval(E, p.strip(f['params'][1]['t']).i, xs))
        g['x'] = xs
        g['n'] = None
        if len(f['params']) == 3:
            n = dofs(p, f)
            g['n'] = [toP(node('sym', ('n%d' % i,), 0)) for i in range(n)]
            E.write(st, vs[2], meshes.vecval(E, p.strip(f['params'][2]['t']).i, g['n']))
        g['args'] = vs
        return st
    outs, thr = A.entry(f, setup=setup)
    return A, outs, thr, g


def dofs(p, f):
    t = p.strip(f['rec'])
    n = [int(x['i']) for x in t.targs if 'i' in x]
    return len(grid(n[0], n[1]))


def result(A, st, v, K, vec):
    if not vec:
        return (pval(v),)
    import sized
    import engine as E_
    if isinstance(v, E_.N) and v.kind == 'ptr':
        v = A.read(st, v)
    c = sized.container(v)
    if c is None or c.args[0].const() != K:
        raise Stop('no vector of dimension %d' % K)
    return tuple(pval(A.cread(st, c.args[1], num(i))) for i in range(K))


def task(p, job):
    ids, K, order = job
    fs = {k: p.fns[i] for k, i in ids.items()}
    comps = grid(K, order)
    n = len(comps)
    res = []
    val = {}
    for k, f in fs.items():
        name, arity = k
        for c in range(n):
            what = '%s, component %d%s' % (name, c, ', node values' if arity == 3 else '')
            try:
                A, outs, thr, g = evaluate(p, f, K, c)
            except Stop as x:
                res.append((k, RULES[6], None, '%s: stopped: %s' % (what, x)))
                continue
            for wt, e, t in A.bad:
                res.append((k, RULES[6], False if wt else None, '%s: %s at %s%s' % (what, t, e.get('l', '?'), wit(wt))))
            for st, ty, e in thr:
                w = A.sure(st)
                res.append((k, RULES[6], False if w else None, '%s: throws%s' % (what, wit(w))))
            vals = []
            for st, v in outs:
                try:
                    vals.append((A, st, result(A, st, v, K, name != 'value')))
                except Stop as x:
                    res.append((k, RULES[6], None, '%s: %s' % (what, x)))
            if vals:
                res.append((k, RULES[6], True, ''))
            val[k, c] = vals, g

    def same(k, rule, A, st, a, b, text):
        d = a - b
        if poly.small(d, EPS) or A.holds(st, meshes.f_eq(d)):
            res.append((k, rule, True, ''))
            return
        w = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(a, b)])
        res.append((k, rule, False if w else None, '%s is %s instead of %s%s' % (text, show(a), show(b), wit(w))))

    def one(k, c):
        """the value of the only exit"""
        l = val.get((k, c))
        if not l or len(l[0]) != 1:
            return None
        return l

    V3, V2 = ('value', 3), ('value', 2)
    # derivatives, per overload
    for c in range(n):
        for ar in (2, 3):
            v = one(('value', ar), c)
            if v is None:
                for r in (4, 5):
                    res.append((('value', ar), RULES[r], None, 'component %d has no single value' % c))
                continue
            (_, _, (vp,)), = v[0]
            ats = [x.single().id for x in v[1]['x']]
            if any(ATOMS[i].kind not in ('sym',) for i in vp.atoms()):
                for r in (4, 5):
                    res.append((('value', ar), RULES[r], None, 'component %d is no polynomial: %s' % (c, show(vp))))
                continue
            for name, r, d in (('gradient', 4, 1), ('gradient2', 5, 2)):
                k = (name, ar)
                if k not in fs:
                    continue
                for A, st, gs in (val.get((k, c)) or ((), 0))[0]:
                    for i in range(K):
                        want = vp
                        for _ in range(d):
                            want = poly.deriv(want, ats[i])
                        same(k, RULES[r], A, st, gs[i], want, '%s of component %d, direction %d' % (name, c, i))
        # overload without node values
        for name in ('value', 'gradient', 'gradient2'):
            a, b = one((name, 2), c), one((name, 3), c)
            if a is None or b is None:
                continue
            mp = {x.single().id: ONE for x in b[1]['n']}
            for x, y in zip(a[0][0][2], b[0][0][2]):
                same((name, 2), RULES[3], a[0][0][0], a[0][0][1], x, toP(subst(y, mp)), '%s of component %d' % (name, c))
    # nodal basis
    hits = {}
    tot = ZERO
    ok = True
    for c in range(n):
        v = one(V2, c)
        if v is None:
            ok = False
            continue
        (A, st, (vp,)), = v[0]
        tot = tot + vp
        for q in comps:
            mp = {x.single().id: num(_n(Fraction(z, order))) for x, z in zip(v[1]['x'], q)}
            y = toP(subst(vp, mp)).const()
            if y is None:
                res.append((V2, RULES[0], None, 'component %d has no constant value at a node' % c))
                ok = False
            elif abs(y - 1) < EPS:
                hits.setdefault(c, []).append(q)
            elif abs(y) > EPS:
                res.append((V2, RULES[0], False, 'component %d is %s at the node (%s)' % (c, y, ', '.join(str(Fraction(z, order)) for z in q))))
                ok = False
    if ok:
        for c in range(n):
            h = hits.get(c, [])
            good = len(h) == 1
            res.append((V2, RULES[0], good, '' if good else 'component %d is one at %d nodes' % (c, len(h))))
            if good and (K, order) in ORDER:
                w = ORDER[K, order][c]
                res.append((V2, RULES[1], w == h[0], '' if w == h[0] else 'component %d belongs to the node %s/%d instead of %s/%d' % (c, h[0], order, w, order)))
        full = len({h[0] for h in hits.values() if h}) == n
        res.append((V2, RULES[0], full, '' if full else 'two components share a node'))
        same(V2, RULES[2], A, st, tot, ONE, 'the sum of all components')
    return res


def _n(x):
    return int(x) if x.denominator == 1 else x


def run():
    rep = Report('C09')
    p = ir.load()
    cls = {}
    for f in p.lib():
        nm = ir.plain(f['q']).split('::')[-1]
        if f.get('rec') is None or nm not in ('value', 'gradient', 'gradient2') or len(f['params']) not in (2, 3):
            continue
        t = p.strip(f['rec'])
        if not t.targs or len([x for x in t.targs if 'i' in x]) != 2 or len(args_of(p, f)) != len(f['params']) - 1:
            continue
        cls.setdefault(t.i, {})[nm, len(f['params'])] = f['id']
    jobs = []
    for i, d in sorted(cls.items()):
        n = [int(x['i']) for x in p.ty(i).targs if 'i' in x]
        if len(d) >= 2:
            jobs.append((d, n[0], n[1]))
    rep.cov['shape functions analysed'] = [p.ty(i).s for i in sorted(cls)]
    for job, r, err, dt in sweep.run(p, task, jobs):
        ids, K, order = job
        what = 'dimension %d, order %d' % (K, order)
        if r is None:
            rep.ob(RULES[6], None, '%s: %s' % (what, err))
            continue
        for k, rule, v, text in r:
            f = p.fns[ids.get(k) or list(ids.values())[0]]
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%s:%s' % (ir.plain(f['q']), what, rule), f['l'], '%s (%s): %s [%s]' % (f['q'], what, text, rule))
    for x in RULES[:7]:
        rep.need(x, 7)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('value, gradient and gradient2 of every instantiated shape function are evaluated symbolically for every component over unknown '
        'points and node values; the resulting polynomials are differentiated, evaluated at the nodes and added up.')
