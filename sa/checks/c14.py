"""C14: simplex mappings, gradients and centres satisfy their geometric identities."""
from fractions import Fraction

import engine as E_
import ir
import meshes
import numeric
import poly
import sized
import sweep
from common import Report
from engine import Stop, pval, mkptr, mkarr
from meshes import MAna, method, run1, runs, vecval, ftype
from shaped import wit
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, inv, num, toP, node, show, f_ne, f_or, f_gt, f_ge, f_eq, subst

RULES = ('mapping to local coordinates and back is the identity', 'vertices map to the corners of the unit simplex',
         'gradients are the derivatives of the local coordinates', 'volume is half the absolute determinant of the edges',
         'matrices and determinant belong to the vertices', 'the circumcentre is equidistant from all vertices', 'face centres are the mean of their vertices',
         'face normals are perpendicular to their face and point outwards', 'the diameter is the longest edge', 'queries complete for non-degenerate simplices')
EPS = Fraction(1, 10 ** 9)
NAMES = {'toLocal': (0, 1), 'toGlobal': (0, 1), 'gradient': (2,), 'volume': (3,), 'unitVolume': (3,), 'determinant': (4,), 'matrix': (4,), 'inverseMatrix': (4,),
         'center': (5,), 'outerRadius': (5,), 'faceCenter': (6,), 'faceNormal': (7,), 'diameter': (8,)}
HOW = ('assigned', 'list', 'reused')


def unknowns(n):
    return [[toP(node('sym', ('%s%d%s' % (c, i, n),), 0)) for c in 'xy'] for i in range(3)]


def det(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (c[0] - a[0]) * (b[1] - a[1])


class Geo:
    def __init__(self, p, rec):
        self.p, self.rec = p, rec
        self.A = MAna(p, maxsteps=400000)
        fs = [f for f in p.lib() if f.get('rec') is not None and p.strip(f['rec']).s.replace('const ', '') == p.strip(rec).s.replace('const ', '')]
        self.m = {}
        for f in fs:
            self.m.setdefault(ir.plain(f['q']).split('::')[-1], f)
        sub = method(p, rec, 'operator[]', 1, const=False)
        self.vt = p.strip(sub['ret']).i

    def vec(self, xs):
        return vecval(self.A, self.vt, xs)

    def prep(self, how):
        """states with a prepared simplex"""
        p, A = self.p, self.A
        A.bad, A.callstack, A.handlers = [], [], [[]]
        st = E_.St()
        o = ('p', 'this')
        st.mem[o] = A.make_sym(self.rec, 'this')
        A.otype[o] = self.rec
        this = mkptr(o)
        self.this = this
        self.c = unknowns('')
        sts = [st]
        if how == 'list':
            f = [f for f in p.lib() if f.get('ctor') and f.get('rec') is not None and p.strip(f['rec']).s == p.strip(self.rec).s and len(f['params']) == 1
                 and p.strip(f['params'][0]['t']).name == 'std::initializer_list']
            if not f:
                raise Stop('no list constructor')
            l = meshes.clist([meshes.clist(x) for x in self.c])
            sts = self.exits(st, f[0], [l])
        else:
            sts = self.exits(st, method(p, self.rec, None, 0), [])
            if how == 'reused':
                sts = [z for s in sts for y in self.assign(s, unknowns('old')) for z in self.exits(y, self.m['prepare'], [])]
            sts = [y for s in sts for y in self.assign(s, self.c)]
        out = []
        for s in sts:
            s.facts += (f_ne(det(*self.c)),)
            out += self.exits(s, self.m['prepare'], [])
        return out

    def exits(self, st, f, vs):
        outs, thr = runs(self.A, st, f, self.this, vs)
        return [s for s, _ in outs]

    def assign(self, st, c):
        sub = method(self.p, self.rec, 'operator[]', 1, const=False)
        for i, x in enumerate(c):
            st, r = run1(self.A, st, sub, self.this, [num(i)])
            self.A.write(st, r, self.vec(x))
        return [st]

    def call(self, st, name, vs):
        f = self.m[name]
        args = []
        for x, prm in zip(vs, f['params']):
            if isinstance(x, (list, tuple)):
                o = ('p', 'point')
                st.mem[o] = self.vec(x)
                self.A.otype[o] = self.vt
                args.append(mkptr(o) if self.p.ty(prm['t']).k in ('ref', 'rref', 'ptr') else st.mem[o])
            else:
                args.append(num(x))
        return runs(self.A, st, f, None if f.get('static') else self.this, args)

    def value(self, st, v):
        """tuple of polynomials"""
        A = self.A
        if isinstance(v, N) and v.kind == 'ptr':
            v = A.read(st, v)
        if isinstance(v, N) and v.kind == 'rec':
            c = sized.container(v)
            n = c.args[0].const()
            if n is None:
                raise Stop('unknown size')
            return tuple(pval(A.cread(st, c.args[1], num(i))) for i in range(int(n)))
        return (pval(v),)


def degenerate(A, st, c):
    """the path belongs to simplices without extension beyond machine precision only: not decided here"""
    a, b, d = c
    w = numeric.differ(st.facts + (f_or(f_gt(poly_abs(b[0] - a[0]) - num(EPS)), f_gt(poly_abs(b[1] - a[1]) - num(EPS))),), [(TRUE, FALSE)])
    return w is None


def poly_abs(x):
    return toP(node('abs', (x,)))


def task(p, job):
    rec, how = job
    G = Geo(p, rec)
    A = G.A
    res = []

    def add(name, rule, v, text=''):
        res.append((name, RULES[rule], v, text))

    sts = G.prep(how)
    for w, e, t in A.bad:
        add('prepare', 9, False if w else None, '%s at %s%s' % (t, e.get('l', '?'), wit(w)))
    A.bad = []
    c = G.c
    D = det(*c)
    live = [st for st in sts if not degenerate(A, st, c)]
    add('prepare', 9, True if live else None, 'no exit of prepare')
    for st in live:
        def same(name, rule, s, a, b, text):
            d = a - b
            if poly.zero(d) or A.holds(s, f_eq(d)):
                add(name, rule, True)
                return
            w = None if s.gh.get('joined') or s.gh.get('iffy') else numeric.differ(s.facts, [(a, b)])
            add(name, rule, False if w else None, '%s is %s instead of %s%s' % (text, show(a)[:200], show(b)[:200], wit(w)))

        def q(name, vs):
            """exits of one query"""
            if name not in G.m:
                add(name, 9, None, 'no %s' % name)
                return
            A.bad = []
            try:
                outs, thr = G.call(st.fork(), name, vs)
            except Stop as x:
                for r in NAMES[name]:
                    add(name, r, None, 'stopped: %s' % x)
                return
            for w, e, t in A.bad:
                add(name, 9, False if w else None, '%s at %s%s' % (t, e.get('l', '?'), wit(w)))
            for s, ty, e in thr:
                w = A.sure(s)
                add(name, 9, False if w else None, 'throws%s' % wit(w))
            for s, v in outs:
                try:
                    x = G.value(s, v)
                    add(name, 9, True)
                    yield s, x
                except Stop as z:
                    for r in NAMES[name]:
                        add(name, r, None, str(z))
        px, py = toP(node('sym', ('px',), 0)), toP(node('sym', ('py',), 0))
        lx, ly = [((px - c[0][0]) * (c[2][1] - c[0][1]) - (py - c[0][1]) * (c[2][0] - c[0][0])), ((c[1][0] - c[0][0]) * (py - c[0][1]) - (c[1][1] - c[0][1]) * (px - c[0][0]))]
        gx, gy = [c[0][k] + px * (c[1][k] - c[0][k]) + py * (c[2][k] - c[0][k]) for k in range(2)]
        iD = inv(D)
        loc = (lx * iD, ly * iD)
        for s, v in q('toLocal', [(px, py)]):
            for k in range(2):
                same('toLocal', 0, s, v[k], loc[k], 'local coordinate %d' % k)
        for s, v in q('toGlobal', [(px, py)]):
            for k in range(2):
                same('toGlobal', 0, s, v[k], (gx, gy)[k], 'global coordinate %d' % k)
        for i, corner in enumerate(((0, 0), (1, 0), (0, 1))):
            for s, v in q('toLocal', [c[i]]):
                for k in range(2):
                    same('toLocal', 1, s, v[k], num(corner[k]), 'local coordinate %d of vertex %d' % (k, i))
            for s, v in q('toGlobal', [[num(z) for z in corner]]):
                for k in range(2):
                    same('toGlobal', 1, s, v[k], c[i][k], 'coordinate %d of corner %d' % (k, i))
        ids = (px.single().id, py.single().id)
        for i in range(3):
            lam = (ONE - loc[0] - loc[1], loc[0], loc[1])[i]
            for s, v in q('gradient', [i]):
                for k in range(2):
                    same('gradient', 2, s, v[k], poly.deriv(lam, ids[k]), 'component %d of gradient %d' % (k, i))
        for s, v in q('determinant', []):
            same('determinant', 4, s, v[0], D, 'the determinant')
        M = [c[1][0] - c[0][0], c[2][0] - c[0][0], c[1][1] - c[0][1], c[2][1] - c[0][1]]
        I = [M[3] * iD, -M[1] * iD, -M[2] * iD, M[0] * iD]
        for nm, W in (('matrix', M), ('inverseMatrix', I)):
            for s, v in q(nm, []):
                for k in range(4):
                    same(nm, 4, s, v[k], W[k], 'entry %d' % k)
        half = num(Fraction(1, 2))
        for s, v in q('volume', []):
            signed(A, s, v[0], D * half, lambda *a: add('volume', 3, *a), 'the volume')
        for s, v in q('unitVolume', []):
            same('unitVolume', 3, s, v[0], half, 'the unit volume')
        cc = None
        for s, v in q('center', []):
            for i in (1, 2):
                d0 = sum(((v[k] - c[0][k]) * (v[k] - c[0][k]) for k in range(2)), ZERO)
                di = sum(((v[k] - c[i][k]) * (v[k] - c[i][k]) for k in range(2)), ZERO)
                same('center', 5, s, di, d0, 'the squared distance to vertex %d' % i)
            cc = v
        # the true circumcentre relative to vertex 0
        a = [c[1][k] - c[0][k] for k in range(2)]
        b = [c[2][k] - c[0][k] for k in range(2)]
        aa, bb = a[0] * a[0] + a[1] * a[1], b[0] * b[0] + b[1] * b[1]
        u = [(b[1] * aa - a[1] * bb) * half * iD, (a[0] * bb - b[0] * aa) * half * iD]
        for s, v in q('outerRadius', []):
            r = v[0]
            sq = squared(r)
            same('outerRadius', 5, s, sq if sq is not None else r * r, u[0] * u[0] + u[1] * u[1], 'the squared radius')
            nonneg(A, s, r, lambda *z: add('outerRadius', 5, *z), 'the radius')
        for i in range(3):
            e, f = [c[j] for j in range(3) if j != i]
            for s, v in q('faceCenter', [i]):
                for k in range(2):
                    same('faceCenter', 6, s, v[k], (e[k] + f[k]) * half, 'coordinate %d of face centre %d' % (k, i))
            for s, v in q('faceNormal', [i]):
                same('faceNormal', 7, s, v[0] * (f[0] - e[0]) + v[1] * (f[1] - e[1]), ZERO, 'the product of normal %d with its face' % i)
                out = v[0] * (e[0] - c[i][0]) + v[1] * (e[1] - c[i][1])
                w = None if s.gh.get('joined') or s.gh.get('iffy') else numeric.differ(s.facts + (f_ge(-out - num(EPS)),), [(TRUE, FALSE)])
                add('faceNormal', 7, False if w else True if A.holds(s, f_gt(out)) else None, 'normal %d points inwards%s' % (i, wit(w)))
        edges = [[c[(i + 1) % 3][k] - c[i][k] for k in range(2)] for i in range(3)]
        l2 = [e[0] * e[0] + e[1] * e[1] for e in edges]
        for s, v in q('diameter', []):
            sq = squared(v[0])
            t = sq if sq is not None else v[0] * v[0]
            sure = not (s.gh.get('joined') or s.gh.get('iffy'))
            m = maxset(t)
            if m is not None and m - {ZERO} == set(l2):
                add('diameter', 8, True)
                continue
            w = sure and (any_below(s, t, l2) or no_edge(s, t, l2))
            add('diameter', 8, False if w else None, 'the squared diameter is %s%s' % (show(t)[:200], wit(w) if w else ''))
    return res


def any_below(s, t, l2):
    for x in l2:
        w = numeric.differ(s.facts + (f_gt(x - t - num(EPS)),), [(TRUE, FALSE)])
        if w:
            return w
    return None


def no_edge(s, t, l2):
    m = numeric.model(s.facts, [((t,), (x,)) for x in l2])
    return ({i: v for i, v in m.items()}, 0, 0, 0) if m else None


def maxset(x):
    """the polynomials a nest of conditional expressions takes the maximum of; None when it is something else"""
    x = toP(x)
    a = x.single()
    if a is None or a.kind != 'ite':
        return {x}
    c, u, v = a.args
    u, v = toP(u), toP(v)
    if c not in (f_ge(u - v), f_gt(u - v)):
        return None
    l, r = maxset(u), maxset(v)
    return None if l is None or r is None else l | r


def squared(r):
    """the square of c*sqrt(x) or c*abs(x)"""
    if len(r.m) == 1:
        (k, v), = r.m.items()
        if len(k) == 1 and ATOMS[k[0]].kind in ('sqrt', 'abs'):
            x = ATOMS[k[0]].args[0]
            return (x if ATOMS[k[0]].kind == 'sqrt' else x * x) * num(v * v)
    return None


def nonneg(A, s, r, add, text):
    if len(r.m) == 1:
        (k, v), = r.m.items()
        if v > 0 and all(ATOMS[i].kind in ('sqrt', 'abs') for i in k):
            add(True)
            return
    if A.holds(s, f_ge(r)):
        add(True)
        return
    w = None if s.gh.get('joined') or s.gh.get('iffy') else numeric.differ(s.facts + (f_gt(-r - num(EPS)),), [(TRUE, FALSE)])
    add(False if w else None, '%s can be negative: %s%s' % (text, show(r)[:200], wit(w)))


def signed(A, s, v, d, add, text):
    """v is |d|"""
    sq = squared(v)
    q = sq if sq is not None else v * v
    if poly.zero(q - d * d):
        nonneg(A, s, v, add, text)
        return
    w = None if s.gh.get('joined') or s.gh.get('iffy') else numeric.differ(s.facts, [(v, poly_abs(d))])
    add(False if w else None, '%s is %s%s' % (text, show(v)[:200], wit(w)))


def run():
    rep = Report('C14')
    p = ir.load()
    recs = []
    for f in p.lib():
        if f.get('rec') is not None and p.strip(f['rec']).name == 'NS::Simplex' and p.strip(f['rec']).i not in recs and not p.strip(f['rec']).s.startswith('const'):
            recs.append(p.strip(f['rec']).i)
    recs = [r for r in sorted(recs) if method_named(p, r, 'prepare')]
    jobs = [(r, h) for r in recs for h in HOW]
    for job, r, err, dt in sweep.run(p, task, jobs):
        G = p.strip(job[0]).name
        what = 'simplex with %s vertices' % job[1]
        if r is None:
            rep.ob(RULES[9], None, '%s: %s' % (what, err))
            continue
        for name, rule, v, text in r:
            f = method_named(p, job[0], name)
            rep.ob(rule, v, '%s, %s: %s' % (name, what, text))
            if v is False:
                rep.violation('%s::%s:%s' % (G, name, rule), f['l'] if f else '?', '%s::%s (%s): %s [%s]' % (G, name, what, text, rule))
    for x in RULES[:8]:
        rep.need(x, 3)
    rep.cov['explanation'] = EXPL
    return rep.finish()


def method_named(p, rec, name):
    for f in p.lib():
        if f.get('rec') is not None and p.strip(f['rec']).s.replace('const ', '') == p.strip(rec).s.replace('const ', '') and ir.plain(f['q']).split('::')[-1] == name:
            return f
    return None


EXPL = ('A simplex with unknown vertices is constructed and prepared symbolically (assigned, from a list, and re-prepared after other vertices); '
        'every query is evaluated and compared as a rational function with its definition, modulo the non-zero determinant.')
