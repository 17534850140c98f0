"""C21: generated box meshes cover the requested box with conforming triangles."""
import os

import ir
import meshes
import numeric
import prover
import sweep
from common import Report
from engine import Stop, pval, mkptr
from meshes import View, MAna, nice, vecval
from shaped import wit
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, toP, node, inv, f_eq, f_ne, f_gt, f_ge, f_not, show

RULES = ('vertices are exactly the grid points', 'every cell is split into two triangles', 'all triangles have the same orientation',
         'all cells are split along the same diagonal', 'boundary flags exactly on the border', 'index and coordinates of the parts agree',
         'generation succeeds', 'empty cell counts are rejected')

COUNTS = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 7), (7, 1), (3, 3), (4, 2)]
DEEP = [(3, 3), (1, 5), (5, 1), (4, 2), (2, 4), (4, 4)]


def task(p, job):
    fid, rec, nx, ny = job
    f = p.fns[fid]
    K = meshes.Kinds(p, rec)
    A = MAna(p, maxsteps=4000000)
    A.JOIN = 64
    g = {}

    def setup(E, st, this, vs):
        E.write(st, vs[0], vecval(E, p.strip(f['params'][0]['t']).i, (nx, ny)))
        for k, nm in ((1, 's'), (2, 'o')):
            g[nm] = [toP(node('sym', (nm + d,), 0)) for d in 'xy']
            E.write(st, vs[k], vecval(E, p.strip(f['params'][k]['t']).i, g[nm]))
        return st
    res = []
    try:
        outs, thr = A.entry(f, setup=setup)
    except Stop as x:
        return [(RULES[6], None, 'stopped: %s' % x)]
    for wt, e, t in A.bad:
        res.append((RULES[6], False if wt else None, t + ' at ' + str(e.get('l', '?')) + wit(wt)))
    bad = nx == 0 or ny == 0
    for st, ty, e in thr:
        wt = A.sure(st)
        if bad:
            res.append((RULES[7], True, ''))
        else:
            res.append((RULES[6], False if wt else None, 'throws%s' % wit(wt)))
    for st, v in outs:
        if bad:
            wt = A.sure(st)
            res.append((RULES[7], False if wt else None, 'returns a mesh'))
            continue
        try:
            exits(A, st, K, v, nx, ny, g, res)
        except Stop as x:
            res.append((RULES[6], None, 'stopped: %s' % x))
    return res


def exits(A, st, K, v, nx, ny, g, res):
    M = View(A, st, K, v)
    (sx, sy), (ox, oy) = g['s'], g['o']

    def judge(rule, ok, text):
        if ok:
            res.append((rule, True, ''))
            return
        x = A.sure(st)
        res.append((rule, False if x else None, text + wit(x)))

    def differ(rule, pairs, text):
        d = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, pairs)
        res.append((rule, False if d else None, text + wit(d)))

    grid = {(i, j): (ox + sx * num(frac(i, nx)), oy + sy * num(frac(j, ny)))
            for i in range(nx + 1) for j in range(ny + 1)}
    where = {}
    for o in M.V:
        judge(RULES[0], isinstance(o, tuple), 'a vertex is missing')
        if not isinstance(o, tuple):
            return
        c = M.pos(o)
        hit = [k for k, q in grid.items() if all(A.holds(st, f_eq(a - b)) for a, b in zip(c, q))]
        if len(hit) == 1:
            judge(RULES[0], hit[0] not in where.values(), 'two vertices at grid point %s' % (hit[0],))
            where[o] = hit[0]
        else:
            # off the grid for some size and offset: different from every grid point at one assignment
            d = None
            if not st.gh.get('joined') and not st.gh.get('iffy'):
                d = numeric.model(st.facts, [(c, q) for q in grid.values()])
            res.append((RULES[0], False if d else None, 'vertex %d at (%s) is no grid point%s' % (M.V.index(o), ', '.join(show(x) for x in c), wit((d,) if d else None))))
    if len(where) != len(M.V):
        return
    judge(RULES[0], set(where.values()) == set(grid), 'grid points without vertex: %s' % sorted(set(grid) - set(where.values()))[:4])
    for i, o in enumerate(M.V):
        c = pval(M.get(o, 'GlobalIndex'))
        if A.holds(st, f_eq(c - num(i))):
            res.append((RULES[5], True, ''))
        else:
            differ(RULES[5], [(c, num(i))], 'vertex %d has index %s' % (i, show(c)))
    cells = {}
    for e, o in enumerate(M.S):
        vs = M.links(o, 'Vertices')
        judge(RULES[1], all(x in where for x in vs), 'element %d has foreign vertices' % e)
        if not all(x in where for x in vs):
            return
        q = [where[x] for x in vs]
        for j, c in enumerate(M.corners(o)):
            for a, b in zip(c, grid[q[j]]):
                if A.holds(st, f_eq(a - b)):
                    res.append((RULES[5], True, ''))
                else:
                    differ(RULES[5], [(a, b)], 'corner %d of element %d is %s, its vertex %s' % (j, e, show(a), show(b)))
        xs, ys = sorted({x for x, _ in q}), sorted({y for _, y in q})
        cell = (xs[0], ys[0])
        ok = len(set(q)) == 3 and len(xs) == 2 and len(ys) == 2 and xs[1] == xs[0] + 1 and ys[1] == ys[0] + 1
        judge(RULES[1], ok, 'element %d with grid points %s is no half of a cell' % (e, q))
        if not ok:
            continue
        ori = (q[1][0] - q[0][0]) * (q[2][1] - q[0][1]) - (q[2][0] - q[0][0]) * (q[1][1] - q[0][1])
        cells.setdefault(cell, []).append((e, ori, frozenset(q)))
    for i in range(nx):
        for j in range(ny):
            t = cells.get((i, j), [])
            judge(RULES[1], len(t) == 2 and len(t[0][2] | t[1][2]) == 4, 'cell (%d, %d) is covered by %s' % (i, j, [sorted(x[2]) for x in t]))
    oris = {x[1] for t in cells.values() for x in t}
    judge(RULES[2], len(oris) <= 1, 'triangles of different orientation')
    dia = {c: frozenset((x - c[0], y - c[1]) for x, y in (t[0][2] & t[1][2])) for c, t in cells.items() if len(t) == 2}
    judge(RULES[3], len(set(dia.values())) <= 1, 'cells are split along different diagonals')
    for o, (i, j) in where.items():
        fl = M.flags(o)
        want = meshes.BOUNDARY if i in (0, nx) or j in (0, ny) else 0
        c = fl.const()
        if c is None:
            res.append((RULES[4], None, 'flags %s' % show(fl)))
        else:
            judge(RULES[4], (int(c) & meshes.BOUNDARY) == want, 'vertex at grid point (%d, %d) of %d x %d cells is %smarked as boundary' % (i, j, nx, ny, '' if c else 'not '))
        es = sorted(str(x) for x in M.links(o, 'Elements'))
        judge(RULES[5], es == sorted(str(x) for x in M.S if o in M.links(x, 'Vertices')), 'vertex at grid point (%d, %d) lists other elements than those it is part of' % (i, j))
    # conforming: inner faces are shared by both triangles
    for e, o in enumerate(M.S):
        vs = M.links(o, 'Vertices')
        for k, fo in enumerate(M.links(o, 'Neighbors')):
            judge(RULES[5], isinstance(fo, tuple), 'element %d has no face opposite of corner %d' % (e, k))
            if not isinstance(fo, tuple):
                continue
            rest = {x for n, x in enumerate(vs) if n != k}
            want = {x for x in M.S if rest <= set(M.links(x, 'Vertices'))}
            got = {x for x in M.links(fo, 'Elements') if x is not None}
            judge(RULES[5], got == want, 'the face opposite of corner %d of element %d belongs to %d instead of %d triangles' % (k, e, len(got), len(want)))


def frac(i, n):
    from fractions import Fraction
    q = Fraction(i, n)
    return int(q) if q.denominator == 1 else q


def run():
    rep = Report('C21')
    p = ir.load()
    ks = meshes.kinds(p)
    jobs = []
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    for f in p.lib():
        if not ir.plain(f['q']).endswith('HyperCube::generate') or len(f['params']) != 3:
            continue
        K = [k for k in ks if k.rec == p.strip(f['ret']).i]
        t = p.ty(f['rec'])
        if not K or int(t.targs[1]['i']) != 2:
            continue
        for nx, ny in COUNTS + (DEEP if deep else []) + [(0, 1), (1, 0), (0, 0)]:
            jobs.append((f['id'], K[0].rec, nx, ny))
    jobs.sort(key=lambda j: -j[2] * j[3])
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%d x %d cells)' % (f['q'], job[2], job[3])
        if r is None:
            rep.ob(RULES[6], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for x in RULES[:6] + RULES[7:]:
        rep.need(x, 3)
    rep.cov['cell counts'] = [list(x) for x in COUNTS + (DEEP if deep else [])]
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('HyperCube::generate is analysed with constant cell counts per axis and unknown size and offset; the coordinates of every '
        'vertex are polynomials in size and offset and compared with the grid points, the triangles, their orientation and '
        'diagonal, the flags and the connectivity are read from the resulting heap graph.')
