"""C25: quadratic elements number their nodes like the quadratic shape functions."""
import itertools
from fractions import Fraction

import ir
import meshes
import numeric
import sweep
from common import Report
from engine import Stop, pval, mkptr
from meshes import World, View, Topo, TOPOS, MAna, nice
from shaped import wit
from terms import P, N, ZERO, TRUE, FALSE, num, toP, f_eq, show

RULES = ('an element lists one node per shape function', 'nodes lie where their component is one', 'a node of a face is created once',
         'nodes of both elements at a face are the same', 'edge nodes are implicit', 'edge nodes are boundary with one element only',
         'nodes are registered with the mesh and their elements', 'corner vertices are unchanged', 'preparation completes')


def topos():
    out = list(TOPOS)
    out.append(Topo(6, [(0, 1, 5), (1, 2, 5), (2, 3, 5), (3, 4, 5)], 'open fan'))
    out.append(Topo(6, [(5, 0, 1), (5, 1, 2), (5, 2, 3), (5, 3, 4), (5, 4, 0)], 'five triangles around a vertex'))
    for a, b in itertools.product(((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)), ((1, 3, 2), (3, 2, 1), (2, 1, 3), (3, 1, 2), (1, 2, 3), (2, 3, 1))):
        out.append(Topo(4, [a, b], 'triangles %s %s' % (a, b)))
    return out


def nodes(p, rec, order):
    """local coordinates of the node of every component: evaluated from the value function"""
    fs = [f for f in p.lib() if f.get('rec') is not None and p.strip(f['rec']).s.replace('const ', '') == p.strip(rec).s.replace('const ', '')
          and ir.plain(f['q']).split('::')[-1] == 'value' and len(f['params']) == 2]
    if len(fs) != 1:
        raise Stop('no value function')
    f = fs[0]
    pts = [(Fraction(i, order), Fraction(j, order)) for i in range(order + 1) for j in range(order + 1 - i)]
    out = []
    n = len(pts)
    for c in range(n):
        hit = []
        for q in pts:
            A = MAna(p, maxsteps=100000)

            def setup(E, st, this, vs):
                vs[0] = num(c)
                E.write(st, vs[1], meshes.vecval(E, p.strip(f['params'][1]['t']).i, [num(x if x.denominator > 1 else int(x)) for x in q]))
                return st
            outs, thr = A.entry(f, setup=setup)
            if len(outs) != 1 or A.bad:
                raise Stop('value of component %d is not decided' % c)
            v = pval(outs[0][1]).const()
            if v is None:
                raise Stop('value of component %d is not constant' % c)
            if abs(v - 1) < Fraction(1, 10 ** 6):
                hit.append(q)
            elif abs(v) > Fraction(1, 10 ** 6):
                raise Stop('component %d is %s at a node' % (c, v))
        if len(hit) != 1:
            raise Stop('component %d is one at %d nodes' % (c, len(hit)))
        out.append(hit[0])
    return out


def task(p, job):
    fid, rec, order, ti, flags = job
    f = p.fns[fid]
    K = meshes.Kinds(p, rec)
    T = topos()[ti]
    A = MAna(p, maxsteps=400000)
    A.JOIN = 64
    w = {}

    def setup(E, st, this, vs):
        W = World(E, st, K, T, flags=flags, boundary=flags == 0)
        w['W'] = W
        w['pre'] = W.st.fork()
        vs[0] = W.O
        return W.st
    res = []
    try:
        N_ = nodes(p, f['rec'], order)
        outs, thr = A.entry(f, setup=setup)
    except Stop as x:
        return [(RULES[8], None, 'stopped: %s' % x)]
    for wt, e, t in A.bad:
        res.append((RULES[8], False if wt else None, t + ' at ' + str(e.get('l', '?')) + wit(wt)))
    for st, ty, e in thr:
        res.append((RULES[8], False if A.sure(st) else None, 'throws'))
    for st, v in outs:
        try:
            exits(A, st, K, T, w, order, N_, res)
        except Stop as x:
            res.append((RULES[8], None, 'stopped: %s' % x))
    return res


def exits(A, st, K, T, w, order, N_, res):
    W = w['W']
    M = View(A, st, K, W.O)
    B = View(A, w['pre'], K, W.O)

    def judge(rule, ok, text):
        if ok:
            res.append((rule, True, ''))
            return
        x = A.sure(st)
        res.append((rule, False if x else None, text + wit(x)))

    def same(rule, a, b, text):
        if A.holds(st, f_eq(a - b)):
            res.append((rule, True, ''))
            return
        d = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(a, b)])
        res.append((rule, False if d else None, '%s is %s instead of %s%s' % (text, show(a), show(b), wit(d))))

    at = {}
    for e, o in enumerate(W.S):
        d = M.links(o, 'DOFVertices')
        judge(RULES[0], len(d) == len(N_) and len(set(d)) == len(d) and all(isinstance(x, tuple) for x in d), 'element %d lists %d nodes (%d different) instead of %d' % (e, len(d), len(set(d)), len(N_)))
        if len(d) != len(N_) or not all(isinstance(x, tuple) for x in d):
            continue
        c = [W.xy[i] for i in T.elems[e]]
        for i, (x, q) in enumerate(zip(d, N_)):
            lam = [1 - q[0] - q[1], q[0], q[1]]
            lam = [int(z) if z.denominator == 1 else z for z in lam]
            pos = M.pos(x)
            for k in range(2):
                want = c[0][k] * num(lam[0]) + c[1][k] * num(lam[1]) + c[2][k] * num(lam[2])
                same(RULES[1], pos[k], want, 'coordinate %d of node %d of element %d' % (k, i, e))
            corners = [j for j in range(3) if lam[j]]
            if len(corners) == 1:
                judge(RULES[1], x == W.V[T.elems[e][corners[0]]], 'node %d of element %d is not its vertex' % (i, e))
            key = frozenset(T.elems[e][j] for j in corners)
            at.setdefault(key, []).append((e, x))
    new = [x for x in M.V if x not in W.V]
    if order == 1:
        judge(RULES[2], not new, '%d nodes are created for linear elements' % len(new))
    else:
        judge(RULES[2], len(new) == len(T.faces()), '%d nodes are created for %d faces' % (len(new), len(T.faces())))
    judge(RULES[7], M.V[:len(W.V)] == W.V, 'the vertices of the mesh move')
    for key, l in at.items():
        if len(key) < 2:
            continue
        judge(RULES[3], len({x for _, x in l}) == 1, 'elements %s have different nodes at the face %s' % ([e for e, _ in l], sorted(key)))
        for x in sorted({x for _, x in l}, key=str):
            fl = M.flags(x).const()
            if fl is None:
                res.append((RULES[4], None, 'flags %s' % show(M.flags(x))))
            else:
                judge(RULES[4], int(fl) & meshes.IMPLICIT, 'the node of face %s is not marked as implicit' % sorted(key))
                want = len(T.faces()[key]) == 1
                judge(RULES[5], bool(int(fl) & meshes.BOUNDARY) == want, 'the node of face %s with %d element(s) is %smarked as boundary' % (sorted(key), len(T.faces()[key]), '' if int(fl) & 1 else 'not '))
            judge(RULES[6], M.V.count(x) == 1, 'the node of face %s is %d times in the mesh' % (sorted(key), M.V.count(x)))
            if M.V.count(x) == 1:
                same(RULES[6], pval(M.get(x, 'GlobalIndex')), num(M.V.index(x)), 'the index of the node of face %s' % sorted(key))
            es = M.links(x, 'Elements')
            judge(RULES[6], sorted(map(str, es)) == sorted(str(W.S[e]) for e in {e for e, _ in l}), 'the node of face %s lists %d elements' % (sorted(key), len(es)))
    for i, o in enumerate(W.V):
        same(RULES[7], M.flags(o), B.flags(o), 'the flags of vertex %d' % i)
        same(RULES[7], pval(M.get(o, 'GlobalIndex')), num(i), 'the index of vertex %d' % i)
        judge(RULES[7], M.links(o, 'Elements') == B.links(o, 'Elements'), 'the elements of vertex %d change' % i)
        for x, y in zip(M.pos(o), W.xy[i]):
            same(RULES[7], x, y, 'a coordinate of vertex %d' % i)


def run():
    rep = Report('C25')
    p = ir.load()
    jobs = []
    ks = meshes.kinds(p)
    for f in p.lib():
        if f.get('rec') is None or ir.plain(f['q']).split('::')[-1] != 'prepareMesh' or len(f['params']) != 1:
            continue
        t = p.strip(f['rec'])
        n = [int(x['i']) for x in t.targs if 'i' in x]
        K = [k for k in ks if p.strip(f['params'][0]['t']).s.replace('const ', '') == p.ty(k.rec).s.replace('const ', '')]
        if not K or n[0] != 2:
            continue
        for ti in range(len(topos())):
            for fl in (0, 1):
                jobs.append((f['id'], K[0].rec, n[1], ti, fl))
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%s)' % (f['q'], topos()[job[3]].name)
        if r is None:
            rep.ob(RULES[8], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for x in RULES[:8]:
        rep.need(x, 10)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('prepareMesh is analysed for first and second order on heap graphs of small meshes with unknown coordinates and all corner '
        'orders of two adjacent triangles; the nodes listed by every element are compared with the points where the value function '
        '(evaluated from its coefficient table) of the same component equals one.')
