"""C22: mesh validation detects every inconsistency it stands for."""
from fractions import Fraction

import engine as E_
import ir
import meshes
import numeric
import sweep
from common import Report
from engine import Stop, pval, mkptr, NULL
from meshes import World, View, Topo, TOPOS, MAna, nice, clist
from shaped import wit
from terms import P, N, ZERO, TRUE, FALSE, num, toP, node, f_eq, f_ne, f_ge, f_gt, f_or, f_not, show

KINDS = {'index': 'InvalidVertexIndex', 'isolated': 'IsolatedVertex', 'foreign element': 'MalformedVertexElementConnection',
         'missing vertex': 'IncompleteElement', 'coordinates': 'IncompleteElement', 'flat': 'ZeroVolumeSimplex',
         'missing face': 'MalformedElementNeighborConnection'}
RULES = dict({'consistent': 'consistent meshes are accepted'},
             **{k: '%s is reported as %s' % (k, v) for k, v in KINDS.items()})
HEIGHTS = (0, 1, -1, Fraction(1, 16))
PTS = [(0, 0), (4, 1), (1, 5), (6, 7), (2, -3), (-5, 2)]


def coords(n):
    return [tuple(num(x) for x in PTS[i]) for i in range(n)]


def det(c, t):
    (a, b), (d, e), (f, g) = [c[i] for i in t]
    return (d - a) * (g - b) - (f - a) * (e - b)


def cases():
    """(topology, kind, position, with degrees of freedom)"""
    out = []
    for ti, T in enumerate(TOPOS):
        if T.name == 'closed surface':
            continue
        for dof in (False, True):
            out.append((ti, 'consistent', None, dof))
            for v in range(T.n):
                out.append((ti, 'index', v, dof))
                for e, c in enumerate(T.elems):
                    if v not in c:
                        out.append((ti, 'foreign element', (v, e, 0), dof))
                        out.append((ti, 'foreign element', (v, e, 1), dof))
                if T.n < 6:
                    out.append((ti, 'isolated', v, dof))
            out.append((ti, 'isolated', T.n, dof))
            for e, c in enumerate(T.elems):
                for i in range(3):
                    out.append((ti, 'missing face', (e, i), dof))
                    for d in range(3):
                        out.append((ti, 'coordinates', (e, i, d), dof))
                    if dof or sum(1 for x in T.elems if c[i] in x) > 1:
                        out.append((ti, 'missing vertex', (e, i), dof))
                if all(abs(z) > 0 for k, z in enumerate(dets(T, e)) if k != e):
                    out.append((ti, 'flat', (e, 'const'), dof))
                for i in range(3):
                    if sum(1 for x in T.elems if c[i] in x) == 1:
                        for h in HEIGHTS:
                            out.append((ti, 'flat', (e, i, h), dof))
    return out


def flatpts(T, e):
    c = [PTS[i] for i in range(T.n)]
    for k, i in enumerate(T.elems[e]):
        c[i] = (3 * k, 2 * k)
    return c


def dets(T, e):
    c = flatpts(T, e)
    return [det(c, t) for t in T.elems]


def task(p, job):
    fid, rec, (ti, kind, pos, dof) = job
    f = p.fns[fid]
    K = meshes.Kinds(p, rec)
    T = TOPOS[ti]
    A = MAna(p, maxsteps=400000)
    A.JOIN = 64
    g = {}
    eps = Fraction(1, 1000)
    wrong = right = None                     # formulas: surely inconsistent / surely consistent

    def setup(E, st, this, vs):
        t = T
        xy = coords(T.n)
        if kind == 'isolated':
            r = lambda i: i if i < pos else i + 1
            t = Topo(T.n + 1, [tuple(r(i) for i in c) for c in T.elems], T.name)
            xy = xy[:pos] + [(num(9), num(9))] + xy[pos:]
        if kind == 'flat' and pos[1] == 'const':
            xy = [tuple(num(x) for x in q) for q in flatpts(T, pos[0])]
            g['wrong'] = TRUE
        elif kind == 'flat':
            # the corner lies at height h over the opposite side
            e, i, h = pos
            a, b = [xy[c] for k, c in enumerate(T.elems[e]) if k != i]
            xy[T.elems[e][i]] = (a[0] + (a[1] - b[1]) * h, a[1] + (b[0] - a[0]) * h)
            g['wrong' if h == 0 else 'right'] = TRUE
        W = World(E, st, K, t, this=this, coords=xy, simplex='prepared')
        st = W.st
        if dof:
            for e, o in enumerate(W.S):
                meshes.setf(E, st, mkptr(o), DOFVertices=clist([mkptr(W.V[i]) for i in t.elems[e]]))
        if kind == 'consistent':
            g['right'] = TRUE
        elif kind == 'index':
            x = toP(node('sym', ('index',), 2))
            meshes.setf(E, st, mkptr(W.V[pos]), GlobalIndex=x)
            g['wrong'], g['right'] = f_ne(x - num(pos)), f_eq(x - num(pos))
        elif kind == 'isolated':
            g['wrong'] = TRUE
        elif kind == 'foreign element':
            v, e, first = pos
            l = [mkptr(W.S[k]) for k, c in enumerate(t.elems) if v in c]
            meshes.setf(E, st, mkptr(W.V[v]), Elements=clist([mkptr(W.S[e])] + l if first else l + [mkptr(W.S[e])]))
            g['wrong'] = TRUE
        elif kind == 'missing vertex':
            e, i = pos
            vs_ = [mkptr(W.V[c]) for c in t.elems[e]]
            vs_[i] = NULL
            meshes.setf(E, st, mkptr(W.S[e]), Vertices=clist(vs_))
            if not dof:
                v = t.elems[e][i]
                meshes.setf(E, st, mkptr(W.V[v]), Elements=clist([mkptr(W.S[k]) for k, c in enumerate(t.elems) if v in c and k != e]))
            g['wrong'] = TRUE
        elif kind == 'coordinates':
            e, i, d = pos
            x = toP(node('sym', ('shift',), 0))
            c = list(W.xy[t.elems[e][i]])
            if d == 2:
                c = [c[0] + x, c[1] - x]         # both coordinates, the sum of the shifts being zero
            else:
                c[d] = c[d] + x
            meshes.setf(E, st, mkptr(W.V[t.elems[e][i]]), Vertex=meshes.vecval(E, meshes.ftype(K, 'Vertex', 'Vertex'), c))
            # other elements at the vertex follow it
            for k, cc in enumerate(t.elems):
                if k != e and t.elems[e][i] in cc:
                    sub = meshes.method(p, K.simplex, 'operator[]', 1, const=False)
                    st, r = meshes.run1(E, st, sub, mkptr(W.S[k], ('Element',)), [num(cc.index(t.elems[e][i]))])
                    E.write(st, r, meshes.vecval(E, meshes.ftype(K, 'Vertex', 'Vertex'), c))
            g['wrong'] = f_or(f_ge(x - num(eps)), f_ge(num(-eps) - x))
            g['right'] = f_eq(x)
        elif kind == 'missing face':
            e, i = pos
            nb = [mkptr(o) for o in View(E, st, K, W.O).links(W.S[e], 'Neighbors')]
            nb[i] = NULL
            meshes.setf(E, st, mkptr(W.S[e]), Neighbors=clist(nb))
            g['wrong'] = TRUE
        g['W'] = W
        return st
    rule = RULES[kind]
    res = []
    try:
        outs, thr = A.entry(f, setup=setup)
    except Stop as x:
        return [(rule, None, 'stopped: %s' % x)]

    def sat(st, goal):
        if st.gh.get('joined') or st.gh.get('iffy'):
            return None
        return numeric.differ(st.facts + ((goal,) if goal is not TRUE else ()), [(TRUE, FALSE)])
    for wt, e, t in A.bad:
        res.append((rule, False if wt else None, t + ' at ' + str(e.get('l', '?')) + wit(wt)))
    n = 0
    for st, v in outs:
        n += 1
        if 'wrong' not in g or A.holds(st, f_not(g['wrong'])):
            res.append((rule, True, ''))
        else:
            w = sat(st, g['wrong'])
            res.append((rule, False if w else None, 'validation accepts the mesh%s' % wit(w)))
    for st, ty, e in thr:
        n += 1
        nm = tyname(p, ty)
        if 'right' in g and not A.holds(st, f_not(g['right'])):
            w = sat(st, g['right'])
            res.append((rule, False if w else None, 'validation of a consistent mesh throws %s%s' % (nm, wit(w))))
        elif 'wrong' in g and KINDS[kind] not in nm:
            w = sat(st, g['wrong'])
            res.append((rule, False if w else None, 'the defect is reported as %s%s' % (nm, wit(w))))
        else:
            res.append((rule, True, ''))
    if not n and not A.bad:
        res.append((rule, None, 'no exit'))
    return res


def tyname(p, ty):
    return p.ty(ty).s if isinstance(ty, int) else str(ty)


def run():
    rep = Report('C22')
    p = ir.load()
    jobs = []
    cs = cases()
    for K in meshes.kinds(p):
        for f in p.lib():
            if f.get('rec') is None or ir.plain(f['q']).split('::')[-1] != 'validate' or f['params'] or p.strip(f['rec']).s.replace('const ', '') != p.ty(K.rec).s.replace('const ', ''):
                continue
            for c in cs:
                jobs.append((f['id'], K.rec, c))
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        ti, kind, pos, dof = job[2]
        what = '%s (%s, %s%s%s)' % (f['q'], TOPOS[ti].name, kind, '' if pos is None else ' at %s' % (pos,), ', with degrees of freedom' if dof else '')
        if r is None:
            rep.ob(RULES[kind], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for x in RULES.values():
        rep.need(x, 8)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Mesh::validate is analysed on consistent heap graphs and on the same graphs with one inconsistency at every position '
        '(wrong index, isolated vertex, element that does not contain the vertex, missing vertex, moved corner, flat element, '
        'missing face); per exit path the path condition must agree with the presence of the inconsistency and the type thrown '
        'must be its own.')
