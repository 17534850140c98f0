"""C26: mesh connectivity is symmetric and complete after set-up."""
import itertools

import ir
import meshes
import numeric
import sweep
from common import Report
from engine import Stop, pval, mkptr
from meshes import World, View, Topo, TOPOS, MAna, nice
from shaped import wit
from terms import P, N, ZERO, TRUE, FALSE, num, toP, f_eq, show

RULES = ('a vertex gets its position as index', 'an element takes the coordinates of its vertices', 'an element is registered with its vertices',
         'a face consists of the other vertices', 'a face belongs to the elements at it', 'a face is registered with the mesh once',
         'a face is shared by both elements', 'boundary vertices are those of faces with one element', 'the rest of the mesh is unchanged',
         'set-up completes', 'a face of three elements is rejected')


def topos(what):
    out = list(TOPOS)
    out.append(Topo(6, [(0, 1, 5), (1, 2, 5), (2, 3, 5), (3, 4, 5)], 'open fan'))
    out.append(Topo(7, [(2, 1, 0), (0, 3, 2), (4, 3, 0), (0, 5, 4), (5, 0, 6)], 'open fan around the first vertex'))
    out.append(Topo(6, [(5, 0, 1), (5, 1, 2), (5, 2, 3), (5, 3, 4), (5, 4, 0)], 'five triangles around a vertex'))
    if what == 'setupNeighbors':
        # two triangles that share one edge: every choice of corners
        for a, b in itertools.product(itertools.permutations((0, 1, 2)), itertools.permutations((1, 3, 2))):
            out.append(Topo(4, [a, b], 'triangles %s %s' % (a, b)))
        out.append(Topo(4, [], 'no elements'))
        # more than two elements at a face
        for es in ([(0, 1, 2), (0, 1, 3), (0, 1, 4)], [(2, 0, 1), (1, 3, 0), (4, 1, 0)], [(0, 2, 1), (3, 0, 1), (1, 4, 0)],
                   [(2, 4, 0), (0, 1, 2), (0, 1, 3), (0, 4, 1)], [(0, 1, 2), (2, 1, 5), (3, 1, 0), (1, 0, 4), (4, 5, 0)][:4]):
            out.append(Topo(6, es, 'three triangles at one edge: %s' % es))
    return out


def meshexc(p, ty):
    """the type is derived from the mesh exception"""
    seen, todo = set(), [p.strip(ty).i]
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if (p.ty(i).name or '') == 'NS::MeshException':
            return True
        r = p.rec(i) or {}
        todo += [b['t'] if isinstance(b, dict) else b for b in r.get('bases') or []]
    return False


def task(p, job):
    fid, rec, what, ti, flags = job
    f = p.fns[fid]
    K = meshes.Kinds(p, rec)
    T = topos(what)[ti]
    A = MAna(p, maxsteps=400000)
    A.JOIN = 64
    w = {}

    def setup(E, st, this, vs):
        o = dict(flags=flags)
        if what == 'setupNeighbors':
            o.update(faces=flags == 9, flags=0)
        if what == 'setupBoundaries':
            o.update(boundary=False)
        t = T
        if what == 'addElement':
            t = Topo(T.n, T.elems[:-1], T.name)
            o.update(faces=False)
        W = World(E, st, K, t, this=this, name='m', **o)
        st = W.st
        if what == 'addVertex':
            q = ('h', 'new')
            st.mem[q] = E.make_sym(K.ty['Vertex'], 'new')
            E.otype[q] = K.ty['Vertex']
            meshes.setf(E, st, mkptr(q), Elements=meshes.clist([]))
            vs[0] = mkptr(q)
            w['new'] = q
        if what == 'addElement':
            q = ('h', 'new')
            st.mem[q] = E.make_sym(K.ty['Element'], 'new')
            E.otype[q] = K.ty['Element']
            meshes.setf(E, st, mkptr(q), Vertices=meshes.clist([mkptr(W.V[i]) for i in T.elems[-1]]),
                        Neighbors=meshes.clist([meshes.NULL] * (K.K + 1)), DOFVertices=meshes.clist([]))
            W.st = st
            st = meshes.run1(E, st, meshes.method(p, K.simplex, None, 0), mkptr(q, ('Element',)), [])[0]
            vs[0] = mkptr(q)
            w['new'] = q
        w['W'] = W
        w['pre'] = st.fork()
        return st
    res = []
    try:
        outs, thr = A.entry(f, setup=setup)
    except Stop as x:
        return [(RULES[9], None, 'stopped: %s' % x)]
    for wt, e, t in A.bad:
        res.append((RULES[9], False if wt else None, t + ' at ' + str(e.get('l', '?')) + wit(wt)))
    many = what == 'setupNeighbors' and any(len(x) > 2 for x in T.faces().values())
    for st, ty, e in thr:
        wt = A.sure(st)
        if many:
            ok = isinstance(ty, int) and meshexc(p, ty)
            res.append((RULES[10], True if ok else False if wt else None, 'throws %s' % (p.ty(ty).s if isinstance(ty, int) else ty)))
            continue
        res.append((RULES[9], False if wt else None, 'throws %s%s' % (p.ty(ty).s if isinstance(ty, int) else ty, wit(wt))))
    for st, v in outs:
        if many:
            wt = A.sure(st)
            res.append((RULES[10], False if wt else None, 'set-up returns although three elements share a face%s' % wit(wt)))
            continue
        try:
            exits(A, st, K, what, T, w, res)
        except Stop as x:
            res.append((RULES[9], None, 'stopped: %s' % x))
    return res


def exits(A, st, K, what, T, w, res):
    W = w['W']
    M = View(A, st, K, W.O)
    B = View(A, w['pre'], K, W.O)

    def judge(rule, ok, text):
        if ok:
            res.append((rule, True, ''))
            return
        x = A.sure(st)
        res.append((rule, False if x else None, text + wit(x)))

    def same(rule, a, b, text):
        """equal numbers"""
        if A.holds(st, f_eq(a - b)):
            res.append((rule, True, ''))
            return
        d = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(a, b)])
        res.append((rule, False if d else None, '%s is %s instead of %s%s' % (text, show(a), show(b), wit(d))))

    def kept(rule, o, cls, but=()):
        a, b = dict(A.read(st, mkptr(o)).args[1]), dict(A.read(w['pre'], mkptr(o)).args[1])
        for k in b:
            if k in but or a.get(k) == b[k]:
                continue
            if isinstance(a[k], P) and isinstance(b[k], P):
                same(rule, a[k], b[k], '%s of %s' % (k, nice(o)))
            elif isinstance(a[k], N) and a[k].kind == 'arr' and k in ('Elements', 'Vertices', 'Neighbors', 'DOFVertices'):
                la, lb = M.ptrs(a[k]), B.ptrs(b[k])
                judge(rule, la == lb, '%s of %s changes from %s to %s' % (k, nice(o), [nice(x) for x in lb], [nice(x) for x in la]))
            elif k == 'Vertex':
                for x, y in zip(M.coords(a[k]), B.coords(b[k])):
                    same(rule, x, y, 'a coordinate of %s' % nice(o))
            elif k == 'Element':
                for x, y in zip(M.corners(o), B.corners(o)):
                    for c, d in zip(x, y):
                        same(rule, c, d, 'a stored corner coordinate of %s' % nice(o))

    if what == 'addVertex':
        new = w['new']
        judge(RULES[8], M.V == W.V + [new], 'the vertices are %s after adding one to %d' % ([nice(x) for x in M.V], len(W.V)))
        same(RULES[0], pval(M.get(new, 'GlobalIndex')), num(len(W.V)), 'the index of the new vertex')
        for o in W.V:
            kept(RULES[8], o, 'Vertex')
        for o in W.S:
            kept(RULES[8], o, 'Element')
        kept(RULES[8], new, 'Vertex', ('GlobalIndex',))
    elif what == 'addElement':
        new = w['new']
        judge(RULES[8], M.S == W.S + [new], 'the elements are %s after adding one to %d' % ([nice(x) for x in M.S], len(W.S)))
        cs = M.corners(new)
        for j, i in enumerate(T.elems[-1]):
            for d, (x, y) in enumerate(zip(cs[j], W.xy[i])):
                same(RULES[1], x, y, 'coordinate %d of corner %d' % (d, j))
        for i, o in enumerate(W.V):
            want = B.links(o, 'Elements') + ([new] if i in T.elems[-1] else [])
            got = M.links(o, 'Elements')
            judge(RULES[2], sorted(map(str, got)) == sorted(map(str, want)), 'vertex %d lists %s instead of %s' % (i, [nice(x) for x in got], [nice(x) for x in want]))
            kept(RULES[8], o, 'Vertex', ('Elements',))
        kept(RULES[8], new, 'Element', ('Element',))
        for o in W.S:
            kept(RULES[8], o, 'Element')
    elif what == 'setupNeighbors':
        seen = {}
        for e, o in enumerate(W.S):
            for i, fo in enumerate(M.links(o, 'Neighbors')):
                name = 'the face opposite of corner %d of element %d' % (i, e)
                judge(RULES[3], isinstance(fo, tuple), '%s is not set' % name)
                if not isinstance(fo, tuple):
                    continue
                want = frozenset(W.V[T.elems[e][j]] for j in range(K.K + 1) if j != i)
                got = M.links(fo, 'Vertices')
                judge(RULES[3], frozenset(got) == want and len(got) == K.K, '%s has vertices %s instead of %s' % (name, [nice(x) for x in got], sorted(nice(x) for x in want)))
                es = [W.S[x] for x, _ in T.faces()[frozenset(T.elems[e][j] for j in range(K.K + 1) if j != i)]]
                ge = [x for x in M.links(fo, 'Elements') if x is not None]
                judge(RULES[4], o in ge, '%s does not refer to the element' % name)
                judge(RULES[4], sorted(map(str, ge)) == sorted(map(str, es)), '%s belongs to %s instead of %s' % (name, [nice(x) for x in ge], [nice(x) for x in es]))
                judge(RULES[5], M.F.count(fo) == 1, '%s is %d times in the mesh' % (name, M.F.count(fo)))
                if want in seen:
                    judge(RULES[6], seen[want] == fo, '%s is not the face of the other element' % name)
                seen[want] = fo
        judge(RULES[5], len(M.F) == len(T.faces()), 'the mesh has %d faces instead of %d' % (len(M.F), len(T.faces())))
        for o in W.V:
            kept(RULES[8], o, 'Vertex')
        for o in W.S:
            kept(RULES[8], o, 'Element', ('Neighbors',))
        judge(RULES[8], M.V == W.V and M.S == W.S, 'vertices or elements change')
    elif what == 'setupBoundaries':
        b = T.boundary()
        for i, o in enumerate(W.V):
            old = B.flags(o).const()
            want = num(int(old) | (meshes.BOUNDARY if i in b else 0))
            same(RULES[7], M.flags(o), want, 'the flags of vertex %d (%s)' % (i, 'boundary' if i in b else 'inside'))
            kept(RULES[8], o, 'Vertex', ('Flags',))
        for o in W.S:
            kept(RULES[8], o, 'Element')
        for o in W.F:
            kept(RULES[8], o, 'Edge')


OPS = {'addVertex': (1, (0,)), 'addElement': (1, (0,)), 'setupNeighbors': (0, (0, 9)), 'setupBoundaries': (0, (0, 2))}


def run():
    rep = Report('C26')
    p = ir.load()
    jobs = []
    for K in meshes.kinds(p):
        for f in p.lib():
            nm = ir.plain(f['q']).split('::')[-1]
            if f.get('rec') is None or nm not in OPS or len(f['params']) != OPS[nm][0] or f.get('static'):
                continue
            if p.strip(f['rec']).s.replace('const ', '') != p.ty(K.rec).s.replace('const ', ''):
                continue
            for ti, t in enumerate(topos(nm)):
                if nm == 'addElement' and not t.elems:
                    continue
                for fl in OPS[nm][1]:
                    if fl == 9 and any(len(x) > 2 for x in t.faces().values()):
                        continue
                    jobs.append((f['id'], K.rec, nm, ti, fl))
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%s)' % (f['q'], topos(job[2])[job[3]].name)
        if r is None:
            rep.ob(RULES[9], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for x in RULES[:8] + RULES[10:]:
        rep.need(x, 4)
    rep.cov['meshes'] = [t.name for t in TOPOS]
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('addVertex, addElement, setupNeighbors and setupBoundaries are analysed on heap graphs of small meshes (one to four triangles '
        'in all ways to share an edge, a vertex or nothing, closed surface, every choice of corner order for two triangles) with '
        'unknown coordinates, and on meshes with three triangles at one edge, which must be rejected; the links of every vertex, element and face at exit are compared with those of the mesh.')
