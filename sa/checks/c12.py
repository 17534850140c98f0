"""C12: mesh loaders return a mesh or throw, whatever the input text."""
import ir
import loadcases
import meshes
import numeric
import prover
import sweep
import time
from checks import c03
from common import Report
from engine import Stop, pval
from meshes import View
from shaped import wit
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, toP, node, f_and, f_not, f_ge, f_gt, f_eq, show

SAFE = 'no abort, null pointer or read outside the text or vertex list'
KIND = 'only mesh and loader exceptions are thrown'
WHO = 'errors are reported for the text they are in'
CUT = 'truncated records are rejected'
RANGE = 'vertex numbers that do not exist are rejected'
SAME = 'the mesh has the vertices and triangles the records name'
DONE = 'loader analysed'


class L:
    """records the certain accesses outside of a sequence"""

    def __init__(self, *a, **o):
        super().__init__(*a, **o)
        self.acc = [0, 0]

    def outside(self, st, e, goal, text):
        if self.mute:
            return
        if self.holds(st, goal):
            self.acc[0] += 1
            return
        self.acc[1] += 1
        w = None
        if not (st.gh.get('joined') or st.gh.get('iffy')):
            w = numeric.differ(st.facts, [(goal, TRUE)])
        if w or st.gh.get('iffy') is None:
            self.bad.append((w, e, text))

    def on_index(self, st, e, idx=None, size=None, base=None, **k):
        if idx is not None and size is not None:
            self.outside(st, e, f_and(f_ge(idx), f_gt(size - idx)), 'access outside of a sequence')

    def on_reserve(self, st, e, n=None, obj=None, **k):
        if self.mute or n is None:
            return
        sz = [toP(node('sym', ('%s.size' % x,), 2)) for x in getattr(self, 'script', ())]
        if n.const() is not None or any(self.holds(st, f_ge(num(64) * x + num(4096) - n)) for x in sz):
            self.acc[0] += 1
            return
        fs = tuple(st.facts) + (f_ge(n - num(1 << 61)),) + tuple(f_ge(num(1000) - x) for x in sz)
        w = None
        if not (st.gh.get('joined') or st.gh.get('iffy')):
            w = numeric.differ(fs, [(TRUE, FALSE)])
        self.bad.append((w, e, 'storage of a size that only the text bounds is requested (std::length_error)'))

    def on_itmove(self, st, e, idx=None, size=None, base=None, **k):
        self.outside(st, e, f_and(f_ge(idx), f_ge(size - idx)), 'iterator leaves the sequence')


def task(p, job):
    kind, fid, k = job
    f = p.fns[fid]
    res = []
    if kind == 'tri':
        c = loadcases.triangle()[k]
        what = c.name
        A, outs, thr = loadcases.run_triangle(p, f, c, mix=L)
    else:
        o = loadcases.OBJ[k]
        what = loadcases.objtext(o)
        c = None
        A, outs, thr = loadcases.run_obj(p, f, o, mix=L)
    res.append((DONE, True, what))
    for w, e, t in A.bad:
        res.append((SAFE, False if w else None, '%s: %s at %s%s' % (what, t, e.get('l', '?'), wit(w))))
    if not A.bad:
        res.append((SAFE, True, '%s (%d accesses inside)' % (what, A.acc[0])))
    exc = c03.base_of(p) if hasattr(c03, 'base_of') else None
    for st, ty, e in thr:
        nm = p.ty(ty).s if isinstance(ty, int) else str(ty)
        w = A.sure(st)
        ok = nm.startswith('NS::')
        res.append((KIND, True if ok else False if w else None, '%s: throws %s%s' % (what, nm, wit(w))))
        if c is not None:
            wrong = 'TriangleElementError' in nm if c.part == 'node' else 'TriangleNodeError' in nm
            res.append((WHO, True if not wrong else False if w else None, '%s: throws %s at %s%s' % (what, nm, e.get('l'), wit(w))))
    for st, v in outs:
        if c is not None and c.cut:
            w = A.sure(st)
            res.append((CUT, False if w else None, '%s: a mesh is returned%s' % (what, wit(w))))
            continue
        try:
            exits(p, A, f, c, st, v, what, res)
        except Stop as x:
            res.append((SAME, None, '%s: %s' % (what, x)))
    if c is not None and c.cut and not outs:
        res.append((CUT, True, what))
    return res


def records(lines):
    """data lines with the tokens of each: (line number, [(position, token)])"""
    out = []
    for i, s in enumerate(lines):
        s = s.split('#')[0]
        t, j = [], 0
        while j < len(s):
            if s[j].isspace():
                j += 1
                continue
            a = j
            while j < len(s) and not s[j].isspace():
                j += 1
            t.append((a, s[a:j]))
        if t:
            out.append((i, t))
    return out


def val(nm, ln, tok, isint):
    at, ch = tok
    if ch[0] == 'n':
        return toP(node('sym', ('%s.%d.%d' % (nm, ln, at),), isint))
    return num(int(ch))


def exits(p, A, f, c, st, v, what, res):
    rt = p.strip(f['ret'])
    K = meshes.Kinds(p, rt.i)
    M = View(A, st, K, v)
    sure = not (st.gh.get('joined') or st.gh.get('iffy'))

    def same(rule, a, b, text):
        if A.holds(st, f_eq(a - b)):
            res.append((rule, True, what))
            return
        d = numeric.differ(st.facts, [(a, b)]) if sure else None
        res.append((rule, False if d else None, '%s: %s%s' % (what, text, wit(d))))

    def judge(rule, ok, text):
        if ok:
            res.append((rule, True, what))
            return
        w = A.sure(st)
        res.append((rule, False if w else None, '%s: %s%s' % (what, text, wit(w))))
    if c is None:
        sh = A.shapes[:1]
        pos, ind = sh[0] if sh else ([], [])
        nv = len(pos) // 3
        judge(SAME, len(M.V) == nv, '%d vertices instead of %d' % (len(M.V), nv))
        judge(SAME, len(M.S) == len(ind) // 3, '%d triangles instead of %d' % (len(M.S), len(ind) // 3))
        # template arguments tell which coordinates are used
        t = p.strip(f['rec'])
        ix = [int(x['i']) for x in t.targs if 'i' in x]
        if len(M.V) == nv and len(ix) == 2:
            for i, o in enumerate(M.V):
                xs = M.pos(o)
                for x, k in zip(xs, (ix[1], ix[0])):
                    same(SAME, x, pos[3 * i + k], 'vertex %d has the coordinate %s instead of %s' % (i, show(x), show(pos[3 * i + k])))
        if len(M.S) == len(ind) // 3:
            for e, o in enumerate(M.S):
                for k, q in enumerate(M.links(o, 'Vertices')):
                    d = ind[3 * e + k]
                    judge(RANGE, q in M.V, 'corner %d of triangle %d is no vertex of the mesh' % (k, e))
                    if q in M.V:
                        same(RANGE, d, num(M.V.index(q)), 'corner %d of triangle %d is vertex %d' % (k, e, M.V.index(q)))
        return
    nt, et = A.names
    N_, E_ = records(c.node), records(c.elem)
    vs, es = N_[1:], E_[1:]
    judge(SAME, len(M.V) == len(vs), '%d vertices for %d records' % (len(M.V), len(vs)))
    judge(SAME, len(M.S) == len(es), '%d triangles for %d records' % (len(M.S), len(es)))
    if len(M.V) != len(vs) or len(M.S) != len(es):
        return
    for (ln, t), o in zip(vs, M.V):
        for k, x in enumerate(M.pos(o)):
            y = val(nt, ln, t[1 + k], 0)
            same(SAME, x, y, 'coordinate %d of vertex %d is %s, the record says %s' % (k, M.V.index(o), show(x), show(y)))
    for (ln, t), o in zip(es, M.S):
        for k, q in enumerate(M.links(o, 'Vertices')):
            judge(RANGE, q in M.V, 'corner %d of triangle %d is no vertex of the mesh' % (k, M.S.index(o)))
            if q not in M.V:
                continue
            # number in the record minus first number of the node text, where both texts start with the same number
            first = val(nt, vs[0][0], vs[0][1][0], 2)
            mine = val(et, es[0][0], es[0][1][0], 2)
            i = val(et, ln, t[1 + k], 2)
            j = M.V.index(q)
            if A.holds(st, f_eq(i - first - num(j))):
                res.append((RANGE, True, what))
                continue
            if A.holds(st, f_not(f_eq(first - mine))):
                res.append((RANGE, True, what))         # the texts are numbered differently
                continue
            d = numeric.differ(st.facts + (f_eq(first - mine),), [(i - first, num(j))]) if sure else None
            if d:
                res.append((RANGE, False, '%s: corner %d of triangle %d is vertex %d, the record says another%s' % (what, k, M.S.index(o), j, wit(d))))
            else:
                fs = tuple(st.facts) + (f_eq(first - mine),)
                res.append((RANGE, True if prover.entails(fs, f_eq(i - first - num(j))) else None, what))


def jobs(p):
    out = []
    for f in loadcases.fn(p, 'MeshTriangleLoader', 'loadString'):
        out += [('tri', f['id'], k) for k in range(len(loadcases.triangle()))]
    for f in loadcases.fn(p, 'MeshObjLoader', 'loadString') + loadcases.fn(p, 'MeshObjLoader', 'loadFile'):
        out += [('obj', f['id'], k) for k in range(len(loadcases.OBJ))]
    return out


def run():
    rep = Report('C12')
    p = ir.load()
    for job, r, err, dt in sweep.run(p, task, jobs(p)):
        f = p.fns[job[1]]
        if r is None:
            rep.ob(DONE, None, '%s %s: %s' % (f['q'], job[2], err))
            continue
        for rule, v, t in r:
            rep.ob(rule, v, '%s: %s' % (f['q'], t))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s: %s' % (f['q'], rule, t))
    rep.need(DONE, 80)
    for r in (SAFE, KIND, WHO, CUT, RANGE, SAME):
        rep.need(r, 20)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('The loaders are interpreted abstractly on texts of constant layout (complete, truncated, commented, with extra columns) '
        'whose numbers are unknown, and on parsed OBJ shapes of constant size with unknown coordinates and indices; every exit '
        'must be a mesh with exactly the recorded vertices and triangles or an exception of the right kind.')
