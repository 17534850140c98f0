"""C04: nothing allocated is leaked when an operation returns or throws."""
import ir
import loadcases
import meshcases
import meshes
import sweep
from checks import c23
from common import Report
from engine import Stop
from shaped import Case, wit
from terms import P, N, ATOMS

LEAK = 'every block is released or owned at every exit'
ONCE = 'a block is released once, with the matching operator'
DEAD = 'released blocks are not used'
DONE = 'allocating function analysed'


class Own:
    """records double releases, mismatched releases and uses of released blocks"""

    def __init__(self, *a, **o):
        super().__init__(*a, **o)
        self.own = []
        self.nuse = [0, 0]

    def gone(self, st, ptr):
        return isinstance(ptr, N) and ptr.kind == 'ptr' and ptr.args[0] in st.gh.get('freed', ())

    def note_(self, rule, st, e, text):
        if self.mute:
            return
        w = None if st.gh.get('joined') or st.gh.get('iffy') else self.sure_(st)
        self.own.append((rule, w, e, text))

    def sure_(self, st):
        import numeric
        from terms import TRUE, FALSE
        return numeric.differ(st.facts, [(TRUE, FALSE)])

    def on_delete(self, st, e, ptr=None):
        self.nuse[0] += 1
        if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
            return
        o = ptr.args[0]
        if self.gone(st, ptr):
            self.note_(ONCE, st, e, '%s is released a second time' % meshes.nice(o))
        elif o[0] == 'h':
            arr = isinstance(self.otype.get(o), tuple)
            if arr != bool(e.get('arr')):
                self.note_(ONCE, st, e, '%s is released by %s' % (meshes.nice(o), 'delete[]' if e.get('arr') else 'delete instead of delete[]'))
        elif o[0] == 'v':
            self.note_(ONCE, st, e, 'a local variable is released')

    def on_read(self, st, e, ptr=None):
        self.nuse[1] += 1
        if self.gone(st, ptr):
            self.note_(DEAD, st, e, '%s is read after its release' % meshes.nice(ptr.args[0]))

    def on_write(self, st, e, ptr=None, val=None):
        self.nuse[1] += 1
        if self.gone(st, ptr):
            self.note_(DEAD, st, e, '%s is written after its release' % meshes.nice(ptr.args[0]))


SEEN = {}


def refs(v):
    """objects a value points to"""
    if isinstance(v, P):
        out = set()
        for m in v.m:
            for i in m:
                out |= refs(ATOMS[i])
        return out
    if isinstance(v, (tuple, list)):
        out = set()
        for x in v:
            out |= refs(x)
        return out
    if not isinstance(v, N):
        return set()
    if v.id in SEEN:
        return SEEN[v.id]
    SEEN[v.id] = frozenset()
    out = set()
    if v.kind == 'ptr':
        out.add(v.args[0])
    elif v.kind == 'ref' or v.kind == 'refv':
        out |= refs(v.args)
    else:
        out |= refs(v.args)
    SEEN[v.id] = frozenset(out)
    return out


def members(p, E, v, ty):
    """objects held by members that have a destructor of their own"""
    out = set()
    if not (isinstance(v, N) and v.kind == 'rec'):
        return out
    r = p.rec(p.strip(ty).i)
    fs = dict(v.args[1])
    for n, ft, _ in E.allfields(r):
        if n in fs and p.ty(ft).k != 'ptr':
            out |= refs(fs[n])
    return out


def reach(st, roots):
    todo, seen = list(roots), set()
    while todo:
        o = todo.pop()
        if o in seen:
            continue
        seen.add(o)
        v = st.mem.get(o)
        if v is not None:
            todo += [x for x in refs(v) if x not in seen]
    return seen


def judge(p, A, f, how, st, v, this, vs, pre, what, res, other=(), preheap=(), extra=()):
    """leaks at one exit"""
    roots = set(refs(v)) if v is not None else set()
    for x in vs:
        roots |= refs(x)
    tobj = this.args[0] if isinstance(this, N) and this.kind == 'ptr' else None
    for o in pre:
        if o[0] not in ('h',) and o != tobj:
            roots.add(o)
    if tobj is not None and not f.get('dtor'):
        if f.get('ctor') and how == 'exception':
            roots |= members(p, A, st.mem.get(tobj), f['rec'])
        else:
            roots.add(tobj)
    roots |= {d for _, d, _ in other}
    for o in st.mem:
        if o[0] in ('g', 'static', 'glob'):
            roots.add(o)
    live = [o for o in st.gh.get('heap', ()) if o not in st.gh.get('freed', ())]
    ok = reach(st, roots)
    lost = [o for o in live if o not in ok]
    lost = [o for o in lost if o in preheap and len(o) == 2]
    finish(p, A, f, how, st, v, this, vs, preheap, what, res, [(t, d, h) for t, d, h in other], extra)
    if not lost:
        return
    if st.gh.get('joined') or st.gh.get('iffy'):
        w = None
    else:
        w = A.sure_(st)
    opaque = any(blind(st.mem.get(o)) for o in ok if o in st.mem)
    res.append((LEAK, False if w and not opaque else None, '%s: at an exit by %s nothing owns %s (%d blocks)%s' % (what, how, meshes.nice(lost[0]), len(lost), wit(w))))


def finish(p, A, f, how, st, v, this, vs, preheap, what, res, other, extra):
    """destroy every owner that is left; what the operation has allocated must be gone then"""
    import engine
    new = [o for o in st.gh.get('heap', ()) if o not in preheap and o not in st.gh.get('freed', ())]
    if not new:
        res.append((LEAK, True, what))
        return
    todo, seen = [], set()

    def owner(t, ptr):
        t = p.strip(t)
        if t.k == 'record' and A.has_dtor(t.i) and isinstance(ptr, N) and ptr.kind == 'ptr' and ptr not in seen:
            seen.add(ptr)
            todo.append((t.i, ptr))
    st = st.fork()
    if v is not None and isinstance(v, N) and v.kind == 'rec':
        o = ('p', '#ret')
        st.mem[o] = v
        owner(f['ret'], engine.mkptr(o))
    keep = set()
    if v is not None and p.ty(f['ret']).k == 'ptr':
        keep |= reach(st, refs(v))
    for q, x in zip(f['params'], vs):
        t = p.ty(q['t'])
        if t.k in ('ref', 'rref'):
            owner(q['t'], x)
        elif t.k == 'ptr':
            keep |= reach(st, refs(x)) if p.strip(t.of).k == 'record' and (p.strip(t.of).name or '') not in MESHY else set()
    if this is not None and f.get('rec') is not None and not f.get('dtor'):
        if f.get('ctor') and how == 'exception':
            for n, ft, _ in A.allfields(p.rec(p.strip(f['rec']).i)):
                owner(ft, engine.mkptr(this.args[0], this.args[1] + (n,)))
        else:
            owner(f['rec'], this)
    for t, d, h in other:
        o = ('p', '#other%d' % len(seen))
        st.mem[o] = h
        owner(t, engine.mkptr(o))
    hs, cs = getattr(A, 'handlers', None), getattr(A, 'callstack', None)
    A.handlers, A.callstack = [[]], []
    e = {'l': f['l'], 'k': 'dtor', 't': f['ret']}
    fr = engine.Frame(f, 0, None, None)
    try:
        sts = [st]
        for t, ptr in todo:
            sts = [z for y in sts for z in A.destroy(t, ptr, y, fr, e)]
    except Stop as x:
        res.append((LEAK, None, '%s: %s' % (what, x)))
        return
    finally:
        A.handlers, A.callstack = hs, cs
    for z in sts:
        lost = [o for o in new if o not in z.gh.get('freed', ()) and o not in keep]
        if not lost:
            res.append((LEAK, True, what))
            continue
        w = None if z.gh.get('joined') or z.gh.get('iffy') else A.sure_(z)
        res.append((LEAK, False if w else None, '%s: after an exit by %s no owner releases %s (%d blocks)%s'
                    % (what, how, meshes.nice(lost[0]), len(lost), wit(w))))


MESHY = ('NS::MeshVertex', 'NS::MeshElement', 'NS::MeshEdge')
BL = {}


def blind(v):
    """the value hides what it refers to"""
    if isinstance(v, P):
        return any(blind(ATOMS[i]) for m in v.m for i in m)
    if isinstance(v, (tuple, list)):
        return any(blind(x) for x in v)
    if not isinstance(v, N):
        return False
    if v.id not in BL:
        BL[v.id] = False
        BL[v.id] = v.kind in ('opq', 'chavoc', 'havoc', 'unk') or blind(v.args)
    return BL[v.id]


class MOwn(Own, meshes.MAna):
    pass


class COwn(Own, sweep.Ana):
    def __init__(self, p, **o):
        o.update(dtors=True, reads=True)
        super().__init__(p, **o)


def task(p, job):
    kind, fid, k = job
    f = p.fns[fid]
    res = []
    opt = dict(dtors=True, reads=True)
    other, preheap, extra = [], (), ()
    if kind == 'mesh':
        sp = meshcases.specs(p, f)[k]
        what = meshcases.text(sp)
        M = meshcases.MC(p, f, sp, cls=MOwn, **opt).run()
        A, outs, thr, this, vs, pre = M.A, M.outs, M.thr, M.this, M.vs, M.pre
        if sp.get('refs', 1) > 1:
            for W in M.worlds:      # another handle owns the data
                if not sp.get('shared'):
                    other.append((W.K.rec, W.D, M.pre_handle(W)))
        preheap, extra = M.preheap, M.extra
    elif kind == 'tri':
        c = loadcases.triangle()[k]
        what = c.name
        A, outs, thr = loadcases.run_triangle(p, f, c, mix=Own, **opt)
        this, vs, pre = None, (), ()
    elif kind == 'obj':
        o = loadcases.OBJ[k]
        what = loadcases.objtext(o)
        A, outs, thr = loadcases.run_obj(p, f, o, mix=Own, **opt)
        this, vs, pre = None, (), ()
    else:
        pl = plans(p, f)[k]
        what = 'operands of constant shape (%d)' % k
        C = Case(p, f, pl, maxsteps=60000, mshape=pl['m'][0], mcells=pl['m'][1], cls=COwn)
        C.run()
        A, outs, thr = C.A, C.outs, C.thr
        this, vs = C.this, C.vs
        pre = ()
    n = 0
    for st, v in outs:
        n += 1
        judge(p, A, f, 'return', st, v, this, vs, pre, what, res, other, preheap, extra)
    for st, ty, e in thr:
        n += 1
        judge(p, A, f, 'exception', st, None, this, vs, pre, what, res, other, preheap, extra)
    for rule, w, e, t in A.own:
        res.append((rule, False if w else None, '%s: %s at %s%s' % (what, t, e.get('l', '?'), wit(w))))
    if not any(r == ONCE for r, _, _, _ in A.own):
        res.append((ONCE, True, '%s: %d releases' % (what, A.nuse[0])))
    if not any(r == DEAD for r, _, _, _ in A.own):
        res.append((DEAD, True, '%s: %d accesses' % (what, A.nuse[1])))
    res.append((DONE, True, '%s: %d exits' % (what, n)))
    return res


def plans(p, f):
    return c23.plans(p, f)


def allocating(p):
    """functions from which a new expression is reachable"""
    direct, calls = set(), {}
    for i, f in p.fns.items():
        c = set()
        for n in ir.walk([f.get('body'), f.get('inits')]):
            if n.get('k') == 'new':
                direct.add(i)
            g = n.get('f')
            if isinstance(g, dict) and g.get('id'):
                c.add(g['id'])
        calls[i] = c
    back = {}
    for i, c in calls.items():
        for j in c:
            back.setdefault(j, set()).add(i)
    out, todo = set(direct), list(direct)
    while todo:
        for i in back.get(todo.pop(), ()):
            if i not in out:
                out.add(i)
                todo.append(i)
    lib = {f['id'] for f in p.lib()}
    return direct & lib, out & lib


def jobs(p):
    out = []
    for f in p.lib():
        for k in range(len(meshcases.specs(p, f))):
            if f.get('access') not in (1, 2) or ir.plain(f['q']).endswith('::generate'):
                out.append(('mesh', f['id'], k))
    for f in loadcases.fn(p, 'MeshTriangleLoader', 'loadString'):
        out += [('tri', f['id'], k) for k in range(len(loadcases.triangle()))]
    for f in loadcases.fn(p, 'MeshObjLoader', 'loadString'):
        out += [('obj', f['id'], k) for k in range(len(loadcases.OBJ))]
    have = {j[1] for j in out}
    direct, closure = allocating(p)
    rest = []
    for f in sweep.entries(p):
        if f['id'] in closure and f['id'] not in have:
            pl = plans(p, f)
            rest += [('gen', f['id'], k) for k in range(len(pl))]
    return out + rest, direct, closure


def run():
    rep = Report('C04')
    p = ir.load()
    js, direct, closure = jobs(p)
    for i in sorted(direct):
        rep.note('allocates: %s (%s)' % (p.fns[i]['q'], p.fns[i]['l'])) if hasattr(rep, 'note') else None
    for job, r, err, dt in sweep.run(p, task, js):
        f = p.fns[job[1]]
        if r is None:
            rep.ob(DONE, None, '%s %s %s: %s' % (f['q'], job[0], job[2], err))
            continue
        for rule, v, t in r:
            rep.ob(rule, v, '%s: %s' % (f['q'], t))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s: %s' % (f['q'], rule, t))
    rep.cov['functions_with_new'] = len(direct)
    rep.cov['functions_reaching_new'] = len(closure)
    rep.cov['explanation'] = EXPL
    rep.need(LEAK, 200)
    rep.need(DONE, 100)
    return rep.finish()


EXPL = ('Every function that takes or makes a mesh, both loaders and every other function from which a new expression is reachable '
        'are interpreted abstractly on operands of constant shape with destructors of locals executed on every exit; at each '
        'return and exception every live block must be reachable from the result or an operand.')
