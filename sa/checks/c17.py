"""C17: every object starts in a fully initialised state."""
import engine as E_
import ir
import meshes
import meshcases
import numeric
import prover
import shaped
import sized
import sweep
import time
from checks import c23
from common import Report
from engine import Stop, pval, bval, isbool, mkptr
from shaped import wit
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, f_eq, f_ge, show

INIT = 'constructor leaves every member initialised'
ZEROED = 'newly sized object is all zero'
LIST = 'list constructor holds the listed entries and zeros'
EMPTY = 'new mesh object is empty'
READ = 'no indeterminate value is read'


class U(meshes.MAna):
    """remembers certain reads of indeterminate values"""
    UNROLL = 64

    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.und = []
        self.maybe = 0

    def on_undef(self, st, e, ptr=None):
        self.maybe += 1
        if st.gh.get('joined') or st.gh.get('iffy'):
            return
        w = numeric.differ(st.facts, [(TRUE, FALSE)])
        if w is not None:
            self.und.append((e, self.callstack[-1][0] if self.callstack else None, wit(w)))
        else:
            self.maybe += 1


def used(p):
    """names of the members the library mentions outside of constructor initialisers"""
    out = set()
    for f in p.lib():
        if f.get('ctor'):
            continue
        for n in ir.walk([f.get('body')]):
            if n.get('k') == 'mem':
                out.add(n.get('f') if isinstance(n.get('f'), str) else (n.get('n') or ''))
    return out


def leaves(E, st, v, path='', depth=0):
    """places of a value that hold an indeterminate value; None for places that are not known"""
    if isinstance(v, P) or isbool(v):
        return
    if not isinstance(v, N):
        return
    if v.kind == 'undef':
        yield path, True
    elif v.kind == 'rec' and depth < 6:
        for n, x in v.args[1]:
            yield from leaves(E, st, x, path + '.' + n, depth + 1)
    elif v.kind == 'arr':
        n = v.args[0].const()
        if n is not None and n <= 16:
            for i in range(int(n)):
                try:
                    x = E.cread(st, v.args[1], num(i))
                except Stop:
                    yield path + '[%d]' % i, None
                    continue
                yield from leaves(E, st, x, '%s[%d]' % (path, i), depth + 1)
            return
        c = v.args[1]
        while isinstance(c, N) and c.kind == 'cset':
            c = c.args[0]
        if isinstance(c, N) and c.kind == 'cfill':
            for q, _ in leaves(E, st, c.args[0], path + '[]', depth + 1):
                yield q, None
    elif v.kind == 'ite':
        for x in v.args[1:]:
            for q, _ in leaves(E, st, x, path, depth + 1):
                yield q, None


def heap(st):
    return [o for o in st.gh.get('heap', ()) if o not in set(st.gh.get('freed', ()))]


def dirty(f):
    def setup(E, st, this, vs):
        if f.get('ctor'):
            st.mem[this.args[0]] = E.undef_of(f['rec'], 'this')
        return st
    return setup


def examine(p, f, A, outs, names, what):
    """verdicts about all memory of the new object at the normal exits"""
    res = []
    for st, v in outs:
        todo = []
        if f.get('ctor'):
            todo.append(('', st.mem[A.this_.args[0]]))
        for o in heap(st):
            if o in st.mem:
                t = None
                todo.append((' new object %s' % meshes.nice(o), st.mem[o]))
        for nm, x in todo:
            ls = [(q, s) for q, s in leaves(A, st, x) if q.split('.')[-1].split('[')[0] in names or not q.strip('.').split('[')[0]]
            if not ls:
                res.append((INIT, True, what))
                continue
            sure = [q for q, s in ls if s]
            w = None
            if sure and not st.gh.get('joined') and not st.gh.get('iffy'):
                w = numeric.differ(st.facts, [(TRUE, FALSE)])
            q = (sure or [ls[0][0]])[0]
            res.append((INIT, False if w is not None else None, '%s member %s%s is not initialised%s' % (what, nm, q, wit(w))))
    return res


def nested(p, t):
    """element list arguments of constant shape: initializer_list (of initializer_list)"""
    q = p.strip(t)
    if q.name != 'std::initializer_list':
        return None
    el = p.strip(q.targs[0]['t'])
    return 2 if el.name == 'std::initializer_list' else 1


def ctor_plans(p, f):
    """(setup, description, expected dimensions or None) of constant shape"""
    fs = f['params']
    ks = [shaped.kindof(p, q['t']) for q in fs]
    out = []
    lists = [nested(p, q['t']) for q in fs]
    fx = shaped.fixed(p, f, 'this')
    for i, d in enumerate(lists):
        if not d:
            continue
        shapes = [fx] if fx and len(fx) == d and all(fx) else [(1,), (3,)] if d == 1 else [(1, 2), (2, 2), (3, 2)] if sized.kind(p, f['rec']) == 'S' else [(1, 2), (2, 2), (2, 3)]
        rn = p.strip(f['rec'])
        if rn.name == 'NS::Simplex':
            k = int(rn.targs[1]['i'])
            shapes = [(k + 1, k)]
        rows = []
        for q in shapes:
            if d == 1:
                rows.append((q, None))
                if fx and q[0] > 1:
                    rows.append(((q[0] - 1,), None))
            else:
                rows.append((q, [q[1]] * q[0]))
                if rn.name != 'NS::Simplex' and q[1] > 1 and q[0] > 1:
                    rows.append((q, [q[1]] + [q[1] - 1] * (q[0] - 1)))
                    rows.append((q, [0] + [q[1]] * (q[0] - 1)))
                    if fx:
                        rows.append((q, [1]))
        for q, ln in rows:
            ent = {}

            def setup(E, st, this, vs, i=i, q=q, ln=ln, ent=ent):
                ent.clear()
                if ln is None:
                    for j in range(q[0]):
                        ent[(j,)] = E.fresh('x%d' % j)
                    vs[i] = meshes.clist([ent[(j,)] for j in range(q[0])])
                else:
                    for r, m in enumerate(ln):
                        for j in range(m):
                            ent[(r, j)] = E.fresh('x%d%d' % (r, j))
                    vs[i] = meshes.clist([meshes.clist([ent[(r, j)] for j in range(m)]) for r, m in enumerate(ln)])
                return st
            shape = fx if fx and len(fx) == d and all(fx) else q
            out.append((setup, 'with the list %s' % ('of %d numbers' % q[0] if ln is None else 'of rows with %s numbers' % ln), (shape, ent) if rn.name != 'NS::Simplex' else None))
    sz = [i for i, k in enumerate(ks) if k == 'I']
    if sz and all(k in 'IT' for k in ks):
        for dims in ((0,), (1,), (2,), (3,)) if len(sz) == 1 else ((0, 0), (1, 2), (2, 1), (2, 2), (0, 2), (3, 3), (2, 3)):
            def setup(E, st, this, vs, dims=dims):
                for i, d in zip(sz, dims):
                    shaped.scalar(E, st, vs, i, d)
                return st
            out.append((setup, 'of size %s' % 'x'.join(map(str, dims)), dims))
    if not fs:
        out.append((None, 'by default', ()))
    return out


def ctor(p, f, names):
    """one constructor"""
    res = []
    fixed = shaped.fixed(p, f, 'this')
    pl = ctor_plans(p, f)
    runs = [(None, '', None)] + [x for x in pl if x[0] or x[2] is not None]
    settled = False
    for setup, what, dims in runs[::-1]:
        if not what and pl and settled:
            continue
        A = U(p, maxsteps=60000, spm=False)
        A.JOIN = 256

        def su(E, st, this, vs):
            st = dirty(f)(E, st, this, vs)
            return setup(E, st, this, vs) if setup else st
        try:
            outs, thr = A.entry(f, setup=su)
        except Stop as x:
            res.append((INIT, None, '%s: stopped: %s' % (what, x)))
            outs = []
        settled = settled or bool(outs)
        for e, g, w in A.und:
            res.append((READ, False, 'reads an indeterminate value at %s%s' % (e['l'], w)))
        if not A.und:
            res.append((READ, None if A.maybe else True, what))
        res += examine(p, f, A, outs, names, what)
        if dims is not None and len(dims) == 2 and isinstance(dims[1], dict):
            res += listed(p, f, A, outs, dims, what)
        elif dims is not None:
            res += zero(p, f, A, outs, dims, what, any(shaped.kindof(p, q['t']) == 'T' for q in f['params']))
    return res


def zero(p, f, A, outs, dims, what, filled):
    """default and size constructors of the containers give zeros, new mesh parts are empty"""
    res = []
    rn = p.strip(f['rec']).name or ''
    for st, v in outs:
        x = st.mem[A.this_.args[0]]
        w = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(TRUE, FALSE)])
        if sized.kind(p, f['rec']):
            if filled:
                continue
            e = sized.elems(A, st, x)
            if e is None:
                d = sized.dims(A, x)
                if d is not None and dims and tuple(d) != tuple(dims) and w is not None:
                    res.append((ZEROED, False, 'the object constructed %s has the dimensions %s' % (what, 'x'.join(map(str, d)))))
                else:
                    res.append((ZEROED, None, what))
                continue
            if dims:
                want = tuple(dims)
                if e[0] != want:
                    res.append((ZEROED, False if w is not None else None, 'the object constructed %s has the dimensions %s' % (what, 'x'.join(map(str, e[0])))))
                    continue
            bad = [(i, y) for i, y in e[1].items() if not zer(y)]
            if not bad:
                res.append((ZEROED, True, what))
                continue
            i, y = bad[0]
            sure = w
            if isinstance(y, P):
                sure = None if w is None else numeric.differ(st.facts, [(y, ZERO)])
            res.append((ZEROED, False if sure is not None else None, 'entry %s of the object constructed %s is %s instead of 0' % (i, what, show(y)[:40])))
        elif rn.startswith('NS::Mesh') and not f['params'] and rn != 'NS::Mesh':
            for q, y, want in state(A, st, x):
                ok = y == want or isinstance(y, P) and isinstance(want, P) and y - want == ZERO
                sure = None
                if not ok and not (isinstance(y, N) and y.kind in ('opq',)):
                    sure = w
                res.append((EMPTY, True if ok else False if sure is not None else None, 'member %s of a new object is %s' % (q, show(y)[:40])))
        elif rn == 'NS::Simplex' and not f['params']:
            for n, y in x.args[1]:
                if isbool(y) or isinstance(y, P) and False:
                    ok = bval(y) == FALSE
                    res.append((EMPTY, True if ok else False if w is not None else None, 'a new simplex has %s set' % n))
        elif rn == 'NS::CountableSet' and not f['params']:
            for q, y in arrays(x):
                n = pval(y.args[0])
                res.append((EMPTY, True if n == ZERO or n.const() is not None and fixedarr(p, f) else None if n.const() is None else False, 'a new set has %s entries' % show(n)))
        if rn == 'NS::Mesh' and not f['params']:
            hs = [o for o in heap(st)]
            for o in hs:
                for q, y, want in state(A, st, st.mem[o]):
                    if q.endswith('.Refs'):
                        want = ONE
                    ok = y == want
                    res.append((EMPTY, True if ok else False if w is not None else None, 'member %s of a new mesh is %s' % (q, show(y)[:40])))
    return res


def listed(p, f, A, outs, want, what):
    """list constructors: the listed entries, zeros elsewhere"""
    shape, ent = want
    res = []
    for st, v in outs:
        e = sized.elems(A, st, st.mem[A.this_.args[0]])
        if e is None:
            res.append((LIST, None, what))
            continue
        sure = not (st.gh.get('joined') or st.gh.get('iffy'))
        if e[0] != tuple(shape):
            w = numeric.differ(st.facts, [(TRUE, FALSE)]) if sure else None
            res.append((LIST, False if w is not None else None, 'the object constructed %s has the dimensions %s' % (what, 'x'.join(map(str, e[0])))))
            continue
        bad = []
        for k, y in e[1].items():
            x = ent.get(k, ZERO)
            try:
                y = pval(y)
            except Stop:
                bad.append((k, y, x))
                continue
            if not A.holds(st, f_eq(x - y)):
                bad.append((k, y, x))
        if not bad:
            res.append((LIST, True, what))
            continue
        k, y, x = bad[0]
        w = numeric.differ(st.facts, [(y, x) for k, y, x in bad if isinstance(y, P)]) if sure else None
        res.append((LIST, False if w is not None else None, 'entry %s of the object constructed %s is %s instead of %s' % (k, what, show(y)[:40], show(x))))
    return res


def fixedarr(p, f):
    return True


def arrays(v):
    if isinstance(v, N) and v.kind == 'arr':
        yield '', v
    elif isinstance(v, N) and v.kind == 'rec':
        for n, x in v.args[1]:
            for q, y in arrays(x):
                yield n + q, y


def zer(y):
    if isinstance(y, N) and y.kind == 'rec':
        return all(zer(b) for _, b in y.args[1])
    try:
        return pval(y) == ZERO
    except (Stop, AttributeError):
        return False


def state(A, st, v, path=''):
    """(place, value, value of the empty state)"""
    if isinstance(v, N) and v.kind == 'rec':
        for n, x in v.args[1]:
            yield from state(A, st, x, path + '.' + n)
    elif isinstance(v, N) and v.kind == 'arr':
        n = v.args[0].const()
        if n is None or n > 16:
            yield path + '.size', v.args[0], ZERO
            return
        if path.split('.')[-1] in ('Vertices', 'Elements', 'Edges') and n and not fixedptr(A, st, v, n):
            yield path + '.size', v.args[0], ZERO
            return
        for i in range(int(n)):
            try:
                yield from state(A, st, A.cread(st, v.args[1], num(i)), '%s[%d]' % (path, i))
            except Stop:
                pass
    elif isinstance(v, N) and v.kind in ('ptr', 'null', 'sp', 'undef') and not isbool(v):
        yield path, v, E_.NULL if v.kind != 'undef' else ZERO
    elif isinstance(v, P):
        yield path, v, ZERO
    elif isbool(v):
        yield path, bval(v), FALSE


def fixedptr(A, st, v, n):
    return True


def surface(p, f):
    """reads of indeterminate values anywhere below an entry point"""
    res = []
    sparse = f.get('rec') is not None and (p.strip(f['rec']).name or '').startswith('NS::Sparse')
    A = U(p, maxsteps=60000, spm=not sparse)
    err = None
    try:
        A.entry(f, setup=dirty(f))
    except Stop as x:
        err = str(x)
    bad, maybe = list(A.und), A.maybe
    sps = meshcases.specs(p, f)
    if sps and not bad:
        err, maybe = None, 0
        for sp in sps:
            prover.LIMIT[0] = time.time() + 20
            M = meshcases.MC(p, f, sp, cls=U)
            try:
                M.run()
            except Stop as x:
                if sp.get('faces', True):
                    err = '%s: %s' % (meshcases.text(sp), x)
            bad += M.A.und
            maybe += M.A.maybe
    if not bad and (maybe or err) or not bad and hasloops(f):
        t0 = time.time()
        ran = 0
        for pl in c23.plans(p, f)[:3]:
            if time.time() - t0 > 10:
                break
            prover.LIMIT[0] = time.time() + 6
            C = shaped.Case(p, f, pl, maxsteps=40000, mshape=pl['m'][0], mcells=pl['m'][1], cls=U)
            try:
                C.run()
                ran += 1
                more = C.A.maybe
            except Stop:
                more = 0
            bad += C.A.und
            if ran == 1 and more == 0 and err:
                err, maybe = None, 0        # decided on constant shapes
            maybe += more
    for e, g, w in bad:
        res.append((READ, False, 'reads an indeterminate value at %s%s' % (e['l'], w), e['l']))
    if not bad:
        res.append((READ, None if maybe or err else True, err or ''))
    return res


def hasloops(f):
    return any(n.get('s') in ('for', 'while', 'do', 'rfor') or n.get('k') in ('for', 'while') for n in ir.walk([f.get('body')]))


def task(p, job):
    kind, fid = job
    f = p.fns[fid]
    if kind == 'ctor':
        return ctor(p, f, used(p))
    return surface(p, f)


def ctors(p):
    """constructors a user can call"""
    return [f for f in p.lib() if f.get('ctor') and f.get('rec') is not None and '(anonymous class)' not in f['q'] and 'lambda' not in f['q']
            and f.get('access') not in (1, 2) and (p.strip(f['rec']).name or '').count('::') == 1]


def run():
    rep = Report('C17')
    p = ir.load()
    jobs = [('ctor', f['id']) for f in ctors(p)]
    cs = {j for _, j in jobs}
    jobs += [('use', f['id']) for f in sweep.entries(p) if f['id'] not in cs]
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[1]]
        if r is None:
            rep.ob(INIT if job[0] == 'ctor' else READ, None, '%s: %s' % (f['q'], err))
            continue
        for x in r:
            rep.ob(x[0], x[1], '%s %s' % (f['q'], x[2]))
            if x[1] is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), x[0].split()[-1]), x[3] if len(x) > 3 else f['l'], '%s: %s' % (f['q'], x[2]))
    rep.need(INIT, 100)
    rep.need(ZEROED, 10)
    rep.need(LIST, 20)
    rep.need(EMPTY, 10)
    rep.need(READ, 200)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every constructor of the library is executed abstractly on an object (and, where it allocates, on heap memory) whose '
        'scalars are indeterminate; at each normal exit no member the library mentions may still be indeterminate, default and '
        'size constructors must give zeros, new mesh parts empty links, zero flags and indices, and a mesh one reference. In '
        'all entry points no load of an indeterminate local, member or heap value may be reachable.')
