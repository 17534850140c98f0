"""C05: shared mesh handles keep the data alive and free it exactly once."""
import ir
import numeric
import sweep
from common import Report
from engine import Stop, mkptr, mkrec, mkarr, pval, NULL
from shaped import wit
from terms import P, N, ATOMS, ZERO, TRUE, FALSE, num, toP, node, f_ge, f_eq, f_gt, show

RULES = ('data released exactly once', 'no access after release', 'handle count', 'handle refers to the right data',
         'contents kept while shared')


class Shape:
    """the handle class found by structure: one pointer to a record with lists of pointers and a counter"""

    def __init__(self, p, rec):
        self.p = p
        self.rec = rec
        E = sweep.Ana(p)
        fs = [(n, t) for n, t, _ in E.allfields(p.rec(rec))]
        ptrs = [(n, t) for n, t in fs if p.ty(t).k == 'ptr']
        if len(ptrs) != 1:
            raise Stop('handle is not one pointer')
        self.handle = ptrs[0][0]
        self.data = p.strip(p.ty(ptrs[0][1]).of).i
        self.lists, self.count = [], None
        for n, t, _ in E.allfields(p.rec(self.data)):
            q = p.ty(t)
            if q.name == 'std::vector' and p.ty(q.targs[0]['t']).k == 'ptr':
                self.lists.append((n, t, p.strip(p.ty(q.targs[0]['t']).of).i))
            elif q.k in ('uint', 'int'):
                if self.count:
                    raise Stop('two counters')
                self.count = n
        if not self.count or not self.lists:
            raise Stop('no counter')


class M(sweep.Ana):
    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.bad = []

    def sure(self, st):
        if st.gh.get('joined') or st.gh.get('iffy'):
            return None
        return numeric.differ(st.facts, [(TRUE, FALSE)])

    def dead(self, st, ptr):
        return ptr.kind == 'ptr' and ptr.args[0] in st.gh.get('freed', ())

    def on_delete(self, st, e, ptr=None):
        if self.dead(st, ptr):
            self.bad.append(('data released exactly once', self.sure(st), e, '%s is deleted again' % self.nm(ptr)))

    def on_read(self, st, e, ptr=None):
        if self.dead(st, ptr):
            self.bad.append(('no access after release', self.sure(st), e, '%s is read after its release' % self.nm(ptr)))

    def on_write(self, st, e, ptr=None, val=None):
        if self.dead(st, ptr):
            self.bad.append(('no access after release', self.sure(st), e, '%s is written after its release' % self.nm(ptr)))

    def on_deref(self, st, e, ptr=None, how=None):
        if ptr.kind == 'null':
            self.bad.append(('no access after release', self.sure(st), e, 'null handle is used (%s)' % how))

    def on_abort(self, st, e, why='', stack=()):
        self.bad.append(('handle count', self.sure(st), e, 'assertion fails for a valid handle'))

    def nm(self, ptr):
        return str(ptr.args[0][1])


def mkdata(E, st, S, name, counts):
    """a data block with `counts` objects per list and a symbolic number of handles"""
    o = ('h', name)
    rec = E.make_sym(S.data, name)
    fs = dict(rec.args[1])
    objs = [o]
    for (n, t, el), k in zip(S.lists, counts):
        ps = []
        for i in range(k):
            q = ('h', '%s.%s[%d]' % (name, n, i))
            st.mem[q] = E.make_sym(el, q[1])
            E.otype[q] = el
            ps.append(mkptr(q))
            objs.append(q)
        fs[n] = mkarr(num(k), node('clist', (tuple(ps),)))
    r = pval(fs[S.count])
    st.mem[o] = mkrec(rec.args[0], fs)
    E.otype[o] = S.data
    st.gh['heap'] = st.gh.get('heap', ()) + tuple(objs)
    return o, r, objs


CASES = ['same', 'shared', 'separate', 'empty-left', 'empty-right']


def op(p, f, S):
    """which handle operation is it?"""
    nm = ir.plain(f['q']).split('::')[-1]
    if p.strip(f['rec']).i != S.rec and p.strip(f['rec']).s != p.strip(S.rec).s:
        return None
    if f.get('dtor'):
        return 'destroy'
    one = len(f['params']) == 1 and p.strip(f['params'][0]['t']).s.replace('const ', '') == p.strip(S.rec).s.replace('const ', '')
    if f.get('ctor'):
        if not f['params']:
            return 'create'
        if one:
            return 'move-create' if p.ty(f['params'][0]['t']).k == 'rref' else 'copy-create'
    if nm == 'operator=' and one:
        k = p.ty(f['params'][0]['t']).k
        return 'move-assign' if k == 'rref' else 'copy-assign' if k == 'ref' else 'value-assign'
    if nm == 'clear' and not f['params']:
        return 'clear'
    if nm == 'swap' and one:
        return 'swap'
    return None


def task(p, job):
    fid, rec, what, case, counts, exact = job
    f = p.fns[fid]
    S = Shape(p, rec)
    A = M(p, maxsteps=60000, reads=True, dtors=True)
    A.JOIN = 64
    pre = {}

    def setup(E, st, this, vs):
        create = what in ('create', 'copy-create', 'move-create')
        two = len(vs) == 1
        o1 = this
        o2 = vs[0] if two else None

        def handle(ptr, d):
            v = E.read(st, ptr)
            fs = dict(v.args[1])
            fs[S.handle] = NULL if d is None else mkptr(d)
            E.write(st, ptr, mkrec(v.args[0], fs))
        a = b = None
        if not create and case != 'empty-left':
            a = mkdata(E, st, S, 'A', counts)
        if two:
            if what == 'swap' and not (isinstance(o2, N) and o2.kind == 'ptr'):
                raise Stop('skip')
            if not (isinstance(o2, N) and o2.kind == 'ptr'):
                raise Stop('skip')
            if case == 'same':
                vs[0] = o2 = this
                b = a
            elif case == 'shared':
                b = a
            elif case == 'empty-right':
                b = None
            else:
                b = mkdata(E, st, S, 'B', counts[::-1])
        if not create:
            handle(o1, a and a[0])
        if two and case != 'same':
            handle(o2, b and b[0])
        for x in {id(x): x for x in (a, b) if x}.values():
            st.facts += (f_ge(x[1] - (2 if case == 'shared' and a is b else 1)),)
            if exact:
                st.facts += (f_ge(num(exact) - x[1]),)
        pre.update(a=a, b=b, this=o1, other=o2)
        return st
    try:
        outs, thr = A.entry(f, setup=setup)
    except Stop as x:
        if str(x) == 'skip':
            return []
        return [(RULES[0], None, 'stopped: %s' % x)] + [(r, False if w else None, t + wit(w)) for r, w, e, t in A.bad]
    res = [(r, False if w else None, t + wit(w)) for r, w, e, t in A.bad]
    for st, ty, e in thr:
        res.append((RULES[2], None, 'throws'))
    for st, v in outs:
        res += exits(A, S, st, pre, what, case)
    return res


def exits(A, S, st, pre, what, case):
    res = []
    freed = st.gh.get('freed', frozenset())
    a, b = pre['a'], pre['b']
    create = what in ('create', 'copy-create', 'move-create')

    def judge(rule, ok, text):
        if ok:
            res.append((rule, True, text))
        else:
            w = A.sure(st)
            res.append((rule, False if w else None, text + wit(w)))

    def hnd(ptr):
        v = dict(A.read(st, ptr).args[1])[S.handle]
        if isinstance(v, N) and v.kind == 'null':
            return None
        if isinstance(v, N) and v.kind == 'ptr' and not v.args[1]:
            return v.args[0]
        return '?'
    # what every handle must refer to, and the change of the number of handles
    A0, B0 = a and a[0], b and b[0]
    delta = {}
    follow = False
    this = other = '-'
    if what == 'create':
        this = 'new'
    elif what == 'copy-create':
        this, other = B0, B0
        delta[B0] = 1
    elif what == 'move-create':
        this = B0
        follow = True
    elif what == 'destroy':
        delta[A0] = -1
    elif what == 'clear':
        this = A0
    elif what == 'copy-assign':
        this = other = B0
        if case != 'same':
            delta[A0] = delta.get(A0, 0) - 1
            delta[B0] = delta.get(B0, 0) + 1
    elif what == 'move-assign':
        if case == 'same':
            this = A0
        else:
            this = B0
            follow = True
    elif what == 'swap':
        this, other = B0, A0
    if follow:
        # what the source refers to afterwards is free as long as the counters agree
        after = [hnd(pre['this']), hnd(pre['other'])]
        if '?' in after:
            return res + [(RULES[3], None, 'handle unknown')]
        before = ([] if what == 'move-create' else [A0]) + [B0]
        for x in (A0, B0):
            delta[x] = after.count(x) - before.count(x)
    delta.pop(None, None)
    if this == 'new':
        h = hnd(pre['this'])
        ok = h is not None and h != '?' and h[0] == 'h'
        judge(RULES[3], ok, 'a new handle has no data')
        if ok:
            c = pval(dict(st.mem[h].args[1])[S.count])
            okc = A.holds(st, f_eq(c - num(1)))
            judge(RULES[2], okc, 'a new handle counts %s' % show(c)) if okc or c.const() is not None else res.append((RULES[2], None, 'count %s' % show(c)))
            for n, t, el in S.lists:
                z = dict(st.mem[h].args[1])[n]
                judge(RULES[4], z.kind == 'arr' and z.args[0] == ZERO, 'the list %s of a new handle is not empty' % n)
    else:
        if this != '-':
            h = hnd(pre['this'])
            if h == '?':
                res.append((RULES[3], None, 'handle unknown'))
            else:
                judge(RULES[3], h == this, 'the object refers to %s instead of %s' % (h and h[1], this and this[1]))
        if other != '-':
            h = hnd(pre['other'])
            if h == '?':
                res.append((RULES[3], None, 'handle unknown'))
            else:
                judge(RULES[3], h == other, 'the other handle refers to %s instead of %s' % (h and h[1], other and other[1]))
    for x in {y[0]: y for y in (a, b) if y}.values():
        o, r, objs = x
        d = delta.get(o, 0)
        n = r + d
        if what == 'clear':
            judge(RULES[0], set(objs[1:]) <= freed, 'clear releases %s of %d objects' % (len(set(objs[1:]) & freed), len(objs) - 1))
            judge(RULES[0], o not in freed, 'clear releases the shared data itself')
            if o not in freed:
                for ln, t, el in S.lists:
                    z = dict(st.mem[o].args[1])[ln]
                    judge(RULES[1], z.kind == 'arr' and z.args[0] == ZERO, 'list %s still refers to released objects' % ln)
        elif A.holds(st, f_eq(n)):
            gone = [q for q in objs if q not in freed]
            judge(RULES[0], not gone, 'the last handle goes away but %s stays' % ', '.join(str(q[1]) for q in gone[:3]))
            continue
        elif A.holds(st, f_gt(n)):
            gone = [q for q in objs if q in freed]
            judge(RULES[0], not gone, '%s is released although %s other handles exist' % (', '.join(str(q[1]) for q in gone[:3]), show(n)))
            if gone:
                continue
            for ln, t, el in S.lists:
                z, y = dict(st.mem[o].args[1])[ln], dict(pre_list(A, S, x)).get(ln)
                judge(RULES[4], z.kind == 'arr' and z.args[0].const() == y, 'list %s has changed' % ln)
        else:
            # reached with and without other handles: both must be right
            gone = [q for q in objs if q in freed]
            for goal, text, bad in ((f_eq(n), 'the last handle goes away but the data stays', not gone),
                                    (f_gt(n), 'the data is released although other handles exist', bool(gone))):
                if bad:
                    w = None if st.gh.get('joined') else numeric.differ(st.facts + (goal,), [(TRUE, FALSE)])
                    res.append((RULES[0], False if w else None, text + wit(w)))
            if gone:
                continue
        if o in freed:
            continue
        c = pval(dict(st.mem[o].args[1])[S.count])
        want = n if what != 'clear' else r
        if A.holds(st, f_eq(c - want)):
            res.append((RULES[2], True, 'count'))
        else:
            w = None if st.gh.get('joined') else numeric.differ(st.facts, [(c, want)])
            res.append((RULES[2], False if w else None, 'the count is %s instead of %s%s' % (show(c), show(want), wit(w))))
    return res


def pre_list(A, S, x):
    o, r, objs = x
    for ln, t, el in S.lists:
        yield ln, len([q for q in objs[1:] if q[1].startswith('%s.%s[' % (o[1], ln))])


def run():
    rep = Report('C05')
    p = ir.load()
    jobs = []
    ops = set()
    for i in sorted(set(f['rec'] for f in p.lib() if f.get('rec') is not None)):
        t = p.ty(i)
        if t.name != 'NS::Mesh' or not p.rec(i):
            continue
        try:
            S = Shape(p, i)
        except Stop as x:
            rep.ob(RULES[3], None, str(x))
            continue
        for f in p.lib():
            if f.get('rec') is None or f.get('implicit') or f.get('access') in (1, 2):
                continue
            w = op(p, f, S)
            if not w:
                continue
            ops.add('%s %s' % (t.s, w))
            cases = CASES if w in ('copy-assign', 'move-assign', 'swap') else ['separate', 'empty-right'] if w in ('copy-create', 'move-create') else ['separate', 'empty-left'] if w == 'destroy' else ['separate']
            for c in cases:
                for k in ((0, 0, 0), (1, 2, 1), (2, 3, 0), (0, 0, 2)):
                    for ex in (0, 1, 2):
                        if ex == 1 and c == 'shared':
                            continue
                        jobs.append((f['id'], i, w, c, k, ex))
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%s, lists of %s)' % (f['q'], job[3], job[4])
        if r is None:
            rep.ob(RULES[0], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            rep.ob(rule, v, '%s: %s' % (what, text))
            if v is False:
                rep.violation('%s:%s:%s' % (ir.plain(f['q']), job[2], rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    rep.need(RULES[0], 40)
    rep.cov['operations'] = sorted(ops)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Construction, copy, move, assignment, self-assignment, destruction and clear of a mesh handle are analysed on a heap '
        'with one or two data blocks (separate, shared, absent, same object), a symbolic number of other handles and lists of '
        'several lengths; per exit the released objects, the handle targets and the counter must be those of counted sharing, '
        'and no released object is accessed or deleted again.')
