"""C13: simplex geometry is never used before it has been prepared."""
import engine as E_
import ir
import meshes
import numeric
import sweep
from common import Report
from engine import Stop, pval, mkptr
from meshes import method, runs
from shaped import wit
from terms import P, N, TRUE, FALSE, num, toP, node, f_ne, f_or, f_gt
from checks import c14

QUERIES = ('volume', 'center', 'outerRadius', 'toLocal', 'toGlobal', 'gradient', 'matrix', 'inverseMatrix', 'determinant')
RULES = ('a query on an unprepared simplex does not return', 'no derived data of an unprepared simplex is read', 'a prepared simplex answers',
         'a failed preparation leaves the simplex unprepared')


class Reads(meshes.MAna):
    def __init__(self, p, **o):
        super().__init__(p, reads=True, **o)
        self.watch = None
        self.seen = []

    def on_read(self, st, e, ptr=None, **k):
        if self.watch and isinstance(ptr, N) and ptr.kind == 'ptr' and ptr.args[0] == self.watch[0] and ptr.args[1] and ptr.args[1][0] in self.watch[1]:
            self.seen.append((st, e, ptr.args[1][0]))


def derived(p, G):
    """fields that preparing writes, without the ones that hold the vertices"""
    st0 = fresh(G, 'assigned')[0]
    before = dict(G.A.read(st0, G.this).args[1])
    out = set()
    for s in G.exits(st0.fork(), G.m['prepare'], []):
        after = dict(G.A.read(s, G.this).args[1])
        out |= {k for k in after if after[k] is not before.get(k) and after[k] != before.get(k) and not constant(after[k])}
    return out


def constant(v):
    return isinstance(v, P) and v.const() is not None or isinstance(v, N) and v.kind in ('true', 'false')


def fresh(G, how):
    p, A = G.p, G.A
    st = E_.St()
    o = ('p', 'this')
    st.mem[o] = A.make_sym(G.rec, 'this')
    A.otype[o] = G.rec
    G.this = mkptr(o)
    G.c = c14.unknowns('')
    if how == 'list':
        f = [f for f in p.lib() if f.get('ctor') and f.get('rec') is not None and p.strip(f['rec']).s == p.strip(G.rec).s and len(f['params']) == 1
             and p.strip(f['params'][0]['t']).name == 'std::initializer_list']
        if not f:
            return []
        return G.exits(st, f[0], [meshes.clist([meshes.clist(x) for x in G.c])])
    sts = G.exits(st, method(p, G.rec, None, 0), [])
    return sts if how == 'default' else [y for s in sts for y in G.assign(s, G.c)]


def args(G, name):
    f = G.m[name]
    return [(toP(node('sym', ('px',), 0)), toP(node('sym', ('py',), 0))) if G.p.strip(x['t']).k == 'record' else 1 for x in f['params']]


def task(p, job):
    rec, how = job
    G = c14.Geo(p, rec)
    A = G.A = Reads(p, maxsteps=400000)
    res = []
    sts = fresh(G, how)
    flds = derived(p, G)
    sts = fresh(G, how)
    names = [n for n in QUERIES if n in G.m]
    for n in QUERIES:
        if n not in G.m:
            res.append((n, RULES[0], None, 'no such query'))

    def unprepared(st, n, rule, ok):
        A.bad, A.seen = [], []
        A.watch = (G.this.args[0], flds) if rule == 0 else None
        try:
            outs, thr = G.call(st.fork(), n, args(G, n))
        except Stop as x:
            res.append((n, RULES[rule], None, 'stopped: %s' % x))
            A.watch = None
            return
        A.watch = None
        for s, v in outs:
            w = A.sure(s)
            res.append((n, RULES[rule], False if w else None, '%s%s' % (ok, wit(w))))
        if not outs:
            res.append((n, RULES[rule], True, ''))
        for s, e, k in A.seen:
            w = A.sure(s)
            res.append((n, RULES[1], False if w else None, '%s is read at %s' % (k, e.get('l', '?') if e else '?')))
        if not A.seen and rule == 0:
            res.append((n, RULES[1], True, ''))

    for st in sts:
        for n in names:
            unprepared(st, n, 0, 'returns without preparation')
        for n, f in sorted(G.m.items()):
            if n in QUERIES or f.get('access') in (1, 2) or f.get('ctor') or n.startswith('~') or n == 'prepare' or f.get('static') or n == 'operator=':
                continue
            A.bad, A.seen = [], []
            A.watch = (G.this.args[0], flds)
            try:
                G.call(st.fork(), n, args(G, n))
            except Stop as x:
                res.append((n, RULES[1], None, 'stopped: %s' % x))
                A.watch = None
                continue
            A.watch = None
            for s, e, k in A.seen:
                w = A.sure(s)
                res.append((n, RULES[1], False if w else None, '%s is read at %s' % (k, e.get('l', '?') if e else '?')))
            if not A.seen:
                res.append((n, RULES[1], True, ''))
    for st in sts:
        f = G.m['prepare']
        outs, thr = runs(A, st.fork(), f, G.this, [])
        for s, ty, e in thr:
            for n in names:
                if A.sure(s):
                    unprepared(s, n, 3, 'returns although preparing failed')
        if how == 'default':
            continue
        for s, _ in outs:
            s.facts += (f_ne(c14.det(*G.c)),)
            if c14.degenerate(A, s, G.c):
                continue
            for n in names:
                A.bad = []
                try:
                    o, t = G.call(s.fork(), n, args(G, n))
                except Stop as x:
                    res.append((n, RULES[2], None, 'stopped: %s' % x))
                    continue
                bad = [w for w, e, tx in A.bad if w]
                res.append((n, RULES[2], False if bad else True if o else None, 'does not return'))
    return res


def run():
    rep = Report('C13')
    p = ir.load()
    recs = []
    for f in p.lib():
        if f.get('rec') is not None and p.strip(f['rec']).name == 'NS::Simplex' and p.strip(f['rec']).i not in recs and not p.strip(f['rec']).s.startswith('const'):
            recs.append(p.strip(f['rec']).i)
    recs = [r for r in sorted(recs) if c14.method_named(p, r, 'prepare')]
    jobs = [(r, h) for r in recs for h in ('default', 'list', 'assigned')]
    for job, r, err, dt in sweep.run(p, task, jobs):
        G = p.strip(job[0]).name
        what = 'simplex with %s vertices' % job[1]
        if r is None:
            rep.ob(RULES[0], None, '%s: %s' % (what, err))
            continue
        for name, rule, v, text in r:
            f = c14.method_named(p, job[0], name)
            rep.ob(rule, v, '%s, %s%s' % (name, what, ': ' + text if not v else ''))
            if v is False:
                rep.violation('%s::%s:%s' % (G, name, rule), f['l'] if f else '?', '%s::%s (%s): %s [%s]' % (G, name, what, text, rule))
    for x, n in zip(RULES, (27, 27, 9)):
        rep.need(x, n)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Typestate: every query of the simplex is interpreted on a simplex that was constructed but not prepared (every constructor, unknown '
        'vertices); no path may return, and no path of any other member may read a field that preparing writes. After preparing, every query returns.')
