"""C15: optional outputs are optional, and set on every success."""
import engine as E_
import ir
import numeric
import poly
import shaped
import sized
import solvers
import sweep
from common import Report
from engine import Stop, pval
from shaped import wit
from terms import P, N, ATOMS, ZERO, TRUE, FALSE, num, toP, node, f_eq, f_ne, show

RULES = ('no access through an omitted output', 'a given output is written on every success', 'the count is within the allowed maximum',
         'a maximum of zero returns the start value', 'the count is the number of iterations performed', 'the count is the number of row exchanges',
         'function analysed')
FULL = {n: solvers.LAY[n][0] for n in (1, 2, 3)}


class Ana(sweep.Ana):
    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.nulls = []

    def on_deref(self, st, e, ptr=None, how=None):
        if isinstance(ptr, N) and ptr.kind == 'null':
            sure = not (st.gh.get('joined') or st.gh.get('iffy')) and numeric.differ(st.facts, [(TRUE, FALSE)])
            self.nulls.append((e.get('l', '?') if e else '?', sure))


def maxpos(p, f):
    return [i for i, x in enumerate(f['params']) if shaped.kindof(p, x['t']) == 'I']


def ptrs(p, f):
    return [i for i, x in enumerate(f['params']) if shaped.kindof(p, x['t']) == 'P' and not p.ty(p.ty(x['t']).of).const]


def entries(p):
    return [f for f in solvers.entries(p) if ptrs(p, f)]


def case(p, f, n, lay, m, stat):
    C = solvers.Case(p, f, solvers.plan(p, f, n, lay, iters=m), stat=stat, maxsteps=400000, cls=Ana, join=200)
    C.A.SPLIT = 5
    C.run()
    return C


def stat(C, st):
    (q,) = C.statptr.values()
    return pval(C.A.read(st, q))


def old(x):
    at = numeric.atoms_of([x])
    return at is None or any(a.kind in ('sym', 'undef') and 'old:' in str(a.args) or a.kind == 'undef' for a in (ATOMS[i] for i in at)) or x.inexact()


def result(C, st, v):
    if isinstance(v, N) and v.kind == 'ptr':
        v = C.A.read(st, v)
    e = sized.elems(C.A, st, v)
    if e is None:
        return None
    return [pval(x) for _, x in sorted(e[1].items())]


def sure(st, facts=()):
    if st.gh.get('joined') or st.gh.get('iffy'):
        return None
    return numeric.differ(tuple(st.facts) + tuple(facts), [(TRUE, FALSE)])


def same(a, b):
    """True equal, False different expressions, None unknown"""
    if a is None or b is None or len(a) != len(b):
        return None
    return all(poly.zero(x - y) for x, y in zip(a, b))


def task(p, job):
    fid, n, lay, mode = job
    f = p.fns[fid]
    res = []
    try:
        if mode == 'null':
            C = case(p, f, n, lay, 1, 'null')
            for l, w in C.A.nulls:
                res.append((RULES[0], False if w else None, l, 'accesses the omitted output' + wit(w)))
            if not C.A.nulls:
                res.append((RULES[0], True, f['l'], ''))
        elif mode == 'count':
            res += count(p, f, n, lay)
        else:
            res += pivot(p, f, n, lay)
    except Stop as x:
        if str(x) == 'skip':
            return []
        res.append((RULES[6], None, f['l'], 'stopped: %s' % x))
        return res
    res.append((RULES[6], True, f['l'], ''))
    return res


def written(C, f, res, what):
    ok = []
    for st, v in C.outs:
        s = stat(C, st)
        if old(s):
            w = sure(st)
            res.append((RULES[1], False if w and 'old:' in str(s) or w and str(s).find('undef') >= 0 else None, f['l'], '%s: returns without writing the counter%s' % (what, wit(w))))
        else:
            res.append((RULES[1], True, f['l'], ''))
            ok.append((st, s, v))
    return ok


def count(p, f, n, lay):
    res = []
    top = 1 if solvers.name(f).startswith('CG') else 3        # two steps of conjugate gradients exceed the polynomials
    runs = {}
    for m in range(top + 1):
        try:
            C = case(p, f, n, lay, m, 'given')
        except Stop as x:
            if str(x) == 'skip':
                raise
            res.append((RULES[6], None, f['l'], 'maximum %d: stopped: %s' % (m, x)))
            break
        ex = []
        for st, s, v in written(C, f, res, 'maximum %d' % m):
            r = result(C, st, v)
            c = s.const()
            if c is None:
                res.append((RULES[2], None, f['l'], 'the counter is %s' % show(s)[:80]))
                continue
            w = None if c <= m else sure(st)
            res.append((RULES[2], True if c <= m else False if w else None, f['l'], 'the maximum is %d, the counter says %d%s' % (m, c, wit(w))))
            ex.append((st, c, r))
            if m == 0:
                x0 = result(C, st, C.pre[[q for q, k in C.ops if k == 'V'][-1]])
                q = same(r, x0)
                w = sure(st) and numeric.differ(st.facts, list(zip(r, x0))) if q is False else None
                res.append((RULES[3], True if q else False if w else None, f['l'], 'the result differs from the start value%s' % wit(w)))
        runs[m] = ex
    for m in runs:
        for k in runs:
            if k >= m:
                continue
            for st, s, r in runs[m]:
                for st2, s2, r2 in runs[k]:
                    res.append(compare(f, m, k, st, s, r, st2, s2, r2))
    return [x for x in res if x]


def compare(f, m, k, st, s, r, st2, s2, r2):
    """the exits of two runs with maxima m > k whose conditions can hold together"""
    q = same(r, r2)
    bad = None
    if q is None:
        return (RULES[4], None, f['l'], 'no comparable result')
    if q and s == s2 or not q and s > s2 and s2 == k:
        return (RULES[4], True, f['l'], '')
    if st.gh.get('joined') or st.gh.get('iffy') or st2.gh.get('joined') or st2.gh.get('iffy'):
        return (RULES[4], None, f['l'], 'approximated paths')
    fa = tuple(st.facts) + tuple(x for x in st2.facts if x not in st.facts)
    if q:
        bad = 'the same iterate is reported as iteration %d with maximum %d and %d with maximum %d' % (s, m, s2, k)
        w = numeric.differ(fa, [(TRUE, FALSE)])
    elif s == s2:
        bad = 'iteration %d means two different iterates with the maxima %d and %d' % (s, m, k)
        w = numeric.differ(fa, list(zip(r, r2)))
    else:
        bad = 'reports %d iterations with maximum %d but %d with maximum %d' % (s, m, s2, k)
        w = numeric.differ(fa, list(zip(r, r2)))
    return (RULES[4], False, f['l'], bad + wit(w)) if w else (RULES[4], True, f['l'], '')


def pivot(p, f, n, lay):
    res = []
    C = case(p, f, n, lay, None, 'given')
    perm = solvers.outputs(p, f)[-1]
    for st, s, v in written(C, f, res, '%dx%d' % (n, n)):
        e = sized.elems(C.A, st, C.A.read(st, C.base[perm]))
        P_ = {ij: pval(x).const() for ij, x in e[1].items()} if e else {}
        to = {i: j for (i, j), x in P_.items() if x}
        c = s.const()
        if c is None or None in P_.values() or sorted(to) != list(range(n)) or sorted(to.values()) != list(range(n)):
            res.append((RULES[5], None, f['l'], 'no constant permutation'))
            continue
        cyc, seen = 0, set()
        for i in range(n):
            if i not in seen:
                cyc += 1
                while i not in seen:
                    seen.add(i)
                    i = to[i]
        good = c == n - cyc
        if not good and c > n - cyc and (c - n + cyc) % 2 == 0:
            res.append((RULES[5], None, f['l'], 'more exchanges than necessary'))
            continue
        w = None if good else sure(st)
        res.append((RULES[5], True if good else False if w else None, f['l'], 'counts %d exchanges for a permutation of %d%s' % (c, n - cyc, wit(w))))
    return res


def run():
    rep = Report('C15')
    p = ir.load()
    jobs = []
    for f in entries(p):
        k = solvers.size(p, f)
        it = bool(maxpos(p, f))
        for n in ((k,) if k else (1, 2, 3)):
            sp = solvers.inputs_sparse(p, f)
            for lay in (solvers.LAY[n] if sp else solvers.LAY[n][:1]):
                if n < 3 or not it:
                    jobs.append((f['id'], n, lay, 'null'))
                if not it:
                    jobs.append((f['id'], n, lay, 'pivot'))
            if it and n == 2:
                jobs.append((f['id'], n, FULL[2], 'count'))     # other layouts can repeat an iterate
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%dx%d%s)' % (f['q'], job[1], job[1], ', entries %s' % (job[2],) if solvers.inputs_sparse(p, f) else '')
        if r is None:
            rep.ob(RULES[6], None, '%s %s: %s' % (what, job[3], err))
            continue
        for rule, v, site, text in r:
            rep.ob(rule, v, '%s %s: %s at %s' % (what, job[3], text, site))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), site, '%s: %s [%s]' % (what, text, rule))
    for r in RULES[:6]:
        rep.need(r, 4)
    rep.cov['functions'] = sorted({p.fns[j[0]]['q'] for j in jobs})
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every solver with a pointer to a counter is interpreted with the pointer omitted (no access through it may be reachable) and with a '
        'variable of unknown contents. Iterative solvers run with constant maxima 0 to 3 (conjugate gradients 0 and 1) on unknown 2x2 systems: '
        'the counter must be written and bounded, a maximum of zero must return the start value, and for every two maxima the exits whose '
        'conditions can hold together must agree about which iterate belongs to which count. The pivot count is compared with the number of '
        'cycles of the returned permutation.')
