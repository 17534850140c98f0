"""C18: factorisation and inverse results do not depend on the outputs' old contents."""
import engine as E_
import ir
import numeric
import poly
import shaped
import sized
import solvers
import sweep
from common import Report
from engine import Stop, pval
from shaped import wit
from terms import P, N, ATOMS, ZERO, TRUE, FALSE, num, toP, node, replace, f_eq, show

RULES = ('results do not depend on old output contents', 'the outcome does not depend on old output contents', 'function analysed')


class Exit:
    __slots__ = ('how', 'facts', 'vals', 'sure', 'old', 'why')


def entries(p):
    return [f for f in solvers.entries(p) if solvers.outputs(p, f)]


def ids(x):
    """ids of the symbols below a value, None when it is not exact"""
    r = numeric.atoms_of([x])
    return None if r is None else set(r)


def value(C, st, pos, n):
    e = sized.elems(C.A, st, C.A.read(st, C.base[pos]))
    if e is None or e[0] != (n, n):
        return None
    return [pval(x) for _, x in sorted(e[1].items())]


def case(p, f, n, lay, out):
    C = solvers.Case(p, f, solvers.plan(p, f, n, lay, out=out, iters=1), stat='null', maxsteps=5000000 if sweep.THOROUGH else 500000, join=200)
    C.run()
    outs = solvers.outputs(p, f)
    old = set()
    for pos in outs:
        for x in sized.elems(C.A, C.st0, C.pre[pos])[1].values():
            old |= {i for i in pval(x).fv()} | set(numeric.atoms_of([pval(x)]) or ())
    init = {x for x in C.st0.facts if set(numeric.atoms_of([x]) or (-1,)) <= old}      # about old contents only
    ex = []
    for st, v in C.outs:
        e = Exit()
        e.how = 'return'
        e.vals = []
        for pos in outs:
            r = value(C, st, pos, n)
            e.vals = None if r is None or e.vals is None else e.vals + r
        ex.append((e, st))
    for st, ty, x in C.thr:
        e = Exit()
        e.how = 'throws ' + (p.ty(ty).s if isinstance(ty, int) else str(ty))
        e.vals = []
        ex.append((e, st))
    for e, st in ex:
        e.facts = tuple(x for x in st.facts if x not in init)
        e.sure = not (st.gh.get('joined') or st.gh.get('iffy'))
        at = numeric.atoms_of(list(e.facts) + (e.vals or []))
        e.old = None if at is None else set(at) & old
        if e.old:
            e.facts = tuple(st.facts)
    return [e for e, _ in ex], old


def renamed(e, mp):
    r = Exit()
    r.how, r.sure, r.old = e.how, e.sure, e.old
    r.facts = tuple(replace(x, mp) for x in e.facts)
    r.vals = None if e.vals is None else [replace(x, mp) for x in e.vals]
    return r


def compare(a, b):
    """None when the exits agree or exclude each other, (rule, verdict, text) otherwise"""
    rule = RULES[0] if a.how == b.how else RULES[1]
    if a.how == b.how and a.vals is not None and b.vals is not None and len(a.vals) == len(b.vals) and all(poly.zero(x - y) for x, y in zip(a.vals, b.vals)):
        return None
    if FALSE in a.facts or FALSE in b.facts:
        return None
    if a.vals is None or b.vals is None or not a.sure or not b.sure or a.old is None or b.old is None:
        return rule, None, 'not comparable'
    fa = a.facts + tuple(x for x in b.facts if x not in a.facts)
    if a.how != b.how:
        w = numeric.differ(fa, [(TRUE, FALSE)])
        return (rule, False, 'with one old content it %s, with another it %s%s' % (a.how if a.how != 'return' else 'returns', b.how if b.how != 'return' else 'returns', wit(w))) if w else None
    w = numeric.differ(fa, list(zip(a.vals, b.vals)))
    return (rule, False, 'entry %d of the outputs depends on their old contents%s' % (w[1], wit(w))) if w else None


def task(p, job):
    fid, n, lay, outs = job
    f = p.fns[fid]
    res = []
    runs = []
    for out in outs:
        try:
            runs.append((out,) + case(p, f, n, lay, out))
        except Stop as x:
            if str(x) == 'skip':
                return []
            res.append((RULES[2], None, 'old output layout %s: stopped: %s' % (out, x)))
    if not runs:
        return res
    res.append((RULES[2], True, ''))
    for k, (out, ex, old) in enumerate(runs):
        mp = {i: toP(node('sym', ('old%d' % i,), ATOMS[i].isint)) for i in old}
        for m, (out2, ex2, old2) in enumerate(runs[:k + 1]):
            seen = {}
            for e in ex2:
                if e.old == set() and e.sure and e.vals is not None:
                    seen.setdefault((frozenset(e.facts), e.how, tuple(e.vals)), e)
            for e in ex:
                if e.old == set() and e.sure and e.vals is not None and (frozenset(e.facts), e.how, tuple(e.vals)) in seen:
                    res.append((RULES[0], True, ''))
                    continue        # an equal exit whose conditions do not mention old contents excludes all others
                r = renamed(e, mp)
                for e2 in ex2:
                    c = compare(r, e2)
                    if c is None:
                        res.append((RULES[0], True, ''))
                    else:
                        res.append((c[0], c[1], ('old output layouts %s and %s: ' % (out, out2) if out != out2 else '') + c[2]))
                        if c[1] is False:
                            return res
    return res


def run():
    rep = Report('C18')
    p = ir.load()
    jobs = []
    for f in entries(p):
        k = solvers.size(p, f)
        sp = solvers.inputs_sparse(p, f)
        spo = any(shaped.kindof(p, f['params'][i]['t']) == 'S' for i in solvers.outputs(p, f))
        for n in ((k,) if k else (1, 2, 3)):
            L = solvers.LAY[n]
            full = L[0]
            outs = [full, ()] + ([tuple(x for x in full if x[0] != x[1]), tuple(x for x in full if (x[0] + 2 * x[1]) % 3 != 1)] if n > 1 else []) if spo else [full]
            for lay in (L if sp else L[:1]):
                jobs.append((f['id'], n, lay, tuple(outs)))
    fns = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s (%dx%d%s)' % (f['q'], job[1], job[1], ', entries %s' % (job[2],) if solvers.inputs_sparse(p, f) else '')
        if r is None:
            rep.ob(RULES[2], None, '%s: %s' % (what, err))
            continue
        for rule, v, text in r:
            fns.add(f['q'])
            rep.ob(rule, v, '%s: %s at %s' % (what, text, f['l']))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    rep.need(RULES[0], 50)
    rep.cov['functions'] = sorted(fns)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every factorisation, approximate inverse and preconditioner with output matrices is interpreted with output matrices of unknown '
        'contents (sparse outputs with several stored layouts). Every exit is compared with every exit of a run with other old contents '
        'whose conditions can hold together: same outcome and the same output entries.')
