"""C43: orderings are permutations that follow the breadth-first rule; permuting moves entries without losing any."""
import itertools

import exact
import ir
import ordered
import shaped
import sized
import sweep
from common import Report
from engine import Stop, pval
from exact import entries
from terms import P, N, ZERO, ONE, num

RULES = ('the ordering lists every index exactly once', 'the ordering is breadth-first with neighbours by ascending degree', 'the reverse ordering is the reversed ordering',
         'the permutation matrix has its ones at (i, p[i])', 'the inverse permutation undoes the permutation', 'a permuted matrix holds entry (p[i], p[j]) at (i, j)',
         'a permuted vector holds every entry once', 'function analysed')
NAMES = {'cuthill_mckee': 'cm', 'r_cuthill_mckee': 'rcm', 'permutation_matrix': 'pm', 'inverse_permutation': 'inv', 'permutate': 'perm'}


def canon(n, edges):
    return min(tuple(sorted(tuple(sorted((q[a], q[b]))) for a, b in edges)) for q in itertools.permutations(range(n)))


def graphs(n):
    """structurally symmetric layouts without empty rows: edge sets and diagonals"""
    pairs = [(i, j) for i in range(n) for j in range(i)]
    out = []
    for m in range(1 << len(pairs)):
        e = [pairs[k] for k in range(len(pairs)) if m >> k & 1]
        deg = [sum(1 for x in e if i in x) for i in range(n)]
        for d in diagonals(n, deg):
            out.append(tuple(sorted([(i, j) for i, j in e] + [(j, i) for i, j in e] + [(i, i) for i in d])))
    return out


# larger graphs: paths, a star, several components
LONG = [([(i, i + 1) for i in range(5)], 6), ([(0, 3), (3, 1), (1, 5), (5, 2), (2, 4), (4, 6)], 7), ([(2, i) for i in (0, 1, 3, 4, 5)], 6),
        ([(0, 4), (1, 5), (2, 3)], 6), ([(0, 1), (1, 2), (2, 0), (3, 4), (4, 5)], 7)]


def diagonals(n, deg):
    full = tuple(range(n))
    if n <= 3:
        return [d for k in range(n + 1) for d in itertools.combinations(range(n), k) if all(deg[i] or i in d for i in range(n))]
    out = [full]
    need = tuple(i for i in range(n) if not deg[i])
    if need != full:
        out.append(need)
    alt = tuple(i for i in range(n) if not deg[i] or i % 2)
    if alt not in out:
        out.append(alt)
    return out


def bfs(n, cells, o):
    """problem of an ordering, or None"""
    adj = {i: [j for j in range(n) if (i, j) in cells and i != j] for i in range(n)}
    deg = {i: sum(1 for j in range(n) if (i, j) in cells) for i in range(n)}
    pos = {v: k for k, v in enumerate(o)}
    last = -1
    prev = None
    for k, v in enumerate(o):
        par = [pos[u] for u in adj[v] if pos[u] < k]
        if not par:
            if any(x in adj[y] for x in o[k:] for y in o[:k]):
                return 'index %d starts a component before the previous one is complete' % v
            if any(deg[x] < deg[v] for x in o[k:]):
                return 'index %d starts a component although an unplaced index has a smaller degree' % v
            last = k
            prev = None
            continue
        p = min(par)
        if p < last:
            return 'index %d comes after a neighbour of a later index' % v
        if prev is not None and prev[0] == p and deg[prev[1]] > deg[v]:
            return 'neighbours of %d are not listed by ascending degree' % o[p]
        last = p
        prev = (p, v)
    return None


def case(p, f, kind, n, cells, q):
    pl = {}
    for pos, k in shaped.operands(p, f):
        if k == 'S':
            pl[pos] = ((n, n), cells)
        elif k == 'W':
            pl[pos] = ((n,), q)
        elif k == 'V':
            pl[pos] = ((n,), None)
        elif k in 'D':
            pl[pos] = ((n, n), None)

    # other layouts are set up by the case itself
    C = shaped.Case(p, f, pl, maxsteps=3000000 if sweep.THOROUGH else 400000, join=64, cls=ordered.OAna)
    C.run()
    return C


def listof(C, st, v, n):
    e = entries(C, st, v)
    if e is None or e[0] != (n,):
        return None
    l = [pval(e[1][(i,)]).const() for i in range(n)]
    return None if None in l else [int(x) for x in l]


def task(p, job):
    fid, kind, n, cells, q = job
    f = p.fns[fid]
    try:
        C = case(p, f, kind, n, cells, q)
    except ordered.Outside as x:
        return [(RULES[0 if kind in ('cm', 'rcm') else 5 if cells else 4], False, 'accesses %s at %s' % (x.args[0], x.args[1].get('l', '?')))]
    res = [(RULES[7], True, '')]
    ab = getattr(C.A, 'aborts', [])
    if not C.outs and not C.thr and ab:
        res.append((RULES[0 if kind in ('cm', 'rcm') else 5 if cells else 4], False, 'stops with an assertion in %s' % ab[0][0]))
    elif not C.outs:
        res.append((RULES[0], None, 'never returns: %s' % ', '.join(p.ty(t).s if isinstance(t, int) else str(t) for _, t, _ in C.thr[:2])))
    for st, ty, e in C.thr:
        ok = False if not C.outs and len(C.thr) == 1 and not st.facts else None
        res.append((RULES[0 if kind in ('cm', 'rcm') else 5], ok, 'throws %s' % (p.ty(ty).s if isinstance(ty, int) else ty)))
    for st, v in C.outs:
        if kind in ('cm', 'rcm'):
            l = listof(C, st, v, n)
            if l is None:
                e = entries(C, st, v)
                bad = e is not None and e[0] != (n,)
                res.append((RULES[0], False if bad else None, 'ordering of %s entries' % (e[0],) if bad else 'the ordering is not constant'))
                continue
            ok = sorted(l) == list(range(n))
            res.append((RULES[0], ok, 'ordering %s' % l))
            if not ok:
                continue
            if kind == 'rcm':
                res.append((('order', cells), l, ''))
                l = l[::-1]
            else:
                res.append((('order', cells), l, ''))
            t = bfs(n, set(cells), l)
            res.append((RULES[1], t is None, '%s%s' % ('reverse of %s' % l[::-1] if kind == 'rcm' else l, ': ' + t if t else '')))
            continue
        e = entries(C, st, v)
        if e is None:
            res.append((RULES[{'pm': 3, 'inv': 4, 'perm': 5}[kind]], None, 'result is not constant in shape'))
            continue
        if kind == 'inv':
            l = listof(C, st, v, n)
            ok = None if l is None and e[0] == (n,) else l is not None and all(l[q[i]] == i for i in range(n))
            res.append((RULES[4], ok, 'inverse of %s is %s' % (q, l)))
        elif kind == 'pm':
            ok = e[0] == (n, n)
            if ok:
                for i in range(n):
                    for j in range(n):
                        x = e[1][i, j].const()
                        ok = None if x is None else ok and x == (1 if q[i] == j else 0)
                        if not ok:
                            break
                    if not ok:
                        break
            res.append((RULES[3], ok, 'matrix of %s' % (q,)))
        else:
            src = entries(C, st, 0)
            if len(e[0]) == 1:
                a = sorted(x.key() if hasattr(x, 'key') else str(x) for x in e[1].values())
                b = sorted(x.key() if hasattr(x, 'key') else str(x) for x in src[1].values())
                one = e[0] == src[0] and (all(exact.zero(e[1][(q[i],)] - src[1][(i,)]) for i in range(n)))
                res.append((RULES[6], one, 'vector permuted by %s' % (q,)))
                continue
            w = None
            if e[0] != (n, n):
                w = 'result has %dx%d entries' % e[0]
            else:
                for i in range(n):
                    for j in range(n):
                        if w is None and not exact.zero(e[1][i, j] - src[1][q[i], q[j]]):
                            w = 'entry (%d, %d) is not entry (%d, %d)' % (i, j, q[i], q[j])
            res.append((RULES[5], w is None, 'matrix permuted by %s%s' % (q, ': ' + w if w else '')))
    return res


def run():
    rep = Report('C43')
    p = ir.load()
    jobs = []
    big = 5 if sweep.THOROUGH else 4
    for f in sweep.entries(p):
        kind = NAMES.get(ir.plain(f['q'])[4:])
        if kind is None or f.get('rec') is not None:
            continue
        if kind in ('cm', 'rcm'):
            el = p.strip(f['params'][0]['t']).targs
            for n in range(1, 4):
                for c in graphs(n):
                    jobs.append((f['id'], kind, n, c, None))
            g = graphs(4)
            full = p.ty(el[0]['t']).s == 'double' if el else True
            for c in g if full or sweep.THOROUGH else g[::9]:
                jobs.append((f['id'], kind, 4, c, None))
            g = graphs(5)
            for c in g[::7 if sweep.THOROUGH else 101] if full else []:
                jobs.append((f['id'], kind, 5, c, None))
            for e, n in LONG if full else []:
                jobs.append((f['id'], kind, n, tuple(sorted(set([(i, j) for i, j in e] + [(j, i) for i, j in e] + [(i, i) for i in range(n)]))), None))
            continue
        for n, q in ((4, (1, 2, 3, 0)), (4, (3, 2, 1, 0)), (4, (2, 0, 3, 1)), (6, (5, 3, 4, 0, 1, 2))):
            if kind == 'perm' and shaped.kindof(p, f['params'][0]['t']) == 'S':
                jobs.append((f['id'], kind, n, ((0, 0), (0, 1), (0, 3), (1, 2), (2, 0), (3, 3)), q))
            elif n == 4 or kind != 'perm' or shaped.kindof(p, f['params'][0]['t']) == 'V':
                jobs.append((f['id'], kind, n, None, q))
        for n in (1, 2, 3):
            for q in itertools.permutations(range(n)):
                if kind == 'perm' and shaped.kindof(p, f['params'][0]['t']) == 'S':
                    for c in shaped.layouts((n, n)) + [tuple(itertools.product(range(n), repeat=2))]:
                        jobs.append((f['id'], kind, n, c, q))
                else:
                    jobs.append((f['id'], kind, n, None, q))
    fns = set()
    orders = {}
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s %s (%d rows%s%s)' % (f['q'], ', '.join(p.ty(x['t']).s for x in f['params'])[:80], job[2], ', entries %s' % (job[3],) if job[3] is not None else '',
                                        ', permutation %s' % (job[4],) if job[4] else '')
        if r is None:
            rep.ob(RULES[7], None, '%s: %s' % (what, err))
            continue
        fns.add(f['q'])
        for rule, v, text in r:
            if isinstance(rule, tuple):
                k = (','.join(str(x.get('t') and p.ty(x['t']).s) for x in p.strip(f['params'][0]['t']).targs or []), rule[1])
                orders.setdefault(k, {})[job[1]] = (v, f, what)
                continue
            rep.ob(rule, v, '%s: %s at %s' % (what, text, f['l']))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s [%s]' % (what, text, rule))
    for k, d in sorted(orders.items(), key=str):
        if len(d) == 2:
            ok = d['cm'][0][::-1] == d['rcm'][0]
            rep.ob(RULES[2], ok, '%s: %s, reversed %s' % (d['rcm'][2], d['cm'][0], d['rcm'][0]))
            if not ok:
                rep.violation('%s:%s' % (ir.plain(d['rcm'][1]['q']), RULES[2]), d['rcm'][1]['l'], '%s: ordering %s, reverse ordering %s [%s]' % (d['rcm'][2], d['cm'][0], d['rcm'][0], RULES[2]))
    for i, m in ((0, 50), (1, 50), (2, 20), (3, 3), (4, 3), (5, 10), (6, 3)):
        rep.need(RULES[i], m)
    rep.cov['functions'] = sorted(fns)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('both orderings are interpreted on every structurally symmetric layout without empty rows of up to 3 rows (all diagonals), on all layouts '
        'of 4 rows with three kinds of diagonals and on a part of those of 5 rows, with unknown stored values. The returned ordering is compared '
        'with the definition. The permutation helpers are interpreted for all permutations of up to 3 indices on listed layouts.')
