"""C46: the text form of vectors and matrices names every entry once, at its place."""
import ir
import numeric
import re
import sized
import sweep
import vtkcases
from checks import c24
from common import Report
from engine import Stop, pval, mkptr
from shaped import wit
from sized import elems
from terms import P, N, ZERO, num, f_eq, f_ne, show

DENSE = 'vectors and dense matrices are written entry by entry'
SPARSE = 'sparse matrices are written as their stored triples'
STREAM = 'the stream passed in is returned'
DONE = 'output operator analysed'
LAYS = {(1, 1): [[], [(0, 0)]], (1, 3): [[], [(0, 0)], [(0, 2)], [(0, 0), (0, 1), (0, 2)]], (3, 1): [[], [(2, 0)], [(0, 0), (2, 0)], [(0, 0), (1, 0), (2, 0)]],
        (2, 3): [[], [(0, 2)], [(1, 0)], [(0, 1), (0, 2), (1, 0)], [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]],
        (3, 2): [[], [(0, 0), (2, 1)], [(1, 0), (1, 1)], [(0, 1), (1, 0), (2, 0), (2, 1)]],
        (4, 4): [[(0, 3), (3, 0)], [(1, 1), (1, 2), (3, 3)], [(0, 0), (1, 1), (2, 2), (3, 3)]]}


class Ana(vtkcases.VAna):
    UNROLL = 100


def sig(p, f):
    """(position of the stream, position of the operand, its kind)"""
    if ir.plain(f['q']) != 'NS::operator<<' or len(f['params']) != 2:
        return None
    t = p.strip(f['params'][0]['t'])
    if 'ostream' not in (t.s or ''):
        return None
    k = sized.kind(p, f['params'][1]['t'])
    return k


def plans(k):
    if k == 'V':
        return [((n,), None) for n in range(0, 6)]
    if k == 'S':
        return [(s, tuple(l)) for s in LAYS for l in LAYS[s]]
    return [(s, None) for s in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (3, 3), (1, 4), (4, 1), (4, 4))]


def expect(k, sp, el):
    """constant texts and entries in order"""
    out = ['[ ']
    s, cells = sp
    if k == 'V':
        for i in range(s[0]):
            out += [el[(i,)], ' ']
    elif k == 'S':
        for i, j in sorted(cells):
            out += ['(%d, %d; ' % (i, j), el[(i, j)], ') ']
    else:
        for i in range(s[0]):
            for j in range(s[1]):
                out += [el[(i, j)], ' ']
            if i + 1 < s[0]:
                out += ['| ']
    return out + [']']


def tokens(seq):
    """text with \\ue000 for every unknown value; values"""
    text, vals = '', []
    for x in seq:
        if isinstance(x, str):
            text += x
        elif x.const() is not None and x.const() == int(x.const()):
            text += str(int(x.const()))
        else:
            text += '\ue000'
            vals.append(x)
    return text, vals


def task(ps, job):
    fid, pls, c = job
    p = ps[c]
    f = p.fns[fid]
    k = sig(p, f)
    out = []
    for pl in pls:
        try:
            out += one(p, f, k, pl)
        except Stop as x:
            if str(x) != 'skip':
                out.append((DONE, None, pl, 'analysis stopped: %s' % x))
    return out


def one(p, f, k, pl):
    A = Ana(p, maxsteps=300000, spm=False)
    A.JOIN = 500
    base = {}

    def setup(E, st, this, vs):
        base['s'] = vs[0]
        ptr = vs[1]
        if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
            o = ('p', '#1')
            st.mem[o] = ptr
            ptr = mkptr(o)
            base['copy'] = True
        if k == 'S':
            sized.layout(E, st, ptr, pl[0], list(pl[1]), 'a')
        elif not sized.resize(E, st, ptr, pl[0]):
            raise Stop('skip')
        el = elems(E, st, E.read(st, ptr))
        if el is None:
            raise Stop('operand shape')
        base['el'] = {q: pval(y) for q, y in el[1].items()}
        if 'copy' in base:
            vs[1] = E.read(st, ptr)
        return st
    outs, thr = A.entry(f, setup=setup)
    rule = SPARSE if k == 'S' else DENSE
    res = []
    want, ws = tokens(expect(k, pl, base['el']))
    if not outs and not thr:
        return [(DONE, None, pl, 'no exit')]
    for st, v in outs:
        sure = A.sure(st)
        seqs = [x for q, x in st.gh.items() if isinstance(q, tuple) and q[0] == 'out' and x]
        if len(seqs) > 1:
            res.append((DONE, None, pl, 'several streams'))
            continue
        R = vtkcases.Render(seqs[0] if seqs else ())
        parts = [R.vals[int(x[1:-1])] if x.startswith('\x01') else x for x in re.split('(\x01\\d+\x02)', R.text)]
        got, gs = tokens(parts)
        if got != want:
            res.append((rule, False if sure is not None else None, pl, 'writes %r instead of %r' % (got.replace('\ue000', '{}'), want.replace('\ue000', '{}'))))
            continue
        bad = [(x, y) for x, y in zip(gs, ws) if not A.holds(st, f_eq(x - y))]
        if bad:
            d = numeric.differ(st.facts, bad) if not st.gh.get('joined') else None
            res.append((rule, False if d else None, pl, 'writes %s where %s belongs%s' % (show(bad[0][0]), show(bad[0][1]), wit(d))))
            continue
        res.append((rule, True, pl, ''))
        ok = isinstance(v, N) and v.kind == 'ptr' and vtkcases.key(v) == vtkcases.key(base['s'])
        res.append((STREAM, True if ok else None, pl, '' if ok else 'other stream returned'))
    for st, ty, e in thr:
        res.append((rule, False if A.sure(st) is not None else None, pl, 'throws'))
    for w, e, t in A.bad:
        res.append((rule, False if w else None, pl, '%s at %s' % (t, e.get('l', '?'))))
    return res


def run():
    rep = Report('C46')
    ps = [ir.load(), ir.load('cplx.cpp')]
    jobs = []
    for n, p in enumerate(ps):
        for f in p.lib():
            k = sig(p, f)
            if k:
                for c in c24.chunks(plans(k), 12):
                    jobs.append((f['id'], c, n))
    seen = set()
    for job, r, err, dt in sweep.run(ps, task, jobs):
        p = ps[job[2]]
        f = p.fns[job[0]]
        what = '%s(%s)' % (f['q'], ', '.join(p.ty(x['t']).s for x in f['params']))
        seen.add(what)
        if r is None:
            rep.ob(DONE, None, '%s: %s' % (what, err))
            continue
        for rule, v, pl, text in r:
            at = 'x'.join(map(str, pl[0])) + ('' if pl[1] is None else str(list(pl[1])))
            rep.ob(rule, v, '%s [%s] %s' % (what, at, text))
            if v is False:
                rep.violation(ir.plain(f['q']), f['l'], '%s on [%s]: %s' % (what, at, text))
    for n in (DENSE, SPARSE, STREAM):
        rep.need(n, 3)
    rep.cov['functions'] = sorted(seen)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every output operator of the library is interpreted on operands of constant shape (vectors of 0 to 5 elements, dense shapes up to 4x4, '
        'sparse layouts) with unknown entries; what it sends to the stream is collected as a text with symbolic numbers and compared with the '
        'documented form: entries in index order, rows separated, stored entries with their row and column.')
