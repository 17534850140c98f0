"""C06 and C07: the storage of sparse matrices after every operation, on operands with constant layouts and unknown values."""
import itertools
import os
import time

import engine as E_
import ir
import meshes
import numeric
import prover
import shaped
import sized
import sweep
from common import Report
from engine import Stop, pval, bval
from shaped import Case, layouts, operands, wit
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, f_ne, f_eq, f_and, f_not, f_or, show

SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]


def name_of(f):
    n = ir.plain(f['q']).split('::')[-1]
    return n[8:].strip() if n.startswith('operator') else n


def relevant(p, f):
    ks = [k for _, k in operands(p, f)]
    if f.get('ret') is not None:
        ks.append(shaped.kindof(p, f['ret']))
    return any(k in 'Sirc' for k in ks)


def fewl(shape):
    l = layouts(shape)
    return l if len(l) <= 4 else [l[0], l[-1], l[len(l) // 2], l[3]]


def nested(p, t):
    """depth of a nested initializer list"""
    t, n = p.strip(t), 0
    while t.name == 'std::initializer_list':
        n += 1
        t = p.strip(t.targs[0]['t'])
    return n


# a few layouts of larger matrices
LARGE = [((1, 6), [((0, 0), (0, 1), (0, 3), (0, 4))]), ((6, 1), [((0, 0), (2, 0), (3, 0), (5, 0))]),
         ((5, 5), [((0, 0), (0, 1), (0, 2), (0, 4), (2, 3), (4, 0), (4, 4))])]


def plans(p, f, deep=False):
    """operand plans for one entry point"""
    ops = operands(p, f)
    nm = name_of(f)
    ks = ''.join(k for _, k in ops)
    if 'O' in ks.replace('O', '', 1) and nm != '<<' and not f.get('ctor'):
        return []
    out = []
    ss = [pos for pos, k in ops if k == 'S' and not (pos == 'this' and f.get('ctor'))]
    if f.get('ctor') and p.strip(f['rec']).name == 'NS::SparseMatrix':
        for i, x in enumerate(f['params']):
            if nested(p, x['t']) == 2:
                return [{'list': (i, ln)} for ln in ((1,), (2,), (2, 2), (2, 1), (0, 2), (1, 2), (1, 1, 1))]
    its = [pos for pos, k in ops if k in 'irc']
    ints = [pos for pos, k in ops if k == 'I']
    sig = [pos for pos, k in ops if k == 'N']
    heavy = f.get('rec') is None and not nm[0] in '+-*=!' and not nm.startswith('to') and len(ss) > 0

    def fin(base, s, cells):
        """the remaining operands"""
        axes = []
        for pos, k in ops:
            if pos in base:
                continue
            if k in 'irc':
                n = len(cells)
                axes.append([(pos, ('it', i, 0)) for i in range(n)] + [(pos, ('it', n, 0)), (pos, ('it', n, 1))])
            elif k == 'D':
                axes.append([(pos, (s, None))])
            elif k == 'V':
                axes.append([(pos, ((s[0] if nm == 'mul_left' else s[1],), None))])
            elif k == 'W':
                axes.append([(pos, ((s[0],), q)) for q in itertools.permutations(range(s[0]))] if s[0] == s[1] else [(pos, ((s[1],), tuple(range(s[1]))))])
            elif k == 'I':
                if not ss and not its:
                    axes.append([(pos, i) for i in (1, 2, 3)])
                else:
                    m = s[0] * s[1] if nm.startswith('linear') else max(s)
                    axes.append([(pos, i) for i in range(m)])
            elif k == 'N':
                axes.append([(pos, i) for i in ((-1, 0, 1) if not its else (0,))])
            elif k == 'B':
                axes.append([(pos, 0), (pos, 1)])
        for c in itertools.product(*axes):
            q = dict(base)
            q.update(c)
            out.append(q)
    if its and its[0] == 'this':
        for s, ls in [(s, layouts(s)) for s in SHAPES] + LARGE:
            for l in ls:
                n = len(out)
                fin({}, s, l)
                for q in out[n:]:
                    q['m'] = (s, l)
        return out
    if not ss:
        if ints or not any(k in 'VDW' for k in ks):
            fin({}, (3, 3), ())
        else:
            for s in SHAPES:
                fin({}, s, ())
        return out
    shapes = SHAPES
    sq = heavy
    if sq:
        shapes = [(1, 1), (2, 2)]
    for s, first in [(s, layouts(s)) for s in shapes] + (LARGE if len(ss) == 1 and not heavy and not its else []):
        for l in first:
            if len(ss) == 1:
                fin({ss[0]: (s, l)}, s, l)
                continue
            rest = []
            for pos in ss[1:]:
                ts = [t for t in SHAPES if t[0] == s[1]] if nm == 'mul' else SHAPES if nm == 'swap' else [s]
                if heavy:
                    rest.append([(pos, (s, x)) for x in ((), tuple((i, i) for i in range(s[0])), tuple((i, j) for i in range(s[0]) for j in range(s[1])))])
                elif nm in ('mul', 'swap'):
                    rest.append([(pos, (t, x)) for t in ts for x in fewl(t)])
                else:
                    rest.append([(pos, (t, x)) for t in ts for x in (layouts(t) if deep or t == (2, 2) and f.get('rec') is not None else fewl(t))])
            combos = list(itertools.product(*rest))
            if heavy and len(combos) > 3:
                combos = combos[:1] + combos[len(combos) // 2:len(combos) // 2 + 1] + combos[-1:]
            for c in combos:
                b = {ss[0]: (s, l)}
                b.update(c)
                fin(b, s, l)
    return out


def contents(shape, cells, vals):
    return shape, {(i, j): vals.get((i, j), ZERO) for i in range(shape[0]) for j in range(shape[1])}


def given(C, pos):
    """logical contents an operand had on entry"""
    return sized.elems(C.A, C.st0, C.pre[pos])


class Bad(Exception):
    pass


def itfields(v):
    fs = dict(v.args[1])
    for x in list(fs.values()):
        if isinstance(x, N) and x.kind == 'rec':
            fs.update(itfields(x))
    return fs


def itpos(v, shape):
    """(row, column, index) of an iterator value, 'end' or None when not constant"""
    fs = itfields(v)
    i, j, k = (pval(fs[n]).const() for n in ('mIndex1', 'mIndex2', 'mColumnPtrIndex'))
    if i is None or j is None:
        return None
    if not (i < shape[0] and j < shape[1]):
        return 'end'
    return None if k is None else (i, j, k)


def nextcell(kind, cells, k):
    cells = sorted(cells)
    if k >= len(cells):
        return 'end'
    i, j = cells[k]
    for n in range(k + 1, len(cells)):
        a, b = cells[n]
        if kind == 'i' or kind == 'r' and a == i or kind == 'c' and b == j:
            return a, b, n
    return 'end'


def check(C, nm, ops, pl, rules):
    """verdicts of one case: list of (rule, verdict, text)"""
    A, res = C.A, []
    ks = ''.join(k for _, k in ops)

    def add(rule, ok, st, text, pt=None):
        """ok False: broken if the state is certainly reached"""
        if ok is False:
            w = pt or C.certain(st)
            res.append((rule, False if w else None, text + wit(w)))
        else:
            res.append((rule, ok, text))
    mut = C.mat
    for how, st, v in C.exits():
        vals = []
        if v is not None:
            x = A.read(st, v) if isinstance(v, N) and v.kind == 'ptr' else v
            shaped.sparses(A, st, x, 'the result', vals)
        for pos, ptr in C.base.items():
            if ptr is not None and not (how == 'throw' and pos == 'this' and C.f.get('ctor')):
                shaped.sparses(A, st, A.read(st, ptr), 'the matrix' if pos == 'this' else 'operand %s' % pos, vals)
        if C.mat and not any(C.mat[0] is b for b in C.base.values()):
            shaped.sparses(A, st, A.read(st, C.mat[0]), 'the matrix', vals)
        for n, s in vals:
            try:
                d = sized.decode(A, st, s)
            except Stop:
                d = None
            if d is None:
                res.append(('storage arrays agree', None, '%s: layout not constant' % n))
                continue
            if d[3]:
                add('storage arrays agree', False, st, '%s at %s: %s' % (n, how, d[3]))
                continue
            res.append(('storage arrays agree', True, ''))
            e = pval(dict(s.args[1])['mEmpty'])
            if e == ZERO or A.holds(st, f_eq(e)):
                res.append(('zero of absent entries unchanged', True, ''))
            else:
                w = None if st.gh.get('joined') else numeric.differ(st.facts, [(e, ZERO)])
                res.append(('zero of absent entries unchanged', False if w else None, '%s: %s%s' % (n, show(e), wit(w))))
            for c, y in d[2].items():
                if A.holds(st, f_ne(y)):
                    res.append(('stored entries are not zero', True, ''))
                    continue
                if product(st, y) and not st.gh.get('joined') and not st.gh.get('iffy'):
                    add('stored entries are not zero', False, st, '%s: entry %s = %s at %s is stored without a test of the value itself (the product of '
                        'two non-zero numbers can be zero by underflow)' % (n, c, show(y)[:100], how))
                    continue
                w = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(f_ne(y), TRUE)], tries=150)
                res.append(('stored entries are not zero', False if w else None, '%s: entry %s = %s at %s%s' % (n, c, show(y)[:100], how, wit(w))))
        if how == 'throw':
            continue
        if 'list' in pl and C.f.get('ctor'):
            listed(C, st, pl['list'][1], add)
        for rule, ok, text, pt in special(C, nm, ks, pl, st, v):
            add(rule, ok, st, text, pt)
    return res


def product(st, y):
    """a product of unknown numbers about which nothing is known but its factors"""
    if len(y.m) != 1:
        return False
    (k, c), = y.m.items()
    if len(k) < 2 or any(ATOMS[i].kind not in ('sym', 'sel', 'inv') for i in k):
        return False

    def about(f):
        if isinstance(f, P):
            return any(len(set(q) & set(k)) > 1 or len(q) > 1 and set(q) & set(k) for q in f.m) or any(about(ATOMS[i]) for q in f.m for i in q if i not in k)
        return isinstance(f, N) and any(about(x) for x in f.args)
    return not any(about(f) for f in st.facts)


def listed(C, st, ln, add):
    """a matrix built from rows holds the listed entries and zeros elsewhere"""
    e = sized.elems(C.A, st, C.A.read(st, C.A.this_))
    if e is None:
        return
    for i in range(e[0][0]):
        for j in range(e[0][1]):
            want = pval(C.rows[i][j]) if i < len(ln) and j < ln[i] else ZERO
            got = pval(e[1][i, j])
            if got == want or C.A.holds(st, f_eq(got - want)):
                add('only the named entry changes', True, st, '')
                continue
            w = None if st.gh.get('joined') else numeric.differ(st.facts, [(got, want)])
            add('only the named entry changes', False if w else None, st, 'list of rows with %s numbers: entry %s is %s instead of %s' % (ln, (i, j), show(got)[:60], show(want)[:60]), w)


def special(C, nm, ks, pl, st, v):
    """expected effects of the operations on the storage itself"""
    A = C.A
    out = []
    if isinstance(v, N) and v.kind == 'ptr':
        v = A.read(st, v)

    def same(rule, got, want, text):
        """contents equal"""
        if got is None:
            out.append((rule, None, text + ': contents unknown', None))
            return
        if got[0] != want[0]:
            out.append((rule, False, '%s: shape %s instead of %s' % (text, got[0], want[0]), None))
            return
        bad = [k for k in want[1] if pval(got[1][k]) != pval(want[1][k]) and not A.holds(st, f_eq(pval(got[1][k]) - pval(want[1][k])))]
        if not bad:
            out.append((rule, True, '', None))
            return
        w = None if st.gh.get('joined') else numeric.differ(st.facts, [(pval(got[1][k]), pval(want[1][k])) for k in bad])
        k = bad[w[1] if w else 0]
        out.append((rule, False if w else None, '%s: entry %s is %s instead of %s' % (text, k, show(pval(got[1][k]))[:80], show(pval(want[1][k]))[:80]), w))
    if C.f.get('rec') is None and nm not in ('swap',):
        return out
    own = C.f['rec']
    kind = shaped.kindof(C.p, own)
    if kind == 'S' and not C.f.get('ctor'):
        pre = given(C, 'this')
        s, el = pre
        _, cells = pl['this']
        now = sized.elems(A, st, A.read(st, C.base['this']))
        order = sorted(cells)
        if nm == 'set' and ks == 'SIIT':
            k = (pl[0], pl[1])
            if k[0] < s[0] and k[1] < s[1]:
                t = pval(shaped.value(A, C.st0, C.vs, 2))
                same('only the named entry changes', now, (s, {q: (t if q == k else y) for q, y in el.items()}), 'set%s' % (k,))
        elif nm == 'linear_set' and ks == 'SIT':
            if pl[0] < s[0] * s[1]:
                k = divmod(pl[0], s[1])
                t = pval(shaped.value(A, C.st0, C.vs, 1))
                same('only the named entry changes', now, (s, {q: (t if q == k else y) for q, y in el.items()}), 'linear_set%s' % (k,))
        elif nm == 'erase' and ks == 'Si' or nm == 'set' and ks == 'SiT':
            i = pl[0][1]
            k = order[i] if i < len(order) else None
            t = ZERO if nm == 'erase' else pval(shaped.value(A, C.st0, C.vs, 1))
            same('only the named entry changes', now, (s, {q: (t if q == k else y) for q, y in el.items()}), '%s at iterator %s' % (nm, k))
            if isinstance(v, N) and v.kind == 'rec' and k is not None:
                gone = nm == 'erase' or A.holds(st, f_eq(t))
                stay = nm == 'set' and A.holds(st, f_ne(t))
                if gone or stay:
                    got = itpos(v, s)
                    if gone:
                        want = (order[i + 1] + (i,)) if i + 1 < len(order) else 'end'
                    else:
                        want = k + (i,)
                    out.append(('iterators visit exactly the stored entries', got == want if got is not None else None,
                                '%s returned an iterator at %s instead of %s' % (nm, got, want), None))
        elif nm == 'swap' and ks == 'SS':
            same('swap exchanges the complete state', now, given(C, 0), 'swap: this')
            same('swap exchanges the complete state', sized.elems(A, st, A.read(st, C.base[0])), pre, 'swap: other')
        elif nm in ('begin', 'cbegin', 'end', 'cend') and ks == 'S' or nm in ('row_begin', 'row_cbegin', 'row_end', 'row_cend', 'column_begin', 'column_cbegin',
                                                                      'column_end', 'column_cend') and ks == 'SI':
            line = pl.get(0)
            sel = [c for c in order if nm.startswith('row') and c[0] == line or nm.startswith('col') and c[1] == line or nm in ('begin', 'cbegin')]
            if nm.startswith('row') and line >= s[0] or nm.startswith('col') and line >= s[1]:
                return out
            want = 'end' if 'end' in nm or not sel else sel[0] + (order.index(sel[0]),)
            got = itpos(v, s) if isinstance(v, N) and v.kind == 'rec' else None
            out.append(('iterators visit exactly the stored entries', got == want if got is not None else None, '%s is at %s instead of %s' % (nm, got, want), None))
        elif nm in ('at', 'linear_at', 'has') and ks in ('SII', 'SI', 'SIIT'):
            k = (pl[0], pl[1]) if nm != 'linear_at' else divmod(pl[0], s[1])
            if k not in el:
                return out
            if nm == 'has':
                want = TRUE if k in cells else FALSE
                g = bval(v)
                ok = True if A.holds(st, g if want is TRUE else f_not(g)) else False if A.holds(st, f_not(g) if want is TRUE else g) else None
                out.append(('absent entries read as zero', ok, 'has%s is %s with entries %s' % (k, show(g), order), None))
                if ks == 'SIIT':
                    g = pval(A.read(st, C.vs[2]))
                    val(A, st, out, g, el[k], 'has%s gives' % (k,))
            else:
                val(A, st, out, pval(v), el[k], '%s%s is' % (nm, k))
        elif nm in ('filled_count', 'empty', 'has_zero'):
            n = len(order)
            if nm == 'filled_count':
                val(A, st, out, pval(v), num(n), 'filled_count is')
            elif nm == 'empty' or nm == 'has_zero':
                g = bval(v)
                want = n == 0 if nm == 'empty' else n < s[0] * s[1]
                ok = True if A.holds(st, g if want else f_not(g)) else False if A.holds(st, f_not(g) if want else g) else None
                out.append(('absent entries read as zero', ok, '%s is %s for entries %s of %s' % (nm, show(g), order, s), None))
    elif kind in 'irc':
        (s, cells), order = C.mat[1], sorted(C.mat[1][1])
        _, i, var = pl['this']
        if nm == '++':
            want = nextcell(kind, cells, i)
            cur = A.read(st, C.base['this'])
            got = itpos(cur, s)
            out.append(('iterators visit exactly the stored entries', got == want if got is not None else None,
                        '++ from %s moves to %s instead of %s' % (order[i] if i < len(order) else 'end', got, want), None))
            if isinstance(v, N) and v.kind == 'rec':
                w2 = want if ks == kind else (order[i] + (i,) if i < len(order) else 'end')
                got = itpos(v, s)
                out.append(('iterators visit exactly the stored entries', got == w2 if got is not None else None,
                            '++ from %s returns %s instead of %s' % (order[i] if i < len(order) else 'end', got, w2), None))
        elif nm == '*' and ks == kind:
            x = pval(v) if not (isinstance(v, N) and v.kind == 'ptr') else pval(A.read(st, v))
            val(A, st, out, x, C.mel[order[i]] if i < len(order) else ZERO, '*iterator is')
        elif nm in ('==', '!=') and ks == kind + kind:
            j = pl[0][1]
            want = (i == j) if nm == '==' else i != j
            g = bval(v)
            ok = True if A.holds(st, g if want else f_not(g)) else False if A.holds(st, f_not(g) if want else g) else None
            out.append(('iterators visit exactly the stored entries', ok, 'iterators at %s %s %s gives %s' % (i, nm, j, show(g)), None))
        elif nm == 'isValid':
            want = i < len(order)
            g = bval(v)
            ok = True if A.holds(st, g if want else f_not(g)) else False if A.holds(st, f_not(g) if want else g) else None
            out.append(('iterators visit exactly the stored entries', ok, 'isValid at %s' % i, None))
    return out


def val(A, st, out, got, want, text):
    if got == want or A.holds(st, f_eq(got - want)):
        out.append(('absent entries read as zero', True, '', None))
        return
    w = None if st.gh.get('joined') else numeric.differ(st.facts, [(got, want)])
    out.append(('absent entries read as zero', False if w else None, '%s %s instead of %s' % (text, show(got)[:80], show(want)[:80]), w))


class SCase(Case):
    def setup(self, E, st, this, vs):
        if 'list' in self.plan:
            i, ln = self.plan['list']
            self.rows = [[E.fresh('x%d%d' % (r, j)) for j in range(m)] for r, m in enumerate(ln)]
            vs[i] = meshes.clist([meshes.clist(r) for r in self.rows])
        r = super().setup(E, st, this, vs)
        self.st0 = r.fork()
        if self.mat:
            self.mel = sized.elems(E, st, E.read(st, self.mat[0]))[1]
        return r


def ends(C, f, nm, ops, pl):
    """places where an operation with positions inside the matrix ends the program"""
    if not C.A.ab or nm == 'resize' or f.get('ctor'):
        return []
    s = [pl[pos][0] for pos, k in ops if k == 'S' and isinstance(pl.get(pos), tuple)]
    ix = [pl[pos] for pos, k in ops if k == 'I']
    if not s or len(s[0]) != 2 or len(ix) > 2 or not all(isinstance(x, int) for x in ix):
        return []
    if len(ix) == 2:
        ok = all(x < n for x, n in zip(ix, s[0]))
    else:
        ok = all(x < (s[0][0] if 'row' in nm else s[0][1] if 'column' in nm else min(s[0])) for x in ix)
    return ['ends the program at %s%s' % (l, '') for l, w in C.A.aborts()] if ok else []


def task(p, job):
    fid, pls, deep = job
    f = p.fns[fid]
    nm = name_of(f)
    ops = operands(p, f)
    out = []
    t0 = time.time()
    for pl in pls:
        if time.time() - t0 > (200 if deep else 16):
            out.append((pl, [('operation analysed', None, 'skipped: time')]))
            continue
        prover.LIMIT[0] = time.time() + (60 if deep else 8)
        m = pl.get('m', ((2, 2), ()))
        C = SCase(p, f, pl, mshape=m[0], mcells=m[1], maxsteps=60000)
        try:
            C.run()
            r = check(C, nm, ops, pl, None)
            if not C.outs and not C.thr:
                r = [('operation analysed', True, 'assertion')]
            out.append((pl, r))
        except Stop as x:
            if str(x) == 'skip':
                continue
            out.append((pl, [('operation analysed', None, 'stopped: %s' % x)]))
    return out


def show_plan(pl):
    if 'list' in pl:
        return 'rows with %s numbers' % (pl['list'][1],)
    return ', '.join('%s=%s' % (k, x if not isinstance(x, tuple) else x[1] if x[0] == 'it' else 'x'.join(map(str, x[0])) + ('' if x[1] is None else str(list(x[1]))))
                     for k, x in pl.items() if x is not None)


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def collect(p, rules, rep):
    jobs = []
    deep = os.environ.get('VERIF_TIER') == 'thorough'
    for f in sweep.entries(p):
        if not relevant(p, f) or f.get('dtor'):
            continue
        for c in chunks(plans(p, f, deep), 12):
            jobs.append((f['id'], c, deep))
    seen = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        seen.add(ir.plain(f['q']))
        if r is None:
            rep.ob(rules[0], None, '%s: %s' % (f['q'], err))
            continue
        for pl, rs in r:
            for rule, v, text in rs:
                if rule == 'operation analysed':
                    if v is None:
                        rep.ob(rules[0], None, '%s: %s' % (f['q'], text))
                    continue
                if rule not in rules:
                    continue
                rep.ob(rule, v, '%s %s: %s' % (f['q'], show_plan(pl), text))
                if v is False:
                    rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s (%s): %s [%s]' % (f['q'], show_plan(pl), text, rule))
    rep.cov['operations'] = sorted(seen)


EXPL = ('Every operation that takes, changes or returns a sparse matrix or one of its iterators is analysed on operands with a '
        'constant size and layout of stored entries (all layouts of 1x1, 1x3, 3x1 and 2x2, a family for 2x3, 3x2, 3x3) and '
        'unknown non-zero values; the three storage arrays are tracked element by element and decoded at every normal and '
        'exceptional exit. ')
