"""C24: element-wise operations and reductions process every entry exactly once."""
from fractions import Fraction
import ir
import models
import numeric
import shaped
import sized
import sweep
import terms
from common import Report
from engine import Stop, pval, bval, isbool
from sized import elems
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, inv, fn, node, f_and, f_or, f_not, f_eq, f_ne, f_ge, f_gt, show

BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a * inv(b)}


def total(xs):
    r = ZERO
    for x in xs:
        r = r + x
    return r


def mat(r, c, f):
    return (r, c), {(i, j): f(i, j) for i in range(r) for j in range(c)}


def conj(x):
    return models.conjv(x) if CPLX[0] else x


CPLX = [False]
BIG = Fraction((2 ** 53 - 1) * 2 ** 971)


# each entry: function(ops) -> dict of expectations, ops = list of (shape, {index: value}) or scalar values
# keys: 'ret' (scalar, condition, operand), 'this' (operand after the call), 'prop' (condition on the result)
def inplace(op):
    def f(a, b):
        s, x = a
        if isinstance(b, tuple):
            return {'this': (s, {k: BIN[op](x[k], b[1][k]) for k in x})}
        return {'this': (s, {k: BIN[op](x[k], b) for k in x})}
    return f


def binary(op):
    def f(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return {'ret': (a[0], {k: BIN[op](a[1][k], b[1][k]) for k in a[1]})}
        if isinstance(a, tuple):
            return {'ret': (a[0], {k: BIN[op](a[1][k], b) for k in a[1]})}
        return {'ret': (b[0], {k: BIN[op](a, b[1][k]) for k in b[1]})}
    return f


def neg(a):
    return {'ret': (a[0], {k: -x for k, x in a[1].items()})}


def summ(a):
    return {'ret': total(a[1].values())}


def avg(a):
    n = 1
    for d in a[0]:
        n *= d
    return {'ret': total(a[1].values()) * inv(num(n))} if n else {}


def ext(sign):
    def f(a):
        xs = list(a[1].values())
        if not xs:
            return {}
        if CPLX[0]:
            xs = [toP(node('abs', (x,))) for x in xs]       # the extreme modulus

        def goal(v):
            g, h = TRUE, FALSE
            for x in xs:
                g = f_and(g, f_ge((v - x) * sign))
                h = f_or(h, f_eq(v - x))
            return f_and(g, h)
        return {'prop': goal}
    return f


def anyof(pred):
    def f(a):
        h = FALSE
        for x in a[1].values():
            h = f_or(h, pred(x))
        return {'ret': h}
    return f


def isk(n):
    def f(x):
        if CPLX[0] and x.const() is None:
            return f_or(node('pred', (n, fn('fn', 'real', x))), node('pred', (n, fn('fn', 'imag', x))))
        return FALSE if x.const() is not None else node('pred', (n, x))
    return f


def trace(a):
    return {'ret': total(a[1][(i, i)] for i in range(min(a[0])))}


def transpose(a):
    (r, c), x = a
    return {'ret': mat(c, r, lambda i, j: x[(j, i)])}


def mul(a, b):
    (r, n), x = a
    y = b[1]
    if len(b[0]) == 1:
        return {'ret': ((r,), {(i,): total(x[(i, k)] * y[(k,)] for k in range(n)) for i in range(r)})}
    return {'ret': mat(r, b[0][1], lambda i, j: total(x[(i, k)] * y[(k, j)] for k in range(n)))}


def mul_left(a, b):
    (r, n), x = a
    y = b[1]
    return {'ret': ((n,), {(j,): total(x[(k, j)] * y[(k,)] for k in range(r)) for j in range(n)})}


def dot(a, b):
    return {'ret': total(a[1][k] * b[1][k] for k in a[1])}


def equal(want):
    def f(a, b):
        g = TRUE if a[0] == b[0] else FALSE
        if g is TRUE:
            for k in a[1]:
                g = f_and(g, f_eq(a[1][k] - b[1][k]))
        return {'ret': g if want else f_not(g)}
    return f


def setel(a, *ix):
    *pos, v = ix
    s, x = a
    k = tuple(int(p.const()) for p in pos)
    if any(not 0 <= i < n for i, n in zip(k, s)):
        return {}
    return {'this': (s, {q: (v if q == k else y) for q, y in x.items()})}


def getel(a, *pos):
    s, x = a
    k = tuple(int(p.const()) for p in pos)
    if any(not 0 <= i < n for i, n in zip(k, s)):
        return {}
    return {'ret': x[k]}


def linget(a, i):
    s, x = a
    i = int(i.const())
    k = (i,) if len(s) == 1 else divmod(i, s[1])
    return {'ret': x[k]} if k in x else {}


def linset(a, i, v):
    s, x = a
    i = int(i.const())
    k = (i,) if len(s) == 1 else divmod(i, s[1])
    return {'this': (s, {q: (v if q == k else y) for q, y in x.items()})} if k in x else {}


def hasel(a, *pos):
    r = getel(a, *[p for p in pos])
    return {'ret': f_ne(r['ret'])} if r else {}


def count(a):
    h = ZERO
    for x in a[1].values():
        h = h + (ZERO if x == ZERO else ONE)
    return {'ret': h}


def countrow(dim):
    def f(a, i):
        s, x = a
        i = int(i.const())
        if i >= s[dim]:
            return {}
        return {'ret': num(len([1 for k, v in x.items() if k[dim] == i and v != ZERO]))}
    return f


V, M, D, S, T = 'V', 'M', 'D', 'S', 'T'
SPEC = {
    ('+=', 'VV'): inplace('+'), ('-=', 'VV'): inplace('-'), ('*=', 'VV'): inplace('*'), ('/=', 'VV'): inplace('/'),
    ('+=', 'MM'): inplace('+'), ('-=', 'MM'): inplace('-'), ('*=', 'MM'): inplace('*'),
    ('+=', 'VT'): inplace('+'), ('-=', 'VT'): inplace('-'), ('*=', 'VT'): inplace('*'), ('/=', 'VT'): inplace('/'),
    ('*=', 'MT'): inplace('*'),
    ('+', 'VV'): binary('+'), ('-', 'VV'): binary('-'), ('*', 'VV'): binary('*'), ('/', 'VV'): binary('/'),
    ('+', 'MM'): binary('+'), ('-', 'MM'): binary('-'), ('*', 'MM'): binary('*'),
    ('+', 'VT'): binary('+'), ('-', 'VT'): binary('-'), ('*', 'VT'): binary('*'), ('/', 'VT'): binary('/'),
    ('+', 'TV'): binary('+'), ('-', 'TV'): binary('-'), ('*', 'TV'): binary('*'), ('/', 'TV'): binary('/'),
    ('*', 'MT'): binary('*'), ('*', 'TM'): binary('*'), ('-', 'V'): neg, ('-', 'M'): neg,
    ('==', 'VV'): equal(True), ('!=', 'VV'): equal(False), ('==', 'MM'): equal(True), ('!=', 'MM'): equal(False),
    ('sum', 'V'): summ, ('sum', 'M'): summ, ('avg', 'V'): avg, ('avg', 'M'): avg,
    ('max', 'V'): ext(1), ('max', 'M'): ext(1), ('min', 'V'): ext(-1), ('min', 'M'): ext(-1),
    ('has_nan', 'M'): anyof(isk('isnan')), ('hasNaN', 'V'): anyof(isk('isnan')),
    ('has_inf', 'M'): anyof(isk('isinf')), ('hasInf', 'V'): anyof(isk('isinf')),
    ('has_zero', 'M'): anyof(lambda x: f_eq(x)), ('hasZero', 'V'): anyof(lambda x: f_eq(x)),
    ('trace', 'M'): trace, ('transpose', 'M'): transpose,
    ('conjugate', 'M'): lambda a: {'ret': (a[0], {k: conj(x) for k, x in a[1].items()})},
    ('adjugate', 'M'): lambda a: {'ret': transpose((a[0], {k: conj(x) for k, x in a[1].items()}))['ret']},
    ('mul', 'MM'): mul, ('mul', 'MV'): mul, ('mul_left', 'MV'): mul_left, ('dot', 'VV'): dot,
    ('magSqr', 'V'): lambda a: {} if CPLX[0] else {'ret': total(x * x for x in a[1].values())},
    ('do_reciprocal', 'V'): lambda a: {'this': (a[0], {k: inv(x) for k, x in a[1].items()})},
    ('fill', 'VT'): lambda a, v: {'this': (a[0], {k: v for k in a[1]})},
    ('set', 'VIT'): setel, ('set', 'MIIT'): setel, ('at', 'VI'): getel, ('at', 'MII'): getel,
    ('linear_at', 'VI'): linget, ('linear_at', 'MI'): linget, ('linear_set', 'VIT'): linset, ('linear_set', 'MIT'): linset,
    ('has', 'SII'): hasel,
    ('filled_count', 'S'): count, ('row_filled_count', 'SI'): countrow(0), ('column_filled_count', 'SI'): countrow(1),
    ('toDenseMatrix', 'M'): lambda a: {'ret': a}, ('toSparseMatrix', 'M'): lambda a: {'ret': a},
}
CAND = set(k[0] for k in SPEC)
# relation between the shapes of two operands
REL = {'mul': 'inner', 'mul_left': 'left'}
MSHAPES = [(1, 1), (2, 2), (2, 3), (3, 2), (1, 3), (3, 1)]
LAY = {(1, 1): [[], [(0, 0)]],
       (2, 2): [[], [(0, 1)], [(1, 0)], [(0, 0), (0, 1)], [(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0), (1, 1)], [(1, 0), (1, 1)]],
       (2, 3): [[(0, 2), (1, 0)], [(0, 0), (0, 2), (1, 1)], [(0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)]],
       (3, 2): [[(0, 1), (2, 0)], [(1, 0), (1, 1)], [(0, 0), (2, 0), (2, 1)]],
       (1, 3): [[(0, 0), (0, 2)]], (3, 1): [[(1, 0)], [(0, 0), (2, 0)]],
       (5, 5): [[(0, 4), (1, 1), (3, 0), (4, 2)], [(2, 0), (2, 1), (2, 3), (2, 4)]], (2, 6): [[(0, 5), (1, 0), (1, 3), (1, 4)]],
       (6, 2): [[(0, 1), (3, 0), (5, 1)]]}
LARGE = [(5, 5), (2, 6), (6, 2)]


def sig(p, f):
    """operation name and operand kinds"""
    q = ir.plain(f['q']).split('::')
    name = q[-1]
    if name.startswith('operator'):
        name = name[8:]
    if name not in CAND or f.get('ctor') or f.get('static'):
        return None
    ops = []
    if f.get('rec') is not None:
        k = sized.kind(p, f['rec'])
        if not k:
            return None
        ops.append(('this', k))
    for i, x in enumerate(f['params']):
        k = sized.kind(p, x['t'])
        if not k:
            t = p.strip(x['t'])
            k = 'T' if t.k == 'float' else 'I' if t.k in ('uint', 'int') else None
        if not k:
            return None
        ops.append((i, k))
    if 'V' in [k for _, k in ops]:
        # vectors of indices are not element-wise data
        for pos, k in ops:
            t = p.strip(f['rec'] if pos == 'this' else f['params'][pos]['t'])
            if k == 'V' and p.ty(t.targs[0]['t']).k != 'float':
                return None
    sg = ''.join(k for _, k in ops)
    for s in (sg, sg.replace('D', 'M').replace('S', 'M')):
        if (name, s) in SPEC:
            return name, s, ops
    return None


def plans(name, ops):
    """tuples of constant shapes, layouts or index values, one per operand"""
    first = ops[0][1]
    out = []

    def lays(k, s):
        return [(s, tuple(l)) for l in LAY[s]] if k == 'S' else [(s, None)]
    mats = [(i, k) for i, (_, k) in enumerate(ops) if k in 'DS']
    vecs = [i for i, (_, k) in enumerate(ops) if k == 'V']
    ints = [i for i, (_, k) in enumerate(ops) if k == 'I']
    if mats:
        i0, k0 = mats[0]
        lone = len(mats) == 1 and k0 == 'S' and not ints
        for s in MSHAPES + (LARGE if name not in ('max', 'min') else []):
            if name == 'mul' and len(mats) == 2:
                others = [t for t in (LARGE if s in LARGE else MSHAPES) if t[0] == s[1]]
            elif len(mats) == 2:
                others = [s]
            else:
                others = [None]
            for la in ([(s, l) for l in shaped.layouts(s)] if lone and s not in LARGE else lays(k0, s)):
                for t in others:
                    for lb in (lays(mats[1][1], t) if t else [None]):
                        pl = [None] * len(ops)
                        pl[i0] = la
                        if lb:
                            pl[mats[1][0]] = lb
                        for v in vecs:
                            pl[v] = ((s[0] if name == 'mul_left' else s[1],), None)
                        if len(ints) == 2:
                            ix = [(i, j) for i in range(s[0]) for j in range(s[1])]
                        elif len(ints) == 1:
                            n = s[0] * s[1] if name.startswith('linear') else s[0] if name.startswith('row') else s[1]
                            ix = [(i,) for i in range(n)]
                        else:
                            ix = [()]
                        for c in ix:
                            q = list(pl)
                            for i, x in zip(ints, c):
                                q[i] = x
                            out.append(tuple(q))
    else:
        for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9):
            pl = [None] * len(ops)
            for v in vecs:
                pl[v] = ((n,), None)
            for c in ([(i,) for i in range(n)] if ints else [()]):
                q = list(pl)
                for i, x in zip(ints, c):
                    q[i] = x
                out.append(tuple(q))
    return out


def task(ps, job):
    fid, pls, c = job
    p = ps[c]
    CPLX[0] = bool(c)
    f = p.fns[fid]
    name, sg, ops = sig(p, f)
    out = []
    for pl in pls:
        try:
            out += one(p, f, name, sg, ops, pl)
        except Stop as x:
            if str(x) == 'skip':
                continue
            out.append((None, pl, 'analysis stopped: %s' % x))
            if 'time' in str(x):
                break
    return out


def one(p, f, name, sg, ops, pl):
    A = sweep.Ana(p, maxsteps=150000, spm=False)
    A.JOIN = 64
    base = {}
    args = []

    def setup(E, st, this, vs):
        for (pos, k), x in zip(ops, pl):
            if k in 'VDS':
                ptr = this if pos == 'this' else vs[pos]
                if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
                    raise Stop('operand by value')
                if k == 'S':
                    sized.layout(E, st, ptr, x[0], x[1], 'ab'[min(1, len(base))])
                elif not sized.resize(E, st, ptr, x[0]):
                    raise Stop('skip')
                base[pos] = ptr
        vals = []
        for (pos, k), x in zip(ops, pl):
            if k in 'VDS':
                el = elems(E, st, E.read(st, base[pos]))
                if el is None:
                    raise Stop('operand shape')
                vals.append(el)
            elif k == 'I':
                a = pval(vs[pos]).single() if not (isinstance(vs[pos], N) and vs[pos].kind == 'ptr') else None
                if a is None:
                    o = vs[pos].args[0]
                    st.mem[o] = num(x)
                else:
                    vs[pos] = num(x)
                vals.append(num(x))
            else:
                v = vs[pos]
                if isinstance(v, N) and v.kind == 'ptr':
                    v = E.read(st, v)
                vals.append(pval(v))
        if name == '/=' or name == '/' or name == 'do_reciprocal':
            d = vals[-1] if name != 'do_reciprocal' else vals[0]
            for y in (d[1].values() if isinstance(d, tuple) else [d]):
                st.facts += (f_ne(y),)
        args.extend(vals)
        if name in ('max', 'min'):
            for y in vals[0][1].values():
                if CPLX[0]:
                    y = toP(node('abs', (y,)))
                if y.const() is None:
                    st.facts += (f_ge(y + num(BIG)), f_ge(num(BIG) - y))
        base['vals'] = vals
        return st
    outs, thr = A.entry(f, setup=setup)
    want = SPEC[(name, sg)](*args)
    if not want:
        return []
    res = []
    for l, w in A.aborts():
        res.append((False, pl, 'ends the program at %s for fitting operands' % l))
    if not outs:
        return res + [(None, pl, 'no normal return')]
    for st, v in outs:
        res += verdicts(A, st, v, want, base, args, ops, pl)
    for st, ty, te in thr:
        w = A.feasible(st)
        res.append((False if w is not None and 'div' not in name else None, pl, 'throws %s for fitting operands' % (p.strip(ty).s if ty is not None else '?')))
    return res


def verdicts(A, st, v, want, base, args, ops, pl):
    res = []
    if isinstance(v, N) and v.kind == 'ptr':
        v = A.read(st, v)
    for key, w in want.items():
        if key == 'prop':
            x = pval(v)
            g = w(x)
            if A.holds(st, g):
                res.append((True, pl, ''))
                continue
            d = numeric.differ(st.facts, [(g, TRUE)], cplx=CPLX[0]) if not st.gh.get('joined') else None
            res.append((False if d else None, pl, 'result %s is not the extreme value%s' % (show(x), wit(d))))
            continue
        got = v if key == 'ret' else A.read(st, base['this'])
        res.append(compare(A, st, got, w, pl, key))
    return res


def wit(d):
    if not d:
        return ''
    return ' (e.g. %s)' % ', '.join('%s=%s' % (show(toP(ATOMS[i])) if ATOMS[i].kind not in ('bsym', 'pred') else show(ATOMS[i]), x) for i, x in list(d[0].items())[:6])


def compare(A, st, got, w, pl, key):
    joined = st.gh.get('joined')
    if isinstance(w, tuple):
        shape, el = w
        g = elems(A, st, got) if isinstance(got, N) and got.kind == 'rec' else None
        if g is None:
            if isinstance(got, N) and got.kind == 'rec' and 'mRowPtr' in dict(got.args[1]) and not joined:
                d = sized.decode(A, st, got)
                if d and d[3] and A.feasible(st) is not None:
                    return False, pl, 'inconsistent sparse storage: %s' % d[3]
            return None, pl, 'contents of the result unknown'
        if g[0] != shape:
            return (False if not joined and A.feasible(st) is not None else None), pl, 'shape %s instead of %s' % (g[0], shape)
        pairs = [(pval(g[1][k]), el[k], k) for k in sorted(el)]
    elif isinstance(w, N):
        g = bval(got)
        if g is w or A.holds(st, f_or(f_and(g, w), f_and(f_not(g), f_not(w)))):
            return True, pl, ''
        if A.holds(st, g) and A.holds(st, w) or A.holds(st, f_not(g)) and A.holds(st, f_not(w)):
            return True, pl, ''
        if not joined:
            special = 'isnan' in show(w) or 'isinf' in show(w)
            d = numeric.differ(st.facts, [(g, w)], special=special, tries=300, cplx=CPLX[0])
            if d:
                return False, pl, 'gives %s instead of %s%s' % (d[2], d[3], wit(d))
        return None, pl, 'condition not decided: %s' % show(g)
    else:
        pairs = [(pval(got), w, None)]
    left = [(a, b, k) for a, b, k in pairs if a != b and not A.holds(st, f_eq(a - b))]
    if not left:
        return True, pl, ''
    if not joined:
        d = numeric.differ(st.facts, [(a, b) for a, b, k in left], cplx=CPLX[0])
        if d:
            a, b, k = left[d[1]]
            return False, pl, '%s is %s instead of %s%s' % ('the result' if k is None else 'entry %s' % (k,), show(a)[:80], show(b)[:80], wit(d))
    a, b, k = left[0]
    return None, pl, 'entry %s not decided: %s' % (k, show(a)[:120])


def chunks(l, n):
    return [l[i:i + n] for i in range(0, len(l), n)]


def run():
    rep = Report('C24')
    ps = [ir.load(), ir.load('cplx.cpp')]
    jobs = []
    for n, p in enumerate(ps):
        for f in (sweep.entries(p) if n == 0 else p.lib()):
            s = sig(p, f)
            if not s or f.get('access') in (1, 2):
                continue
            for c in chunks(plans(s[0], s[2]), 24):
                jobs.append((f['id'], c, n))
    seen = set()
    for job, r, err, dt in sweep.run(ps, task, jobs):
        f = ps[job[2]].fns[job[0]]
        seen.add(ir.plain(f['q']))
        if r is None:
            rep.ob('operation on constant shapes', None, '%s: %s' % (f['q'], err))
            continue
        for v, pl, text in r:
            rep.ob('operation on constant shapes', v, '%s %s %s' % (f['q'], show_plan(pl), text))
            if v is False:
                rep.violation('%s' % ir.plain(f['q']), f['l'], '%s on %s: %s' % (f['q'], show_plan(pl), text))
    rep.need('operation on constant shapes', 300)
    rep.cov['operations'] = sorted(seen)
    rep.cov['explanation'] = EXPL
    rep.assume += ['floating-point arithmetic is compared as real arithmetic (rounding ignored)']
    return rep.finish()


def show_plan(pl):
    return ', '.join(str(x) if not isinstance(x, tuple) else 'x'.join(map(str, x[0])) + ('' if x[1] is None else str(list(x[1]))) for x in pl if x is not None)


EXPL = ('Every element-wise operation, product and reduction of the table is analysed with operands of constant shape (all '
        'shapes up to 3 rows and columns, vectors up to 4, sparse operands with a set of storage layouts) and unknown element '
        'values; the abstract value of each entry of the result must equal the polynomial of the operation.')
