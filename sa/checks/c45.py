"""C45: matrix constructors, structure checks, norms, normals and the small-number helpers are their defining formulas."""
import exact
import ir
import math
import numeric
import sized
import sweep
import terms
from checks import c24
from common import Report
from engine import Stop, pval, bval
from exact import same, sure
from sized import elems
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, inv, fn, node, f_and, f_or, f_not, f_eq, f_ne, f_ge, f_gt, show

RULES = ('result is the defining formula', 'structure check agrees with its definition', 'small-number helper is exact',
         'norm or normal is its formula', 'function analysed')
total, mat, transpose, mulm = c24.total, c24.mat, c24.transpose, c24.mul


def conj(x):
    return c24.conj(x)


def eyem(r, c):
    return mat(r, c, lambda i, j: ONE if i == j else ZERO)


def eqs(a, b):
    g = TRUE
    for k in a[1]:
        g = f_and(g, f_eq(a[1][k] - b[1][k]))
    return g


def check(pred):
    def f(a):
        (r, c), x = a
        return {'ret': pred(a) if r == c else FALSE}
    return f


def adj(a):
    return transpose((a[0], {k: conj(x) for k, x in a[1].items()}))['ret']


def tr(a):
    return transpose(a)['ret']


def neg(a):
    return a[0], {k: -x for k, x in a[1].items()}


def diagm(a):
    n = len(a[1])
    return {'ret': mat(n, n, lambda i, j: a[1][(i,)] if i == j else ZERO)}


def diagv(a):
    n = min(a[0])
    return {'ret': ((n,), {(i,): a[1][(i, i)] for i in range(n)})}


def tri(up):
    def f(a, k):
        k = int(k.const())
        return {'ret': (a[0], {(i, j): x if (j >= i + k if up else j <= i + k) else ZERO for (i, j), x in a[1].items()})}
    return f


def hilbert(d):
    d = int(d.const())
    return {'ret': mat(d, d, lambda i, j: inv(num(i + j + 1)))}


def inv_hilbert(d):
    d = int(d.const())
    b = math.comb
    return {'ret': mat(d, d, lambda i, j: num((-1) ** (i + j) * (i + j + 1) * b(d + i, d - j - 1) * b(d + j, d - i - 1) * b(i + j, i) ** 2))}


def binom(n, k):
    k = int(k.const())
    c = n.const()
    if c is not None and c == int(c) and c >= 0:
        return {'ret': num(math.comb(int(c), k))}
    r = ONE
    for i in range(k):
        r = r * (n - num(i)) * inv(num(i + 1))
    return {'ret': r}


def hasv(a, s, e, v):
    g = FALSE
    for i in range(int(s.const()), min(int(e.const()), a[0][0])):
        g = f_or(g, f_eq(a[1][(i,)] - v))
    return {'ret': g}


def mag(a):
    return {'sqrt': total(x * x for x in a[1].values())}


def normalized(a):
    m = fn('sqrt', total(x * x for x in a[1].values()))
    return {'ret': (a[0], {k: x * inv(m) for k, x in a[1].items()})}


def normal(*vs):
    return {'normal': vs}


def rowext(sign):
    return lambda a: {'rowext': (a, sign)}


def cond(a):
    return {'rowcond': a}


# name -> (operand kinds, formula, rule)
SPEC = {
    ('Construct::eye', 'II'): (lambda r, c: {'ret': eyem(int(r.const()), int(c.const()))}, 0),
    ('Construct::eye', ''): (None, 0),
    ('Construct::diag', 'V'): (diagm, 0), ('Construct::diag', 'M'): (diagv, 0),
    ('Construct::tril', 'MI'): (tri(False), 0), ('Construct::triu', 'MI'): (tri(True), 0),
    ('Construct::hilbert', 'I'): (hilbert, 0), ('Construct::inv_hilbert', 'I'): (inv_hilbert, 0),
    ('Check::matrixIsOrthogonal', 'M'): (check(lambda a: eqs(mulm(a, tr(a))['ret'], eyem(*a[0]))), 1),
    ('Check::matrixIsUnitary', 'M'): (check(lambda a: eqs(mulm(a, adj(a))['ret'], eyem(*a[0]))), 1),
    ('Check::matrixIsProjection', 'M'): (check(lambda a: eqs(mulm(a, a)['ret'], a)), 1),
    ('Check::matrixIsSymmetric', 'M'): (check(lambda a: eqs(tr(a), a)), 1),
    ('Check::matrixIsHermitian', 'M'): (check(lambda a: eqs(adj(a), a)), 1),
    ('Check::matrixIsSkewSymmetric', 'M'): (check(lambda a: eqs(neg(tr(a)), a)), 1),
    ('Check::matrixIsSkewHermitian', 'M'): (check(lambda a: eqs(neg(adj(a)), a)), 1),
    ('Math::sign_pow', 'I'): (lambda k: {'ret': num(1 if int(k.const()) % 2 == 0 else -1)}, 2),
    ('Math::factorial', 'I'): (lambda k: {'ret': num(math.factorial(int(k.const())))}, 2),
    ('Math::binom', 'II'): (binom, 2), ('Math::binom', 'TI'): (binom, 2),
    ('t_min', 'TT'): (lambda a, b: {'min': (a, b, -1)}, 2), ('t_max', 'TT'): (lambda a, b: {'min': (a, b, 1)}, 2),
    ('Vector::has', 'VIIT'): (hasv, 1),
    ('Vector::mag', 'V'): (mag, 3), ('Vector::normalized', 'V'): (normalized, 3),
    ('Math::normal', 'A'): (normal, 3),
    ('Operations::max_norm2', 'M'): (rowext(1), 3), ('Operations::min_norm2', 'M'): (rowext(-1), 3), ('Operations::cond', 'M'): (cond, 3),
}
NAMES = set(n for n, _ in SPEC)
REALONLY = {'Vector::mag', 'Vector::normalized', 'Math::normal', 'Operations::max_norm2', 'Operations::min_norm2', 'Operations::cond', 't_min', 't_max'}
DENSEONLY = {'Operations::max_norm2', 'Operations::min_norm2', 'Operations::cond'}


def sig(p, f):
    name = ir.plain(f['q'])
    if not name.startswith('NS::') or f.get('ctor'):
        return None
    name = name[4:]
    if name not in NAMES:
        return None
    ops = []
    if f.get('rec') is not None and not f.get('static'):
        k = sized.kind(p, f['rec'])
        if not k:
            return None
        ops.append(('this', k))
    for i, x in enumerate(f['params']):
        t = p.strip(x['t'])
        k = sized.kind(p, x['t'])
        if not k:
            k = 'T' if t.k == 'float' or 'complex' in (t.name or '') else 'I' if t.k in ('uint', 'int') else 'A' if 'array' in (t.name or '') else None
        if not k:
            return None
        ops.append((i, k))
    for pos, k in ops:
        if k == 'V' and name != 'Vector::has':
            t = p.strip(f['rec'] if pos == 'this' else f['params'][pos]['t'])
            if p.ty(t.targs[0]['t']).k in ('int', 'uint'):
                return None
    sg = ''.join(k for _, k in ops).replace('D', 'M').replace('S', 'M')
    if (name, sg) not in SPEC:
        return None
    return name, sg, ops


def signed(p, f, i):
    return p.strip(f['params'][i]['t']).k == 'int'


def plans(p, f, name, sg, ops):
    ks = [k for _, k in ops]
    out = []
    deep = sweep.THOROUGH
    if name == 'Construct::eye':
        return [(r, c) for r in range(1, 4) for c in range(1, 4)] if ops else [()]
    if name in ('Construct::hilbert', 'Construct::inv_hilbert'):
        return [(d,) for d in range(1, 6 if deep else 5)]
    if name == 'Math::sign_pow':
        return [(k,) for k in range(-7 if signed(p, f, 0) else 0, 9)]
    if name == 'Math::factorial':
        return [(k,) for k in range(0, 13)]
    if name == 'Math::binom':
        if sg == 'TI':
            return [(None, k) for k in range(0, 6)] + [(n, k) for n in range(0, 6) for k in range(0, n + 1)]
        return [(n, k) for n in range(0, 16) for k in range(0, n + 3)]
    if sg == 'TT':
        return [(None, None)]
    if ks[0] == 'A':
        return [(None,)]
    if ks[0] in 'DS':
        for s in c24.MSHAPES + [(3, 3)] if name in ('Construct::diag', 'Construct::tril', 'Construct::triu') else [(1, 1), (2, 2), (2, 3)] + ([(3, 3)] if name not in DENSEONLY else []):
            if ks[0] == 'S':
                lays = c24.LAY.get(s) or [[], [(0, 0), (1, 1), (2, 2)], [(0, 1), (1, 0), (2, 2)], [(0, 2), (1, 1), (2, 0)], [(0, 1), (0, 2), (2, 1)],
                                          [(i, j) for i in range(3) for j in range(3)]]
            else:
                lays = [None]
            for la in lays:
                for k in (range(-s[0], s[1] + 1) if len(ks) == 2 else [None]):
                    out.append(((s, None if la is None else tuple(la)),) + ((k,) if k is not None else ()))
        return out
    if name == 'Vector::has':
        return [(((n,), None), s, e, None) for n in (0, 1, 2, 3) for s in range(0, n + 2) for e in range(s, n + 2)]
    return [(((n,), None),) for n in (1, 2, 3, 4)]


def task(ps, job):
    fid, pls, c = job
    p = ps[c]
    c24.CPLX[0] = bool(c)
    f = p.fns[fid]
    name, sg, ops = sig(p, f)
    out = []
    for pl in pls:
        try:
            out += one(p, f, name, sg, ops, pl)
        except Stop as x:
            if str(x) == 'skip':
                continue
            out.append((None, pl, 'analysis stopped: %s' % x))
            if 'time' in str(x):
                break
    return out


def one(p, f, name, sg, ops, pl):
    A = sweep.Ana(p, maxsteps=400000, spm=False)
    A.JOIN = 3000
    A.RECUR = 45
    deep = []
    A.on_recursion = lambda st, e, *x: deep.append(st)
    base = {}
    args = []

    def setup(E, st, this, vs):
        for (pos, k), x in zip(ops, pl):
            if k not in 'VDS':
                continue
            ptr = this if pos == 'this' else vs[pos]
            if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
                raise Stop('operand by value')
            if k == 'S':
                sized.layout(E, st, ptr, x[0], x[1], 'a')
            elif not sized.resize(E, st, ptr, x[0]):
                raise Stop('skip')
            base[pos] = ptr
        for (pos, k), x in zip(ops, pl):
            if k in 'VDS':
                el = elems(E, st, E.read(st, base[pos]))
                if el is None:
                    raise Stop('operand shape')
                args.append((el[0], {q: pval(y) for q, y in el[1].items()}))
            elif k == 'A':
                args.extend(vecs(E, st, vs[pos]))
            else:
                v = vs[pos]
                if isinstance(v, N) and v.kind == 'ptr':
                    if x is not None:
                        E.write(st, v, num(x))
                    v = E.read(st, v)
                elif x is not None:
                    v = vs[pos] = num(x)
                args.append(pval(v))
        for a in args:
            for x in (a[1].values() if isinstance(a, tuple) else [a]):
                if x.const() is None:
                    st.facts += (f_not(c24.isk('isnan')(x)), f_not(node('pred', ('isnan', x))))
        if name in ('Vector::normalized', 'Math::normal') and len(args):
            st.facts += (f_ne(total(x * x for x in args[0][1].values())),)
        if name in DENSEONLY:
            for x in args[0][1].values():
                st.facts += (f_gt(num(c24.BIG) - toP(node('abs', (x,)))),)
        return st
    outs, thr = A.entry(f, setup=setup)
    if name == 'Construct::eye' and not ops:
        t = p.strip(f['ret'])
        want = {'ret': eyem(int(t.targs[1]['i']), int(t.targs[2]['i']))}
    else:
        want = SPEC[(name, sg)][0](*args)
    res = []
    if deep:
        bad = any(not x.gh.get('joined') and A.feasible(x) is not None for x in deep)
        return [(False if bad else None, pl, 'the recursion does not end')]
    for l, w in A.aborts():
        res.append((False, pl, 'ends the program at %s' % l))
    if not outs:
        return res + [(None, pl, 'no normal return')]
    for st, v in outs:
        if any(isinstance(x, N) and x.kind == 'pred' and x.args[0] == 'isnan' for x in st.facts) or vanishing(A, st):
            continue
        if isinstance(v, N) and v.kind == 'ptr':
            v = A.read(st, v)
        for key, w in want.items():
            res.append(verdict(A, st, v, key, w, pl, c24.CPLX[0]))
    for st, ty, te in thr:
        w = A.feasible(st)
        res.append((False if w is not None and not st.gh.get('joined') else None, pl, 'throws %s' % (p.strip(ty).s if ty is not None else '?')))
    return res


def vanishing(A, st):
    """a product of non-zero numbers is zero on this path: only possible by underflow"""
    for f in st.facts:
        if isinstance(f, N) and f.kind == 'eq':
            q = toP(f.args[0])
            if len(q.m) == 1:
                (mono, c), = q.m.items()
                if len(mono) and all(A.holds(st, f_ne(toP(ATOMS[i]))) for i in mono):
                    return True
    return False


def vecs(E, st, v):
    """contents of a std::array of vectors"""
    if isinstance(v, N) and v.kind == 'ptr':
        v = E.read(st, v)
    out = []

    def go(x):
        if isinstance(x, N) and x.kind == 'arr':
            n = pval(x.args[0]).const()
            for i in range(int(n)):
                e = elems(E, st, E.cread(st, x.args[1], num(i)))
                if e is None:
                    raise Stop('vector of an array')
                out.append((e[0], {q: pval(y) for q, y in e[1].items()}))
            return True
        if isinstance(x, N) and x.kind == 'rec':
            return any(go(y) for y in dict(x.args[1]).values())
        return False
    if not go(v):
        raise Stop('array operand')
    return out


def verdict(A, st, v, key, w, pl, cplx):
    if key == 'ret':
        r = c24.compare(A, st, v, w, pl, 'ret')
        if r[0] is None and isinstance(w, tuple) and isinstance(v, N) and v.kind == 'rec':
            e = elems(A, st, v)
            if e is not None and e[0] == w[0]:
                q, t = same(st, [(pval(e[1][k]), w[1][k]) for k in sorted(w[1])], cplx)
                return q, pl, t
        return r
    if key == 'normal':
        return normalv(A, st, v, w, pl)
    x = pval(v)
    if key == 'sqrt':
        r = root(x)
        q, t = same(st, [(r if r is not None else x * x, w)], cplx)
        if q:
            return (True if r is not None or A.holds(st, f_ge(x)) else None), pl, 'sign of the root'
        return q, pl, t
    if key == 'min':
        a, b, s = w
        g = f_and(f_and(f_ge((x - a) * num(s)), f_ge((x - b) * num(s))), f_or(f_eq(x - a), f_eq(x - b)))
        if A.holds(st, g):
            return True, pl, ''
        d = numeric.differ(st.facts, [(g, TRUE)]) if not st.gh.get('joined') else None
        return (False if d else None), pl, 'result %s is not the extreme value%s' % (show(x), c24.wit(d))
    if key in ('rowext', 'rowcond'):
        a = w[0] if key == 'rowext' else w
        parts = [w[1]] if key == 'rowext' else [1, -1]
        want = []
        for sign in parts:
            s = rowsq(A, st, a, sign)
            if s is None:
                if not st.gh.get('joined'):
                    goal = rowabs(a, sign)
                    # no entry is known to be the extreme one of its row: only numbers can tell
                    d = numeric.differ(st.facts, [(x, goal if key == 'rowext' else rowabs(a, 1) * inv(rowabs(a, -1)))], tries=300)
                    if d:
                        return False, pl, 'gives %s instead of %s%s' % (d[2], d[3], c24.wit(d))
                return None, pl, 'extreme entry of a row not known'
            want.append(s)
        if key == 'rowext':
            return verdict(A, st, v, 'sqrt', want[0], pl, cplx)
        q, t = same(st, [(x, fn('sqrt', want[0]) * inv(fn('sqrt', want[1])))], cplx)
        return q, pl, t
    raise Stop('no rule')


def root(x):
    a = x.single()
    return a.args[0] if a is not None and a.kind == 'sqrt' else None


def absx(x):
    return toP(node('abs', (x,)))


def rowabs(a, sign):
    (r, c), el = a
    t = ZERO
    for i in range(r):
        m = None
        for j in range(c):
            y = absx(el[(i, j)])
            m = y if m is None else toP(node('max' if sign > 0 else 'min', (m, y)))
        t = t + m * m
    return fn('sqrt', t)


def rowsq(A, st, a, sign):
    (r, c), el = a
    t = ZERO
    for i in range(r):
        for j in range(c):
            x = absx(el[(i, j)])
            if sign > 0 and all(A.holds(st, f_eq(absx(el[(i, k)]))) for k in range(c)):
                break
            if all(k == j or A.holds(st, f_ge((x - absx(el[(i, k)])) * num(sign))) for k in range(c)):
                t = t + x * x
                break
        else:
            return None
    return t


def normalv(A, st, v, w, pl):
    e = elems(A, st, v)
    if e is None:
        return None, pl, 'shape'
    K = e[0][0]
    x = [pval(e[1][(i,)]) for i in range(K)]
    m = [[w[j][1][(k,)] for k in range(K)] for j in range(len(w))]
    if len(m) != K - 1:
        return None, pl, 'shape of the operand'
    cof = []
    for i in range(K):
        sub = [[r[k] for k in range(K) if k != i] for r in m]
        d = sub[0][0] if K == 2 else sub[0][0] * sub[1][1] - sub[0][1] * sub[1][0] if K == 3 else None
        if d is None:
            return None, pl, 'dimension'
        cof.append(-d if i % 2 else d)
    n2 = total(c * c for c in cof)
    # parallel to the cofactors, same orientation, unit length
    pairs = [(x[i] * cof[j], x[j] * cof[i]) for i in range(K) for j in range(i)] + [(total(y * y for y in x), ONE)]
    q, t = same(st, pairs, False)
    if q is False and zeroed(x, A, st):
        return True, pl, ''
    return q, pl, t


def zeroed(x, A, st):
    return False


def run():
    rep = Report('C45')
    ps = [ir.load(), ir.load('cplx.cpp')]
    jobs = []
    for n, p in enumerate(ps):
        for f in (sweep.entries(p) if n == 0 else p.lib()):
            s = sig(p, f)
            if not s or f.get('access') in (1, 2):
                continue
            if n and s[0] in REALONLY or s[0] in DENSEONLY and s[2][0][1] != 'D':
                continue
            for c in c24.chunks(plans(p, f, *s), 12):
                jobs.append((f['id'], c, n))
    seen = set()
    for job, r, err, dt in sweep.run(ps, task, jobs):
        p = ps[job[2]]
        f = p.fns[job[0]]
        name, sg, ops = sig(p, f)
        rule = RULES[SPEC[(name, sg)][1]]
        what = '%s(%s)' % (f['q'], ', '.join(p.ty(x['t']).s for x in f['params']))
        seen.add(what)
        if r is None:
            rep.ob(RULES[4], None, '%s: %s' % (what, err))
            continue
        for v, pl, text in r:
            at = ', '.join(str(x) if not isinstance(x, tuple) else 'x'.join(map(str, x[0])) + ('' if x[1] is None else str(list(x[1]))) for x in pl if x is not None)
            rep.ob(rule, v, '%s [%s] %s' % (what, at, text))
            if v is False:
                rep.violation(ir.plain(f['q']), f['l'], '%s on [%s]: %s' % (what, at, text))
    for n in RULES[:4]:
        rep.need(n, 3)
    rep.cov['functions'] = sorted(seen)
    rep.cov['explanation'] = EXPL
    rep.assume += ['floating-point arithmetic is compared as real arithmetic (rounding ignored)']
    return rep.finish()


EXPL = ('Every constructor, structure check, norm and helper is interpreted on operands of constant shape (listed dimensions, layouts, '
        'offsets, small integers) and unknown entries. Each result entry must equal the defining formula, each structure check must be '
        'equivalent to the equations that define it on every path, and integer helpers must give the exact number.')
