"""Exact identities of solver results: operands of constant shape with prescribed contents, entries of results as rational
functions of the unknown entries, comparison modulo the inverses and square roots that occur."""
import engine as E_
import numeric
import poly
import shaped
import sized
import solvers
import sweep
import terms
from engine import Stop, pval
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ne, f_eq, f_gt, show


def sym(n, pos=False):
    return toP(node('sym', (n,), 0))


def contents(C, E, st, pos, vals):
    """give operand `pos` the entries vals[(i, j)] (dense) or, for a sparse operand, replace the unknown values of its layout"""
    ptr = C.base[pos]
    v = E.read(st, ptr)
    e = sized.elems(E, st, v)
    if e is None:
        raise Stop('no constant shape')
    mp = {}
    for ij, x in e[1].items():
        if ij in vals:
            a = pval(x).single() if pval(x).const() is None else None
            if a is not None:
                mp[a.id] = vals[ij]
    if isinstance(v, N) and 'mRowPtr' in dict(v.args[1]):
        E.write(st, ptr, terms.subst(v, mp))
        st.facts = tuple(f for f in (terms.subst(f, mp) for f in st.facts) if f is not TRUE)
        for ij, x in vals.items():
            if ij in e[1] and pval(e[1][ij]).const() is None and x.const() is None:
                f = f_ne(x)
                if f not in st.facts:
                    st.facts += (f,)
        return
    shape, _ = e
    lst = [vals[k] for k in sorted(e[1])]

    def go(v):
        if not (isinstance(v, N) and v.kind == 'rec'):
            return None
        fs = dict(v.args[1])
        for k in ('Container', 'mData'):
            if k in fs and isinstance(fs[k], N) and fs[k].kind == 'arr':
                fs[k] = E_.mkarr(num(len(lst)), node('clist', (tuple(lst),)))
                return E_.mkrec(v.args[0], fs)
        for k, x in fs.items():
            y = go(x)
            if y is not None:
                fs[k] = y
                return E_.mkrec(v.args[0], fs)
        return None
    y = go(v)
    if y is None:
        raise Stop('no container')
    E.write(st, ptr, y)


def entries(C, st, x):
    """entries of an operand position, pointer or value as {(i, j): polynomial}; None when not constant in shape"""
    A = C.A
    if isinstance(x, (int, str)):
        x = A.read(st, C.base[x])
    elif isinstance(x, N) and x.kind == 'ptr':
        x = A.read(st, x)
    e = sized.elems(A, st, x)
    if e is None:
        return None
    return e[0], {k: pval(y) for k, y in e[1].items()}


def mul(a, b):
    n, m = a[0]
    m2, l = b[0]
    assert m == m2
    r = {}
    for i in range(n):
        for j in range(l):
            s = ZERO
            for k in range(m):
                s = s + a[1][i, k] * b[1][k, j]
            r[i, j] = s
    return (n, l), r


def apply(a, x):
    n, m = a[0]
    return {(i,): sum((a[1][i, k] * x[(k,)] for k in range(m)), ZERO) for i in range(n)}


def eye(n):
    return (n, n), {(i, j): ONE if i == j else ZERO for i in range(n) for j in range(n)}


def transpose(a):
    return (a[0][1], a[0][0]), {(j, i): x for (i, j), x in a[1].items()}


def unroot(p):
    """squares of square roots replaced by their arguments"""
    for _ in range(20):
        out = ZERO
        hit = False
        for k, c in p.m.items():
            t = num(c)
            left = list(k)
            for i in sorted(set(k)):
                if ATOMS[i].kind == 'sqrt':
                    while left.count(i) >= 2:
                        left.remove(i)
                        left.remove(i)
                        t = t * pval(ATOMS[i].args[0])
                        hit = True
            for j in left:
                t = t * toP(ATOMS[j])
            out = out + t
        p = out
        if not hit:
            return p
    return p


def zero(p):
    """the polynomial vanishes wherever its inverses and square roots exist"""
    if not p.m:
        return True
    for _ in range(6):
        q = poly.cleared(p)
        if q is None:
            return False
        q = unroot(q)
        if not q.m:
            return True
        if q == p or not any(ATOMS[i].kind in ('inv', 'sqrt') for k in q.m for i in k):
            return False
        p = q
    return False


def nonzero(facts):
    """atoms that cannot be zero"""
    ids = set()
    for f in facts:
        if f.kind in ('ne', 'gt') and len(f.args[0].m) == 1:
            ids |= set(next(iter(f.args[0].m)))
    return ids


def forms(f):
    """an equation as it is and without denominators"""
    q = f.args[0]
    yield q
    if any(ATOMS[i].kind == 'inv' for k in q.m for i in k):
        c = poly.cleared(q)
        if c is not None:
            yield c


def impossible(facts):
    """the facts contain an equation that cannot hold: a product of inverses and non-zero quantities equal to zero"""
    nz = nonzero(facts)
    for f in facts:
        if f is FALSE:
            return True
        if f.kind == 'eq':
            for q in forms(f):
                if len(q.m) == 1:
                    k = next(iter(q.m))
                    if all(ATOMS[i].kind == 'inv' or i in nz for i in k):
                        return True
        if f.kind == 'ne' and zero(f.args[0]):
            return True
    return False


def inside(i, n, memo):
    """atom i occurs inside atom n"""
    r = memo.get(n.id)
    if r is None:
        at = numeric.atoms_of(list(n.args))
        r = memo[n.id] = set(at) if at is not None else {i}
    return i in r


def solved(facts, pairs):
    """facts and pairs with every equation solved for an entry that occurs in it linearly with a constant coefficient"""
    facts = list(facts)
    for _ in range(20):
        hit = None
        nz = nonzero(facts)
        for f, q in [(f, q) for f in sorted((f for f in facts if f.kind == 'eq'), key=lambda f: f.id) for q in forms(f)]:
            memo = {}
            best = None
            for k, c in q.m.items():
                for i in k:
                    if ATOMS[i].kind != 'sym' or k.count(i) != 1 or sum(1 for m in q.m if i in m) != 1:
                        continue
                    rest = [j for j in k if j != i]
                    if not all(j in nz or ATOMS[j].kind == 'inv' for j in rest):
                        continue
                    if any(inside(i, ATOMS[j], memo) for m in q.m for j in m if ATOMS[j].kind != 'sym'):
                        continue
                    if best is None or len(rest) < len(best[2]):
                        best = k, i, rest, c
            if best:
                k, i, rest, c = best
                x = ZERO
                for m, d in q.m.items():
                    if m != k:
                        t = num(-d / c)
                        for j in m:
                            t = t * toP(ATOMS[j])
                        x = x + t
                for j in rest:
                    x = x * (ATOMS[j].args[0] if ATOMS[j].kind == 'inv' else terms.inv(toP(ATOMS[j])))
                hit = f, i, x
                break
        if not hit:
            break
        f, i, x = hit
        facts = [y for y in (terms.subst(g, {i: x}) for g in facts if g is not f) if y is not TRUE]
        pairs = [(terms.subst(a, {i: x}), terms.subst(b, {i: x})) for a, b in pairs]
    return facts, pairs


def sure(st):
    return not (st.gh.get('joined') or st.gh.get('iffy'))


def same(st, pairs, cplx=False):
    """(verdict, witness text) of: all pairs are equal on this path"""
    pairs = [(pval(a), pval(b)) for a, b in pairs]
    left = [(a, b) for a, b in pairs if not zero(a - b)]
    if not left:
        return True, ''
    fs, left2 = solved(st.facts, left)
    if impossible(fs) or impossible(st.facts) or all(zero(pval(a) - pval(b)) for a, b in left2):
        return True, ''
    if not sure(st):
        return None, 'approximated path'
    w = numeric.differ(st.facts, left, cplx=cplx)
    if w:
        return False, 'gives %s instead of %s%s' % (short(w[2]), short(w[3]), shaped.wit(w))
    return None, 'not decided: %s' % show(left[0][0] - left[0][1])[:160]


def short(x):
    try:
        return '%g' % float(x)
    except (TypeError, ValueError):
        return str(x)


def iscplx(p, f):
    return any('std::complex' in p.strip(x['t']).s for x in f['params']) or (f.get('rec') is not None and 'std::complex' in p.strip(f['rec']).s)
