"""Abstract sparse matrices for client code: a matrix is (rows, columns, entries); absent entries read as zero.
The representation itself (three vectors) is analysed separately (C06, C07, C02)."""
import terms
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, toP, f_ge, f_gt, f_eq, f_ne, f_not, f_and, f_or, node
import engine as E

SM = 'NS::SparseMatrix'
IT = ('NS::SparseMatrixIterator', 'NS::SparseMatrixRowIterator', 'NS::SparseMatrixColumnIterator')


def is_sm(eng, ty):
    return eng.p.strip(ty).name == SM


def elty(eng, ty):
    return eng.p.strip(ty).targs[0]['t']


def value(eng, ty, rows, cols, content):
    return E.mkrec(ty, {'mRows': rows, 'mColumnCount': cols, 'mLog': E.mkarr(rows * cols, content)})


def make_sym(eng, ty, base, path, exact):
    r = eng.leaf(base, path + '.rows', 2, exact)
    c = eng.leaf(base, path + '.cols', 2, exact)
    if eng.opt.get('spempty'):
        return value(eng, ty, r, c, node('cfill', (ZERO,)))
    nm = base + path + '.at' if isinstance(base, str) else (base, path + '.at')
    return value(eng, ty, r, c, node('cbase', (nm, elty(eng, ty)), False, exact))


def fields(eng, st, o):
    v = eng.read(st, o)
    if isinstance(v, N) and v.kind == 'rec':
        d = dict(v.args[1])
        return d['mRows'], d['mColumnCount'], d['mLog']
    raise E.Stop('sparse matrix expected')


def sub(o, *p):
    return E.mkptr(o.args[0], o.args[1] + tuple(p))


def inside(eng, st, o, i, j, e):
    """states in which (i, j) is inside; the others stop at the assertion"""
    r, c, _ = fields(eng, st, o)
    i, j = E.pval(i), E.pval(j)
    eng.event('sindex', st, e, i=i, j=j, rows=r, cols=c)
    f = f_and(f_gt(r - i), f_gt(c - j))
    out = []
    for s, t in eng.split(st, f):
        if t:
            out.append(s)
        else:
            eng.abort(s, e, 'sparse index')
    return out, i, j


def lin(eng, st, o, i, j):
    r, c, _ = fields(eng, st, o)
    return i * c + j


def rv(eng, st, v, e, k):
    a = eng.argexpr(e, k)
    if isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite') and not (v.kind == 'ite' and E._numite(v)):
        v = eng.read(st, eng.topl(st, v, e), e)
    return v


def m_at(eng, st, o, vs, e, fr):
    sts, i, j = inside(eng, st, o, vs[0], vs[1], e)
    out = []
    for s in sts:
        p = sub(o, 'mLog', lin(eng, s, o, i, j))
        v = eng.read(s, p, e)
        if isinstance(v, N) and v.kind == 'undef':
            v = ZERO
        out.append((s, v))
    return out


def m_set(eng, st, o, vs, e, fr):
    if len(vs) == 2:
        return m_setit(eng, st, o, vs, e, fr)
    out = []
    sts, i, j = inside(eng, st, o, vs[0], vs[1], e)
    for s in sts:
        v = rv(eng, s, vs[2], e, 2)
        s = s.fork()
        eng.write(s, sub(o, 'mLog', lin(eng, s, o, i, j)), v, e)
        out.append((s, None))
    return out


def itrec(eng, st, it, e):
    v = it
    if isinstance(v, N) and v.kind in ('ptr', 'sp'):
        v = eng.read(st, eng.topl(st, v, e), e)
    if isinstance(v, N) and v.kind == 'rec':
        return dict(v.args[1])
    raise E.Stop('iterator expected')


def valid(eng, st, d):
    m = d['mMatrix']
    r, c, _ = fields(eng, st, m)
    return f_and(f_gt(r - d['mIndex1']), f_gt(c - d['mIndex2']))


def m_setit(eng, st, o, vs, e, fr):
    out = []
    d = itrec(eng, st, vs[0], e)
    v = rv(eng, st, vs[1], e, 1)
    for s, t in eng.split(st, valid(eng, st, d)):
        if t:
            s = s.fork()
            eng.write(s, sub(o, 'mLog', lin(eng, s, o, d['mIndex1'], d['mIndex2'])), v, e)
        out.append((s, mkit(eng, s, e['t'], o, None, None, e, fr)))
    return out


def m_erase(eng, st, o, vs, e, fr):
    out = []
    d = itrec(eng, st, vs[0], e)
    for s, t in eng.split(st, valid(eng, st, d)):
        if t:
            s = s.fork()
            eng.write(s, sub(o, 'mLog', lin(eng, s, o, d['mIndex1'], d['mIndex2'])), ZERO, e)
        out.append((s, mkit(eng, s, e['t'], o, None, None, e, fr)))
    return out


def mkit(eng, st, ty, o, i, j, e, fr):
    """an iterator somewhere in the matrix (or at its end)"""
    t = eng.p.strip(ty)
    eng.fresh_n += 1
    n = eng.fresh_n
    i = toP(node('sym', ('it%d.row' % n,), 2, False)) if i is None else i
    j = toP(node('sym', ('it%d.col' % n,), 2, False)) if j is None else j
    return E.mkrec(t.i, {'mMatrix': o, 'mIndex1': i, 'mIndex2': j, 'mColumnPtrIndex': toP(node('sym', ('it%d.pos' % n,), 2, False))})


def m_begin(kind):
    def f(eng, st, o, vs, e, fr):
        a = fields(eng, st, o)[2].args[1]
        if a.kind == 'cfill' and a.args[0] == ZERO:        # no entries
            return m_end(eng, st, o, vs, e, fr)
        i = E.pval(vs[0]) if vs else None
        return [(st, mkit(eng, st, e['t'], o, i if kind == 'row' else None, i if kind == 'col' else None, e, fr))]
    return f


def m_end(eng, st, o, vs, e, fr):
    r, c, _ = fields(eng, st, o)
    return [(st, mkit(eng, st, e['t'], o, r, c, e, fr))]


def m_inc(eng, st, o, vs, e, fr):
    """++ on an iterator: the next position (row iterators stay in their row, column iterators in their column)"""
    t = eng.type_at(o.args[0], o.args[1]) if o.kind == 'ptr' else None
    old = eng.read(st, o, e)
    d = itrec(eng, st, old, e)
    nm = eng.p.strip(e['f']['rec']).name if e['f'].get('rec') is not None else ''
    st = st.fork()
    eng.fresh_n += 1
    n = eng.fresh_n
    if nm != IT[1]:
        eng.write(st, sub(o, 'mIndex1'), toP(node('sym', ('it%d.row' % n,), 2, False)), e)
    if nm != IT[2]:
        eng.write(st, sub(o, 'mIndex2'), toP(node('sym', ('it%d.col' % n,), 2, False)), e)
    eng.write(st, sub(o, 'mColumnPtrIndex'), toP(node('sym', ('it%d.pos' % n,), 2, False)), e)
    return [(st, old if vs else o)]


def m_deref(eng, st, o, vs, e, fr):
    d = itrec(eng, st, o, e)
    m = d['mMatrix']
    if not (isinstance(m, N) and m.kind in ('ptr', 'sp')):
        return [(st, eng.unkval(e, fr))]
    m = eng.topl(st, m, e)
    out = []
    for s, t in eng.split(st, valid(eng, st, d)):
        if t:
            p = sub(m, 'mLog', lin(eng, s, m, d['mIndex1'], d['mIndex2']))
            eng.event('sindex', s, e, i=d['mIndex1'], j=d['mIndex2'], rows=fields(eng, s, m)[0], cols=fields(eng, s, m)[1])
            if e.get('lv'):
                out.append((s, p))
            else:
                v = eng.read(s, p, e)
                out.append((s, v))
        else:
            if e.get('lv'):
                s = s.fork()
                tmp = ('t', fr.id, id(e))
                s.mem[tmp] = ZERO
                out.append((s, E.mkptr(tmp)))
            else:
                out.append((s, ZERO))
    return out


def m_rows(eng, st, o, vs, e, fr):
    return [(st, fields(eng, st, o)[0])]


def m_cols(eng, st, o, vs, e, fr):
    return [(st, fields(eng, st, o)[1])]


def m_has(eng, st, o, vs, e, fr):
    out = []
    sts, i, j = inside(eng, st, o, vs[0], vs[1], e)
    for s in sts:
        v = E.pval(eng.read(s, sub(o, 'mLog', lin(eng, s, o, i, j)), e))
        if len(vs) > 2:
            s = s.fork()
            eng.write(s, eng.topl(s, vs[2], e), v, e)
        out.append((s, f_ne(v)))
    return out


def m_unknown(eng, st, o, vs, e, fr):
    fields(eng, st, o)
    _, _, a = fields(eng, st, o)
    t = eng.p.ty(e['t'])
    if t.k == 'bool':
        return [(st, node('pred', ('spq', e['f']['q'], a), False, False))]
    return [(st, toP(node('spq', (e['f']['q'], a), 2 if t.k == 'uint' else 0, False)))]


def m_swap(eng, st, o, vs, e, fr):
    st = st.fork()
    q = eng.topl(st, vs[0], e)
    a, b = eng.read(st, o, e), eng.read(st, q, e)
    eng.write(st, o, b, e)
    eng.write(st, q, a, e)
    return [(st, None)]


def m_lin_at(eng, st, o, vs, e, fr):
    r, c, _ = fields(eng, st, o)
    i = E.pval(vs[0])
    out = []
    for s, t in eng.split(st, f_gt(r * c - i)):
        if t:
            p = sub(o, 'mLog', i)
            if len(vs) > 1:
                s = s.fork()
                eng.write(s, p, rv(eng, s, vs[1], e, 1), e)
                out.append((s, None))
            else:
                out.append((s, eng.read(s, p, e)))
        else:
            eng.abort(s, e, 'sparse index')
    return out


def m_resize(eng, st, o, vs, e, fr):
    return [(st, None)]


def m_assign(eng, st, o, vs, e, fr):
    v = rv(eng, st, vs[0], e, 0)
    st = st.fork()
    eng.write(st, o, v, e)
    return [(st, o)]


def m_scale(eng, st, o, vs, e, fr):
    """*= with a number (the matrix overload is analysed from its body)"""
    t = eng.p.strip(eng.p.fns[e['f']['id']]['params'][0]['t'])
    if t.name == SM:
        return None
    f = E.pval(rv(eng, st, vs[0], e, 0))
    r, c, a = fields(eng, st, o)
    b0 = node('sym', ('\u03b2?',), 2)
    v = E.pval(eng.cread(st, a.args[1], toP(b0))) * f
    b = eng.lp.binder(eng.lp.depth(v) + 1)
    cont = node('ccomp', (a.args[1], ((b, r * c),), toP(b), terms.subst(v, {b0.id: toP(b)})))
    st = st.fork()
    eng.write(st, sub(o, 'mLog'), E.mkarr(r * c, cont), e)
    return [(st, o)]


TABLE = {
    'operator=': m_assign, 'operator*=': m_scale,
    'at': m_at, 'set': m_set, 'erase': m_erase, 'rows': m_rows, 'columns': m_cols, 'has': m_has,
    'begin': m_begin('all'), 'cbegin': m_begin('all'), 'row_begin': m_begin('row'), 'row_cbegin': m_begin('row'),
    'column_begin': m_begin('col'), 'column_cbegin': m_begin('col'), 'end': m_end, 'cend': m_end, 'row_end': m_end,
    'row_cend': m_end, 'column_end': m_end, 'column_cend': m_end, 'swap': m_swap, 'linear_at': m_lin_at,
    'linear_set': m_lin_at, 'resize': m_resize,
    'sum': m_unknown, 'max': m_unknown, 'min': m_unknown, 'avg': m_unknown, 'has_nan': m_unknown,
    'has_inf': m_unknown, 'has_zero': m_unknown, 'empty': m_unknown, 'filled_count': m_unknown,
    'row_filled_count': m_unknown, 'column_filled_count': m_unknown,
}
ITABLE = {'operator++': m_inc, 'operator*': m_deref}


def intercept(q):
    if q.startswith(SM + '::'):
        return TABLE.get(q[len(SM) + 2:])
    for t in IT:
        if q.startswith(t + '::'):
            return ITABLE.get(q[len(t) + 2:])
    return None


def ctor(eng, st, loc, vs, e, fr):
    """constructors of SparseMatrix; list of states, or None for those analysed from their bodies"""
    ty = eng.p.strip(e['t']).i
    st = st.fork()
    if not vs:
        eng.put(st, loc, value(eng, ty, ZERO, ZERO, node('cfill', (ZERO,))))
        return [st]
    a = eng.argexpr(e, 0)
    if len(vs) >= 2:
        r, c = E.pval(vs[0]), E.pval(vs[1])
        out = []
        for s, t in eng.split(st, f_and(f_gt(r), f_gt(c))):
            if t:
                s = s.fork()
                eng.put(s, loc, value(eng, ty, r, c, node('cfill', (ZERO,))))
                out.append(s)
            else:
                eng.abort(s, e, 'sparse size')
        return out
    if len(vs) == 1 and isinstance(vs[0], N) and vs[0].kind == 'arr':     # initialiser list
        eng.fresh_n += 1
        n = 'lst%d' % eng.fresh_n
        eng.put(st, loc, value(eng, ty, vs[0].args[0], toP(node('sym', (n + '.cols',), 2, False)),
                               node('cbase', (n, elty(eng, ty)), False, False)))
        return [st]
    return None
