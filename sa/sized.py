"""Entry states with constant shapes: every container of the operands gets a constant size (and, for sparse matrices, a
constant layout of stored entries); all element values stay unknown."""
import engine as E_
import terms
from terms import P, N, ATOMS, ZERO, ONE, num, toP, node, f_ne, f_eq, f_and, f_ge, f_gt
import numeric

VEC = ('NS::Vector', 'NS::CountableSet')
DENSE = ('NS::DenseMatrix', 'NS::BaseMatrix', 'NS::FixedMatrix')
SPM = 'NS::SparseMatrix'


def kind(p, t):
    n = p.strip(t).name or ''
    return 'V' if n in VEC else 'S' if n == SPM else 'D' if n in DENSE else None


def dims(E, v):
    """constant dimensions of an operand value: (n,) or (r, c)"""
    work = [v]
    while work:
        x = work.pop()
        if not (isinstance(x, N) and x.kind == 'rec'):
            continue
        fs = dict(x.args[1])
        if 'mRowPtr' in fs:
            return fs['mRowPtr'].args[0], E_.pval(fs['mColumnCount'])
        if 'mLog' in fs:
            return E_.pval(fs['mRows']), E_.pval(fs['mColumnCount'])
        if 'RowCount' in fs:
            return E_.pval(fs['RowCount']), E_.pval(fs['ColumnCount'])
        if 'mData' in fs and fs['mData'].kind == 'arr':
            return (fs['mData'].args[0],)
        if 'Container' in fs:
            t = E.p.ty(x.args[0])
            if len(t.targs) == 3:
                return num(int(t.targs[1]['i'])), num(int(t.targs[2]['i']))
        work += list(fs.values())
    return None


def container(v):
    """the array that holds the elements of a vector or dense matrix"""
    work = [v]
    while work:
        x = work.pop()
        if not (isinstance(x, N) and x.kind == 'rec'):
            continue
        fs = dict(x.args[1])
        for k in ('Container', 'mData'):
            if k in fs and isinstance(fs[k], N) and fs[k].kind == 'arr':
                return fs[k]
        work += list(fs.values())
    return None


def resize(E, st, ptr, shape):
    """give a vector or dense operand constant dimensions; False when its dimensions are fixed to others"""
    v = E.read(st, ptr)
    d = dims(E, v)
    if d is None or len(d) != len(shape):
        return False
    mp = {}
    for x, n in zip(d, shape):
        c = x.const()
        if c is not None:
            if c != n:
                return False
            continue
        a = x.single()
        if a is None:
            return False
        mp[a.id] = num(n)
    if mp:
        for o in list(st.mem):
            st.mem[o] = terms.subst(st.mem[o], mp)
        st.facts = tuple(f for f in (terms.subst(f, mp) for f in st.facts) if f is not terms.TRUE)
    return True


def layout(E, st, ptr, shape, cells, name=None):
    """give a sparse operand (analysed through its representation) constant dimensions and stored positions"""
    v = E.read(st, ptr)
    fs = dict(v.args[1])
    ty = v.args[0]
    r, c = shape
    nm = name or str(ptr.args[0][1])
    cells = sorted(cells)
    rp, k = [], 0
    for i in range(r):
        rp.append(num(len([1 for x in cells if x[0] < i])))
    vals = [toP(node('sym', ('%s(%d,%d)' % (nm, i, j),), 0)) for i, j in cells]
    fs['mColumnCount'] = num(c)
    fs['mRowPtr'] = E_.mkarr(num(r), node('clist', (tuple(rp),)))
    fs['mColumnPtr'] = E_.mkarr(num(len(cells)), node('clist', (tuple(num(j) for i, j in cells),)))
    fs['mValues'] = E_.mkarr(num(len(cells)), node('clist', (tuple(vals),)))
    if 'mEmpty' in fs:
        fs['mEmpty'] = terms.ZERO       # what a constructor makes it and C07 keeps it
    for x in vals:
        st.facts += (f_ne(x),)
    E.write(st, ptr, E_.mkrec(ty, fs))


def decode(E, st, v):
    """layout of a sparse value: (rows, cols, {(i,j): value}, problem) - problem is a text when the layout is inconsistent,
    None values when it is not constant"""
    fs = dict(v.args[1])
    r = fs['mRowPtr'].args[0].const()
    c = E_.pval(fs['mColumnCount']).const()
    n = fs['mValues'].args[0].const()
    m = fs['mColumnPtr'].args[0].const()
    if r is None or c is None or n is None or m is None:
        return None
    if n != m:
        return r, c, None, '%d values but %d column indices' % (n, m)
    rp = [E_.pval(E.cread(st, fs['mRowPtr'].args[1], num(i))).const() for i in range(r)]
    cp = [E_.pval(E.cread(st, fs['mColumnPtr'].args[1], num(i))).const() for i in range(n)]
    if None in rp or None in cp:
        return None
    if r and rp[0] != 0 or sorted(rp) != rp or r and rp[-1] > n or any(x < 0 for x in rp):
        return r, c, None, 'row pointers %s for %d entries' % (rp, n)
    cells = {}
    for i in range(r):
        b, e = rp[i], rp[i + 1] if i + 1 < r else n
        for k in range(b, e):
            if not 0 <= cp[k] < c:
                return r, c, None, 'column index %d of %d columns' % (cp[k], c)
            if (i, cp[k]) in cells:
                return r, c, None, 'column %d twice in row %d' % (cp[k], i)
            if k > b and cp[k - 1] > cp[k]:
                return r, c, None, 'columns of row %d not in order: %s' % (i, cp[b:e])
            cells[(i, cp[k])] = E_.pval(E.cread(st, fs['mValues'].args[1], num(k)))
    if r == 0 and n:
        return r, c, None, 'entries without rows'
    return r, c, cells, None


def elems(E, st, v):
    """logical contents {(index...): value} of an operand with constant shape, None if not constant"""
    if isinstance(v, N) and v.kind == 'rec' and 'mRowPtr' in dict(v.args[1]):
        d = decode(E, st, v)
        if d is None or d[2] is None:
            return None
        r, c, cells, _ = d
        return (r, c), {(i, j): cells.get((i, j), ZERO) for i in range(r) for j in range(c)}
    d = dims(E, v)
    if d is None:
        return None
    s = tuple(x.const() for x in d)
    if None in s:
        return None
    a = container(v)
    if a is None or a.args[0].const() is None:
        return None
    if len(s) == 1:
        return s, {(i,): E.cread(st, a.args[1], num(i)) for i in range(s[0])}
    if a.args[0].const() != s[0] * s[1]:
        return None
    return s, {(i, j): E.cread(st, a.args[1], num(i * s[1] + j)) for i in range(s[0]) for j in range(s[1])}


def fill(E, st, ptr, vals):
    """give a vector or dense operand constant contents"""
    def go(v):
        if not (isinstance(v, N) and v.kind == 'rec'):
            return None
        fs = dict(v.args[1])
        for k in ('Container', 'mData'):
            if k in fs and isinstance(fs[k], N) and fs[k].kind == 'arr':
                fs[k] = E_.mkarr(num(len(vals)), node('clist', (tuple(num(x) for x in vals),)))
                return E_.mkrec(v.args[0], fs)
        for k, x in fs.items():
            y = go(x)
            if y is not None:
                fs[k] = y
                return E_.mkrec(v.args[0], fs)
        return None
    y = go(E.read(st, ptr))
    if y is None:
        raise E_.Stop('vector expected')
    E.write(st, ptr, y)


def operand(E, st, f, this, vs, pos):
    return this if pos == 'this' else vs[pos]
