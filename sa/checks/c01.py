"""C01: mismatched operand shapes are rejected before anything is changed."""
import ir
import sweep
import terms
from common import Report
from engine import Stop, pval
from terms import P, N, ATOMS, TRUE, FALSE, f_and, f_eq, f_ge, f_gt, show

# operation -> shape relations it needs.  0 is the object for member functions / the first operand otherwise;
# r, c: rows and columns, n: number of entries of a vector
SAME = ['0r=1r', '0c=1c']
SQ = '0r=0c'
SPEC = {
    ('DenseMatrix', 'operator+=', 1): SAME, ('DenseMatrix', 'operator-=', 1): SAME, ('DenseMatrix', 'operator*=', 1): SAME,
    ('SparseMatrix', 'operator+=', 1): SAME, ('SparseMatrix', 'operator-=', 1): SAME, ('SparseMatrix', 'operator*=', 1): SAME,
    ('DenseMatrix', 'mul', 'M'): ['0c=1r'], ('SparseMatrix', 'mul', 'M'): ['0c=1r'],
    ('DenseMatrix', 'mul', 'V'): ['0c=1n'], ('SparseMatrix', 'mul', 'V'): ['0c=1n'],
    ('DenseMatrix', 'mul_left', 'V'): ['0r=1n'], ('SparseMatrix', 'mul_left', 'V'): ['0r=1n'],
    ('Vector', 'dot', 1): ['0n=1n'],
    ('Vector', 'operator+=', 1): ['0n=1n'], ('Vector', 'operator-=', 1): ['0n=1n'],
    ('Vector', 'operator*=', 1): ['0n=1n'], ('Vector', 'operator/=', 1): ['0n=1n'],
    ('', 'operator+', 'VV'): ['0n=1n'], ('', 'operator-', 'VV'): ['0n=1n'], ('', 'operator*', 'VV'): ['0n=1n'],
    ('', 'operator/', 'VV'): ['0n=1n'], ('', 'operator==', 'VV'): ['0n=1n'], ('', 'operator!=', 'VV'): ['0n=1n'],
    ('', 'operator+', 'MM'): SAME, ('', 'operator-', 'MM'): SAME, ('', 'operator*', 'MM'): SAME,
    ('', 'operator==', 'DD'): SAME, ('', 'operator!=', 'DD'): SAME,
    ('', 'cg', 'MVV'): [SQ, '0r=1n', '0r=2n'],
    ('', 'pcg', 'MVMV'): [SQ, '0r=1n', '2r=2c', '0r=2r', '0r=3n'],
    ('CG', 'jacobi', 'MM'): [SQ, '0r=1r', '0c=1c'],
    ('Iterative', 'jacobi', 'MVV'): [SQ, '0r=1n', '0r=2n'],
    ('', 'sor', 'MVV'): [SQ, '0r=1n', '0r=2n'],
    ('', 'cholesky', 'MM'): [SQ, '0r=1r', '0c=1c'],
    ('', 'doolittle', 'DDDD'): [SQ, '0r=1r', '0c=1c', '0r=3r', '0c=3c'],
    ('', 'doolittle', 'SSSS'): [SQ],
    ('', 'ilu0', 'SSS'): [SQ],
    ('', 'solve_lu', 'MMV'): [SQ, '1r=1c', '0r=1r', '0r=2n'],
    ('', 'ainv_lu', 'MMMM'): [SQ, '1r=1c', '2r=2c', '3r=3c', '0r=1r', '0r=2r', '0r=3r'],
    ('', 'inverse', 'M'): [SQ],
    ('', 'inverse', 'MM'): [SQ, '0r=1r', '0c=1c'],
    ('', 'inverse', 'MMM'): [SQ, '1r=1c', '0r=1r', '0r=2r', '0c=2c'],
    ('', 'permutate', 'MV'): [SQ, '0r=1n'],
    ('', 'permutate', 'VV'): ['0n=1n'],
    ('', 'cuthill_mckee', 'M'): [SQ],
    ('', 'r_cuthill_mckee', 'M'): [SQ],
}
VEC = ('NS::Vector', 'NS::CountableSet')
DENSE = ('NS::DenseMatrix', 'NS::BaseMatrix', 'NS::FixedMatrix')


def kind(p, t):
    n = p.strip(t).name or ''
    return 'V' if n in VEC else 'S' if n == 'NS::SparseMatrix' else 'D' if n in DENSE else None


def spec(p, f):
    """shape relations of a function and the operand positions (index into [object] + parameters)"""
    q = ir.plain(f['q']).replace('NS::', '').split('::')
    name = q[-1]
    cls = q[-2] if len(q) > 1 else ''
    ops = []
    member = f.get('rec') is not None and not f.get('static') and not f.get('ctor')
    if member:
        k = kind(p, f['rec'])
        if not k:
            return None
        ops.append(('this', k))
    for i, x in enumerate(f['params']):
        k = kind(p, x['t'])
        if k:
            ops.append((i, k))
    sig = ''.join(k for _, k in ops[1:] if True) if member else ''.join(k for _, k in ops)
    gen = sig.replace('D', 'M').replace('S', 'M')
    scopes = [cls] + [x for x in q[:-1]] + ([''] if not member else [])
    for s in scopes:
        for key in ((s, name, sig), (s, name, gen), (s, name, len(ops) - 1 if member else None)):
            if key in SPEC:
                return SPEC[key], ops
    return None


def dims(E, st, ptr):
    """(rows, columns) or (n,) of an operand"""
    v = E.read(st, ptr)
    st_ = [v]
    while st_:
        x = st_.pop()
        if not (isinstance(x, N) and x.kind == 'rec'):
            continue
        fs = dict(x.args[1])
        if 'mRows' in fs:
            return {'r': pval(fs['mRows']), 'c': pval(fs['mColumnCount'])}
        if 'RowCount' in fs:
            return {'r': pval(fs['RowCount']), 'c': pval(fs['ColumnCount'])}
        if 'mData' in fs and fs['mData'].kind == 'arr':
            return {'n': fs['mData'].args[0]}
        st_ += list(fs.values())
    return None


class A(sweep.Ana):
    def on_abort(self, st, e, why='', stack=()):
        w = self.feasible(st)
        self.note('no abort', e, False if w is not None else None, 'the program is aborted (%s)' % (
            stack[-1][2] if stack else why))


def numeric_part(E, st, base):
    """parameter objects whose value differs from the one at entry"""
    out = []
    for o, v in st.mem.items():
        if o[0] in ('p', 'o', 'g') and o in base and base[o] != v:
            out.append(o)
    return out


def task(p, job):
    r = once(p, job)
    if r is None:
        return None
    a, err, n = r
    if err or any(x[0] is None for x in a.rec.values()):
        r = once(p, job, peel=True)
        sweep.merge(a.rec, r[0].rec)
    if err or any(x[0] is None for x in a.rec.values()):       # matrices without entries
        r = once(p, job, spempty=True)
        if r:
            sweep.merge(a.rec, r[0].rec)
    return [(r_, l_, s, v, t) for (r_, l_, s), (v, t, x) in a.rec.items()], err, n


def once(p, job, **opt):
    fid, rel, side = job
    f = p.fns[fid]
    a = A(p, maxsteps=60000, **opt)
    _, ops = spec(p, f)
    l, r = rel.split('=')
    base = {}
    trivial = []

    def setup(E, st, this, vs):
        def dim(x):
            pos = ops[int(x[0])][0]
            return dims(E, st, this if pos == 'this' else vs[pos])[x[1]]
        try:
            x, y = dim(l), dim(r)
        except (TypeError, KeyError):       # fixed sizes: rejected by the compiler (C20)
            trivial.append(None)
            raise Stop('constant')
        d = (x - y) if side else (y - x)
        if d.const() is not None:
            trivial.append(d)
            raise Stop('constant')
        st.facts += (f_ge(d - 1),)
        base.update({o: v for o, v in st.mem.items()})
        return st
    err = None
    outs, thr = [], []
    try:
        outs, thr = a.entry(f, setup=setup)
    except Stop as x:
        if trivial:
            return None
        err = str(x)
        # what was thrown before the analysis gave up still counts
        thr = a.handlers[0] if a.handlers else []
    e = {'l': f['l']}
    for st, v in outs:
        w = a.feasible(st)
        a.note('no result', e, False if w is not None else None, 'the call returns although %s does not hold%s' % (rel, fmt(w)))
    for st, ty, te in thr:
        n = ns_type(p, ty)
        if n is None:
            a.note('library exception', te, False if a.feasible(st) is not None else None, 'throws something else')
        ch = numeric_part(a, st, base)
        if ch:
            w = a.feasible(st)
            a.note('nothing changed before the exception', te, False if w is not None else None,
                   '%s modified before %s is checked%s' % (', '.join(str(o[1]) for o in ch), rel, fmt(w)))
        else:
            a.note('nothing changed before the exception', te, True, '%s throws %s' % (rel, n))
    return a, err, len(thr)


def fmt(w):
    if not w:
        return ''
    return ' (' + ', '.join('%s=%s' % (show(toname(i)), v) for i, v in sorted(w.items(), key=lambda t: str(t))[:8]) + ')'


def toname(i):
    return terms.toP(ATOMS[i]) if ATOMS[i].kind not in ('bsym', 'pred') else ATOMS[i]


def ns_type(p, ty):
    if ty is None:
        return None
    t = p.strip(ty)
    seen = []
    work = [t.i]
    while work:
        r = p.rec(work.pop())
        if not r:
            continue
        n = p.ty(r['t']).name or p.ty(r['t']).s
        if n == 'NS::NSException':
            return p.strip(ty).s
        work += [b['t'] for b in r.get('bases', [])]
    return None


def run():
    rep = Report('C01')
    p = ir.load()
    jobs = []
    nops = set()
    for f in sweep.entries(p):
        s = spec(p, f)
        if not s:
            continue
        nops.add(ir.plain(f['q']))
        for rel in s[0]:
            for side in (0, 1):
                jobs.append((f['id'], rel, side))
    done = 0
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        what = '%s with %s%s' % (f['q'], job[1].replace('=', ' > ' if job[2] else ' < '), '')
        if r is None:
            if err:
                rep.ob('operation analysed under a mismatch', None, '%s: %s' % (what, err))
            continue
        recs, err, nt = r
        done += 1
        rep.ob('operation analysed under a mismatch', None if err else True, what + (': ' + err if err else ''))
        if not recs:
            continue
        for rule, l, stack, v, text in recs:
            rep.ob(rule, v, '%s: %s at %s' % (what, text, l))
            if v is False:
                rep.violation('%s:%s:%s' % (ir.plain(f['q']), job[1], rule), '%s (%s)' % (f['l'], l),
                              '%s called with mismatching shapes: %s' % (f['q'], text))
    rep.need('operation analysed under a mismatch', 40)
    rep.cov['operations'] = sorted(nops)
    rep.cov['explanation'] = EXPL
    rep.assume += ['assertions of the library are enabled', 'sparse matrices: the abstract model of the storage (C06)']
    return rep.finish()


EXPL = ('Each operation of the table is analysed once per shape relation with the relation negated in either direction; every '
        'way the function can end must be a library exception and the operands must have their entry value there.')
