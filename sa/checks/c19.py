"""C19: operations give the same result when operands are the same object."""
import ir
import numeric
import shaped
import sized
import sweep
from checks import c24
from common import Report
from engine import Stop, pval, mkptr
from shaped import Case
from sized import elems
from terms import P, N, node, num, ZERO, f_ne, f_ge, TRUE, show

EXTRA = {('swap', 'VV'), ('swap', 'DD'), ('swap', 'SS'), ('=', 'VV'), ('=', 'DD'), ('=', 'SS')}


def sig(p, f):
    s = c24.sig(p, f)
    if s:
        return s
    ops = shaped.operands(p, f)
    nm = ir.plain(f['q']).split('::')[-1].replace('operator', '')
    if f.get('ctor') or f.get('static') or f.get('implicit') or f.get('defaulted'):
        return None
    sg = ''.join('V' if k == 'W' else k for _, k in ops)
    if (nm, sg) in EXTRA:
        return nm, sg, ops
    return None


class Stale(sweep.Ana):
    """notes the use of a reference to an element of a sequence that has been moved since"""

    def on_stale(self, st, e, ptr=None):
        if self.feasible(st) is not None:
            self.used[e['l']] = e.get('n')


def elpath(v):
    """path to the sequence that holds the elements of an operand"""
    work = [(v, ())]
    while work:
        x, pa = work.pop(0)
        if not (isinstance(x, N) and x.kind == 'rec'):
            continue
        fs = dict(x.args[1])
        for k in ('mValues', 'Container', 'mData'):
            if k in fs and isinstance(fs[k], N) and fs[k].kind == 'arr':
                return pa + (k,)
        work += [(y, pa + (k,)) for k, y in fs.items()]
    return None


def plans(p, f, name, sg, ops):
    """shapes and what is shared: list of (plan, shared position, element or None)"""
    first, k0 = ops[0]
    isref = lambda pos: pos == 'this' or p.ty(f['params'][pos]['t']).k in ('ref', 'rref')
    base = lambda pos: p.strip(f['rec'] if pos == 'this' else f['params'][pos]['t']).s.replace('const ', '')
    out = []
    if not isref(first):
        return []
    shapes = [(n,) for n in (1, 2, 3, 4)] if k0 in 'VW' else [(1, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
    same = [pos for pos, k in ops[1:] if k == k0 and isref(pos) and base(pos) == base(first)]
    scal = [pos for pos, k in ops[1:] if k == 'T' and isref(pos)]
    ints = [pos for pos, k in ops if k == 'I']
    for s in shapes:
        if name in ('mul', 'mul_left') and s[0] != s[-1]:
            continue
        for l in (shaped.layouts(s) if k0 == 'S' else [None]):
            pl = {first: (s, l)}
            for pos, k in ops[1:]:
                if k in 'VDS' and pos not in same:
                    pl = None
                    break
                if pos in same:
                    pl[pos] = (s, l)
            if pl is None:
                continue
            if same:
                out.append((pl, same[0], None))
            for pos in scal:
                n = len(l) if k0 == 'S' else s[0] * (s[1] if len(s) == 2 else 1)
                ix = [()]
                if ints:
                    m = s[0] * (s[1] if len(s) == 2 else 1)
                    ix = [(i,) for i in range(m)] if len(ints) == 1 else [(i, j) for i in range(s[0]) for j in range(s[1])]
                for e in range(n):
                    for c in ix:
                        q = dict(pl)
                        q.update(zip(ints, c))
                        out.append((q, pos, e))
    return out


def task(ps, job):
    fid, pls = job
    p = ps
    c24.CPLX[0] = False
    f = p.fns[fid]
    name, sg, ops = sig(p, f)
    out = []
    for pl, pos, el in pls:
        try:
            out += one(p, f, name, sg, ops, pl, pos, el)
        except Stop as x:
            if str(x) != 'skip':
                out.append((None, pl, 'analysis stopped: %s' % x, pos, el))
    return out


def one(p, f, name, sg, ops, pl, shared, el):
    first = ops[0][0]
    args = []

    def alias(C, E, st, this, vs):
        o = this if first == 'this' else vs[first]
        if el is None:
            vs[shared] = o
            C.base[shared] = o
        else:
            pa = elpath(E.read(st, o))
            if pa is None:
                raise Stop('skip')
            vs[shared] = mkptr(o.args[0], o.args[1] + pa + (num(el),))
        for pos, k in ops:
            if k in 'VWDS':
                x = elems(E, st, E.read(st, this if pos == 'this' else vs[pos]))
                if x is None:
                    raise Stop('operand shape')
                args.append(x)
            elif k == 'I':
                args.append(num(pl[pos]))
            else:
                v = vs[pos]
                if isinstance(v, N) and v.kind == 'ptr':
                    v = E.read(st, v)
                args.append(pval(v))
        if name in ('/=', '/'):
            for y in (args[-1][1].values() if isinstance(args[-1], tuple) else [args[-1]]):
                st.facts += (f_ne(y),)
        if name in ('max', 'min'):
            raise Stop('skip')
    C = Case(p, f, pl, alias=alias, cls=Stale)
    C.A.used = {}
    C.run()
    A = C.A
    if (name, sg) in EXTRA:
        want = {'this': args[0]}
    else:
        sg2 = sg.replace('D', 'M').replace('S', 'M')
        want = c24.SPEC[(name, sg) if (name, sg) in c24.SPEC else (name, sg2)](*args)
    if not want:
        return []
    if 'this' not in C.base and 'this' in want:
        return []
    res = []
    for st, v in C.outs:
        if name in ('==', '!=') and any('isnan' in show(x) for x in st.facts):
            continue        # not a number differs from itself
        for v_, pl_, text in c24.verdicts(A, st, v, want, C.base, args, ops, pl):
            res.append((v_, pl, text, shared, el))
    for l, n in C.A.used.items():
        res.append((False, pl, 'uses %s at %s after the elements it belongs to may have been moved' % (n, l), shared, el))
    for l, w in A.aborts():
        res.append((False, pl, 'ends the program at %s' % l, shared, el))
    for st, ty, te in C.thr:
        w = A.feasible(st)
        res.append((False if w is not None and '/' not in name else None, pl, 'throws %s' % (p.strip(ty).s if ty is not None else '?'), shared, el))
    if not C.outs:
        res.append((None, pl, 'no normal return', shared, el))
    return res


def run():
    rep = Report('C19')
    p = ir.load()
    jobs = []
    for f in sweep.entries(p):
        s = sig(p, f)
        if not s or f.get('access') in (1, 2):
            continue
        for c in c24.chunks(plans(p, f, *s), 24):
            jobs.append((f['id'], c))
    rule = 'operation on shared operands equals the operation on copies'
    seen = set()
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        seen.add(ir.plain(f['q']))
        if r is None:
            rep.ob(rule, None, '%s: %s' % (f['q'], err))
            continue
        for v, pl, text, pos, el in r:
            what = '%s on %s with operand %s %s' % (f['q'], ', '.join('%s' % (x,) for x in pl.values()), pos,
                                                   'the same object' if el is None else 'its element %d' % el)
            rep.ob(rule, v, what + ' ' + text)
            if v is False:
                rep.violation(ir.plain(f['q']), f['l'], '%s: %s' % (what, text))
    rep.need(rule, 200)
    rep.cov['operations'] = sorted(seen)
    rep.cov['explanation'] = EXPL
    rep.assume += ['floating-point arithmetic is compared as real arithmetic (rounding ignored)']
    return rep.finish()


EXPL = ('Each operation of the table of C24 that takes two operands of one type by reference is analysed with both bound to one '
        'object, and each that takes a number by reference with it bound to every element of the object, for all listed '
        'constant shapes and unknown values; the result must be that of the operation on the values before the call.')
