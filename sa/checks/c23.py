"""C23: operations do not modify the operands they only read."""
import json
import os
import re

import engine as E_
import ir
import meshes
import numeric
import shaped
import sized
import sweep
from common import Report
from engine import Stop, pval, bval, isbool
from shaped import Case, wit
from terms import P, N, ATOMS, ZERO, TRUE, FALSE, num, toP, f_eq, f_ge, f_gt, f_and, show

RO = os.path.join(sweep.HERE, 'readonly.json')


def konst(p, t):
    """is a parameter of this type an operand the function only reads?"""
    x = p.ty(t)
    if x.k in ('ref', 'ptr'):
        y = p.ty(x.of)
        return y.const
    return False


def readonly(p, f):
    """positions of the operands that are not declared outputs"""
    out = []
    if f.get('rec') is not None and not f.get('static') and not f.get('ctor') and not f.get('dtor') and f.get('const'):
        out.append('this')
    for i, q in enumerate(f['params']):
        if konst(p, q['t']):
            out.append(i)
    return out


def table(p):
    """read-only operands per entry point key, where all entry points with the key agree"""
    d = {}
    for f in p.lib():
        d.setdefault(sweep.key(p, f), []).append(readonly(p, f))
    return {k: v[0] for k, v in d.items() if all(x == v[0] for x in v)}


def rootname(x):
    """name of the parameter a symbolic location belongs to"""
    if isinstance(x, str):
        return re.split(r'[.\[]', x)[0].lstrip('*')
    if isinstance(x, N):
        return rootname(x.args[0]) if x.args else None
    if isinstance(x, tuple):
        for y in x:
            if isinstance(y, str) and y in ('deref', 'sel', 'elem'):
                continue
            r = rootname(y)
            if r:
                return r
    return None


def diffs(E, st, old, new, path=''):
    """places where two values differ: (path, old, new)"""
    if old == new:
        return
    if isinstance(old, N) and isinstance(new, N) and old.kind == new.kind == 'rec':
        a, b = dict(old.args[1]), dict(new.args[1])
        for k in a:
            if k == 'Refs':
                continue
            if k in b:
                yield from diffs(E, st, a[k], b[k], path + '.' + k)
        return
    if isinstance(old, N) and isinstance(new, N) and old.kind == new.kind == 'arr':
        if old.args[0] != new.args[0] and not E.holds(st, f_eq(old.args[0] - new.args[0])):
            yield path + '.size', old.args[0], new.args[0]
            return
        c = new.args[1]
        n = old.args[0].const()
        if n is not None and n <= 16:
            ix = [num(i) for i in range(n)]
        else:
            ix = []
            while isinstance(c, N) and c.kind == 'cset':
                ix.append(c.args[1])
                c = c.args[0]
            if c != old.args[1]:
                yield path + '[]', None, None
                if not ix:
                    return
        for i in ix:
            try:
                x, y = E.cread(st, old.args[1], i), E.cread(st, new.args[1], i)
            except Stop:
                yield path, None, None
                continue
            if isinstance(x, P) and isinstance(y, P):
                if x != y and not E.holds(st, f_eq(x - y)):
                    yield '%s[%s]' % (path, show(i)), x, y
            elif x != y:
                yield from diffs(E, st, x, y, '%s[%s]' % (path, show(i)))
        return
    if isinstance(old, P) and isinstance(new, P):
        if not E.holds(st, f_eq(old - new)):
            yield path, old, new
        return
    if isbool(old) and isbool(new):
        yield path, old, new
        return
    if isinstance(new, N) and new.kind in ('undef',):
        yield path, old, new
        return
    yield path, (old if isinstance(old, N) and old.kind in ('sp', 'ptr', 'null') else None), (new if isinstance(new, N) and new.kind in ('sp', 'ptr', 'null') else None)


def definite(A, st, ds):
    """a difference that certainly exists in a reachable state"""
    if st.gh.get('joined') or st.gh.get('iffy'):
        return None
    pairs = [(a, b) for _, a, b in ds if isinstance(a, (P,)) and isinstance(b, P) or isbool(a) and isbool(b)]
    if pairs:
        w = numeric.differ(st.facts, pairs)
        if w:
            return wit(w)
    for pa, a, b in ds:
        if isinstance(a, N) and isinstance(b, N) and not isbool(a) and {a.kind, b.kind} != {'sp'} and (a.kind in ('sp', 'ptr', 'null') and b.kind in ('sp', 'ptr', 'null', 'undef')):
            if a.kind == 'sp' and b.kind == 'null' or a.kind == 'null' and b.kind == 'sp':
                continue        # may be null itself
            if A.feasible(st) is not None:
                return ''
    return None


def verdict(A, f, how, st, checks):
    """one verdict per protected operand at one exit"""
    out = []
    for nm, old, new in checks:
        ds = list(diffs(A, st, old, new))
        if not ds:
            out.append((True, '%s unchanged at %s' % (nm, how)))
            continue
        w = definite(A, st, ds)
        pa, a, b = next((d for d in ds if d[1] is not None), ds[0])
        out.append((False if w is not None else None, 'operand %s%s is %s after the call instead of %s (%s)%s' % (
            nm, pa, show(b)[:60] if b is not None else 'different', show(a)[:60] if a is not None else 'its old value', how, w or '')))
    return out


def protected(p, f, tab):
    k = sweep.key(p, f)
    r = set(readonly(p, f))
    for x in tab.get(k, ()):
        r.add(x)
    return r


class W(sweep.Ana):
    """records writes that certainly change an operand that is only read"""
    hits = None

    def on_write(self, st, e, ptr=None, val=None):
        o, path = ptr.args
        nm = o[1] if o[0] == 'p' else rootname(o[1].args[0]) if o[0] == 'o' and len(o) == 2 and isinstance(o[1], N) else None
        if nm not in self.names or self.mute:
            return
        try:
            old = self.getpath(st, self.entry0.get(o) or self.lazy(st, o), path)
            ds = list(diffs(self, st, old, val, ''.join('.' + c if isinstance(c, str) else '[%s]' % show(c) for c in path)))
        except (Stop, AttributeError):
            return
        if path and path[-1] == 'Refs' or not ds:
            return
        w = definite(self, st, ds)
        if w is not None:
            self.hits.append((show(o[1]) if isinstance(o[1], N) else o[1], ds[0], w))


def symbolic(p, f, ro):
    """all shapes at once: loops are summarised"""
    A = W(p, maxsteps=60000)
    base, names = {}, {}
    A.hits, A.names, A.entry0 = [], names, base

    def setup(E, st, this, vs):
        for pos in ro:
            v = this if pos == 'this' else vs[pos] if pos < len(vs) else None
            nm = 'this' if pos == 'this' else f['params'][pos]['n'] or 'arg%d' % pos
            if isinstance(v, N) and v.kind == 'ptr':
                names[nm] = v.args[0]
                base[v.args[0]] = st.mem[v.args[0]]
            elif isinstance(v, N) and v.kind == 'sp':
                names[nm] = None
        return st
    err = None
    try:
        outs, thr = A.entry(f, setup=setup)
    except Stop as x:
        err = str(x)
        outs, thr = [], A.handlers[0] if getattr(A, 'handlers', None) else []
    res = []
    for how, st in [('return', s) for s, _ in outs] + [('exception', s) for s, _, _ in thr]:
        checks = []
        for nm, o in names.items():
            if o is not None and o in st.mem:
                checks.append((nm, base[o], st.mem[o]))
        for o, v in list(st.mem.items()):
            if o[0] == 'o' and rootname(o[1].args[0]) in names and len(o) == 2:
                try:
                    checks.append((show(o[1]), A.lazy(st, o), v))
                except Stop:
                    pass
        res += verdict(A, f, how, st, checks)
    if err and A.hits:
        # no exit is known: a write that changes the operand counts
        nm, (pa, a, b), w = A.hits[0]
        res.append((False, 'operand %s%s is set to %s%s' % (nm, pa, show(b)[:60] if b is not None else 'something else', w)))
    return res, err


def plans(p, f):
    ops = shaped.operands(p, f)
    ks = ''.join(k for _, k in ops)
    if not any(k in 'VDSW' for k in ks) and not any(k in 'irc' for k in ks):
        return []
    nm = ir.plain(f['q']).split('::')[-1]
    out = []
    for s, lay in (((2, 2), ((0, 0), (0, 1), (1, 1))), ((2, 2), ((0, 0), (0, 1), (1, 0), (1, 1))), ((2, 3), ((0, 2), (1, 0), (1, 1))), ((3, 3), ((0, 0), (1, 0), (1, 1), (2, 2)))):
        pl, first = {}, True
        for pos, k in ops:
            if k in 'DS' or k in 'VW' and 'D' not in ks and 'S' not in ks:
                t = s
                if nm == 'mul' and not first:
                    t = (s[1], s[0])
                if k in 'VW':
                    pl[pos] = ((s[1],), None)
                else:
                    pl[pos] = (t, (lay if t == s else tuple(sorted((j, i) for i, j in lay))) if k == 'S' else None)
                first = False
            elif k in 'VW':
                n = s[0] if nm == 'mul_left' else s[1]
                pl[pos] = ((n,), tuple(range(n)) if k == 'W' else None)
            elif k == 'I' and nm not in ('cg', 'pcg', 'jacobi', 'sor'):
                pl[pos] = 1
            elif k == 'I':
                pl[pos] = 2
            elif k == 'N':
                pl[pos] = 0
            elif k in 'irc':
                pl[pos] = ('it', 1, 0)
        pl['m'] = (s, lay)
        out.append(pl)
    return out


def constant(p, f, ro):
    import prover
    import time
    t0 = time.time()
    res = []
    for pl in plans(p, f):
        if time.time() - t0 > 20:
            break
        prover.LIMIT[0] = time.time() + 8
        C = Case(p, f, pl, maxsteps=40000, mshape=pl['m'][0], mcells=pl['m'][1])
        try:
            C.run()
        except Stop as x:
            continue
        for how, st, v in C.exits():
            checks = []
            for pos, ptr in C.base.items():
                if pos in ro and ptr is not None:
                    checks.append(('this' if pos == 'this' else f['params'][pos]['n'] or 'arg%d' % pos, C.pre[pos], C.A.read(st, ptr)))
            if C.mat and 'this' in C.base and C.mat[0] not in C.base.values():
                checks.append(('the matrix of the iterator', C.st0m, C.A.read(st, C.mat[0])))
            res += verdict(C.A, f, how, st, checks)
    return res


def meshed(p, f, ro):
    """constant meshes: everything behind a mesh that is only read stays as it is (the reference count excepted)"""
    import prover
    import time
    import meshcases
    pos = meshes.of_type(p, f, 'NS::Mesh')
    res = []
    for sp in meshcases.specs(p, f):
        if sp.get('shared'):
            continue
        prover.LIMIT[0] = time.time() + 15
        M = meshcases.MC(p, f, sp)
        try:
            M.run()
        except Stop:
            continue
        for how, st, v in M.exits():
            checks = []
            for W, q in zip(M.worlds, [x for x in pos if not (x == 'this' and f.get('ctor'))]):
                if q not in ro:
                    continue
                nm = 'this' if q == 'this' else f['params'][q]['n']
                for o in W.V + W.S + W.F + [W.D, W.O.args[0]]:
                    if o not in st.mem or o in st.gh.get('freed', ()):
                        res.append((None if st.gh.get('joined') or st.gh.get('iffy') or M.A.feasible(st) is None else False,
                                    'operand %s loses its part %s' % (nm, o[1])))
                        continue
                    checks.append(('%s%s' % (nm, '' if o in (W.D, W.O.args[0]) else ' (%s)' % o[1]), M.pre[o], st.mem[o]))
            res += verdict(M.A, f, how + ' with a ' + meshcases.text(sp), st, checks)
    return res


def task(p, job):
    fid, ro = job
    f = p.fns[fid]
    if any(x in ro for x in meshes.of_type(p, f, 'NS::Mesh')):
        return [], None, meshed(p, f, ro)
    r, err = symbolic(p, f, ro)
    left = err or any(v is None for v, _ in r)
    if not any(v is False for v, _ in r):
        r2 = constant(p, f, ro)
    else:
        r2 = []
    return r, err, r2


def run():
    rep = Report('C23')
    p = ir.load()
    tab = json.load(open(RO)) if os.path.exists(RO) else {}
    jobs = []
    for f in sweep.entries(p):
        ro = protected(p, f, tab)
        if ro:
            jobs.append((f['id'], ro))
    rule = 'read-only operand has its entry value at every exit'
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        if r is None:
            rep.ob('operation analysed', None, '%s: %s' % (f['q'], err))
            continue
        a, err, b = r
        rep.ob('operation analysed', None if err and not b else True, '%s%s' % (f['q'], ': ' + err if err else ''))
        for n, part in ((rule, a), (rule + ' (constant shapes)', b)):
            for v, text in part:
                rep.ob(n, v, '%s: %s' % (f['q'], text))
                if v is False:
                    rep.violation('%s:%s' % (ir.plain(f['q']), text.split(' ')[1].split('[')[0]), f['l'], '%s: %s' % (f['q'], text))
    rep.need('operation analysed', 150)
    rep.need(rule, 200)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('Every public function with a constant operand (reference or pointer to constant, or a constant object) is analysed '
        'with all shapes at once and, where it takes vectors or matrices, with constant shapes; at each normal and exceptional '
        'exit the memory of each such operand, and everything reachable behind it, must have its entry value (the reference '
        'count of shared mesh data excepted).')

if __name__ == '__main__':
    json.dump(table(ir.load()), open(RO, 'w'), indent=0)
