"""Loop summaries.

A loop whose condition is decided in every iteration is followed (constant trip count, at most Engine.UNROLL
iterations).  Every other loop is replaced by an abstract iteration number n: locations the body can modify get a value
at the loop head that is a function of n (induction variables, sums, folds, range writes) or an unknown value; relational
candidates are kept when they are inductive (Houdini).  The body is then analysed once for the abstract iteration n."""
import terms
from terms import (P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, f_ge, f_gt, f_eq, f_ne, f_not, f_and, f_or, node, subst, show)


def _E():
    import engine
    return engine


# ---- binders --------------------------------------------------------------------------------
_bmax = {}


def binder(d):
    return node('sym', ('\u03b2%d' % d,), 2)


def depth(x):
    """largest binder number inside a term"""
    if isinstance(x, P):
        return max([depth(ATOMS[i]) for m in x.m for i in m] or [0])
    if isinstance(x, N):
        if not x.fv:
            return 0
        r = _bmax.get(x)
        if r is None:
            if x.kind == 'sym':
                n = x.args[0]
                r = int(n[1:]) if isinstance(n, str) and n[0] == '\u03b2' and n[1:] != '?' else 0
            else:
                r = max([depth(a) for a in x.args] or [0])
            _bmax[x] = r
        return r
    if isinstance(x, tuple):
        return max([depth(a) for a in x] or [0])
    return 0


def mksum(b, f, count):
    """sum of f over b = 0..count-1 (b a binder node)"""
    c = count.const()
    if c is not None and c <= 0:
        return ZERO
    if c is not None and c <= 64:
        r = ZERO
        for k in range(int(c)):
            r = r + subst(f, {b.id: num(k)})
        return r
    out = ZERO
    for m, v in f.m.items():
        o, i = num(v), ONE
        for a in m:
            n = ATOMS[a]
            if b.id in n.fv:
                i = i * toP(n)
            else:
                o = o * toP(n)
        if i.const() is not None:
            out = out + o * i * count
        else:
            out = out + o * toP(node('sum', (b, i, count), 2 if _E()._nn(i) else 1 if i.isint() else 0))
    return out


terms.REBUILD['sum'] = lambda x, a: _sum_atom(x, a)


def _sum_atom(x, a):
    r = mksum(x.args[0], a[1], a[2])
    s = r.single()
    return s if s is not None else r


# ---- reading range writes -------------------------------------------------------------------
def coeff(p, bid):
    """p = a + c*b when linear in b, else None"""
    a, c = ZERO, ZERO
    for m, v in p.m.items():
        k = m.count(bid)
        if k == 0:
            for i in m:
                if bid in ATOMS[i].fv:
                    return None
            a = a + P({m: v})
        elif k == 1:
            l = list(m)
            l.remove(bid)
            for i in l:
                if bid in ATOMS[i].fv:
                    return None
            c = c + P({tuple(l): v})
        else:
            return None
    return a, c


def divmono(p, c):
    """p = c*q + r with c a monomial (poly with one term)"""
    if len(c.m) != 1:
        return None
    (cm, cv), = c.m.items()
    q, r = ZERO, ZERO
    from fractions import Fraction
    for m, v in p.m.items():
        l = list(m)
        ok = True
        for i in cm:
            if i in l:
                l.remove(i)
            else:
                ok = False
                break
        if ok and (not cm or True) and Fraction(v, 1) / cv == int(Fraction(v, 1) / cv):
            q = q + P({tuple(l): int(Fraction(v, 1) / cv)})
        else:
            r = r + P({m: v})
    return q, r


def solve(eng, st, idx, binders, k):
    """assignments of the binders with idx == k: ({id: value}, condition) or None when unknown"""
    if not binders:
        return {}, f_eq(idx - k)
    lin = []
    a = idx
    for b, _ in binders:
        r = coeff(a, b.id)
        if r is None:
            return None
        a, c = r
        if any(x.id in c.fv() for x, _ in binders):
            return None
        lin.append((b, c))
    R = k - a
    lin = [(b, c) for b, c in lin]
    if any(c.const() == 0 for b, c in lin):
        return None
    asg, cond = {}, TRUE
    # outer binders: largest coefficients first
    unit = [(b, c) for b, c in lin if c.const() in (1, -1)]
    rest = [(b, c) for b, c in lin if c.const() not in (1, -1)]
    if len(unit) > 1 or len(rest) > 1:
        return None
    if rest:
        b, c = rest[0]
        d = divmono(R, c)
        ok = False
        if d is not None:
            q, r = d
            cc = c
            if unit:
                if unit[0][1].const() == 1 and eng.holds(st, f_ge(r)) and eng.holds(st, f_gt(cc - r)):
                    ok = True
            else:
                if r.const() == 0:
                    ok = True
                elif eng.holds(st, f_gt(cc - r)) and eng.holds(st, f_gt(cc + r)):
                    cond = f_and(cond, f_eq(r))
                    ok = True
        if not ok:
            if not eng.holds(st, f_ge(R)) or not eng.holds(st, f_gt(c)):
                return None
            if unit and unit[0][1].const() != 1:
                return None
            q = _E().idiv(R, c)
            r = _E().imod(R, c)
            if not unit:
                cond = f_and(cond, f_eq(r))
        asg[b.id] = q
        R = r
    if unit:
        b, c = unit[0]
        asg[b.id] = R if c.const() == 1 else -R
    return asg, cond


def comp_read(eng, st, c, k, fuel):
    base, binders, idx, val = c.args
    s = solve(eng, st, idx, binders, k)
    if s is None:
        return eng.elem_inexact(c, k)
    asg, cond = s
    for b, cnt in binders:
        v = asg[b.id]
        cond = f_and(cond, f_and(f_ge(v), f_gt(subst(cnt, asg) - v)))
    if eng.holds(st, f_not(cond)):
        return eng.cread(st, base, k, fuel - 1)
    v = subst(val, asg)
    v = refresh(eng, st, v)
    if eng.holds(st, cond):
        return v
    return _E().ite(cond, v, eng.cread(st, base, k, fuel - 1))


def refresh(eng, st, v):
    """simplify conditionals that the current facts decide"""
    if isinstance(v, P):
        if not any(ATOMS[i].kind == 'ite' for m in v.m for i in m):
            return v
        r = ZERO
        for m, c in v.m.items():
            t = num(c)
            for i in m:
                n = ATOMS[i]
                if n.kind == 'ite':
                    f = n.args[0]
                    if eng.holds(st, f):
                        t = t * refresh(eng, st, toP(n.args[1]))
                        continue
                    if eng.holds(st, f_not(f)):
                        t = t * refresh(eng, st, toP(n.args[2]))
                        continue
                t = t * toP(n)
            r = r + t
        return r
    if isinstance(v, N) and v.kind == 'ite':
        if eng.holds(st, v.args[0]):
            return refresh(eng, st, v.args[1])
        if eng.holds(st, f_not(v.args[0])):
            return refresh(eng, st, v.args[2])
    return v


def sum_range(eng, st, content, lo, n):
    b0 = node('sym', ('\u03b2?',), 2)
    v = _E().pval(eng.cread(st, content, lo + toP(b0)))
    d = depth(v) + 1
    b = binder(d)
    return mksum(b, subst(v, {b0.id: toP(b)}), n)


def range_comp(eng, st, b, n, val, e):
    """states after writing val(k) at position b+k for every 0 <= k < n (standard algorithms)"""
    import models
    ow = models.owner(b)
    a = models.arr_of(eng, st, ow)
    k0 = eng.fresh('k', 2)
    s = st.fork()
    s.facts += (f_gt(n - k0),)
    base = s.facts
    rs = val(s, k0)
    v = None
    if len(rs) <= 16 and not any(_locals(eng, r, {i for i in ATOMS and ()}) for _, r in rs):
        v = joinvals([(r, x.facts[len(base):]) for x, r in rs])
    st = st.fork()
    if v is None:
        eng.fresh_n += 1
        el = elem_type(eng, ow)
        cont = node('cbase', ('rng#%d' % eng.fresh_n, el), False, False)
        cont = node('chav', (a.args[1], 'rng#%d' % eng.fresh_n, models.idx(b), models.idx(b) + n - 1, el), False, False)
    else:
        d = max(depth(v), depth(models.idx(b))) + 1
        bd = binder(d)
        kid = k0.single().id
        v = subst(v, {kid: toP(bd)})
        cont = node('ccomp', (a.args[1], ((bd, n),), models.idx(b) + toP(bd), v))
    eng.write(st, ow, node('arr', (a.args[0], cont)), e)
    return [st]


def joinvals(vs):
    """one value for several path-conditional ones: [(value, path facts)]"""
    if all(v == vs[0][0] for v, _ in vs):
        return vs[0][0]
    r = vs[-1][0]
    for v, pc in reversed(vs[:-1]):
        if v is None or r is None:
            return None
        c = TRUE
        for f in pc:
            c = f_and(c, f)
        r = _E().ite(c, v, r)
    return r


# ---- locations --------------------------------------------------------------------------------
def elem_type(eng, loc):
    t = eng.type_at(loc.args[0], loc.args[1])
    if t is None:
        return None
    if isinstance(t, tuple):
        return t[1]
    c = eng.container(eng.p.strip(t))
    return c[0] if c else None


def trunc(path):
    out = []
    for c in path:
        if not isinstance(c, str):
            break
        out.append(c)
    return tuple(out)


def leaves(eng, st, obj, path):
    """leaf locations below a location: (obj, path, kind)"""
    try:
        v = eng.getpath(st, eng.root(st, obj), path)
    except _E().Stop:
        return [(obj, path, 'opq')]
    out = []

    def go(v, p, ty):
        if isinstance(v, P):
            out.append((obj, p, 'num'))
            return
        k = v.kind
        if k == 'rec':
            for n, x in v.args[1]:
                go(x, p + (n,), None)
        elif k == 'arr':
            out.append((obj, p, 'size'))
            out.append((obj, p, 'content'))
        elif k == 'num' or k == 'ite' and _E()._numite(v):
            out.append((obj, p, 'num'))
        elif _E().isbool(v):
            out.append((obj, p, 'bool'))
        elif k in ('ptr', 'null', 'sp', 'ite', 'cstr'):
            out.append((obj, p, 'ptr'))
        elif k == 'undef':
            t = eng.type_at(obj, p)
            tk = eng.p.strip(t).k if t is not None else 'float'
            out.append((obj, p, 'ptr' if tk in ('ptr', 'ref') else 'bool' if tk == 'bool' else 'num' if tk in ('int', 'uint', 'float', 'enum') else 'opq'))
        elif k == 'refv':
            pass
        else:
            out.append((obj, p, 'opq'))
    go(v, path, None)
    return out


def getleaf(eng, st, leaf):
    obj, path, what = leaf
    v = eng.getpath(st, eng.root(st, obj), path)
    if what in ('size', 'content'):
        if not (isinstance(v, N) and v.kind == 'arr'):
            return None
        return v.args[0] if what == 'size' else v.args[1]
    if what == 'num' and isinstance(v, N) and v.kind == 'num':
        return v.args[0]
    return v


def setleaf(eng, st, leaf, x):
    obj, path, what = leaf
    if what in ('size', 'content'):
        v = eng.getpath(st, eng.root(st, obj), path)
        x = node('arr', (x, v.args[1]) if what == 'size' else (v.args[0], x))
    st.mem[obj] = eng.setpath(st, eng.root(st, obj), path, x) if path else x


_ocache = {}


def objs(x):
    """memory objects a value points to"""
    if isinstance(x, P):
        r = frozenset()
        for m in x.m:
            for i in m:
                r |= objs(ATOMS[i])
        return r
    if isinstance(x, N):
        r = _ocache.get(x)
        if r is None:
            r = frozenset([x.args[0]]) if x.kind == 'ptr' else frozenset()
            for a in x.args:
                if isinstance(a, (P, N, tuple)):
                    r |= objs(a)
            _ocache[x] = r
        return r
    if isinstance(x, tuple):
        r = frozenset()
        for a in x:
            if isinstance(a, (P, N, tuple)):
                r |= objs(a)
        return r
    return frozenset()


def _locals(eng, v, known):
    return False


class Head:
    """summary of one loop in one context"""
    def __init__(self):
        self.leaves = []        # modified leaves
        self.locs = set()       # (obj, path) modified
        self.mode = {}          # leaf -> (kind, data)
        self.dropped = set()    # candidates that are not inductive


class Run:
    __slots__ = ('back', 'exit', 'brk', 'ret', 'thr', 'written')


def iterate(eng, L, st, fr):
    """one iteration from the loop head; returns (back, exit, brk) states; returns and throws go to the collectors"""
    s, cond, inc, body, cv, dow = L
    sb, sc = fr.brk, fr.cont
    back, ex_ = [], []

    def test(x):
        sts = [x]
        if cv:
            sts = eng.declare(cv, x, fr)
        for y in sts:
            if cond is None:
                yield y, True
                continue
            for z, c in eng.ev(cond, y, fr):
                for w, t in eng.split(z, c):
                    yield w, t

    def run(x):
        fr.brk, fr.cont = [], []
        out = eng.ex(body, x, fr)
        out = out + fr.cont
        b = fr.brk
        return out, b

    brk = []
    try:
        if dow:
            o, b = run(st)
            brk += b
            for x in o:
                for y, t in test(x):
                    (back if t else ex_).append(y)
        else:
            for x, t in test(st):
                if not t:
                    ex_.append(x)
                    continue
                o, b = run(x)
                brk += b
                for y in o:
                    if inc is not None:
                        back += [z for z, _ in eng.ev(inc, y, fr)]
                    else:
                        back.append(y)
    finally:
        fr.brk, fr.cont = sb, sc
    back = eng.reduce_states(back, 2 * eng.JOIN)
    ex_ = eng.reduce_states(ex_, 2 * eng.JOIN)
    brk = eng.reduce_states(brk, 2 * eng.JOIN)
    if len(back) > eng.MAXSTATES:
        raise _E().Stop('too many partitions in a loop')
    return back, ex_, brk


def constcond(c):
    if c is None:
        return True
    if c.get('k') == 'bool':
        return bool(c['v'])
    if c.get('k') in ('int',):
        return int(c['v']) != 0
    if c.get('k') == 'cast':
        return constcond(c['e'])
    return False


def loop(eng, s, cond, inc, body, st, fr, cv=None, dowhile=False):
    L = (s, cond, inc, body, cv, dowhile)
    out = []
    if constcond(cond):
        return endless(eng, L, st, fr)
    # follow decided iterations
    todo = [st]
    nret = len(fr.ret)
    nthr = len(eng.handlers[-1]) if eng.handlers else 0
    fr_id = fr.id
    it = 0
    mixed = 0
    while todo:
        nxt = []
        stay = leave = False
        for x in todo:
            if not dowhile:
                d = decided(eng, L, x, fr)
                if d is None and it < eng.SPLIT and not eng.mute and not cv:
                    d = True            # both ways, one iteration at a time
                elif d is None:
                    out += summary(eng, L, x, fr)
                    continue
                if d:
                    stay = True
                else:
                    leave = True
            fr.id = fr_id
            b, e, k = iterate(eng, L, x, fr)
            if dowhile and b and e:
                # undecided repetition: continue with the summary from the states that repeat
                out += e + k
                for y in b:
                    out += summary(eng, L, y, fr)
                continue
            nxt += b
            out += e + k
        todo = nxt
        it += 1
        mixed += stay and leave
        todo = eng.reduce_states(todo, 2 * eng.JOIN)
        if it > eng.UNROLL or mixed > 1 or len(todo) > eng.MAXSTATES:
            if it > eng.UNROLL or mixed > 1:
                # not a constant loop after all
                del fr.ret[nret:]
                if eng.handlers:
                    del eng.handlers[-1][nthr:]
                return summary(eng, L, st, fr)
            raise _E().Stop('too many partitions in a loop')
    return eng.reduce_states(out, 3 * eng.JOIN)


def endless(eng, L, st, fr):
    """a loop that is left from inside: followed while every iteration either leaves or repeats for certain"""
    nret = len(fr.ret)
    nthr = len(eng.handlers[-1]) if eng.handlers else 0
    fr_id = fr.id
    out, todo = [], [st]
    it = 0
    while todo:
        if eng.mute or it > 64 or len(todo) > eng.MAXSTATES:
            break
        r = [dry(eng, L, x, fr) for x in todo]
        if any(y.back and (y.exit or y.brk) for y in r):
            break
        nxt = []
        for x in todo:
            fr.id = fr_id
            b, e, k = iterate(eng, L, x, fr)
            nxt += b
            out += e + k
        todo = eng.reduce_states(nxt, 2 * eng.JOIN)
        it += 1
    else:
        return eng.reduce_states(out, 3 * eng.JOIN)
    if it:
        for x in todo:
            out += summary(eng, L, x, fr)
        return out
    return summary(eng, L, st, fr)


def decided(eng, L, st, fr):
    """truth of the loop condition in this state, None when it is not decided"""
    s, cond, inc, body, cv, dow = L
    if cv:
        return None
    w = eng.written
    eng.mute += 1
    eng.written = set()
    nthr = len(eng.handlers[-1]) if eng.handlers else 0
    lit = True
    try:
        r = []
        for z, c in eng.ev(cond, st.fork(), fr):
            if not constant(eng, z, c):
                lit = False
            r += [t for _, t in eng.split(z, c)]
    finally:
        eng.mute -= 1
        eng.written = w
        if eng.handlers:
            del eng.handlers[-1][nthr:]
    return r[0] if r and all(x == r[0] for x in r) and (lit or not r[0]) else None


def constant(eng, st, c):
    """is the condition a constant once the known constants are inserted?"""
    c = _E().bval(c)
    if c is TRUE or c is FALSE:
        return True
    mp = {}
    for f in st.facts:
        if f.kind == 'eq':
            p = f.args[0]
            ks = [k for k in p.m if k]
            if len(ks) == 1 and len(ks[0]) == 1 and abs(p.m[ks[0]]) == 1:
                mp[ks[0][0]] = num(-p.m.get((), 0) * p.m[ks[0]])
    if not mp:
        return False
    c = subst(c, mp)
    return c is TRUE or c is FALSE


def dry(eng, L, H, fr):
    """analyse one iteration without reporting"""
    r = Run()
    nret = len(fr.ret)
    nthr = len(eng.handlers[-1]) if eng.handlers else 0
    w = eng.written
    eng.written = set()
    eng.mute += 1
    try:
        r.back, r.exit, r.brk = iterate(eng, L, H.fork(), fr)
        r.written = eng.written
    finally:
        eng.mute -= 1
        if w is not None:
            w |= eng.written
        eng.written = w
        r.ret = fr.ret[nret:]
        del fr.ret[nret:]
        if eng.handlers:
            r.thr = eng.handlers[-1][nthr:]
            del eng.handlers[-1][nthr:]
        else:
            r.thr = []
    return r


def summary(eng, L, E0, fr):
    if eng.opt.get('peel') and not L[5] and not eng.mute:
        # the first iteration on its own: everything in it is exact
        b, e, k = iterate(eng, L, E0, fr)
        out = e + k
        for y in eng.reduce_states(b, 2):
            out += summary1(eng, L, y, fr)
        return out
    return summary1(eng, L, E0, fr)


def summary1(eng, L, E0, fr):
    eng.loops += 1
    if eng.loops > eng.opt.get('maxloops', 4000):
        raise _E().Stop('loop budget')
    s = L[0]
    E0 = E0.fork()
    cnt = E0.gh.get(('loop', id(s), fr.id), 0) + 1
    E0.gh[('loop', id(s), fr.id)] = cnt
    tag = '%s@%s.%d' % (s.get('l', '?').split('/')[-1], format(fr.id & 0xffffff, 'x'), cnt)
    n = node('sym', ('n:' + tag,), 2)
    key = (id(s), fr.id, cnt)
    G = eng.guess.get(key)
    if G is None:
        G = eng.guess[key] = Head()
    G.leaves = [l for l in G.leaves if l[0] in E0.mem or l[0][0] in ('o', 'g')]
    eng.scope.append(tag)
    eng.symscope['n:' + tag] = tuple(eng.scope)
    try:
        return summary2(eng, L, E0, fr, G, n, tag)
    finally:
        eng.scope.pop()


def summary2(eng, L, E0, fr, G, n, tag):
    nP = toP(n)
    r = None
    for rnd in range(14):
        H, vals = header(eng, E0, G, n, tag)
        if eng.opt.get('trace'):
            print('   [%s #%d]' % (tag, rnd), {show(vals[l]): G.mode[l][0] for l in G.leaves})
        probes = [l for l in G.leaves if G.mode[l][0] == 'probe']
        cands = [] if probes else candidates(eng, L, E0, H, G, vals, n, fr)
        H.facts = E0.facts + tuple(c for c in cands if c not in E0.facts)
        r = dry(eng, L, H, fr)
        G.through = through(H, r.back, n)
        changed = False
        # modified locations
        new = set()
        for obj, path in r.written:
            if obj not in E0.mem and obj[0] not in ('o', 'g') or dead(eng, obj, L[0], fr):
                continue
            p = trunc(path)
            if not covered(G.locs, obj, p):
                new.add((obj, p))
        if new:
            G.locs |= new
            for obj, p in new:
                for lf in leaves(eng, E0, obj, p):
                    if lf not in G.mode:
                        G.leaves.append(lf)
                        G.mode[lf] = ('probe', None)
            continue
        if len(r.back) > 40:
            for l in G.leaves:
                if G.mode[l][0] != 'free':
                    G.mode[l] = ('free', None)
                    changed = True
            if changed:
                continue
            break
        progress = False
        wait = []
        snap = dict(G.mode)
        for l in G.leaves:
            m = G.mode[l]
            if m[0] == 'free':
                continue
            if m[0] == 'probe':
                g = infer(eng, E0, H, r.back, l, vals, n, G, tag, snap)
                if g is None:
                    wait.append(l)
                else:
                    G.mode[l] = g
                    progress = True
            elif not verify(eng, E0, H, r.back, l, m, vals, n, G):
                G.mode[l] = ('free', None)
                changed = True
        if wait and not progress and not changed:
            for l in wait:
                G.mode[l] = ('free', None)
            changed = True
        if progress or changed or wait:
            continue
        # candidates
        for c in cands:
            for b in r.back:
                f = at_back(eng, c, b, G, vals, n)
                if f is None or not eng.holds(b, f):
                    G.dropped.add(c)
                    changed = True
                    break
        if not changed:
            break
    else:
        # did not stabilise: nothing is known about modified locations
        for l in G.leaves:
            G.mode[l] = ('free', None)
        H, vals = header(eng, E0, G, n, tag)
        H.facts = E0.facts
        r = None
    ok = simple(eng, r, H, n)
    if not ok:
        # reaching iteration n > 0 depends on more than the loop condition
        eng.guarded.add(n.id)
    else:
        eng.guarded.discard(n.id)
    if eng.mute and r is not None:
        fr.ret += r.ret
        if eng.handlers:
            eng.handlers[-1] += r.thr
        back, ex_, brk = r.back, r.exit, r.brk
    else:
        back, ex_, brk = iterate(eng, L, H, fr)
    if eng.written is not None:
        eng.written |= G.locs
    for b in back:
        eng.event('backedge', b, L[0], head=H)
    G.back = back
    if not ok:
        for x in ex_ + brk:
            x.gh['iffy'] = x.gh.get('iffy', ()) + (nP,)
    out = []
    for x in ex_:
        x = forall(eng, x, H, back, n, L)
        out.append(settle(eng, x, H, n))
    return out + brk


def through(H, back, n):
    """integral conditions on the iteration number that every repeating path has passed"""
    if not back:
        return ()
    k = len(H.facts)
    out = []
    for f in back[0].facts[k:]:
        if n.id in f.fv and f.kind in ('ge', 'gt', 'ne') and not dataonly(f) and all(f in b.facts for b in back[1:]):
            out.append(f)
    return tuple(out[:6])


def simple(eng, r, H, n):
    """do the iterations before iteration n complete whenever the loop condition held in iteration n?
    (every other way out of the body depends on data only)"""
    if r is None:
        return False
    k = len(H.facts)
    for x in r.brk + [s for s, _ in r.ret] + [t[0] for t in r.thr]:
        if x.facts[:k] != H.facts or x.gh.get('joined'):
            return False
        if not any(dataonly(f) for f in x.facts[k:]):
            return False
    for x in r.back:
        if x.gh.get('joined'):
            return False
    # condition of the back edge is monotone: whatever it says about n it also said about every earlier iteration
    m = toP(node('sym', ('earlier#' + str(n.id),), 2))
    from prover import entails
    for x in r.back:
        for f in x.facts[k:]:
            if n.id in f.fv and not dataonly(f) and f.kind in ('ge', 'gt', 'eq', 'ne', 'and', 'or', 'not'):
                g = f_not(f)
                if any(g in y.facts for y in r.back):
                    continue        # both outcomes go on
                if not entails(x.facts + (f_gt(toP(n) - m),), subst(f, {n.id: m})):
                    return False
    return True


def dataonly(f):
    """a condition on non-integral values (free input data)"""
    ids, inx = set(), set()
    terms._fv(f, ids, inx)
    if f.kind in ('eq', 'ne', 'ge', 'gt'):
        p = f.args[0]
        return any(ATOMS[i].isint == 0 for m in p.m for i in m)
    if f.kind == 'pred':
        return True
    return False


_inside = {}


def dead(eng, obj, s, fr):
    """storage that every iteration creates anew (locals of the body, frames of calls made there)"""
    if obj[0] not in ('v', 't', 'c'):
        return False
    if obj[1] != fr.id:
        f = fr.up
        while f is not None:
            if f.id == obj[1]:
                return False
            f = f.up
        return True
    r = _inside.get(id(s))
    if r is None:
        import ir
        ids, ts = set(), set()
        for part in (s.get('b'), s.get('_body'), s.get('c'), s.get('n'), s.get('v'), s.get('cv')):
            for y in ir.walk(part):
                ts.add(id(y))
                if y.get('s') == 'decl':
                    for d in y['d']:
                        if 'id' in d:
                            ids.add(d['id'])
        cv = s.get('cv')
        if cv and 'id' in cv:
            ids.add(cv['id'])
        r = _inside[id(s)] = (ids, ts, s)
    if obj[0] == 't':
        k = obj[2]
        if isinstance(k, str):
            k = int(k.lstrip('rodvp') or 0)
        return k in r[1]
    return obj[2] in r[0]


def covered(locs, obj, p):
    for i in range(len(p) + 1):
        if (obj, p[:i]) in locs:
            return True
    return False


def header(eng, E0, G, n, tag):
    """abstract state at the loop head of iteration n"""
    H = E0.fork()
    vals = {}
    nP = toP(n)
    for l in G.leaves:
        m, d = G.mode[l]
        obj, path, what = l
        init = getleaf(eng, E0, l)
        nm = 'h:%s:%s%s%s' % (tag, objname(obj), '.'.join(path), '#' + what if what in ('size', 'content') else '')
        if m == 'const':
            v = init
        elif m == 'ind':
            v = init + d * nP
        elif m == 'sum':
            b, f = d
            v = init + mksum(b, f, nP)
        elif m == 'fold':
            op, b, g = d
            v = toP(node('fold', (op, init, b, g, nP), 0))
        elif m == 'indptr':
            v = node('ptr', (init.args[0], init.args[1][:-1] + (init.args[1][-1] + d * nP,)))
        elif m == 'comp':
            bs, ix, val = d
            v = node('ccomp', (init, bs(nP), ix, val))
        elif m == 'reset':
            v = _E().ite(f_eq(nP), init, subst(d, {n.id: nP - 1}))
        else:
            eng.symscope[nm] = tuple(eng.scope)
            v = freshleaf(eng, E0, l, nm, init)
        vals[l] = v
    for l in G.leaves:
        setleaf(eng, H, l, vals[l])
    return H, vals


def objname(o):
    if o[0] == 'v':
        return 'v%s.%x' % (o[2], o[1] & 0xffff)
    return '%s%x' % (o[0], hash(o) & 0xffffff)


def freshleaf(eng, st, l, nm, init):
    obj, path, what = l
    t = eng.type_at(obj, path)
    if what == 'size':
        return toP(node('sym', (nm,), 2, False))
    if what == 'content':
        if isinstance(t, tuple):
            el = t[1]
        else:
            c = eng.container(eng.p.strip(t)) if t is not None else None
            el = c[0] if c else root_elty(init)
        return node('cbase', (nm, el), False, False)
    if t is not None:
        return eng.make_sym(t, nm, '', False)
    if what == 'num':
        return toP(node('sym', (nm,), 0, False))
    if what == 'bool':
        return node('bsym', (nm,), False, False)
    return node('opq', (nm,), False, False)


def root_elty(c):
    while isinstance(c, N) and c.kind not in ('cbase', 'chav', 'cfill', 'clist'):
        c = c.args[0]
    if c.kind in ('cbase', 'chav'):
        return c.args[-1]
    return None


def local_syms(eng, x, tag, E0, G):
    """does a value depend on something that belongs to one iteration only?"""
    ids, inx = set(), set()
    terms._fv(x, ids, inx)
    for i in ids:
        nme = ATOMS[i].args[0]
        if isinstance(nme, str) and nme[:2] in ('n:', 'h:') and eng.symloop(nme, tag):
            return True
        if isinstance(nme, str) and nme[0] == '\u03b2':
            continue
    if inx:
        known = known_inexact(E0)
        if inx - known:
            return True
    for o in objs(x):
        if o not in E0.mem and o[0] in ('v', 't', 'c', 'h'):
            return True
    return False


def known_inexact(E0):
    k = E0.gh.get('_inx')
    if k is not None and k[0] is E0:
        return k[1]
    ids, inx = set(), set()
    for v in E0.mem.values():
        terms._fv(v, ids, inx)
    for f in E0.facts:
        terms._fv(f, ids, inx)
    E0.gh['_inx'] = (E0, inx)
    return inx


def mentions(x, node_):
    ids, inx = set(), set()
    terms._fv(x, ids, inx)
    return node_.id in ids or node_.id in inx


def probe_ids(G, vals, but=None, modes=None):
    out = set()
    modes = modes or G.mode
    for l in G.leaves:
        if l != but and modes[l][0] == 'probe':
            v = vals[l]
            if isinstance(v, P):
                s = v.single()
                if s is not None:
                    out.add(s.id)
            elif isinstance(v, N):
                out.add(v.id)
    return out


def dep(x, ids):
    a, b = set(), set()
    terms._fv(x, a, b)
    return bool((a | b) & ids)


def pcs(H, back):
    """path facts of each back state beyond the loop head, without those common to all"""
    k = len(H.facts)
    l = [b.facts[k:] for b in back]
    if len(l) > 1:
        common = set(l[0])
        for x in l[1:]:
            common &= set(x)
        l = [tuple(f for f in x if f not in common) for x in l]
    return l


def infer(eng, E0, H, back, l, vals, n, G, tag, snap):
    """mode of a leaf from one abstract iteration; None: not known yet"""
    h = vals[l]
    init = getleaf(eng, E0, l)
    bv = []
    try:
        for b in back:
            bv.append(getleaf(eng, b, l))
    except _E().Stop:
        return ('free', None)
    if any(v is None for v in bv):
        return ('free', None)
    if all(v == h or v == init for v in bv):
        return ('const', None)
    what = l[2]
    others = probe_ids(G, vals, l, snap)
    if what in ('num', 'size'):
        if not isinstance(init, P) or not isinstance(h, P) or not all(isinstance(v, P) for v in bv):
            if all(isinstance(v, (P, N)) for v in bv):
                return ('free', None)
            return ('free', None)
        ds = [v - h for v in bv]
        hs = h.single()
        if all(d == ds[0] for d in ds) and hs is not None and hs.id not in ds[0].fv() and not local_syms(eng, ds[0], tag, E0, G):
            d = ds[0]
            if not dep(d, others) and n.id not in d.fv():
                return ('ind', d)
        if hs is None:
            return ('free', None)
        pc = pcs(H, back)
        j = joinvals(list(zip(ds, pc)))
        if j is None:
            return ('free', None)
        if not dep(j, {hs.id}):
            if local_syms(eng, j, tag, E0, G):
                return None if dep(j, others) else ('free', None)
            if dep(j, others):
                return None
            b = binder(depth(j) + 1)
            return ('sum', (b, subst(j, {n.id: toP(b)})))
        # max/min
        jv = joinvals(list(zip(bv, pc)))
        f = foldform(jv, h)
        if f is not None:
            op, g = f
            if dep(g, others):
                return None
            if local_syms(eng, g, tag, E0, G):
                return ('free', None)
            b = binder(depth(g) + 1)
            return ('fold', (op, b, subst(g, {n.id: toP(b)})))
        return None if dep(j, others) else ('free', None)
    if what == 'ptr':
        E = _E()
        if isinstance(init, N) and init.kind == 'ptr' and init.args[1] and isinstance(init.args[1][-1], P):
            # iterator: re-probe with an index
            if isinstance(h, N) and h.kind != 'ptr':
                return ('indptr', ONE)
        return ('free', None)
    if what == 'content':
        return infer_content(eng, E0, H, back, l, vals, n, G, tag, others, bv)
    if what == 'bool':
        return ('free', None)
    return ('free', None)


def foldform(v, h):
    """v = max(h, g) or min(h, g)"""
    if not isinstance(v, P):
        return None
    s = v.single()
    if s is None or s.kind != 'ite':
        return None
    c, a, b = s.args
    a, b = toP(a), toP(b)
    if a == h:
        c, a, b = f_not(c), b, a
    if b != h or c.kind not in ('gt', 'ge'):
        return None
    q = c.args[0]
    d = a - h
    for sgn, op in ((1, 'max'), (-1, 'min')):
        x = d * sgn
        if f_gt(x) is c or f_ge(x) is c:
            if not (h.single() is not None and h.single().id in a.fv()):
                return op, a
    return None


def infer_content(eng, E0, H, back, l, vals, n, G, tag, others, bv):
    h = vals[l]
    links = []
    for v in bv:
        if v == h:
            links.append(None)
        elif v.kind == 'cset' and v.args[0] == h:
            links.append(((), v.args[1], v.args[2]))
        elif v.kind == 'ccomp' and v.args[0] == h:
            links.append((v.args[1], v.args[2], v.args[3]))
        else:
            return ('free', None)
    first = next(x for x in links if x is not None)
    if any(x is not None and (x[0] != first[0] or x[1] != first[1]) for x in links):
        if any(x is not None and dep(x[1], others) for x in links):
            return None
        return ('free', None)
    bs, ix, _ = first
    if dep(ix, others) or any(dep(c, others) for _, c in bs):
        return None
    # the element as it was at the loop head
    el = elem_of(eng, H, h, ix)
    pc = pcs(H, back)
    vals_ = [(x[2] if x is not None else el, p) for x, p in zip(links, pc)]
    val = joinvals(vals_)
    if val is None or not isinstance(val, (P, N)):
        return ('free', None)
    # reads of the location being written see the value before the loop
    if dep(val, {h.id}):
        init = getleaf(eng, E0, l)
        val = unread(eng, E0, val, h, ix, init)
        if val is None:
            return ('free', None)
    if dep(val, others):
        return None
    if local_syms(eng, val, tag, E0, G) or local_syms(eng, ix, tag, E0, G):
        return ('free', None)
    d = max([depth(ix), depth(val)] + [depth(toP(b)) for b, _ in bs] + [depth(c) for _, c in bs]) + 1
    b = binder(d)
    m = {n.id: toP(b)}
    ix2, val2 = subst(ix, m), subst(val, m)
    inner = tuple((x, subst(c, m)) for x, c in bs)
    c = coeff(ix2, b.id)
    if c is None or c[1].const() == 0:
        if not bs and ix == subst(ix, {n.id: ZERO}):
            return ('free', None)
        return ('free', None)
    # distinct positions
    if inner:
        outer = c[1]
        if len(inner) != 1:
            return ('free', None)
        ci = coeff(c[0], inner[0][0].id)
        if ci is None or ci[1].const() != 1:
            # column-wise: outer index has unit coefficient
            if c[1].const() == 1 and ci is not None:
                pass
            else:
                return ('free', None)
    return ('comp', (lambda cnt, b=b, inner=inner: ((b, cnt),) + inner, ix2, val2))


def elem_of(eng, H, h, ix):
    m = eng.mute
    eng.mute += 1
    try:
        return eng.cread(H, h, ix)
    finally:
        eng.mute = m


def unread(eng, E0, v, h, ix, init):
    """replace reads of the head content at the written position by reads of the initial content; None if others remain"""
    bad = []
    memo = {}

    def go(x):
        if isinstance(x, P):
            if not dep(x, {h.id}):
                return x
            r = ZERO
            for m, c in x.m.items():
                t = num(c)
                for i in m:
                    y = go(ATOMS[i])
                    t = t * toP(y)
                r = r + t
            return r
        if isinstance(x, N):
            if h.id not in x.inx and h.id not in x.fv:
                return x
            if x in memo:
                return memo[x]
            if x.kind in ('sel', 'pred', 'sp', 'opq') and x.args and isinstance(x.args[0 if x.kind != 'pred' else 1], tuple):
                a = x.args[0 if x.kind != 'pred' else 1]
                if a and a[0] == 'el' and a[1] is h:
                    if a[2] == ix:
                        r = eng.cread(E0, init, ix)
                        p = x.args[1] if x.kind != 'pred' else x.args[2]
                        if p:
                            try:
                                for f in p.strip('.').split('.'):
                                    r = eng.getpath(E0, r, (f,))
                            except Exception:
                                bad.append(x)
                                return x
                        memo[x] = r
                        return r
                    bad.append(x)
                    return x
            r = terms.rebuild(x, tuple(go(a) if isinstance(a, (P, N, tuple)) else a for a in x.args))
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(a) if isinstance(a, (P, N, tuple)) else a for a in x)
        return x
    try:
        r = go(v)
    except Exception:
        return None
    return None if bad else r


def verify(eng, E0, H, back, l, m, vals, n, G):
    mode, d = m
    h = vals[l]
    nP = toP(n)
    try:
        bv = [getleaf(eng, b, l) for b in back]
    except _E().Stop:
        return False
    if mode == 'const':
        return all(v == h for v in bv)
    if mode == 'ind':
        return all(isinstance(v, P) and (v - h == d or eng.holds(b, f_eq(v - h - d))) for b, v in zip(back, bv))
    if mode == 'sum':
        b, f = d
        x = subst(f, {b.id: nP})
        j = joinvals([(v - h if isinstance(v, P) else None, p) for v, p in zip(bv, pcs(H, back))])
        return j is not None and j == x
    if mode == 'fold':
        op, b, g = d
        j = joinvals(list(zip(bv, pcs(H, back))))
        f = foldform(j, h)
        return f is not None and f[0] == op and f[1] == subst(g, {b.id: nP})
    if mode == 'indptr':
        for b, v in zip(back, bv):
            if not (isinstance(v, N) and v.kind == 'ptr' and v.args[0] == h.args[0] and v.args[1][:-1] == h.args[1][:-1]):
                return False
            if not isinstance(v.args[1][-1], P) or v.args[1][-1] - h.args[1][-1] != d:
                return False
        return True
    if mode == 'comp':
        bs, ix, val = d
        own = bs(nP)[0][0]
        inner = bs(nP)[1:]
        m = {own.id: nP}
        ix1 = subst(ix, m)
        inner1 = tuple((x, subst(c, m)) for x, c in inner)
        pc = pcs(H, back)
        vs = []
        for v, p in zip(bv, pc):
            if v == h:
                vs.append((None, p))
            elif not inner and v.kind == 'cset' and v.args[0] == h and (v.args[1] == ix1):
                vs.append((v.args[2], p))
            elif inner and v.kind == 'ccomp' and v.args[0] == h and v.args[1] == inner1 and v.args[2] == ix1:
                vs.append((v.args[3], p))
            else:
                return False
        el = None
        if any(v is None for v, _ in vs):
            el = elem_of(eng, H, h, ix1)
            vs = [(el if v is None else v, p) for v, p in vs]
        j = joinvals(vs)
        want = subst(val, m)
        if j == want:
            return True
        return False
    return True


# ---- invariants ---------------------------------------------------------------------------------
def condforms(eng, L, H, fr):
    """the loop condition as a formula over the head state (when it is a single one)"""
    cond = L[1]
    if cond is None or L[4] or L[5]:
        return []
    w = eng.written
    eng.mute += 1
    eng.written = set()
    nthr = len(eng.handlers[-1]) if eng.handlers else 0
    out = []
    try:
        k = len(H.facts)
        # a condition may be a conjunction: facts of every satisfying path
        paths = []
        for z, c in eng.ev(cond, H.fork(), fr):
            for y, t in eng.split(z, c):
                if t:
                    paths.append(y.facts[k:])
        if len(paths) == 1:
            out = list(paths[0])
    except _E().Stop:
        pass
    finally:
        eng.mute -= 1
        eng.written = w
        if eng.handlers:
            del eng.handlers[-1][nthr:]
    res = []
    for f in out:
        res += _E()._conj(f)
    return res


def candidates(eng, L, E0, H, G, vals, n, fr):
    nP = toP(n)
    out = []
    seen = set()

    def add(f, always=False):
        if f in (TRUE, FALSE) or f in seen or f in G.dropped:
            return
        seen.add(f)
        # holds initially?
        init = at_entry(eng, f, E0, G, vals, n)
        if init is None or not eng.holds(E0, init):
            G.dropped.add(f)
            return
        out.append(f)
    conds = condforms(eng, L, H, fr)
    conds += [f for f in getattr(G, 'through', ()) if f not in conds]
    mods = {}
    for l in G.leaves:
        v = vals[l]
        if l[2] in ('num', 'size') and isinstance(v, P):
            mods[l] = v
    frees = {l: v for l, v in mods.items() if G.mode[l][0] == 'free' and v.single() is not None}
    back = {n.id: nP - 1}
    for f in conds:
        if n.id in f.fv:
            g = subst(f, back)
            if f.kind in ('ge', 'gt'):
                add(g)
                # non-strict end value
            elif f.kind == 'ne':
                # i != N: between start and N
                p = f.args[0]
                c = coeff(p, n.id)
                if c is not None and c[1].const() is not None:
                    s = 1 if c[1].const() > 0 else -1
                    add(f_ge(p * -s))
            if g not in out and f.kind != 'ne':
                h = f_or(f_eq(nP), g)
                add(h)
    # bounds of unknown numbers from the loop condition and the facts before the loop
    for l, v in frees.items():
        s = v.single()
        init = getleaf(eng, E0, l)
        if not isinstance(init, P):
            continue
        add(f_ge(v - init))
        add(f_ge(init - v))
        add(f_ge(init + nP - v))
        for f in conds:
            if f.kind in ('ge', 'gt') and n.id in f.fv:
                # i < N  =>  v <= N, v < N
                for l2, v2 in mods.items():
                    if l2 != l and G.mode[l2][0] == 'ind':
                        p = f.args[0]
                        q = p + (v2 - v if coeff_like(p, v2) else ZERO)
                        if q != p:
                            add(f_ge(q))
                            add(f_ge(q + 1))
            if f.kind in ('ge', 'gt') and s.id in f.fv:
                p = f.args[0]
                add(f_ge(p + 1))
        i1 = init.single()
        if i1 is not None and i1.kind == 'sym':
            for f in E0.facts:
                if f.kind in ('ge', 'gt') and i1.id in f.fv:
                    add(subst(f, {i1.id: v}))
        if init.const() is not None:
            for f in E0.facts:
                pass
        # relation to other modified numbers
        for l2, v2 in mods.items():
            if l2 != l and G.mode[l2][0] in ('ind', 'free'):
                add(f_ge(v2 - v))
                add(f_ge(v - v2))
    # sizes that only grow or stay
    return out


def coeff_like(p, v):
    """p contains -v's induction variable"""
    return bool(set(p.fv()) & set(v.fv()))


def at_entry(eng, f, E0, G, vals, n):
    m = {n.id: ZERO}
    for l in G.leaves:
        v = vals[l]
        if isinstance(v, P) and G.mode[l][0] in ('free', 'probe'):
            s = v.single()
            i = getleaf(eng, E0, l)
            if s is not None and s.id in f.fv:
                if not isinstance(i, P):
                    return None
                m[s.id] = i
    return subst(f, m)


def at_back(eng, f, b, G, vals, n):
    m = {n.id: toP(n) + 1}
    for l in G.leaves:
        v = vals[l]
        if isinstance(v, P) and G.mode[l][0] in ('free', 'probe'):
            s = v.single()
            if s is not None and s.id in f.fv:
                x = getleaf(eng, b, l)
                if not isinstance(x, P):
                    return None
                m[s.id] = x
    return subst(f, m)


def forall(eng, x, H, back, n, L):
    """what held in every completed iteration"""
    if not back or len(back) > 4 or not eng.opt.get('foralls'):
        return x
    k = len(H.facts)
    alts = []
    for b in back:
        fs = [f for f in b.facts[k:] if n.id in f.fv]
        alts.append(fs)
    body = FALSE
    for fs in alts:
        c = TRUE
        for f in fs:
            c = f_and(c, f)
        body = f_or(body, c)
    if body is TRUE or body is FALSE:
        return x
    b = binder(depth(body) + 1)
    x = x.fork()
    x.alls = x.alls + ((b, subst(body, {n.id: toP(b)}), toP(n)),)
    return x


def settle(eng, x, H, n):
    """replace the iteration number by its value at the exit when the facts determine it"""
    new = x.facts[len(H.facts):]
    for f in new:
        for g in _E()._conj(f):
            if n.id not in g.fv:
                continue
            p = g.args[0] if g.kind in ('ge', 'gt', 'eq') else None
            if p is None:
                continue
            c = coeff(p, n.id)
            if c is None or c[1].const() not in (1, -1):
                continue
            e = (c[0] * -c[1].const())      # n = e makes p zero
            if g.kind == 'eq' or eng.holds(x, f_eq(toP(n) - e)):
                return bind(eng, x, n, e)
            break
    return x


def bind(eng, x, n, e):
    m = {n.id: e}
    memo = {}
    y = x.fork()
    y.facts = ()
    for f in x.facts:
        g = subst(f, m, memo)
        if g is TRUE:
            continue
        for h in _E()._conj(g):
            if h not in y.facts:
                y.facts += (h,)
    if not _E()._nn(e):
        g = f_ge(e)
        if g is not TRUE and g not in y.facts:
            y.facts += (g,)
    for o, v in x.mem.items():
        if isinstance(v, (P, N)):
            w = _fvset(v)
            if n.id in w:
                y.mem[o] = subst(v, m, memo)
    y.alls = tuple((b, subst(f, m, memo), subst(c, m, memo)) for b, f, c in x.alls)
    if 'iffy' in x.gh:
        y.gh['iffy'] = tuple(subst(p, m, memo) for p in x.gh['iffy'])
    return y


def _fvset(v):
    return v.fv() if isinstance(v, P) else v.fv
