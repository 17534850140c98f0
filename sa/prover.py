"""Decision procedure of the relational numeric domain: conjunctions of polynomial (in)equalities.

entails(facts, goal) is sound and incomplete: equalities are eliminated, non-linear monomials are treated
as variables related by product lemmas, and the remaining linear system is refuted by Fourier-Motzkin
elimination.  witness(facts) looks for a small integer point of the polyhedron (a definite witness)."""
import math
from fractions import Fraction
from math import gcd

from terms import (P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, f_ge, f_gt, f_eq, f_ne, f_not, f_and, f_or, node,
                   subst, rebuild, Stop, LIMIT, tick)

STAT = {'queries': 0, 'fm': 0}
_cache = {}
MAXROWS = 260
LIN = ('ge', 'gt', 'eq', 'ne')


def flatten(fs):
    """conjuncts; None when FALSE occurs"""
    out, st = [], list(fs)
    while st:
        f = st.pop()
        if f is TRUE:
            continue
        if f is FALSE:
            return None
        if f.kind == 'and':
            st.extend(f.args)
        else:
            out.append(f)
    return out


def atoms_of(f, acc):
    """atom ids occurring at polynomial level anywhere in a formula"""
    for a in f.args:
        if isinstance(a, P):
            for m in a.m:
                acc.update(m)
        elif isinstance(a, N) and a.kind in ('ge', 'gt', 'eq', 'ne', 'and', 'or', 'not'):
            atoms_of(a, acc)
        elif isinstance(a, N):
            acc.add(a.id)
    return acc


def ites(f, acc):
    for a in f.args:
        if isinstance(a, P):
            for m in a.m:
                for i in m:
                    if ATOMS[i].kind == 'ite':
                        acc.append(ATOMS[i])
        elif isinstance(a, N) and a.kind in ('ge', 'gt', 'eq', 'ne', 'and', 'or', 'not'):
            ites(a, acc)
    return acc


def replace_atom(x, n, v):
    """replace atom n (a node) by polynomial v at polynomial level"""
    if isinstance(x, P):
        if not any(n.id in m for m in x.m):
            return x
        r = ZERO
        for k, c in x.m.items():
            t = num(c)
            for i in k:
                t = t * (v if i == n.id else toP(ATOMS[i]))
            r = r + t
        return r
    if isinstance(x, N) and x.kind in ('ge', 'gt', 'eq', 'ne', 'and', 'or', 'not'):
        return rebuild(x, tuple(replace_atom(a, n, v) for a in x.args))
    return x


def entails(facts, goal, depth=0):
    if goal is TRUE:
        return True
    if goal in facts:
        return True
    key = (frozenset(facts), goal)
    r = _cache.get(key)
    if r is None:
        STAT['queries'] += 1
        tick()
        r = _entails(list(facts), goal, 0)
        _cache[key] = r
    return r


def _entails(facts, goal, depth):
    k = goal.kind
    if k == 'and':
        return all(_entails(facts, g, depth) for g in goal.args)
    if k == 'or':
        a, b = goal.args
        return _entails(facts + [f_not(a)], b, depth)
    if k == 'eq':
        if goal in facts:
            return True
        return _entails(facts, f_ge(goal.args[0]), depth) and _entails(facts, f_ge(-goal.args[0]), depth)
    return unsat(facts + [f_not(goal)], depth)


def unsat(facts, depth=0):
    fs = flatten(facts)
    if fs is None:
        return True
    fset = set(fs)
    for f in fs:
        if f_not(f) in fset:
            return True
    goal = fs and facts[-1]
    # relevance: connected component of the last formula
    fs = _relevant(fs, goal)
    # equalities: substitute solved symbols
    fs = _gauss(fs)
    if fs is None:
        return True
    fset = set(fs)
    for f in fs:
        if f_not(f) in fset:
            return True
    if depth < 5:
        ic = []
        for f in reversed(fs):
            ites(f, ic)
            if ic:
                break
        if ic:
            n = ic[0]
            c, a, b = n.args
            for g, v in ((c, a), (f_not(c), b)):
                if isinstance(v, N):
                    v = toP(v)
                sub = [replace_atom(f, n, v) for f in fs] + [g]
                if not unsat(sub, depth + 1):
                    return False
            return True
    if _linear(fs):
        return True
    if depth < 4:
        # case split on one disjunction (smallest first)
        for f in fs:
            if f.kind == 'or':
                rest = [g for g in fs if g is not f]
                if unsat(rest + [f.args[0]], depth + 1) and unsat(rest + [f.args[1]], depth + 1):
                    return True
                break
    return False


def _relevant(fs, goal):
    if goal is None or len(fs) < 12:
        return fs
    acc = atoms_of(goal, set())
    ex = set()
    for i in acc:
        ex |= ATOMS[i].fv
    acc |= ex
    infos = [(f, _allatoms(f)) for f in fs]
    out, rest = [], infos
    for _ in range(4):
        nxt = []
        add = set()
        for f, a in rest:
            if a & acc:
                out.append(f)
                add |= a
            else:
                nxt.append((f, a))
        rest = nxt
        if not add - acc:
            break
        acc |= add
    return out


_aa = {}


def _allatoms(f):
    r = _aa.get(f)
    if r is None:
        r = atoms_of(f, set())
        s = set(r)
        for i in r:
            s |= ATOMS[i].fv
        r = _aa[f] = s
    return r


def _gauss(fs):
    for _ in range(12):
        pick = None
        for f in fs:
            if f.kind == 'eq':
                p = f.args[0]
                # a symbol that occurs linearly, alone in its monomial, with unit coefficient, and nowhere else inside
                for m, c in p.m.items():
                    if len(m) == 1 and ATOMS[m[0]].kind == 'sym' and (c == 1 or c == -1):
                        s = m[0]
                        if all(s not in k for k in p.m if k != m) and \
                           not any(s in ATOMS[i].fv for k in p.m for i in k if i != s):
                            pick = (f, s, (p - P({m: c})) * (-1 if c == 1 else 1))
                            break
                if pick:
                    break
        if not pick:
            return fs
        f, s, v = pick
        extra = [f_ge(v)] if ATOMS[s].isint == 2 else []
        memo = {}
        new = []
        for g in fs:
            if g is f:
                continue
            h = subst(g, {s: v}, memo)
            if h is FALSE:
                return None
            if h is not TRUE:
                new.append(h)
        for h in extra:
            if h is FALSE:
                return None
            if h is not TRUE:
                new.append(h)
        fs = flatten(new)
        if fs is None:
            return None
    return fs


def _nonneg_atoms(mons):
    for m in mons:
        if m and all(ATOMS[i].isint == 2 or _always_pos(ATOMS[i]) for i in m):
            yield m
        elif len(m) == 2 and m[0] == m[1]:
            yield m


def _always_pos(n):
    return n.kind in ('abs', 'sqrt')


def _linear(fs):
    """is the conjunction of the (in)equalities infeasible?"""
    eqs, ges, nes = [], [], []
    for f in fs:
        if f.kind == 'ge':
            ges.append((f.args[0], False))
        elif f.kind == 'gt':
            ges.append((f.args[0], True))
        elif f.kind == 'eq':
            eqs.append(f.args[0])
        elif f.kind == 'ne':
            nes.append(f.args[0])
    if not ges and not eqs:
        return False
    STAT['fm'] += 1
    mons = set()
    for p, _ in ges:
        mons.update(p.m)
    for p in eqs + nes:
        mons.update(p.m)
    base = list(ges)
    # what is known about single atoms
    atoms = set(i for m in mons for i in m)
    for i in atoms:
        n = ATOMS[i]
        if n.isint == 2 or _always_pos(n):
            base.append((toP(n), False))
        if n.kind == 'imod':
            a, b = n.args
            base.append((b - toP(n) - ONE, False))
        if n.kind == 'idiv':
            a, b = n.args
            q = toP(n)
            md = toP(node('imod', n.args, n.isint, n.exact))
            eqs.append(q * b + md - a)
            base.append((b - md - ONE, False))
            base.append((md, False))
            mons.update((q * b + md).m)
            mons.update(a.m)
    nl = [m for m in mons if len(m) >= 2]
    if nl:
        lem = _products(base, eqs, nl)
        base += lem
        for p, _ in lem:
            mons.update(p.m)
    for m in _nonneg_atoms(mons):
        base.append((P({m: 1}), False))
    if _fm(base, eqs):
        return True
    # disequalities sharpen a non-strict bound
    ch = False
    for p in nes:
        if _fm(base + [(-p - ONE if p.isint() else -p, not p.isint())], eqs):
            base.append((p - ONE, False) if p.isint() else (p, True))
            ch = True
        elif _fm(base + [(p - ONE if p.isint() else p, not p.isint())], eqs):
            base.append((-p - ONE, False) if p.isint() else (-p, True))
            ch = True
    return ch and _fm(base, eqs)


def _products(ges, eqs, nl):
    """p >= 0 and y >= 0 give p*y >= 0, for products whose monomials matter"""
    want = set(nl)
    out = []
    facs = {}
    for m in nl:
        for i in m:
            if ATOMS[i].isint == 2 or _always_pos(ATOMS[i]):
                facs[i] = toP(ATOMS[i])
    for i, y in list(facs.items())[:8]:
        for p, strict in ges[:60]:
            if i in p.atoms() and len(p.m) == 1:
                continue
            if len(p.m) > 6 or any(len(k) > 2 for k in p.m):
                continue
            q = p * y
            hit = sum(1 for k in q.m if k in want)
            if hit and all(len(k) <= 3 for k in q.m):
                out.append((q, False))
    # equalities: multiply into wanted monomials
    for e in eqs[:]:
        if len(e.m) <= 4:
            for i, y in list(facs.items())[:6]:
                q = e * y
                if any(k in want for k in q.m) and all(len(k) <= 3 for k in q.m):
                    out.append((q, False))
                    out.append((-q, False))
    # products of two bounds (p>=0, q>=0) that create a wanted monomial
    lin = [p for p, s in ges if len(p.m) <= 3 and all(len(k) <= 1 for k in p.m)]
    if len(lin) <= 14:
        for a in range(len(lin)):
            for b in range(a, len(lin)):
                q = lin[a] * lin[b]
                ks = [k for k in q.m if len(k) >= 2]
                if ks and all(k in want for k in ks):
                    out.append((q, False))
    return out[:120]


def _fm(ges, eqs):
    """rational infeasibility by Gaussian and Fourier-Motzkin elimination; True: infeasible"""
    rows = {}

    def norm(d, c, strict, isi):
        """row sum(d)+c >= 0; integer tightening"""
        if not d:
            return None if (c > 0 or (c == 0 and not strict)) else False
        g = 0
        for v in d.values():
            g = gcd(g, v) if isinstance(v, int) else 0
            if g == 0:
                break
        if g == 0:
            # make integral
            l = 1
            for v in list(d.values()) + [c]:
                if isinstance(v, Fraction):
                    l = l * v.denominator // gcd(l, v.denominator)
            d = {k: int(v * l) for k, v in d.items()}
            c = c * l
            c = int(c) if c == int(c) else c
            g = 0
            for v in d.values():
                g = gcd(g, v)
        if g > 1:
            d = {k: v // g for k, v in d.items()}
            if isi:
                c = c // g if isinstance(c, int) else (Fraction(c) / g)
            else:
                c = Fraction(c) / g
                if c.denominator == 1:
                    c = int(c)
        return d, c, strict, isi

    def add(rows, d, c, strict, isi):
        if strict and isi and isinstance(c, int):
            c, strict = c - 1, False
        r = norm(d, c, strict, isi)
        if r is None:
            return True
        if r is False:
            return False
        d, c, strict, isi = r
        k = tuple(sorted(d.items()))
        o = rows.get(k)
        if o is None or c < o[0] or (c == o[0] and strict and not o[1]):
            rows[k] = (c, strict, isi)
        return True

    E = []
    for p in eqs:
        d = {k: v for k, v in p.m.items() if k}
        E.append((d, p.m.get((), 0)))
    G = []
    for p, s in ges:
        d = {k: v for k, v in p.m.items() if k}
        G.append((d, p.m.get((), 0), s, p.isint()))
    # Gauss
    i = 0
    while i < len(E):
        d, c = E[i]
        i += 1
        if not d:
            if c != 0:
                return True
            continue
        x = min(d, key=lambda k: (abs(d[k]) != 1, len(k), k))
        a = d[x]

        def elim(d2, c2):
            b = d2.get(x)
            if not b:
                return d2, c2
            f = Fraction(b) / a
            f = int(f) if f.denominator == 1 else f
            r = dict(d2)
            for k, v in d.items():
                w = r.get(k, 0) - f * v
                if isinstance(w, Fraction) and w.denominator == 1:
                    w = int(w)
                if w:
                    r[k] = w
                else:
                    r.pop(k, None)
            return r, c2 - f * c
        for j in range(i, len(E)):
            E[j] = elim(*E[j])
        G = [elim(d2, c2) + (s2, i2) for d2, c2, s2, i2 in G]
    for d, c, s, isi in G:
        if not add(rows, d, c, s, isi):
            return True
    # drop variables that occur with one sign only, then eliminate the cheapest
    while True:
        if not rows:
            return False
        pos, neg = {}, {}
        for k in rows:
            for x, v in k:
                (pos if v > 0 else neg)[x] = (pos if v > 0 else neg).get(x, 0) + 1
        one = [x for x in pos if x not in neg] + [x for x in neg if x not in pos]
        if one:
            one = set(one)
            rows = {k: v for k, v in rows.items() if not any(x in one for x, _ in k)}
            continue
        x = min(pos, key=lambda y: (pos[y] * neg[y] - pos[y] - neg[y], len(y), y))
        P_, N_, R_ = [], [], {}
        for k, v in rows.items():
            c = dict(k).get(x)
            if c is None:
                R_[k] = v
            elif c > 0:
                P_.append((dict(k), v, c))
            else:
                N_.append((dict(k), v, -c))
        if len(R_) + len(P_) * len(N_) > MAXROWS:
            return False
        rows = R_
        for d1, (c1, s1, i1), a1 in P_:
            for d2, (c2, s2, i2), a2 in N_:
                g = gcd(a1, a2)
                m1, m2 = a2 // g, a1 // g
                d = {k: v * m1 for k, v in d1.items()}
                for k, v in d2.items():
                    w = d.get(k, 0) + v * m2
                    if w:
                        d[k] = w
                    else:
                        d.pop(k, None)
                if not add(rows, d, c1 * m1 + c2 * m2, s1 or s2, i1 and i2):
                    return True


# ---- definite witnesses --------------------------------------------------------------------
def witness(facts, limit=4000):
    """a small integer assignment of the atoms satisfying every formula, or None.
    Only plain symbols and uninterpreted selections are assigned; derived atoms make it give up."""
    fs = flatten(facts)
    if fs is None:
        return None
    ids = set()
    for f in fs:
        _inner(f, ids)
    order = []
    for i in ids:
        n = ATOMS[i]
        if n.kind in ('sym', 'sel', 'bsym', 'fld'):
            order.append(i)
        elif n.kind in ('idiv', 'imod', 'ite'):
            pass
        else:
            order.append(i)
    deg = {i: 0 for i in order}
    fi = []
    for f in fs:
        a = set()
        _inner(f, a)
        fi.append((f, a))
        for i in a:
            if i in deg:
                deg[i] += 1
    order.sort(key=lambda i: (-deg[i], i))
    budget = [limit]
    asg = {}
    extra = {}                  # values named by bounds of a single atom
    for f in fs:
        q = f.args[0] if f.kind in ('ge', 'gt', 'eq', 'ne') and f.args and isinstance(f.args[0], P) else None
        ms = [m for m in q.m if m] if q is not None else []
        if len(ms) == 1 and len(ms[0]) == 1 and ATOMS[ms[0][0]].isint:
            x = -Fraction(q.m.get((), 0)) / q.m[ms[0]]
            for y in (math.ceil(x), math.ceil(x) + 1, math.floor(x)):
                if abs(y) > 3 and not (ATOMS[ms[0][0]].isint == 2 and y < 0):
                    extra.setdefault(ms[0][0], []).append(y)

    def ok(assigned):
        for f, a in fi:
            if assigned is None or assigned in a:
                if a <= asg.keys() or f.kind == 'or':
                    r = evalf(f, asg)
                    if r is False:
                        return False
        return True

    def go(k):
        budget[0] -= 1
        if budget[0] < 0:
            return False
        if k == len(order):
            return all(evalf(f, asg) is True for f in fs)
        n = ATOMS[order[k]]
        if n.kind == 'bsym' or n.kind in ('not',):
            dom = (True, False)
        elif n.isint == 2:
            dom = (1, 2, 0, 3, 4, 5)
        elif n.isint:
            dom = (1, 0, 2, -1, 3, -2)
        else:
            dom = (1, 2, 0, -1, 3, Fraction(1, 2))
        for v in dom + tuple(extra.get(order[k], ()))[:6]:
            asg[order[k]] = v
            if ok(order[k]) and go(k + 1):
                return True
        asg.pop(order[k], None)
        return False
    if not ok(None):
        return None
    return dict(asg) if go(0) else None


def _inner(f, ids):
    for a in f.args:
        if isinstance(a, P):
            for m in a.m:
                for i in m:
                    n = ATOMS[i]
                    if n.kind in ('idiv', 'imod'):
                        _inner(n, ids)
                    elif n.kind == 'ite':
                        _inner(n, ids)
                    else:
                        ids.add(i)
        elif isinstance(a, N):
            if a.kind in ('ge', 'gt', 'eq', 'ne', 'and', 'or', 'not'):
                _inner(a, ids)
            elif a.kind not in ('true', 'false'):
                ids.add(a.id)
    if f.kind not in ('ge', 'gt', 'eq', 'ne', 'and', 'or', 'not', 'true', 'false', 'idiv', 'imod', 'ite'):
        ids.add(f.id)


def evalp(p, asg):
    r = 0
    for m, c in p.m.items():
        t = c
        for i in m:
            n = ATOMS[i]
            if n.kind == 'ite':
                cv = evalf(n.args[0], asg)
                if cv is None:
                    return None
                v = n.args[1] if cv else n.args[2]
                v = evalp(toP(v), asg)
            elif n.kind in ('idiv', 'imod'):
                a, b = evalp(n.args[0], asg), evalp(n.args[1], asg)
                if a is None or not b:
                    return None
                v = a // b if n.kind == 'idiv' else a % b
            else:
                v = asg.get(i)
            if v is None:
                return None
            t *= v
        r += t
    return r


def evalf(f, asg):
    k = f.kind
    if k == 'true':
        return True
    if k == 'false':
        return False
    if k in LIN:
        v = evalp(f.args[0], asg)
        if v is None:
            return None
        return {'ge': v >= 0, 'gt': v > 0, 'eq': v == 0, 'ne': v != 0}[k]
    if k == 'and':
        a, b = evalf(f.args[0], asg), evalf(f.args[1], asg)
        return False if a is False or b is False else True if a and b else None
    if k == 'or':
        a, b = evalf(f.args[0], asg), evalf(f.args[1], asg)
        return True if a or b else False if a is False and b is False else None
    if k == 'not':
        a = asg.get(f.id)
        if a is None:
            b = evalf(f.args[0], asg)
            return None if b is None else not b
        return a
    return asg.get(f.id)
