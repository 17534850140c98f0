"""Decides that two abstract values differ: polynomials (with ite, inverse and elementary functions) are compared at points.
A point counts only when every atom is exact and every fact of the state holds there."""
import cmath
import math
import random
from fractions import Fraction

import terms
from terms import P, N, ATOMS, TRUE, FALSE, toP


class No(Exception):
    """not evaluable"""


DATA = ('sym', 'sel', 'fld', 'val')


def atoms_of(xs):
    """the data atoms below some terms; None when something is not exact"""
    out = {}
    seen = set()
    work = list(xs)
    while work:
        x = work.pop()
        if isinstance(x, P):
            for m in x.m:
                work += [ATOMS[i] for i in m]
        elif isinstance(x, N):
            if x.id in seen:
                continue
            seen.add(x.id)
            if not x.exact:
                return None
            if x.kind in ('sym', 'sel', 'fld', 'bsym') or x.kind == 'pred' and x.args[0] in ('sel', ) or x.kind == 'pred' and x.args[0] == 'nonnull':
                out[x.id] = x
            else:
                work += list(x.args)
        elif isinstance(x, tuple):
            work += list(x)
    return out


class Ev:
    def __init__(self, env, cplx=False):
        self.env = env
        self.cplx = cplx
        self.memo = {}

    def p(self, p):
        r = 0
        for m, c in p.m.items():
            t = c
            for i in m:
                t = t * self.n(ATOMS[i])
            r = r + t
        return r

    def v(self, x):
        if isinstance(x, P):
            return self.p(x)
        return self.n(x)

    def n(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self.n_(n)
            self.memo[n.id] = r
        return r

    def n_(self, n):
        if n.id in self.env:
            return self.env[n.id]
        k, a = n.kind, n.args
        if k == 'num':
            return self.p(a[0])
        if k == 'true':
            return True
        if k == 'false':
            return False
        if k in ('ge', 'gt', 'eq', 'ne'):
            x = self.p(a[0])
            if isinstance(x, complex):
                if k in ('ge', 'gt'):
                    if abs(x.imag) > 1e-12:
                        raise No()
                    x = x.real
                elif k == 'eq':
                    return abs(x) < 1e-12
                else:
                    return abs(x) >= 1e-12
            if isinstance(x, float):
                if k == 'eq':
                    return abs(x) < 1e-12
                if k == 'ne':
                    return not abs(x) < 1e-12
            return {'ge': x >= 0, 'gt': x > 0, 'eq': x == 0, 'ne': x != 0}[k]
        if k == 'and':
            return self.b(a[0]) and self.b(a[1])
        if k == 'or':
            return self.b(a[0]) or self.b(a[1])
        if k == 'not':
            return not self.b(a[0])
        if k == 'ite':
            return self.v(a[1]) if self.b(a[0]) else self.v(a[2])
        if k == 'inv':
            x = self.p(a[0])
            if abs(x) < 1e-12:
                raise No()
            return Fraction(1) / x if isinstance(x, (int, Fraction)) else 1 / x
        if k == 'idiv' or k == 'imod':
            x, y = self.p(a[0]), self.p(a[1])
            if not isinstance(x, int) or not isinstance(y, int) or y == 0 or x < 0 or y < 0:
                raise No()
            return x // y if k == 'idiv' else x % y
        if k == 'abs':
            return abs(self.p(a[0]))
        if k == 'sqrt':
            x = self.p(a[0])
            if isinstance(x, complex):
                return cmath.sqrt(x)
            if x < 0:
                raise No()
            return math.sqrt(x)
        if k == 'imagunit':
            return 1j
        if k == 'trunc':
            x = self.p(a[0])
            return int(x)
        if k == 'fn':
            xs = [self.v(y) for y in a[1:]]
            f = a[0]
            if any(isinstance(x, float) and (x != x) for x in xs):
                raise No()
            if f == 'conj':
                return xs[0].conjugate() if isinstance(xs[0], complex) else xs[0]
            if f == 'real':
                return xs[0].real if isinstance(xs[0], complex) else xs[0]
            if f == 'imag':
                return xs[0].imag if isinstance(xs[0], complex) else 0
            m = {'floor': math.floor, 'ceil': math.ceil, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp,
                 'log': math.log, 'pow': math.pow, 'fmod': math.fmod, 'hypot': math.hypot, 'acos': math.acos,
                 'asin': math.asin, 'atan': math.atan, 'atan2': math.atan2}.get(f)
            if m is None:
                raise No()
            try:
                return m(*[float(x) for x in xs])
            except (ValueError, OverflowError, TypeError):
                raise No()
        if k == 'pred' and a[0] in ('isnan', 'isinf', 'isfinite'):
            x = self.v(a[1])
            nan = x != x
            inf = isinstance(x, float) and math.isinf(x) or isinstance(x, complex) and not nan and (math.isinf(x.real) or math.isinf(x.imag))
            return {'isnan': bool(nan), 'isinf': bool(inf), 'isfinite': not nan and not inf}[a[0]]
        raise No()

    def b(self, n):
        r = self.n(n)
        if not isinstance(r, bool):
            raise No()
        return r


def close(x, y):
    if x != x or y != y:
        return (x != x) == (y != y)
    if isinstance(x, bool) or isinstance(y, bool):
        return x == y
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return abs(x - y) <= Fraction(1, 10 ** 6) * max(1, abs(x), abs(y))
    return abs(x - y) <= 1e-6 * max(1.0, abs(x), abs(y))


def differ(facts, pairs, cplx=False, tries=60, special=False, pos=None, iffy=None):
    """a point where all facts hold and one pair (got, want) differs: (assignment, index of the pair, got, want) or None.
    `pos`: function(atom) -> fixed list of candidate values"""
    pairs = [(a, b) for a, b in pairs]
    at = atoms_of(list(facts) + [x for pr in pairs for x in pr])
    if at is None:
        return None
    rnd = random.Random(7)
    ids = sorted(at)
    need = [ATOMS[i] for i in ids]
    base = {}
    import prover
    if facts:
        try:
            w = prover.witness(tuple(facts))
        except Exception:
            w = None
    else:
        w = None
    import terms
    for t in range(tries):
        if terms.LIMIT[0] is not None and terms.time.time() > terms.LIMIT[0]:
            return None
        env = {}
        for n in need:
            if n.kind in ('bsym', 'pred'):
                env[n.id] = rnd.random() < 0.5
            elif n.isint == 2:
                env[n.id] = rnd.randint(0, 4)
            elif n.isint:
                env[n.id] = rnd.randint(-3, 4)
            elif t % 3 == 0:
                env[n.id] = Fraction(rnd.randint(-40, 40), 4)
            elif t % 3 == 1:
                env[n.id] = rnd.choice((-2, -1, 0, 1, 2, 3))
            else:
                env[n.id] = rnd.choice((1, 0, 2))
            if cplx and n.kind in DATA and not n.isint:
                env[n.id] = complex(float(env[n.id]), rnd.randint(-8, 8) / 4.0)
            if special and n.kind in DATA and not n.isint and rnd.random() < 0.3:
                env[n.id] = rnd.choice((float('nan'), float('inf'), float('-inf')))
                if cplx:
                    parts = [env[n.id].real, 1.0]
                    rnd.shuffle(parts)
                    env[n.id] = complex(*parts)
        if w and t % 2 == 0:
            for i, x in w.items():
                if i in env:
                    env[i] = x
        if pos:
            for n in need:
                c = pos(n)
                if c:
                    env[n.id] = rnd.choice(c)
        e = Ev(env, cplx)
        try:
            if not all(e.b(f) for f in facts):
                continue
        except (No, OverflowError, TypeError, ZeroDivisionError):
            continue
        for k, (a, b) in enumerate(pairs):
            try:
                x, y = e.v(a), e.v(b)
                if not close(x, y):
                    return {i: env[i] for i in ids}, k, x, y
            except (No, OverflowError, TypeError, ZeroDivisionError):
                continue
    return None


def model(facts, alts):
    """a point where all facts hold and every alternative (tuple got, tuple want) differs in some component, or None"""
    at = atoms_of(list(facts) + [x for g, w in alts for x in list(g) + list(w)])
    if at is None:
        return None
    rnd = random.Random(11)
    import prover
    try:
        w = prover.witness(tuple(facts)) if facts else None
    except Exception:
        w = None
    for t in range(60):
        env = {}
        for i, n in at.items():
            if n.kind in ('bsym', 'pred'):
                env[i] = rnd.random() < 0.5
            elif n.isint:
                env[i] = rnd.randint(0, 4)
            else:
                env[i] = Fraction(rnd.randint(-40, 40), 4)
        if w and t % 2:
            env.update({i: x for i, x in w.items() if i in env and rnd.random() < 0.7})
        e = Ev(env)
        try:
            if all(e.b(f) for f in facts) and all(any(not close(e.v(a), e.v(b)) for a, b in zip(g, w2)) for g, w2 in alts):
                return env
        except (No, OverflowError, TypeError, ZeroDivisionError):
            continue
    return None
