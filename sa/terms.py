"""Symbolic terms of the abstract domain: polynomials over hash-consed atoms, and formulas.

Numbers (machine integers and floating point alike) are polynomials with rational
coefficients; everything a polynomial cannot express is an atom (a hash-consed node).
"""
from fractions import Fraction
from math import gcd
import time

_nodes = {}
ATOMS = []


class Stop(Exception):
    """the analysis of this entry point gives up (reported as undecided)"""


LIMIT = [None]      # wall-clock end of the current entry point
MAXPOLY = 60000     # monomials


def tick():
    if LIMIT[0] is not None and time.time() > LIMIT[0]:
        raise Stop('time limit')


class N:
    """A hash-consed node.  kind + args; `isint`: 1 integer valued, 2 integer and never negative; `exact`: the node
    stands for a value that really can be anything its facts allow (False: over-approximation)."""
    __slots__ = ('kind', 'args', 'isint', 'exact', 'id', 'fv', 'inx', '_h')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o


_E = frozenset()


def _fv(a, acc, inx):
    if isinstance(a, P):
        for m in a.m:
            for i in m:
                n = ATOMS[i]
                acc |= n.fv
                inx |= n.inx
    elif isinstance(a, N):
        acc |= a.fv
        inx |= a.inx
    elif isinstance(a, tuple):
        for x in a:
            _fv(x, acc, inx)


def node(kind, args=(), isint=False, exact=True):
    isint = int(isint)
    key = (kind, args, isint, exact)
    n = _nodes.get(key)
    if n is not None:
        return n
    n = N()
    n.kind, n.args, n.isint, n.exact = kind, args, isint, exact
    n.id = len(ATOMS)
    n._h = hash(('N', n.id))
    ATOMS.append(n)
    acc, inx = set(), set()
    for a in args:
        _fv(a, acc, inx)
    if kind == 'sym':
        acc.add(n.id)
    if not exact:
        inx.add(n.id)
    n.fv = frozenset(acc) if acc else _E
    n.inx = frozenset(inx) if inx else _E
    _nodes[key] = n
    return n


class P:
    __slots__ = ('m', '_h', '_fv')

    def __init__(self, m):
        self.m = m
        self._h = None
        self._fv = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.m == o.m

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)

    def __add__(self, o):
        o = toP(o)
        if not o.m:
            return self
        if not self.m:
            return o
        r = dict(self.m)
        for k, v in o.m.items():
            c = r.get(k, 0) + v
            if c:
                r[k] = c
            else:
                del r[k]
        return P(r)
    __radd__ = __add__

    def __neg__(self):
        return P({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-toP(o))

    def __rsub__(self, o):
        return toP(o) - self

    def __mul__(self, o):
        o = toP(o)
        if len(o.m) == 1 and () in o.m:
            c = o.m[()]
            return P({k: _nc(v * c) for k, v in self.m.items()})
        r = {}
        big = len(self.m) * len(o.m) > 4000
        for k1, v1 in self.m.items():
            if big:
                tick()
                if len(r) > MAXPOLY:
                    raise Stop('polynomial too large')
            for k2, v2 in o.m.items():
                k = _mulmono(k1, k2)
                c = r.get(k, 0) + v1 * v2
                if c:
                    r[k] = _nc(c)
                else:
                    r.pop(k, None)
        return P(r)
    __rmul__ = __mul__

    def const(self):
        """the constant value or None"""
        if not self.m:
            return 0
        if len(self.m) == 1 and () in self.m:
            return self.m[()]
        return None

    def isint(self):
        for k, v in self.m.items():
            if isinstance(v, Fraction) and v.denominator != 1:
                return False
            for i in k:
                if not ATOMS[i].isint:
                    return False
        return True

    def atoms(self):
        s = set()
        for k in self.m:
            s.update(k)
        return s

    def fv(self):
        if self._fv is None:
            s, x = set(), set()
            _fv(self, s, x)
            self._fv = frozenset(s)
        return self._fv

    def inexact(self):
        s, x = set(), set()
        _fv(self, s, x)
        return x

    def single(self):
        """the atom when the polynomial is exactly one atom"""
        if len(self.m) == 1:
            (k, v), = self.m.items()
            if v == 1 and len(k) == 1:
                return ATOMS[k[0]]
        return None


def _nc(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def _mulmono(a, b):
    if not a:
        return b
    if not b:
        return a
    r = list(a)
    for x in b:
        # inv atoms cancel with their base
        n = ATOMS[x]
        r.append(x)
    r.sort()
    # cancel x * inv(x)
    for x in r:
        n = ATOMS[x]
        if n.kind == 'inv':
            p = n.args[0]
            if len(p.m) == 1:
                (k, v), = p.m.items()
                if v == 1 and len(k) == 1 and k[0] in r:
                    r.remove(x)
                    r.remove(k[0])
                    return _mulmono(tuple(r), ())
    return tuple(r)


ZERO = P({})
ONE = P({(): 1})


def num(c):
    c = _nc(c)
    return P({(): c}) if c else ZERO


def toP(x):
    if isinstance(x, P):
        return x
    if isinstance(x, N):
        return P({(x.id,): 1})
    return num(x)


def sym(name, isint=True, exact=True):
    return toP(node('sym', (name,), isint, exact))


def fn(kind, *args, isint=False, exact=True):
    return toP(node(kind, args, isint, exact))


def inv(p):
    """1/p"""
    c = p.const()
    if c is not None and c != 0:
        return num(Fraction(1) / Fraction(c))
    s = p.single()
    if s is not None and s.kind == 'inv':
        return s.args[0]
    if len(p.m) == 1:
        (k, v), = p.m.items()
        r = num(Fraction(1) / Fraction(v))
        for x in k:
            n = ATOMS[x]
            r = r * (n.args[0] if n.kind == 'inv' else toP(node('inv', (toP(n),))))
        return r
    # normalise the leading coefficient so that 1/(2a+2b) and 1/(a+b) agree
    if not p.m:
        return fn('divzero', ONE, exact=False)
    lead = max(p.m)
    c = p.m[lead]
    if c != 1:
        q = p * (Fraction(1) / Fraction(c))
        return toP(node('inv', (q,))) * num(Fraction(1) / Fraction(c))
    return toP(node('inv', (p,)))


# ---- formulas ---------------------------------------------------------------------------
TRUE = node('true')
FALSE = node('false')


def _normint(p):
    g = 0
    for k, v in p.m.items():
        if k:
            g = gcd(g, int(v))
    return g


def f_ge(p):
    """p >= 0"""
    c = p.const()
    if c is not None:
        return TRUE if c >= 0 else FALSE
    if p.isint():
        g = _normint(p)
        if g > 1:
            p = P({k: (v // g) for k, v in p.m.items() if v // g})
        return node('ge', (p,))
    return node('ge', (_scale(p),))


def _scale(p):
    """positive scaling to a canonical form"""
    lead = max(k for k in p.m if k)
    c = abs(p.m[lead])
    if c != 1:
        p = p * (Fraction(1) / Fraction(c))
    return p


def f_gt(p):
    """p > 0"""
    if p.isint():
        return f_ge(p - ONE)
    c = p.const()
    if c is not None:
        return TRUE if c > 0 else FALSE
    return node('gt', (_scale(p),))


def _sign(p):
    lead = max(k for k in p.m if k)
    c = p.m[lead]
    if p.isint():
        g = gcd(_normint(p), int(p.m.get((), 0)))
        if g > 1:
            p = P({k: v // g for k, v in p.m.items()})
            c = p.m[lead]
        return -p if c < 0 else p
    if c != 1:
        p = p * (Fraction(1) / Fraction(c))
    return p


def f_eq(p):
    c = p.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if p.isint():
        g = _normint(p)
        if g > 1 and int(p.m.get((), 0)) % g:
            return FALSE
    return node('eq', (_sign(p),))


def f_ne(p):
    return f_not(f_eq(p))


def f_not(f):
    k = f.kind
    if k == 'true':
        return FALSE
    if k == 'false':
        return TRUE
    if k == 'ge':
        return f_gt(-f.args[0])
    if k == 'gt':
        return f_ge(-f.args[0])
    if k == 'eq':
        return node('ne', f.args)
    if k == 'ne':
        return node('eq', f.args)
    if k == 'not':
        return f.args[0]
    if k == 'and':
        return f_or(f_not(f.args[0]), f_not(f.args[1]))
    if k == 'or':
        return f_and(f_not(f.args[0]), f_not(f.args[1]))
    return node('not', (f,), False, f.exact)


def f_and(a, b):
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE or b is FALSE:
        return FALSE
    if a is b:
        return a
    return node('and', (a, b))


def f_or(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE or b is TRUE:
        return TRUE
    if a is b:
        return a
    return node('or', (a, b))


def bsym(name, exact=True):
    return node('bsym', (name,), False, exact)


# ---- substitution -----------------------------------------------------------------------
def subst(x, mp, memo=None):
    """Replace sym atoms (by id) by polynomials, deeply."""
    if not mp:
        return x
    if memo is None:
        memo = {}
    return _sub(x, mp, frozenset(mp), memo)


def _sub(x, mp, keys, memo):
    if isinstance(x, P):
        if not (x.fv() & keys):
            return x
        r = ZERO
        if len(x.m) > 200:
            tick()
        for k, v in x.m.items():
            t = num(v)
            for i in k:
                n = ATOMS[i]
                if i in mp:
                    t = t * mp[i]
                elif n.fv & keys:
                    t = t * toP(_sub(n, mp, keys, memo))
                else:
                    t = t * toP(n)
            r = r + t
        return r
    if isinstance(x, N):
        if not (x.fv & keys):
            return x
        if x.id in mp:
            return mp[x.id]
        r = memo.get(x)
        if r is not None:
            return r
        args = tuple(_sub(a, mp, keys, memo) for a in x.args)
        r = rebuild(x, args)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(_sub(a, mp, keys, memo) for a in x)
    if hasattr(x, 'subst'):
        return x.subst(lambda y: _sub(y, mp, keys, memo))
    return x


def replace(x, mp, memo=None):
    """Replace atoms of any kind (by id) by polynomials, deeply."""
    if memo is None:
        memo = {}
    if isinstance(x, P):
        r = ZERO
        if len(x.m) > 200:
            tick()
        for k, v in x.m.items():
            t = num(v)
            for i in k:
                t = t * (mp[i] if i in mp else toP(replace(ATOMS[i], mp, memo)))
            r = r + t
        return r
    if isinstance(x, N):
        if x.id in mp:
            return mp[x.id]
        if x in memo:
            return memo[x]
        args = tuple(replace(a, mp, memo) for a in x.args)
        r = x if all(a is b or a == b for a, b in zip(args, x.args)) else rebuild(x, args)
        memo[x] = r
        return r
    if isinstance(x, tuple):
        return tuple(replace(a, mp, memo) for a in x)
    return x


REBUILD = {}


def rebuild(x, args):
    k = x.kind
    if k == 'ge':
        return f_ge(args[0])
    if k == 'gt':
        return f_gt(args[0])
    if k == 'eq':
        return f_eq(args[0])
    if k == 'ne':
        return f_ne(args[0])
    if k == 'not':
        return f_not(args[0])
    if k == 'and':
        return f_and(*args)
    if k == 'or':
        return f_or(*args)
    if k == 'inv':
        return inv(args[0])
    h = REBUILD.get(k)
    if h:
        r = h(x, args)
        if r is not None:
            return r
    return node(k, args, x.isint, x.exact)


# ---- printing ---------------------------------------------------------------------------
def show(x, d=0):
    if d > 14:
        return '…'
    if isinstance(x, P):
        if not x.m:
            return '0'
        out = []
        for k, v in sorted(x.m.items(), key=lambda t: (len(t[0]), t[0])):
            s = '*'.join(show(ATOMS[i], d + 1) for i in k)
            if not s:
                s = str(v)
            elif v == -1:
                s = '-' + s
            elif v != 1:
                s = '%s*%s' % (v, s)
            out.append(s)
        return '+'.join(out).replace('+-', '-')
    if isinstance(x, N):
        k, a = x.kind, x.args
        if k in ('sym', 'bsym'):
            return str(a[0])
        if k == 'ge':
            return show(a[0], d + 1) + '>=0'
        if k == 'gt':
            return show(a[0], d + 1) + '>0'
        if k == 'eq':
            return show(a[0], d + 1) + '==0'
        if k == 'ne':
            return show(a[0], d + 1) + '!=0'
        if k in ('and', 'or'):
            return '(' + (' %s ' % k).join(show(b, d + 1) for b in a) + ')'
        if k in ('sel', 'sp', 'pred') and a and isinstance(a[0], tuple):
            return show(a[0], d + 1) + str(a[1])
        if k == 'cbase':
            return str(a[0]) if isinstance(a[0], str) else show(a[0], d + 1)
        if k == 'rec':
            return '{' + ', '.join('%s=%s' % (n, show(v, d + 1)) for n, v in a[1]) + '}'
        return k + '(' + ', '.join(show(b, d + 1) for b in a) + ')'
    if isinstance(x, tuple) and len(x) == 3 and x[0] == 'el':
        return '%s[%s]' % (show(x[1], d + 1), show(x[2], d + 1))
    if isinstance(x, tuple) and len(x) == 2 and x[0] == 'deref':
        return '*' + show(x[1], d + 1)
    if isinstance(x, tuple):
        return '(' + ','.join(show(b, d + 1) for b in x) + ')'
    return str(x)
