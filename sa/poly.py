"""Polynomial identities modulo the inverses of non-zero quantities."""
from fractions import Fraction

from terms import P, ATOMS, ZERO, ONE, num, toP


def deriv(p, i):
    """partial derivative of a polynomial with respect to an atom that does not occur inside other atoms"""
    r = ZERO
    for k, c in p.m.items():
        n = k.count(i)
        if n:
            m = list(k)
            m.remove(i)
            t = num(c) * num(n)
            for j in m:
                t = t * toP(ATOMS[j])
            r = r + t
    return r


def inverses(p):
    return sorted({i for k in p.m for i in k if ATOMS[i].kind == 'inv'})


def cleared(p, limit=40):
    """numerator of a polynomial over atoms and inverses; None when inverses are nested too deep"""
    for _ in range(limit):
        iv = inverses(p)
        if not iv:
            return p
        # the inverse whose argument contains most other inverses first
        i = max(iv, key=lambda x: (len(inverses(ATOMS[x].args[0])), x))
        d = ATOMS[i].args[0]
        n = max(k.count(i) for k in p.m)
        r = ZERO
        for k, c in p.m.items():
            e = k.count(i)
            t = num(c)
            for j in k:
                if j != i:
                    t = t * toP(ATOMS[j])
            for _ in range(n - e):
                t = t * d
            r = r + t
        p = r
        if len(p.m) > 20000:
            return None
    return None


def zero(p):
    """True when the polynomial vanishes wherever its inverses exist"""
    if not p.m:
        return True
    q = cleared(p)
    return q is not None and not q.m


def small(p, eps):
    """every coefficient is at most eps"""
    return all(abs(c) <= eps for c in p.m.values())
