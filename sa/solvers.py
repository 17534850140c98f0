"""Factorisations, triangular and iterative solvers, preconditioners: entry points and operand plans of constant shape."""
import itertools
import re

import engine as E_
import ir
import shaped
import sized
import sweep
from engine import Stop, mkptr
from terms import P, N, ZERO, num, toP, node, f_ge, f_gt

NS = re.compile(r'^NS::(LU|CG|Iterative)::')
LAY = {1: [((0, 0),), ()],
       2: [((0, 0), (0, 1), (1, 0), (1, 1)), ((0, 0), (1, 1)), ((0, 0), (0, 1), (1, 1)), ((0, 0), (1, 0), (1, 1)), ((0, 1), (1, 0)),
           ((0, 0), (1, 0)), ((0, 1), (1, 1)), ()],
       3: [tuple(itertools.product(range(3), repeat=2)), ((0, 0), (1, 1), (2, 2)), ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2)),
           ((0, 0), (0, 1), (1, 1), (1, 2), (2, 2)), ((0, 0), (0, 2), (1, 1), (2, 0), (2, 2)), ((0, 1), (1, 0), (2, 2)),
           ((0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (2, 2))]}
D4 = ((0, 0), (1, 1), (2, 2), (3, 3))
# larger matrices have few entries off the diagonal, dense ones too (the other entries are zero)
LAY4 = [D4, tuple(sorted(D4 + ((0, 3), (3, 0)))), tuple(sorted(D4 + ((0, 2), (2, 0), (1, 3), (3, 1)))), tuple(sorted(D4 + ((0, 1), (0, 3), (1, 0), (3, 0)))),
        tuple(sorted(D4 + ((2, 3), (3, 2))))]


def name(f):
    return re.sub(r'::serial::', '::', ir.plain(f['q']))[4:]


def entries(p, extra=()):
    out = []
    for f in sweep.entries(p):
        n = ir.plain(f['q'])
        if (NS.match(n) or any(re.match(x, n) for x in extra)) and f.get('rec') is None:
            ks = [k for _, k in shaped.operands(p, f)]
            if any(k in 'DS' for k in ks):
                out.append(f)
    return out


def size(p, f):
    """fixed dimension of the operands, None when free"""
    for pos, k in shaped.operands(p, f):
        d = shaped.fixed(p, f, pos)
        if d:
            return d[0]
    return None


def outputs(p, f):
    """matrix operands a function writes its results to"""
    return [i for i, x in enumerate(f['params']) if shaped.kindof(p, x['t']) in 'DS' and p.ty(x['t']).k == 'ref' and not p.ty(p.ty(x['t']).of).const]


def plan(p, f, n, lay, out=None, iters=2):
    pl = {}
    outs = outputs(p, f)
    for pos, k in shaped.operands(p, f):
        if k in 'DS':
            pl[pos] = ((n, n), (lay if pos not in outs else (out if out is not None else LAY[n][0] if n in LAY else tuple(itertools.product(range(n), repeat=2)))) if k == 'S' else None)
        elif k in 'VW':
            pl[pos] = ((n,), None)
        elif k == 'I':
            pl[pos] = iters
    return pl


def inputs_sparse(p, f):
    o = outputs(p, f)
    return any(k == 'S' and pos not in o for pos, k in shaped.operands(p, f))


class Case(shaped.Case):
    """stat: 'null', 'given' (a variable with unknown old contents) for pointer parameters"""

    def __init__(self, p, f, plan, stat='null', **kw):
        super().__init__(p, f, plan, **kw)
        self.stat = stat
        self.statptr = {}

    def setup(self, E, st, this, vs):
        st = super().setup(E, st, this, vs)
        self.st0 = st
        for pos, k in self.ops:
            if k == 'P':
                if self.stat == 'null':
                    vs[pos] = E_.NULL
                else:
                    o = ('p', '#stat%d' % pos)
                    st.mem[o] = toP(node('sym', ('old:stat%d' % pos,), 2))
                    E.otype[o] = self.p.ty(self.f['params'][pos]['t']).of
                    vs[pos] = mkptr(o)
                    self.statptr[pos] = vs[pos]
        return st
