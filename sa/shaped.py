"""Entry points on operands of constant shape: classification of the parameters, plans of shapes, entry states, and the
common verdicts over exit states."""
import itertools

import engine as E_
import ir
import numeric
import sized
import sweep
import terms
from engine import Stop, pval, bval, isbool
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ne, f_eq, f_and, f_ge, f_gt, show

ITERS = {'NS::SparseMatrixIterator': 'i', 'NS::SparseMatrixRowIterator': 'r', 'NS::SparseMatrixColumnIterator': 'c'}


def kindof(p, t):
    """V vector, W vector of indices, D dense, S sparse, i/r/c sparse iterators, T number, I size, N integer, B bool, P pointer
    to a number, O other"""
    q = p.strip(t)
    k = sized.kind(p, t)
    if k == 'V':
        try:
            el = p.ty(q.targs[0]['t']).k
        except (KeyError, IndexError):
            return 'W'
        return 'V' if el == 'float' else 'W'
    if k:
        return k
    n = q.name or ''
    if n in ITERS:
        return ITERS[n]
    if q.k == 'float':
        return 'T'
    if q.k == 'uint':
        return 'I'
    if q.k == 'int':
        return 'N'
    if q.k == 'bool':
        return 'B'
    if q.k == 'ptr':
        return 'P'
    return 'O'


def operands(p, f):
    ops = []
    if f.get('rec') is not None and not f.get('static'):
        ops.append(('this', kindof(p, f['rec'])))
    for i, x in enumerate(f['params']):
        ops.append((i, kindof(p, x['t'])))
    return ops


def fixed(p, f, pos):
    """compile-time dimensions of an operand, or None"""
    t = p.strip(f['rec'] if pos == 'this' else f['params'][pos]['t'])
    seen = 0
    while t is not None and seen < 4:
        nums = [int(x['i']) for x in (t.targs or []) if 'i' in x]
        if nums and (t.name or '').startswith('NS::Fixed') or nums and (t.name or '').endswith('Matrix'):
            return tuple(nums)
        seen += 1
        nxt = None
        for x in t.targs or []:
            if 't' in x:
                y = p.ty(x['t'])
                if (y.name or '') in ('NS::DataContainer2D', 'std::array') or 'Container' in (y.name or ''):
                    nxt = y
        if nxt is None:
            return None
        if nxt.name == 'std::array':
            return (int(nxt.targs[1]['i']),)
        ns = [int(x['i']) for x in nxt.targs if 'i' in x]
        if ns:
            return tuple(ns)
        t = nxt
    return None


def scalar(E, st, vs, pos, x):
    """give a number parameter a constant value"""
    v = vs[pos]
    if isinstance(v, N) and v.kind == 'ptr':
        st.mem[v.args[0]] = num(x)
    else:
        vs[pos] = num(x)


def value(E, st, vs, pos):
    v = vs[pos]
    if isinstance(v, N) and v.kind == 'ptr':
        v = E.read(st, v)
    return v


def iterator(E, st, ptr, mat, cells, shape, k, ends=0):
    """make an iterator point at the k-th stored cell of a matrix (k = number of cells: the end)"""
    v = E.read(st, ptr)
    fs = dict(v.args[1])
    cells = sorted(cells)
    fs['mMatrix'] = mat
    if k < len(cells):
        fs['mIndex1'], fs['mIndex2'], fs['mColumnPtrIndex'] = num(cells[k][0]), num(cells[k][1]), num(k)
    else:
        fs['mIndex1'], fs['mIndex2'], fs['mColumnPtrIndex'] = num(shape[0]), num(shape[1]), num(len(cells) if ends else 0)
    E.write(st, ptr, E_.mkrec(v.args[0], fs))


class Case:
    """one entry point analysed with one plan; plan: position -> (shape, cells) | number | ('it', cell index, end variant) | None"""

    def __init__(self, p, f, plan, maxsteps=150000, join=64, cls=None, alias=None, const=None, facts=None, mshape=(2, 2), mcells=(), own=None):
        self.p, self.f, self.plan = p, f, plan
        self.A = (cls or sweep.Ana)(p, maxsteps=maxsteps, spm=False)
        self.A.JOIN = join
        self.base = {}
        self.pre = {}
        self.vals = {}
        self.alias = alias
        self.facts = facts
        self.mshape, self.mcells = mshape, mcells
        self.ops = operands(p, f)
        self.own = own

    def setup(self, E, st, this, vs):
        p, f = self.p, self.f
        self.this, self.vs = this, vs
        nm = 0
        for pos, k in self.ops:
            x = self.plan.get(pos)
            ptr = this if pos == 'this' else vs[pos]
            if k in 'VWDS' and x is not None:
                if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
                    if k == 'S':
                        raise Stop('skip')
                    o = ('p', '#%s' % pos)
                    st.mem[o] = ptr
                    q = E_.mkptr(o)
                    if not sized.resize(E, st, q, x[0]):
                        raise Stop('skip')
                    vs[pos] = st.mem[o]
                    self.base[pos] = None
                    self.vals[pos] = st.mem[o]
                    continue
                if f.get('ctor') and pos == 'this':
                    self.base[pos] = ptr
                    continue
                if k == 'S':
                    sized.layout(E, st, ptr, x[0], x[1], 'abcdef'[nm])
                    nm += 1
                    v = E.read(st, ptr)
                    E.write(st, ptr, E_.mkrec(v.args[0], dict(v.args[1], mEmpty=ZERO)))
                elif not sized.resize(E, st, ptr, x[0]):
                    raise Stop('skip')
                elif x[1] is not None:
                    sized.fill(E, st, ptr, x[1])
                self.base[pos] = ptr
            elif k in 'VWDS':
                self.base[pos] = ptr if isinstance(ptr, N) and ptr.kind == 'ptr' else None
        mat = None
        for pos, k in self.ops:
            if k == 'S' and pos in self.base and not (f.get('ctor') and pos == 'this'):
                mat = self.base[pos], self.plan[pos]
                break
        self.mat = mat
        for pos, k in self.ops:
            if k in 'irc':
                if mat is None:
                    rt = p.ty(p.strip(f['rec'] if pos == 'this' else f['params'][pos]['t']).i)
                    mt = self.mattype(rt)
                    o = ('p', 'm')
                    st.mem[o] = E.make_sym(mt, 'm')
                    E.otype[o] = mt
                    q = E_.mkptr(o)
                    sized.layout(E, st, q, self.mshape, self.mcells, 'm')
                    v = E.read(st, q)
                    E.write(st, q, E_.mkrec(v.args[0], dict(v.args[1], mEmpty=ZERO)))
                    mat = q, (self.mshape, self.mcells)
                    self.mat = mat
                ptr = this if pos == 'this' else vs[pos]
                if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
                    raise Stop('skip')
                self.base[pos] = ptr
                x = self.plan[pos]
                iterator(E, st, ptr, mat[0], mat[1][1], mat[1][0], x[1], x[2])
            elif k in 'INB' and self.plan.get(pos) is not None:
                scalar(E, st, vs, pos, self.plan[pos])
            elif k == 'P' and self.plan.get(pos) == 'null':
                vs[pos] = E_.NULL
        if self.alias:
            self.alias(self, E, st, this, vs)
        for pos, ptr in self.base.items():
            if ptr is not None:
                self.pre[pos] = E.read(st, ptr)
        if mat:
            self.st0m = E.read(st, mat[0])
        if self.facts:
            self.facts(self, E, st, this, vs)
        self.entry_mem = dict(st.mem)
        return st

    def mattype(self, it):
        """the sparse matrix type an iterator type belongs to"""
        el = it.targs[0]['t']
        for i in range(len(self.p.types)):
            t = self.p.ty(i)
            if t.name == 'NS::SparseMatrix' and t.k == 'record' and t.targs[0]['t'] == el and not t.s.startswith('const'):
                return t.i
        raise Stop('no matrix type')

    def run(self):
        self.outs, self.thr = self.A.entry(self.f, setup=self.setup)
        return self

    def exits(self):
        for st, v in self.outs:
            yield 'return', st, v
        for st, ty, e in self.thr:
            yield 'throw', st, None

    def certain(self, st):
        """a point that reaches this state, or None"""
        if st.gh.get('joined') or st.gh.get('iffy') or st.alls and False:
            return None
        return numeric.differ(st.facts, [(TRUE, FALSE)])


def layouts(shape, tier='quick'):
    r, c = shape
    cells = [(i, j) for i in range(r) for j in range(c)]
    if r * c <= 4:
        return [tuple(s) for n in range(len(cells) + 1) for s in itertools.combinations(cells, n)]
    out = [(), tuple(cells), ((0, c - 1), (1, 0)), tuple((i, i) for i in range(min(r, c)))]
    out += [((0, 0), (r - 1, c - 1)), tuple((r - 1, j) for j in range(c)), tuple((0, j) for j in range(c)),
            tuple((i, 0) for i in range(r)), ((1, c - 1),), tuple(x for x in cells if x != (1, 0)), tuple(x for x in cells if (x[0] + x[1]) % 2),
            tuple(x for x in cells if x[0] != 1)]
    seen = []
    for x in out:
        x = tuple(sorted(set(x)))
        if x not in seen:
            seen.append(x)
    return seen


def sparses(E, st, v, name, out, depth=0):
    """all sparse matrix values inside a value"""
    if isinstance(v, N) and v.kind == 'rec':
        fs = dict(v.args[1])
        if 'mRowPtr' in fs:
            out.append((name, v))
            return
        if depth < 3:
            for k, x in fs.items():
                sparses(E, st, x, name + '.' + k, out, depth + 1)


def wit(d):
    if not d:
        return ''
    return ' (e.g. %s)' % ', '.join('%s=%s' % (show(toP(ATOMS[i])) if ATOMS[i].kind not in ('bsym', 'pred') else show(ATOMS[i]), x) for i, x in list(d[0].items())[:6])
