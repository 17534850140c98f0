"""Abstract interpreter over the extracted program.

Domain: partitioned states (facts, memory).  Facts are formulas of the relational domain (prover.py), memory maps
objects to value trees; array contents are logs of writes over a symbolic base.  Branches whose condition is undecided
partition the state; loops are never enumerated unless their trip count is a constant: a loop is summarised by its
induction variables, accumulations, range writes and verified invariants (see loops.py)."""
from fractions import Fraction

import ir
import terms
from terms import (P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, sym, fn, inv, f_ge, f_gt, f_eq, f_ne, f_not, f_and,
                   f_or, node, subst, show)
import prover
from prover import entails, Stop

NULL = node('null')
BOOLK = ('true', 'false', 'ge', 'gt', 'eq', 'ne', 'and', 'or', 'not', 'bsym', 'pred')
W64 = 1 << 64


class St:
    __slots__ = ('facts', 'mem', 'gh', 'alls')

    def __init__(self):
        self.facts = ()
        self.mem = {}
        self.gh = {}
        self.alls = ()

    def fork(self):
        s = St()
        s.facts = self.facts
        s.mem = dict(self.mem)
        s.gh = dict(self.gh)
        s.alls = self.alls
        return s


class Frame:
    __slots__ = ('fn', 'id', 'this', 'caps', 'ret', 'brk', 'cont', 'depth', 'up')

    def __init__(self, f, fid, this, up):
        self.fn = f
        self.id = fid
        self.this = this
        self.caps = None
        self.ret = []
        self.brk = None
        self.cont = None
        self.up = up
        self.depth = up.depth + 1 if up else 0


def isbool(v):
    return isinstance(v, N) and v.kind in BOOLK


def mkptr(obj, path=()):
    return node('ptr', (obj, path))


def mkrec(ty, fields):
    return node('rec', (ty, tuple(sorted(fields.items()))))


def mkarr(size, content):
    return node('arr', (size, content))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a == b:
        return a
    if isbool(a) and isbool(b):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return f_not(c)
        return f_or(f_and(c, a), f_and(f_not(c), b))
    if isinstance(a, P) and isinstance(b, P):
        if c.kind == 'ne':
            c, a, b = f_not(c), b, a
        ii = 2 if _nn(a) and _nn(b) else 1 if a.isint() and b.isint() else 0
        return toP(node('ite', (c, a, b), ii))
    if isinstance(a, N) and isinstance(b, N) and a.kind == 'rec' and b.kind == 'rec' and a.args[0] == b.args[0]:
        fa, fb = dict(a.args[1]), dict(b.args[1])
        if fa.keys() == fb.keys():
            return mkrec(a.args[0], {k: ite(c, fa[k], fb[k]) for k in fa})
    if isinstance(a, N) and isinstance(b, N) and a.kind == 'arr' and b.kind == 'arr':
        return mkarr(ite(c, a.args[0], b.args[0]), node('cite', (c, a.args[1], b.args[1])))
    if isinstance(a, P):
        a = node('num', (a,))
    if isinstance(b, P):
        b = node('num', (b,))
    return node('ite', (c, a, b))


def _nn(p):
    c = p.const()
    if c is not None:
        return c >= 0 and c == int(c)
    return all(v > 0 and not isinstance(v, Fraction) and all(ATOMS[i].isint == 2 for i in k) for k, v in p.m.items())


def _rb_ite(x, a):
    r = ite(*a)
    if isinstance(r, P):
        s = r.single()
        if s is not None and s.kind == 'ite':
            return s
        return r
    return r


def _rb_rec(x, a):
    return node('rec', a)


def idiv(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        q = abs(ca) // abs(cb)
        return num(q if (ca >= 0) == (cb >= 0) else -q)
    if cb == 1:
        return a
    if cb:
        q = P({k: Fraction(v) / cb for k, v in a.m.items()})
        if all(x.denominator == 1 for x in q.m.values()):
            return P({k: int(v) for k, v in q.m.items()})
    sb = b.single()
    if sb is not None:
        q = {}
        ok = bool(a.m)
        for k, v in a.m.items():
            if sb.id in k:
                l = list(k)
                l.remove(sb.id)
                q[tuple(l)] = v
            else:
                ok = False
                break
        if ok:
            return P(q)
    return toP(node('idiv', (a, b), 2 if _nn(a) and _nn(b) else 1))


def imod(a, b):
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return num(ca - cb * idiv(a, b).const())
    if cb == 1:
        return ZERO
    q = idiv(a, b)
    s = q.single()
    if s is None or s.kind != 'idiv':
        return ZERO
    return toP(node('imod', (a, b), 2 if _nn(a) and _nn(b) else 1))


terms.REBUILD['ite'] = _rb_ite
terms.REBUILD['idiv'] = lambda x, a: idiv(*a)
terms.REBUILD['imod'] = lambda x, a: imod(*a)


def pval(v):
    """number from a value"""
    if isinstance(v, P):
        return v
    if isinstance(v, N):
        if v.kind == 'num':
            return v.args[0]
        if isbool(v):
            if v is TRUE:
                return ONE
            if v is FALSE:
                return ZERO
            return ite(v, ONE, ZERO)
        if v.kind == 'ite':
            return ite(v.args[0], pval(v.args[1]), pval(v.args[2]))
        if v.kind in ('undef', 'opq'):
            return toP(node('val', (v,), 0, False))
    raise Stop('number expected, got %s' % show(v))


def bval(v):
    if isinstance(v, N):
        if isbool(v):
            return v
        if v.kind == 'ite':
            return f_or(f_and(v.args[0], bval(v.args[1])), f_and(f_not(v.args[0]), bval(v.args[2])))
        if v.kind in ('ptr', 'lam', 'cstr'):
            return TRUE
        if v.kind == 'null':
            return FALSE
        if v.kind == 'sp':
            return node('pred', ('nonnull', v))
        if v.kind in ('undef', 'opq'):
            return node('pred', ('val', v), False, False)
        if v.kind == 'num':
            return f_ne(v.args[0])
    if isinstance(v, P):
        s = v.single()
        if s is not None and s.kind == 'ite':
            return f_or(f_and(s.args[0], bval(s.args[1])), f_and(f_not(s.args[0]), bval(s.args[2])))
        return f_ne(v)
    raise Stop('condition expected, got %s' % show(v))


def flt(s):
    s = str(s)
    if s in ('inf', '-inf'):
        return toP(node('infinity', (), 0)) * (-1 if s[0] == '-' else 1)
    if s == 'nan':
        return toP(node('nanv', (), 0, False))
    neg = s.startswith('-')
    t = s.lstrip('-')
    if t.lower().startswith('0x'):
        m, e = t[2:].lower().split('p')
        a, _, b = m.partition('.')
        v = Fraction(int(a + b or '0', 16), 16 ** len(b)) * Fraction(2) ** int(e)
    else:
        v = Fraction(t)
    return num(-v if neg else v)


def subst_obj(x, f):
    return f(x)


class Engine:
    UNROLL = 64
    SPLIT = 0                   # iterations of a loop without decided condition that are followed
    MAXDEPTH = 60
    RECUR = 3
    MAXSTATES = 160
    JOIN = 6

    def __init__(self, prog, **opt):
        self.p = prog
        self.mute = 0
        self.handlers = []
        self.fresh_n = 0
        self.opt = opt
        self.inlined = set()
        self.guess = {}
        self.events = []
        self.steps = 0
        self.maxsteps = opt.get('maxsteps', 400000)
        self.written = None
        self.cur = None
        self.loops = 0
        self.callstack = []
        self.scope = []
        self.guarded = set()
        self.symscope = {}
        self.otype = {}
        import models
        self.models = models.MODELS
        import loops as lp
        self.lp = lp
        import sparse as sp
        self.sp = sp
        self.spm = opt.get('spm', True)

    # ---- reporting -----------------------------------------------------------------------
    def event(self, kind, st, e, **kw):
        """override or read self.events"""
        if self.mute:
            return
        h = getattr(self, 'on_' + kind, None)
        if h:
            h(st, e, **kw)

    def fresh(self, name, isint=0, exact=True):
        self.fresh_n += 1
        return toP(node('sym', ('%s#%d' % (name, self.fresh_n),), isint, exact))

    # ---- types and symbolic values --------------------------------------------------------
    def numkind(self, ty):
        """isint code of a scalar type"""
        k = self.p.ty(ty).k
        return 2 if k == 'uint' else 1 if k in ('int', 'enum') else 0

    def allfields(self, rec):
        """(name, type, init) of all fields including bases"""
        out = []
        for b in rec.get('bases', []):
            br = self.p.rec(b['t'])
            if br:
                out += self.allfields(br)
        out += [(f['n'], f['t'], f.get('init')) for f in rec['fields']]
        return out

    def container(self, t):
        """element type and fixed size of a standard sequence, or None"""
        n = t.name or ''
        if t.k == 'array':
            return t.of, t.n
        if n == 'std::vector' or n == 'std::initializer_list':
            return t.targs[0]['t'], None
        if n == 'std::array':
            return t.targs[0]['t'], int(t.targs[1]['i'])
        if n in ('std::basic_string', 'std::__cxx11::basic_string'):
            return t.targs[0]['t'], None
        return None

    def make_sym(self, ty, base, path='', exact=True):
        """a symbolic value of a type; leaves are named base+path"""
        t = self.p.strip(ty)
        k = t.k
        if k in ('int', 'uint', 'float', 'enum'):
            return self.leaf(base, path, self.numkind(t.i), exact)
        if k == 'bool':
            if isinstance(base, str):
                return node('bsym', (base + path,), False, exact)
            return node('pred', ('sel', base, path), False, exact)
        if k == 'ptr':
            return node('sp', (base, path, t.of), False, exact)
        if self.spm and t.name == 'NS::SparseMatrix':
            return self.sp.make_sym(self, t.i, base, path, exact)
        c = self.container(t)
        if c:
            el, n = c
            nm = base + path if isinstance(base, str) else (base, path)
            size = num(n) if n is not None else self.leaf(base, path + '.size', 2, exact)
            return mkarr(size, node('cbase', (nm, el), False, exact))
        if k == 'record':
            r = self.p.rec(t.i)
            if r and r.get('full'):
                fs = {}
                for n, ft, _ in self.allfields(r):
                    fk = self.p.ty(ft).k
                    if fk in ('ref', 'rref'):
                        fs[n] = node('refv', (mkptr(('o', node('sp', (base, path + '.' + n, self.p.ty(ft).of), False, exact))),))
                    else:
                        fs[n] = self.make_sym(ft, base, path + '.' + n, exact)
                if t.name == 'NS::DataContainer2D' and 'RowCount' in fs:
                    # class invariant (established by the constructors, checked with C02)
                    fs['Container'] = mkarr(fs['RowCount'] * fs['ColumnCount'], fs['Container'].args[1])
                return mkrec(t.i, fs)
        return node('opq', (base, path, t.i), False, exact)

    def leaf(self, base, path, ii, exact=True):
        if isinstance(base, str):
            return toP(node('sym', (base + path,), ii, exact))
        return toP(node('sel', (base, path), ii, exact))

    def zero_of(self, ty):
        """value-initialised object of a type without constructor"""
        t = self.p.strip(ty)
        if t.k in ('int', 'uint', 'float', 'enum'):
            return ZERO
        if t.k == 'bool':
            return FALSE
        if t.k == 'ptr':
            return NULL
        c = self.container(t)
        if c:
            el, n = c
            return mkarr(num(n or 0), node('cfill', (self.zero_of(el),)))
        if t.k == 'record':
            r = self.p.rec(t.i)
            if r and r.get('full'):
                return mkrec(t.i, {n: self.zero_of(ft) for n, ft, _ in self.allfields(r)})
        return node('opq', ('zero', t.i))

    def undef_of(self, ty, site):
        """default-initialised storage"""
        t = self.p.strip(ty)
        if self.spm and t.name == 'NS::SparseMatrix':
            return self.sp.value(self, t.i, ZERO, ZERO, node('cfill', (ZERO,)))
        if t.k in ('int', 'uint', 'float', 'enum', 'bool', 'ptr'):
            return node('undef', (site,), False, False)
        c = self.container(t)
        if c:
            el, n = c
            if n is None:
                return mkarr(ZERO, node('cfill', (node('undef', (site,), False, False),)))
            return mkarr(num(n), node('cfill', (self.undef_of(el, site),)))
        if t.k == 'record':
            r = self.p.rec(t.i)
            if r and r.get('full'):
                return mkrec(t.i, {n: self.undef_of(ft, site + '.' + n) for n, ft, _ in self.allfields(r)})
        return node('opq', ('new', t.i, site))

    def type_at(self, obj, path):
        """declared type of a location, or None"""
        if obj[0] == 'o':
            t = obj[1].args[2]
        elif obj[0] == 'g':
            t = self.p.globals[obj[1]]['t'] if obj[1] in self.p.globals else None
        else:
            t = self.otype.get(obj)
        for c in path:
            if t is None:
                return None
            if isinstance(t, tuple):
                t = t[1]
                continue
            y = self.p.strip(t)
            if self.spm and y.name == 'NS::SparseMatrix':
                if c == 'mLog':
                    t = ('log', self.sp.elty(self, y.i))
                    continue
                t = self.size_ty()
                continue
            if isinstance(c, str):
                r = self.p.rec(y.i) if y.k == 'record' else None
                if not r:
                    return None
                t = next((ft for n, ft, _ in self.allfields(r) if n == c), None)
            else:
                k = self.container(y)
                if k:
                    t = k[0]
        return t

    def size_ty(self):
        return next(t.i for t in self.p.types if t.k == 'uint' and t.bits == 64)

    def symloop(self, name, tag):
        """does a symbol created by a loop summary belong to an iteration of loop tag?"""
        return name != 'n:' + tag and not name.startswith('h:%s:' % tag) and self.symscope.get(name, ()).count(tag) > 0

    def emit(self, st, s, v, loc, e):
        """output to a stream"""
        self.event('emit', st, e, stream=s, val=v, loc=loc)
        return st

    def fresh_pred(self, args):
        self.fresh_n += 1
        return node('pred', tuple(args) + (self.fresh_n,), False, False)

    # ---- facts ----------------------------------------------------------------------------
    def holds(self, st, f):
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if entails(st.facts, f):
            return True
        return False

    def assume(self, st, f):
        """the state restricted to f, or None when infeasible (st is not changed)"""
        if f is TRUE:
            return st
        if f is FALSE:
            return None
        if entails(st.facts, f_not(f)):
            return None
        if entails(st.facts, f):
            return st
        s = st.fork()
        s.facts = st.facts + tuple(_conj(f))
        return s

    def split(self, st, c):
        """(state, truth) partitions"""
        c = bval(c)
        out = []
        a = self.assume(st, c)
        if a is not None:
            out.append((a, True))
        if a is st and not (c is not TRUE and not entails(st.facts, c)):
            return out
        b = self.assume(st, f_not(c))
        if b is not None:
            out.append((b, False))
        return out

    # ---- joins ----------------------------------------------------------------------------
    def joinkey(self, v, out, p=()):
        if isinstance(v, N):
            if v.kind == 'rec':
                for n, x in v.args[1]:
                    self.joinkey(x, out, p + (n,))
            elif v.kind == 'arr' or v.kind == 'num':
                pass
            elif v.kind == 'ite' and _numite(v):
                pass
            else:
                out.append((p, v))

    def reduce(self, pairs, limit):
        """join (state, value) pairs that agree on everything but numbers and array contents"""
        if len(pairs) <= limit:
            return pairs
        groups = {}
        order = []
        for s, v in pairs:
            k = []
            for o in s.mem:
                if o[0] != 'g':
                    l = []
                    self.joinkey(s.mem[o], l)
                    k.append((o, tuple(l)))
            l = []
            if v is not None:
                self.joinkey(v, l)
            gh = tuple((a, b) for a, b in s.gh.items() if a in ('heap', 'freed') or isinstance(a, tuple) and a[0] == 'alive')
            key = (frozenset(k), tuple(l), gh, v is None, isinstance(v, P))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((s, v))
        out = []
        for k in order:
            g = groups[k]
            out.append(g[0] if len(g) == 1 else self.join(g))
        if len(out) > 3 * limit:
            # keep only the distinction by the returned value
            groups, order = {}, []
            for s, v in out:
                l = []
                if v is not None:
                    self.joinkey(v, l)
                gh = tuple((a, b) for a, b in s.gh.items() if a in ('heap', 'freed') or isinstance(a, tuple) and a[0] == 'alive')
                key = (tuple(l), gh, v is None, isinstance(v, P))
                if key not in groups:
                    groups[key] = []
                    order.append(key)
                groups[key].append((s, v))
            out = [groups[k][0] if len(groups[k]) == 1 else self.join(groups[k]) for k in order]
        return out

    def reduce_states(self, sts, limit):
        return [s for s, _ in self.reduce([(s, None) for s in sts], limit)] if len(sts) > limit else sts

    def join(self, g):
        s0 = g[0][0]
        st = St()
        st.gh = dict(s0.gh)
        st.gh['joined'] = True
        for s, _ in g[1:]:
            for k, v in s.gh.items():
                if isinstance(k, tuple) and k[0] in ('loop', 'alloc'):
                    st.gh[k] = max(st.gh.get(k, 0), v)
        if 'stale' in st.gh:
            for s, _ in g[1:]:
                st.gh['stale'] &= s.gh.get('stale', frozenset())
        common = [f for f in s0.facts if all(f in s.facts or f.kind in ('ge', 'gt', 'eq', 'ne') and entails(s.facts, f) for s, _ in g[1:])]
        st.facts = tuple(common)
        al = [a for a in s0.alls if all(a in s.alls for s, _ in g[1:])]
        st.alls = tuple(al)
        new = []
        memo = {}
        for o, v in s0.mem.items():
            vs = [s.mem.get(o) for s, _ in g]
            if any(x is None for x in vs):
                continue
            st.mem[o] = self.joinval(vs, self.otype.get(o), new, memo)
        r = None
        if g[0][1] is not None:
            r = self.joinval([v for _, v in g], None, new, memo)
        st.facts += tuple(new)
        return st, r

    def joinval(self, vs, ty, new, memo):
        a = vs[0]
        if all(x == a for x in vs):
            return a
        if isinstance(a, N) and a.kind == 'rec' and all(isinstance(x, N) and x.kind == 'rec' and x.args[0] == a.args[0] for x in vs):
            return mkrec(a.args[0], {n: self.joinval([_field(x, n) for x in vs], None, new, memo) for n, _ in a.args[1]})
        key = tuple(vs)
        if key in memo:
            return memo[key]
        r = None
        if all(isinstance(x, N) and x.kind == 'arr' for x in vs):
            sz = self.joinval([x.args[0] for x in vs], None, new, memo)
            c0 = a.args[1]
            if all(x.args[1] == c0 for x in vs):
                c = c0
            else:
                self.fresh_n += 1
                c = node('cbase', ('join#%d' % self.fresh_n, self.lp.root_elty(c0)), False, False)
            r = mkarr(sz, c)
        elif all(isinstance(x, P) or isinstance(x, N) and (x.kind == 'num' or x.kind == 'ite' and _numite(x)) for x in vs):
            ps = [pval(x) for x in vs]
            ii = 2 if all(_nn(x) for x in ps) else 1 if all(x.isint() for x in ps) else 0
            r = self.fresh('join', ii, False)
            cs = [x.const() for x in ps]
            if all(c is not None for c in cs):
                new.append(f_ge(r - min(cs)))
                new.append(f_ge(num(max(cs)) - r))
        elif all(isbool(x) for x in vs):
            r = self.fresh_pred(('join',))
        elif len(vs) <= 6 and all(isinstance(x, N) and x.kind in ('ptr', 'sp', 'null', 'ite') for x in vs):
            r = a
            for x in vs[1:]:
                if x != r:
                    r = node('ite', (self.fresh_pred(('join',)), r, x))
        else:
            self.fresh_n += 1
            r = node('opq', ('join', self.fresh_n), False, False)
        memo[key] = r
        return r

    # ---- memory ---------------------------------------------------------------------------
    def root(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            v = self.lazy(st, obj)
            st.mem[obj] = v
        return v

    def lazy(self, st, obj):
        if obj[0] == 'o':       # pointee of a symbolic pointer
            spn = obj[1]
            t = self.p.strip(spn.args[2])
            return self.make_sym(t.i, ('deref', spn), '', spn.exact)
        if obj[0] == 'g':
            g = self.p.globals.get(obj[1])
            if g is not None and g.get('val') is not None:
                return self.const_val(g['t'], g['val'])
            return self.make_sym(g['t'], 'global:' + g['q'])
        raise Stop('unknown object %r' % (obj,))

    def const_val(self, ty, v):
        t = self.p.strip(ty)
        if isinstance(v, list):
            el = self.container(t)[0]
            return mkarr(num(len(v)), node('clist', (tuple(self.const_val(el, x) for x in v),)))
        if v is None:
            return node('opq', ('const', ty))
        if t.k == 'float':
            return flt(v)
        if t.k == 'bool':
            return TRUE if v not in ('0', 0) else FALSE
        return num(int(v))

    def getpath(self, st, v, path):
        for i, c in enumerate(path):
            v = self.force(v)
            if isinstance(v, N) and v.kind == 'ite':
                return ite(v.args[0], self.getpath(st, v.args[1], path[i:]), self.getpath(st, v.args[2], path[i:]))
            if isinstance(c, str):
                if v.kind == 'rec':
                    v = _field(v, c)
                elif v.kind == 'opq':
                    return node('opq', (v, c), False, False)
                else:
                    raise Stop('field %s of %s' % (c, show(v)))
            else:
                if v.kind == 'arr':
                    v = self.cread(st, v.args[1], c)
                elif v.kind == 'rec' and c.const() == 0:
                    pass            # pointer to a single object used as an array of one
                elif isinstance(v, P) or v.kind in ('undef',):
                    pass
                else:
                    return node('opq', (v, c), False, False)
        return v

    def force(self, v):
        return v

    def setpath(self, st, v, path, x):
        if not path:
            return x
        c = path[0]
        if isinstance(v, N) and v.kind == 'ite':
            return ite(v.args[0], self.setpath(st, v.args[1], path, x), self.setpath(st, v.args[2], path, x))
        if isinstance(c, str):
            if v.kind != 'rec':
                return v
            fs = dict(v.args[1])
            fs[c] = self.setpath(st, fs[c], path[1:], x)
            return mkrec(v.args[0], fs)
        if v.kind != 'arr':
            if c.const() == 0:
                return self.setpath(st, v, path[1:], x)
            return v
        if len(path) > 1:
            x = self.setpath(st, self.cread(st, v.args[1], c), path[1:], x)
        return mkarr(v.args[0], self.cset(st, v.args[1], c, x))

    def read(self, st, ptr, e=None):
        if ptr.kind == 'ite':
            return ite(ptr.args[0], self.read(st, ptr.args[1], e), self.read(st, ptr.args[2], e))
        if ptr.kind == 'ptr':
            v = self.getpath(st, self.root(st, ptr.args[0]), ptr.args[1])
            if self.opt.get('reads'):
                self.event('read', st, e, ptr=ptr)
            return v
        if ptr.kind in ('null', 'undef'):
            self.event('deref', st, e, ptr=ptr, how='read')
            return node('opq', ('bad', str(e and e.get('l'))), False, False)
        if ptr.kind == 'cstr':
            return node('opq', ('char',), False, False)
        return node('opq', ('deref', ptr), False, False)

    def write(self, st, ptr, v, e=None):
        """destructive update of st (callers fork at branches)"""
        if ptr.kind == 'ptr':
            obj, path = ptr.args
            if self.written is not None:
                self.written.add((obj, path))
            self.event('write', st, e, ptr=ptr, val=v)
            st.mem[obj] = self.setpath(st, self.root(st, obj), path, v) if path else v
            return
        if ptr.kind == 'ite':
            c, a, b = ptr.args
            self.write(st, a, ite(c, v, self.read(st, a)), e)
            self.write(st, b, ite(c, self.read(st, b), v), e)
            return
        if ptr.kind in ('null', 'undef'):
            self.event('deref', st, e, ptr=ptr, how='write')
            return
        if ptr.kind in ('opq', 'cstr'):
            return
        raise Stop('write through %s' % show(ptr))

    # ---- array contents -------------------------------------------------------------------
    def cset(self, st, c, i, v):
        if c.kind == 'cset':
            d = (i - c.args[1]).const()
            if d == 0:
                return node('cset', (c.args[0], i, v))
            if d is not None and i.const() is not None and i.const() < c.args[1].const():
                # constant indices in increasing order: equal contents get equal logs
                return node('cset', (self.cset(st, c.args[0], i, v), c.args[1], c.args[2]))
        if c.kind == 'clist' and i.const() is not None and 0 <= i.const() < len(c.args[0]):
            l = list(c.args[0])
            l[i.const()] = v
            return node('clist', (tuple(l),))
        return node('cset', (c, i, v))

    def cread(self, st, c, k, fuel=40):
        k_ = c.kind
        if fuel <= 0:
            return self.elem_inexact(c, k)
        if k_ == 'cset':
            b, i, v = c.args
            d = k - i
            dc = d.const()
            if dc == 0:
                return v
            if dc is not None:
                return self.cread(st, b, k, fuel - 1)
            if self.holds(st, f_ne(d)):
                return self.cread(st, b, k, fuel - 1)
            if self.holds(st, f_eq(d)):
                return v
            return ite(f_eq(d), v, self.cread(st, b, k, fuel - 1))
        if k_ == 'cbase':
            nm, el = c.args
            if el is None:
                return toP(node('sel', (('el', c, k), ''), 0, False))
            return self.make_sym(el, ('el', c, k), '', c.exact)
        if k_ == 'cfill':
            return c.args[0]
        if k_ == 'clist':
            l = c.args[0]
            kc = k.const()
            if kc is not None:
                return l[kc] if 0 <= kc < len(l) else node('opq', ('oob',), False, False)
            if not l:
                return node('opq', ('oob',), False, False)
            r = l[-1]
            for j in range(len(l) - 2, -1, -1):
                r = ite(f_eq(k - j), l[j], r)
            return r
        if k_ == 'cite':
            f = c.args[0]
            if self.holds(st, f):
                return self.cread(st, c.args[1], k, fuel - 1)
            if self.holds(st, f_not(f)):
                return self.cread(st, c.args[2], k, fuel - 1)
            return ite(f, self.cread(st, c.args[1], k, fuel - 1), self.cread(st, c.args[2], k, fuel - 1))
        if k_ == 'cins':
            b, i, v = c.args
            d = k - i
            if self.holds(st, f_eq(d)):
                return v
            if self.holds(st, f_gt(-d)):
                return self.cread(st, b, k, fuel - 1)
            if self.holds(st, f_gt(d)):
                return self.cread(st, b, k - 1, fuel - 1)
            return ite(f_eq(d), v, ite(f_gt(d), self.cread(st, b, k - 1, fuel - 1), self.cread(st, b, k, fuel - 1)))
        if k_ == 'cdel':
            b, i = c.args
            d = k - i
            if self.holds(st, f_gt(-d)):
                return self.cread(st, b, k, fuel - 1)
            if self.holds(st, f_ge(d)):
                return self.cread(st, b, k + 1, fuel - 1)
            return ite(f_ge(d), self.cread(st, b, k + 1, fuel - 1), self.cread(st, b, k, fuel - 1))
        if k_ == 'ccat':        # base up to n, then the fill value / other content
            b, n, o = c.args
            d = k - n
            if self.holds(st, f_gt(-d)):
                return self.cread(st, b, k, fuel - 1)
            if self.holds(st, f_ge(d)):
                return self.cread(st, o, d, fuel - 1)
            return ite(f_ge(d), self.cread(st, o, d, fuel - 1), self.cread(st, b, k, fuel - 1))
        if k_ == 'coff':        # view shifted by an offset
            b, n = c.args
            return self.cread(st, b, k + n, fuel - 1)
        if k_ == 'ccomp':
            return self.lp.comp_read(self, st, c, k, fuel)
        if k_ == 'chav':
            b, nm, lo, hi, el = c.args
            if hi is not None and self.holds(st, f_gt(k - hi)) or lo is not None and self.holds(st, f_gt(lo - k)):
                return self.cread(st, b, k, fuel - 1)
            return self.make_sym(el, ('el', node('cbase', (nm, el), False, False), k), '', False)
        raise Stop('content ' + k_)

    def elem_inexact(self, c, k):
        b = c
        while b.kind not in ('cbase', 'cfill', 'clist', 'chav'):
            b = b.args[0]
        el = b.args[-1] if b.kind in ('cbase', 'chav') else None
        if el is None:
            return toP(node('sel', (('el', c, k), ''), 0, False))
        return self.make_sym(el, ('el', c, k), '', False)

    # ---- expressions ----------------------------------------------------------------------
    def ev(self, e, st, fr):
        """list of (state, value); an lvalue expression yields a pointer"""
        self.steps += 1
        if self.steps & 1023 == 0:
            prover.tick()
        if self.steps > self.maxsteps:
            raise Stop('step limit')
        if e is None:
            return [(st, None)]
        k = e['k']
        if 'c' in e and not e.get('lv'):
            t = self.p.ty(e['t'])
            if t.k == 'bool':
                return [(st, TRUE if e['c'] not in ('0', 'false') else FALSE)]
            if t.k != 'ptr':
                return [(st, num(int(e['c'])))]
        return getattr(self, 'x_' + k)(e, st, fr)

    def evs(self, es, st, fr):
        """evaluate a list of expressions: list of (state, [values])"""
        out = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in out:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def x_int(self, e, st, fr):
        return [(st, num(int(e['v'])))]

    def x_flt(self, e, st, fr):
        return [(st, flt(e['v']))]

    def x_bool(self, e, st, fr):
        return [(st, TRUE if e['v'] else FALSE)]

    def x_str(self, e, st, fr):
        return [(st, node('cstr', (e['v'],)))]

    def x_null(self, e, st, fr):
        return [(st, NULL)]

    def x_this(self, e, st, fr):
        return [(st, fr.this)]

    def x_fn(self, e, st, fr):
        return [(st, node('fnp', (e['f']['id'],)))]

    def x_sizeof(self, e, st, fr):
        return [(st, num(int(e.get('c', 8))))]

    def x_unk(self, e, st, fr):
        raise Stop('unsupported expression %s' % e.get('w'))

    def x_zero(self, e, st, fr):
        return [(st, self.zero_of(e['t']))]

    def varloc(self, e, fr):
        i = e['id']
        if e.get('g') and i in self.p.globals:
            return mkptr(('g', i))
        f = fr
        while f is not None:
            if f.caps and i in f.caps:
                return f.caps[i]
            if f.fn is None or True:
                break
        return mkptr(('v', fr.id, i))

    def x_var(self, e, st, fr):
        loc = self.varloc(e, fr)
        t = self.p.ty(e['t'])
        if loc.kind == 'ptr' and loc.args[0][0] == 'v':
            v = st.mem.get(loc.args[0])
            if isinstance(v, N) and v.kind == 'refv':
                if 'stale' in st.gh and loc.args[0] in st.gh['stale']:
                    self.event('stale', st, e, ptr=v.args[0])
                return [(st, v.args[0])]
            if v is None:
                raise Stop('variable %s has no storage' % e.get('n'))
        return [(st, loc)]

    def x_load(self, e, st, fr):
        out = []
        for s, p in self.ev(e['e'], st, fr):
            if not (isinstance(p, N) and p.kind in ('ptr', 'ite', 'null', 'undef', 'sp', 'opq', 'cstr')):
                out.append((s, p))      # prvalue used as lvalue
                continue
            p = self.topl(s, p, e)
            v = self.read(s, p, e)
            out.append((s, self.loaded(s, v, e, p)))
        return out

    def loaded(self, st, v, e, p=None):
        """value read as the expression's type"""
        t = self.p.ty(e['t'])
        if isinstance(v, N) and v.kind == 'undef':
            self.event('undef', st, e, ptr=p)
            return self.make_sym(e['t'], ('undefined', v), '', False)
        if isinstance(v, N) and v.kind == 'opq' and t.k in ('int', 'uint', 'float', 'enum', 'bool', 'ptr'):
            return self.make_sym(e['t'], ('opaque', v), '', False)
        if isinstance(v, N) and v.kind == 'refv':
            return v.args[0]
        return v

    def topl(self, st, p, e):
        """make a pointer value usable as a location"""
        if isinstance(p, N) and p.kind == 'sp':
            return mkptr(('o', p))
        if isinstance(p, N) and p.kind == 'ite':
            return node('ite', (p.args[0], self.topl(st, p.args[1], e), self.topl(st, p.args[2], e)))
        return p

    def x_tmp(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if e['e'].get('lv'):
                out.append((s, v))
                continue
            o = ('t', fr.id, id(e))
            s = s.fork()
            s.mem[o] = v
            out.append((s, mkptr(o)))
        return out

    def x_mem(self, e, st, fr):
        out = []
        for s, b in self.ev(e['b'], st, fr):
            if e.get('arrow') or e['b'].get('lv'):
                for s2, b2 in self.split_ptr(s, b):
                    out.append((s2, self.fieldptr(s2, b2, e['f'], e)))
            else:
                out.append((s, self.getpath(s, b, (e['f'],))))
        # reference fields
        if True:
            res = []
            for s, p in out:
                if isinstance(p, N) and p.kind == 'ptr':
                    v = self.peek(s, p)
                    if isinstance(v, N) and v.kind == 'refv':
                        p = v.args[0]
                res.append((s, p))
            out = res
        return out

    def peek(self, st, p):
        m, w = self.mute, self.written
        self.mute += 1
        try:
            return self.read(st, p)
        except Stop:
            return None
        finally:
            self.mute = m

    def split_ptr(self, st, p):
        """partition on conditional pointers"""
        if isinstance(p, N) and p.kind == 'ite':
            out = []
            for s, t in self.split(st, p.args[0]):
                out += self.split_ptr(s, p.args[1] if t else p.args[2])
            return out
        return [(st, p)]

    def fieldptr(self, st, b, f, e):
        b = self.topl(st, b, e)
        if b.kind == 'ptr':
            self.checkptr(st, b, e)
            return mkptr(b.args[0], b.args[1] + (f,))
        if b.kind in ('null', 'undef'):
            self.event('deref', st, e, ptr=b, how='member')
        if b.kind == 'opq':
            return node('opq', (b, f), False, False)
        if b.kind == 'rec':
            return self.getpath(st, b, (f,))
        return node('opq', (b, f), False, False)

    def checkptr(self, st, b, e):
        """element access through a pointer: index within the array"""
        self.event('useptr', st, e, ptr=b)

    def index(self, st, base, i, e, size=None):
        """location of element i of the array at location base; reports the bounds obligation"""
        base = self.topl(st, base, e)
        if base.kind == 'ptr':
            if size is None:
                a = self.peek(st, base)
                if isinstance(a, N) and a.kind == 'arr':
                    size = a.args[0]
            if size is not None:
                self.event('index', st, e, idx=i, size=size, base=base)
            return mkptr(base.args[0], base.args[1] + (i,))
        return node('opq', (base, 'elem'), False, False)

    def x_sub(self, e, st, fr):
        out = []
        for s, (b, i) in self.evs([e['b'], e['i']], st, fr):
            i = pval(i)
            for s, b in self.split_ptr(s, b):
                b = self.topl(s, b, e)
                if isinstance(b, N) and b.kind == 'ptr' and e['b'].get('lv') and self.p.ty(e['b']['t']).k == 'array':
                    out.append((s, self.index(s, b, i, e)))
                else:
                    out.append((s, self.ptradd(s, b, i, e, True)))
        return out

    def ptradd(self, st, p, i, e, check=False):
        """pointer arithmetic: pointers into arrays end with an index"""
        if p.kind == 'ptr':
            path = p.args[1]
            if path and isinstance(path[-1], P):
                j = path[-1] + i
                q = mkptr(p.args[0], path[:-1] + (j,))
                if check:
                    a = self.peek(st, mkptr(p.args[0], path[:-1]))
                    if isinstance(a, N) and a.kind == 'arr':
                        self.event('index', st, e, idx=j, size=a.args[0], base=mkptr(p.args[0], path[:-1]))
                return q
            a = self.peek(st, p)
            if isinstance(a, N) and a.kind == 'arr':
                if check:
                    self.event('index', st, e, idx=i, size=a.args[0], base=p)
                return mkptr(p.args[0], path + (i,))
            if check:
                self.event('index', st, e, idx=i, size=ONE, base=p)
            return p if i.const() == 0 else node('opq', (p, 'off'), False, False)
        if p.kind in ('null', 'undef') and check:
            self.event('deref', st, e, ptr=p, how='index')
        return node('opq', (p, 'off'), False, False)

    def x_cast(self, e, st, fr):
        ck = e['ck']
        out = []
        for s, v in self.ev(e['e'], st, fr):
            out += self.cast(s, v, ck, e)
        return out

    def cast(self, s, v, ck, e):
        if ck in ('base', 'constcast', 'BaseToDerived', 'Dynamic', 'BitCast', 'FloatingCast', 'NoOp', 'LValueBitCast'):
            return [(s, v)]
        if ck == 'IntegralCast':
            t, f = self.p.ty(e['t']), self.p.ty(e['e']['t'])
            if isbool(v):
                v = pval(v)
            v = pval(v)
            if t.k == 'uint' and f.k in ('int', 'enum'):
                c = v.const()
                if c is not None:
                    return [(s, num(c % (1 << t.bits)))]
                if self.holds(s, f_ge(v)):
                    return [(s, v)]
                out = []
                for s2, ok in self.split(s, f_ge(v)):
                    out.append((s2, v if ok else v + (1 << t.bits)))
                return out
            if t.k == 'int' and f.k == 'uint':
                c = v.const()
                if c is not None and c >= 1 << (t.bits - 1):
                    c %= 1 << t.bits
                    return [(s, num(c - (1 << t.bits) if c >= 1 << (t.bits - 1) else c))]
            return [(s, v)]
        if ck == 'IntegralToFloating':
            return [(s, pval(v))]
        if ck == 'FloatingToIntegral':
            v = pval(v)
            c = v.const()
            if c is not None:
                return [(s, num(int(c)))]
            if v.isint():
                return [(s, v)]
            return [(s, fn('trunc', v, isint=self.numkind(e['t'])))]
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return [(s, self.nonnull(s, v))]
        if ck == 'NullToPointer':
            return [(s, NULL)]
        if ck == 'ArrayToPointerDecay':
            if v.kind == 'ptr':
                return [(s, mkptr(v.args[0], v.args[1] + (ZERO,)))]
            return [(s, v)]
        if ck == 'ToVoid':
            return [(s, None)]
        if ck == 'UserDefinedConversion' or ck == 'ConstructorConversion':
            return [(s, v)]
        raise Stop('cast ' + ck)

    def nonnull(self, s, v):
        return bval(v)

    # -- operators
    def x_un(self, e, st, fr):
        op = e['op']
        out = []
        if op in ('++', '--', 'post++', 'post--'):
            for s, l in self.ev(e['e'], st, fr):
                l = self.topl(s, l, e)
                v = self.loaded(s, self.read(s, l, e), e['e'], l)
                d = 1 if '++' in op else -1
                for s2, nv in self.addsub(s, v, num(d), e['e']['t'], e):
                    s2 = s2.fork()
                    self.write(s2, l, nv, e)
                    out.append((s2, v if op.startswith('post') else (l if e.get('lv') else nv)))
            return out
        for s, v in self.ev(e['e'], st, fr):
            if op == '!':
                out.append((s, f_not(bval(v))))
            elif op == '-':
                t = self.p.ty(e['t'])
                if t.k == 'uint':
                    out += self.addsub(s, ZERO, -pval(v), e['t'], e)
                else:
                    out.append((s, -pval(v)))
            elif op == '+':
                out.append((s, v))
            elif op == '*':
                for s2, v2 in self.split_ptr(s, v):
                    v2 = self.topl(s2, v2, e)
                    if v2.kind in ('null', 'undef'):
                        self.event('deref', s2, e, ptr=v2, how='*')
                    if v2.kind == 'ptr' and v2.args[1] and isinstance(v2.args[1][-1], P):
                        v2 = self.ptradd(s2, v2, ZERO, e, True)
                    out.append((s2, v2))
            elif op == '&':
                out.append((s, v))
            elif op == '~':
                out.append((s, fn('bitnot', pval(v), isint=self.numkind(e['t']))))
            else:
                raise Stop('unary ' + op)
        return out

    def addsub(self, s, a, b, ty, e):
        """a + b in the arithmetic of type ty (unsigned subtraction wraps)"""
        t = self.p.strip(ty)
        if isinstance(a, N) and not isbool(a) and a.kind in ('ptr', 'ite', 'opq', 'null', 'sp', 'undef', 'cstr'):
            if a.kind == 'num':
                a = a.args[0]
            elif a.kind == 'ptr':
                return [(s, self.ptradd(s, a, pval(b), e))]
            elif a.kind == 'ite':
                out = []
                for s2, a2 in self.split_ptr(s, a):
                    out += self.addsub(s2, a2, b, ty, e)
                return out
            else:
                return [(s, node('opq', (a, 'arith'), False, False))]
        r = pval(a) + pval(b)
        if t.k == 'uint':
            if _nn(r):
                return [(s, r)]
            c = r.const()
            if c is not None:
                return [(s, num(c % (1 << (t.bits or 64))))]
            if any(v < 0 for v in r.m.values()):
                if self.holds(s, f_ge(r)):
                    return [(s, r)]
                out = []
                for s2, ok in self.split(s, f_ge(r)):
                    if not ok:
                        self.event('wrap', s2, e, val=r)
                    out.append((s2, r if ok else r + (1 << (t.bits or 64))))
                return out
        return [(s, r)]

    def arith(self, s, op, a, b, ty, e):
        t = self.p.strip(ty)
        if op == '+':
            if isinstance(b, N) and b.kind in ('ptr', 'opq', 'sp') and not isinstance(a, N):
                a, b = b, a
            return self.addsub(s, a, b, ty, e)
        if op == '-':
            if isinstance(a, N) and isinstance(b, N) and a.kind in ('ptr', 'ite', 'opq', 'null', 'sp', 'undef') and not isbool(a):
                d = self.ptrdiff(s, a, b)
                return [(s, d)]
            return self.addsub(s, a, -pval(b), ty, e)
        if op == ',':
            return [(s, b)]
        a, b = pval(a), pval(b)
        if op == '*':
            return [(s, a * b)]
        if op in ('/', '%'):
            if t.k in ('int', 'uint', 'enum'):
                self.event('idiv', s, e, num=a, den=b)
                if b.const() == 0:
                    return []
                return [(s, idiv(a, b) if op == '/' else imod(a, b))]
            self.event('fdiv', s, e, num=a, den=b)
            if b.const() == 0:
                return [(s, fn('divzero', a, exact=False))]
            rt = b.single()
            if rt is not None and rt.kind == 'sqrt' and rt.args[0] == a:
                return [(s, b)]
            return [(s, a * inv(b))]
        if a.const() is not None and b.const() is not None:
            x, y = a.const(), b.const()
            if op == '<<':
                return [(s, num(x << y))]
            if op == '>>':
                return [(s, num(x >> y))]
            if op == '&':
                return [(s, num(x & y))]
            if op == '|':
                return [(s, num(x | y))]
            if op == '^':
                return [(s, num(x ^ y))]
        if op in ('&', '|', '^') and t.k == 'bool':
            fa, fb = bval(a), bval(b)
            return [(s, pval(f_and(fa, fb) if op == '&' else f_or(fa, fb) if op == '|' else f_or(f_and(fa, f_not(fb)), f_and(f_not(fa), fb))))]
        if op == '<<' and b.const() is not None:
            return [(s, a * (1 << b.const()))]
        return [(s, fn('bit' + op, a, b, isint=self.numkind(t.i)))]

    def ptrdiff(self, s, a, b):
        if a.kind == 'ptr' and b.kind == 'ptr' and a.args[0] == b.args[0]:
            pa, pb = a.args[1], b.args[1]
            if len(pa) == len(pb) and pa[:-1] == pb[:-1] and pa and isinstance(pa[-1], P):
                return pa[-1] - pb[-1]
        return toP(node('val', (node('opq', (a, b, 'diff')),), 1, False))

    def ptreq(self, s, a, b):
        if a is b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if isinstance(x, N) and x.kind == 'ite':
                return f_or(f_and(x.args[0], self.ptreq(s, x.args[1], y)), f_and(f_not(x.args[0]), self.ptreq(s, x.args[2], y)))
        for x, y in ((a, b), (b, a)):
            if x.kind == 'null':
                if y.kind in ('ptr', 'cstr', 'fnp', 'lam'):
                    return FALSE
                if y.kind == 'sp':
                    return f_not(bval(y))
        if a.kind == 'ptr' and b.kind == 'ptr':
            if a.args[0] != b.args[0]:
                return self.objeq(s, a, b)
            pa, pb = a.args[1], b.args[1]
            if len(pa) != len(pb):
                # &obj versus pointer to its first element
                return node('pred', ('same', a, b), False, False)
            r = TRUE
            for x, y in zip(pa, pb):
                if isinstance(x, str) or isinstance(y, str):
                    if x != y:
                        return FALSE
                else:
                    r = f_and(r, f_eq(x - y))
            return r
        if a.kind == 'sp' and b.kind == 'sp' or a.kind in ('sp', 'ptr') and b.kind in ('sp', 'ptr'):
            sp, o = (a, b) if a.kind == 'sp' else (b, a)
            if o.kind == 'ptr':
                if o.args[0] == ('o', sp) and not o.args[1]:
                    return TRUE
                if o.args[0][0] in ('h', 'v', 't') and self.is_entry(sp):
                    return FALSE
            x, y = (a, b) if a._h <= b._h else (b, a)
            return node('pred', ('same', x, y))
        if a.kind == 'cstr' and b.kind == 'cstr':
            return node('pred', ('same', a, b), False, False)
        return node('pred', ('same', a, b), False, False)

    def is_entry(self, sp):
        """a pointer that existed when the analysed function was entered"""
        return sp.exact

    def objeq(self, s, a, b):
        oa, ob = a.args[0], b.args[0]
        if oa[0] == 'o' and ob[0] == 'o' and not a.args[1] and not b.args[1]:
            x, y = (oa[1], ob[1]) if oa[1]._h <= ob[1]._h else (ob[1], oa[1])
            return node('pred', ('same', x, y))
        return FALSE

    def compare(self, s, op, a, b):
        if isinstance(a, N) and a.kind == 'num':
            a = a.args[0]
        if isinstance(b, N) and b.kind == 'num':
            b = b.args[0]
        pa = isinstance(a, N) and not isbool(a) and a.kind != 'undef'
        pb = isinstance(b, N) and not isbool(b) and b.kind != 'undef'
        if pa and pb and not (a.kind == 'ite' and _numite(a)) and not (b.kind == 'ite' and _numite(b)):
            if op in ('==', '!='):
                r = self.ptreq(s, a, b)
                return r if op == '==' else f_not(r)
            d = self.ptrdiff(s, a, b)
        elif isbool(a) and isbool(b) and op in ('==', '!='):
            r = f_or(f_and(a, b), f_and(f_not(a), f_not(b)))
            return r if op == '==' else f_not(r)
        else:
            d = pval(a) - pval(b)
            if op in ('==', '!=') and not d.m and not pval(a).isint() and pval(a).const() is None:
                r = node('pred', ('isnan', pval(a)))        # x != x holds for NaN only
                return r if op == '!=' else f_not(r)
        return {'==': f_eq, '!=': f_ne, '<': lambda x: f_gt(-x), '>': f_gt, '<=': lambda x: f_ge(-x), '>=': f_ge}[op](d)

    def x_bin(self, e, st, fr):
        op = e['op']
        out = []
        if op in ('&&', '||'):
            for s, a in self.ev(e['a'], st, fr):
                for s2, t in self.split(s, a):
                    if t == (op == '&&'):
                        out += [(s3, bval(b)) for s3, b in self.ev(e['b'], s2, fr)]
                    else:
                        out.append((s2, FALSE if op == '&&' else TRUE))
            return out
        for s, (a, b) in self.evs([e['a'], e['b']], st, fr):
            if op == ',':
                out.append((s, b))
            elif op in ('==', '!=', '<', '>', '<=', '>='):
                out.append((s, self.compare(s, op, a, b)))
            else:
                out += self.arith(s, op, a, b, e['t'], e)
        return out

    def x_assign(self, e, st, fr):
        out = []
        for s, (b, a) in self.evs([e['b'], e['a']], st, fr):
            for s, a in self.split_ptr(s, self.topl(s, a, e)):
                s = s.fork()
                self.write(s, a, self.boolfix(b, e['a']['t']), e)
                out.append((s, a if e.get('lv') else b))
        return out

    def boolfix(self, v, ty):
        if self.p.strip(ty).k == 'bool' and isinstance(v, P):
            return bval(v)
        return v

    def x_cassign(self, e, st, fr):
        out = []
        for s, (b, a) in self.evs([e['b'], e['a']], st, fr):
            a = self.topl(s, a, e)
            v = self.loaded(s, self.read(s, a, e), e['a'], a)
            for s2, r in self.arith(s, e['op'], v, b, e.get('ct', e['t']), e):
                s2 = s2.fork()
                self.write(s2, a, self.boolfix(r, e['a']['t']), e)
                out.append((s2, a if e.get('lv') else r))
        return out

    def x_cond(self, e, st, fr):
        out = []
        for s, c in self.ev(e['c0'], st, fr):
            for s2, t in self.split(s, c):
                out += self.ev(e['a'] if t else e['b'], s2, fr)
        return out

    def x_throw(self, e, st, fr):
        if e.get('e') is None:
            self.raise_(st, None, e)
            return []
        for s, v in self.ev(e['e'], st, fr):
            self.raise_(s, e['et'], e)
        return []

    def raise_(self, st, ty, e):
        self.event('throw', st, e, ty=ty, stack=list(self.callstack))
        if self.handlers:
            self.handlers[-1].append((st, ty, e))

    def abort(self, st, e, why='abort'):
        self.event('abort', st, e, why=why, stack=list(self.callstack))

    def x_lambda(self, e, st, fr):
        caps = []
        cur = [(st, [])]
        for c in e['caps']:
            nxt = []
            for s, vs in cur:
                if c.get('this'):
                    nxt.append((s, vs + [('this', fr.this)]))
                elif c.get('byref'):
                    for s2, p in self.ev(c['init'], s, fr):
                        nxt.append((s2, vs + [(c.get('id'), 'ref', p)]))
                else:
                    for s2, v in self.ev(c['init'], s, fr):
                        if isinstance(v, N) and v.kind == 'ptr' and c['init'].get('lv'):
                            v = self.read(s2, v)
                        nxt.append((s2, vs + [(c.get('id'), 'val', v)]))
            cur = nxt
        return [(s, node('lam', (e['f']['id'], tuple(vs)))) for s, vs in cur]

    def x_list(self, e, st, fr):
        t = self.p.strip(e['t'])
        out = []
        c = self.container(t)
        if t.k in ('int', 'uint', 'float', 'bool', 'enum', 'ptr'):
            if not e['args']:
                return [(st, self.zero_of(e['t']))]
            return self.ev(e['args'][0], st, fr)
        for s, vs in self.evs(e['args'], st, fr):
            vs = [self.rv(s, v, a) for v, a in zip(vs, e['args'])]
            if c and t.name == 'std::array' and len(vs) == 1 and isinstance(vs[0], N) and vs[0].kind == 'arr':
                out.append((s, vs[0]))
            elif c:
                el, n = c
                if n is not None and len(vs) < n:
                    vs = vs + [self.zero_of(el)] * (n - len(vs)) if n <= 4096 else vs
                out.append((s, mkarr(num(len(vs)), node('clist', (tuple(vs),)))))
            elif t.k == 'record':
                r = self.p.rec(t.i)
                if r and r.get('full'):
                    fs = {}
                    names = self.allfields(r)
                    for j, (n, ft, init) in enumerate(names):
                        fs[n] = vs[j] if j < len(vs) else self.zero_of(ft)
                    out.append((s, mkrec(t.i, fs)))
                else:
                    out.append((s, node('opq', ('list', id(e)), False, False)))
            else:
                out.append((s, node('opq', ('list', id(e)), False, False)))
        return out

    def rv(self, s, v, e):
        """value of an argument: lvalues of class type are read"""
        if e is not None and e.get('lv') and isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite'):
            return self.read(s, self.topl(s, v, e), e)
        return v

    def x_ilist(self, e, st, fr):
        # backing array value: (size, content)
        out = []
        for s, v in self.ev(e['e'], st, fr):
            if isinstance(v, N) and v.kind == 'ptr':
                v = self.read(s, v)
            out.append((s, v))
        return out

    def x_method(self, e, st, fr):
        return [(st, node('fnp', (e['f']['id'],)))]

    # -- objects
    def x_ctor(self, e, st, fr):
        if e.get('elide') and e['args']:
            return self.evval(e['args'][0], st, fr)
        o = ('t', fr.id, id(e))
        out = []
        for s in self.construct(e, mkptr(o), st, fr):
            out.append((s, s.mem[o]))
        return out

    def evval(self, e, st, fr):
        """class prvalue (reads through temporaries)"""
        out = []
        for s, v in self.ev(e, st, fr):
            if isinstance(v, N) and v.kind == 'ptr' and e.get('lv'):
                v = self.read(s, v, e)
            out.append((s, v))
        return out

    def construct(self, e, loc, st, fr):
        """run constructor expression e on storage loc; list of states"""
        f = e['f']
        q = ir.plain(f['q'])
        t = self.p.ty(e['t'])
        out = []
        if e.get('elide') and e['args']:
            for s, v in self.evval(e['args'][0], st, fr):
                s = s.fork()
                self.put(s, loc, v)
                out.append(s)
            return out
        body = self.p.fns.get(f['id'])
        if t.k == 'array':      # array of class objects
            for s, v in self.default_value(t.of, st, fr, e):
                s = s.fork()
                self.put(s, loc, mkarr(num(t.n), node('cfill', (v,))))
                out.append(s)
            return out
        if (f.get('copy') or f.get('move')) and (f.get('implicit') or body is None) and len(e['args']) >= 1:
            for s, (v,) in self.evs(e['args'][:1], st, fr):
                if isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite'):
                    v = self.read(s, self.topl(s, v, e), e)
                s = s.fork()
                if f.get('implicit') and body and self.needs_user_copy(f):
                    self.put(s, loc, self.undef_of(e['t'], e['l']))
                    out += self.call_fn(body, loc, [self.evs(e['args'], s, fr)[0][1][0]], s, fr, e)
                    continue
                self.put(s, loc, v)
                out.append(s)
            return out
        for s, vs in self.evs(e['args'], st, fr):
            s = s.fork()
            if self.spm and t.name == 'NS::SparseMatrix':
                r = self.sp.ctor(self, s, loc, vs, e, fr)
                if r is not None:
                    out += r
                    continue
            if body is not None and body.get('body') is not None:
                self.put(s, loc, self.undef_of(e['t'], e['l']) if not e.get('zero') else self.zero_of(e['t']))
                out += [s2 for s2, _ in self.call_fn(body, loc, vs, s, fr, e)]
            elif f.get('implicit') or f.get('lib') and body is not None:
                # implicit default constructor
                out += self.default_init(e['t'], loc, s, fr, e, bool(e.get('zero')))
            else:
                m = self.models.get(q)
                if m is None and t.k == 'record' and self.p.rec(e['t']) and self.p.rec(e['t']).get('full') and not vs:
                    out += self.default_init(e['t'], loc, s, fr, e, bool(e.get('zero')))
                    continue
                if m is None:
                    self.put(s, loc, node('opq', ('ctor', q, fr.id, id(e)), False, False))
                    out.append(s)
                else:
                    out += m(self, s, loc, vs, e, fr)
        return out

    def needs_user_copy(self, f):
        return False

    def default_value(self, ty, st, fr, e):
        o = ('t', fr.id, 'dv%d' % id(e))
        return [(s, s.mem[o]) for s in self.default_init(ty, mkptr(o), st.fork(), fr, e)]

    def default_ctor(self, ty):
        """the user-written default constructor of a class, if any"""
        t = self.p.strip(ty)
        r = self.p.rec(t.i) if t.k == 'record' else None
        if not r:
            return None
        for m in r.get('methods', []):
            g = self.p.fns.get(m['id'])
            if g and g.get('ctor') and not g['params'] and not g.get('implicit') and g.get('body'):
                return g
        return None

    def default_init(self, ty, loc, st, fr, e, zero=False):
        """implicit default construction; list of states"""
        t = self.p.strip(ty)
        if self.spm and t.name == 'NS::SparseMatrix':
            self.put(st, loc, self.undef_of(ty, e['l']))
            return [st]
        g = self.default_ctor(ty)
        if g is not None:
            self.put(st, loc, self.undef_of(ty, e['l']))
            return [s for s, _ in self.call_fn(g, loc, [], st, fr, e)]
        self.put(st, loc, self.zero_of(ty) if zero else self.undef_of(ty, e['l']))
        sts = [st]
        r = self.p.rec(t.i) if t.k == 'record' else None
        if r and r.get('full'):
            for n, ft, init in self.allfields(r):
                nxt = []
                fl = mkptr(loc.args[0], loc.args[1] + (n,))
                for s in sts:
                    if init is not None:
                        nxt += self.init_into(init, ft, fl, s, fr)
                    elif self.p.strip(ft).k == 'record' and self.p.ty(ft).k == 'record':
                        c = self.container(self.p.ty(ft))
                        if c is None:
                            nxt += self.default_init(ft, fl, s, fr, e, zero)
                        else:
                            if c[1] is not None and self.p.strip(c[0]).k == 'record' and not self.container(self.p.strip(c[0])):
                                for s2, v in self.default_value(c[0], s, fr, e):
                                    self.put(s2, fl, mkarr(num(c[1]), node('cfill', (v,))))
                                    nxt.append(s2)
                            else:
                                nxt.append(s)
                    else:
                        nxt.append(s)
                sts = nxt
        elif t.k == 'record' and not self.container(t):
            m = self.models.get('default:' + (t.name or ''))
            if m:
                return m(self, st, loc, [], e, fr)
        return sts

    def put(self, st, loc, v):
        """initialise storage (not a write event)"""
        obj, path = loc.args
        if self.written is not None:
            self.written.add((obj, path))
        st.mem[obj] = self.setpath(st, self.root(st, obj), path, v) if path else v

    def init_into(self, e, ty, loc, st, fr):
        """initialise the object at loc of type ty with expression e; list of states"""
        t = self.p.ty(ty)
        if e is None:
            v = self.undef_of(ty, loc and str(loc.args[0]))
            self.put(st, loc, v)
            return [st]
        if t.k in ('ref', 'rref'):
            out = []
            for s, v in self.ev(e, st, fr):
                s = s.fork()
                if not (isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite', 'null', 'opq', 'undef', 'cstr', 'lam')) or not e.get('lv'):
                    if not (isinstance(v, N) and v.kind == 'ptr' and e.get('lv')):
                        o = ('t', fr.id, 'r%d' % id(e))
                        s.mem[o] = v
                        v = mkptr(o)
                self.put(s, loc, node('refv', (self.topl(s, v, e),)))
                if 'stale' in s.gh:
                    s.gh['stale'] -= {loc.args[0]}
                out.append(s)
            return out
        if e['k'] == 'ctor':
            return self.construct(e, loc, st.fork(), fr)
        out = []
        for s, v in self.ev(e, st, fr):
            if e.get('lv'):
                v = self.read(s, self.topl(s, v, e), e)
            s = s.fork()
            self.put(s, loc, self.boolfix(v, ty))
            out.append(s)
        return out

    def x_new(self, e, st, fr):
        out = []
        o = self.heapobj(e, st, fr)
        self.otype[o] = ('log', e['at']) if e.get('arr') else e['at']
        sts = [(st, None)]
        if e.get('arr'):
            for s, n in self.ev(e['n'], st, fr):
                s = s.fork()
                n = pval(n)
                el = e['at']
                v = self.undef_of(el, e['l']) if e.get('init') is None or e['init']['k'] == 'null' else None
                if v is None:
                    i = e['init']
                    v = self.zero_of(el)
                    if i['k'] == 'ctor':
                        dv = self.default_value(el, s, fr, e)
                        if len(dv) == 1:
                            s, v = dv[0]
                            s = s.fork()
                s.mem[o] = mkarr(n, node('cfill', (v,)))
                self.event('new', s, e, obj=o)
                s.gh['heap'] = s.gh.get('heap', ()) + (o,)
                out.append((s, mkptr(o, (ZERO,))))
            return out
        s = st.fork()
        s.mem[o] = self.undef_of(e['at'], e['l'])
        loc = mkptr(o)
        states = self.init_into(e['init'], e['at'], loc, s, fr) if e.get('init') else [s]
        for s in states:
            self.event('new', s, e, obj=o)
            s.gh['heap'] = s.gh.get('heap', ()) + (o,)
            out.append((s, loc))
        return out

    def heapobj(self, e, st, fr):
        n = st.gh.get(('alloc', id(e), fr.id), 0)
        st.gh[('alloc', id(e), fr.id)] = n + 1
        return ('h', e['l'], fr.id, id(e), n)

    def x_delete(self, e, st, fr):
        out = []
        for s, v in self.ev(e['e'], st, fr):
            for s, v in self.split_ptr(s, v):
                for s, nn in self.split(s, bval(v)):
                    if not nn:
                        out.append((s, None))
                        continue
                    v = self.topl(s, v, e)
                    self.event('delete', s, e, ptr=v)
                    s = s.fork()
                    sts = [s]
                    if v.kind == 'ptr':
                        o = v.args[0]
                        t = self.p.strip(e['e']['t'])
                        if t.k == 'ptr' and not e.get('arr'):
                            sts = self.destroy(t.of, mkptr(o, v.args[1]), s, fr, e)
                        for s in sts:
                            s.gh['heap'] = tuple(x for x in s.gh.get('heap', ()) if x != o)
                            s.gh['freed'] = s.gh.get('freed', frozenset()) | {o}
                    out += [(s, None) for s in sts]
        return out

    def destroy(self, ty, loc, st, fr, e):
        """destructor of an object; list of states"""
        t = self.p.strip(ty)
        if t.k != 'record':
            return [st]
        r = self.p.rec(t.i)
        if not r or not r.get('full'):
            return [st]
        sts = [st]
        for m in r.get('methods', []):
            g = self.p.fns.get(m['id'])
            if g and g.get('dtor') and g.get('body') and g['body'].get('b'):
                sts = [s for s0 in sts for s, _ in self.call_fn(g, loc, [], s0.fork(), fr, e)]
        if self.opt.get('dtors'):
            for n, ft, _ in reversed(self.allfields(r)):
                if self.has_dtor(ft):
                    fl = mkptr(loc.args[0], loc.args[1] + (n,))
                    sts = [s for s0 in sts for s in self.destroy(ft, fl, s0, fr, e)]
        return sts

    def has_dtor(self, ty, seen=()):
        t = self.p.ty(ty)
        if t.k != 'record' or t.i in seen:
            return False
        r = self.p.rec(t.i)
        if not r or not r.get('full'):
            return False
        for m in r.get('methods', []):
            g = self.p.fns.get(m['id'])
            if g and g.get('dtor') and g.get('body') and g['body'].get('b'):
                return True
        return any(self.has_dtor(ft, seen + (t.i,)) for _, ft, _ in self.allfields(r))

    # ---- calls ----------------------------------------------------------------------------
    def x_call(self, e, st, fr):
        f = e.get('f')
        if f is None:
            return self.call_value(e, st, fr)
        q = ir.plain(f['q'])
        # receiver
        objs = [(st, None)]
        if 'obj' in e and not f.get('static'):
            objs = []
            for s, o in self.ev(e['obj'], st, fr):
                if not e.get('arrow') and not e['obj'].get('lv'):
                    tmp = ('t', fr.id, 'o%d' % id(e))
                    s = s.fork()
                    s.mem[tmp] = o
                    o = mkptr(tmp)
                for s2, o2 in self.split_ptr(s, o):
                    o2 = self.topl(s2, o2, e)
                    if o2.kind in ('null', 'undef'):
                        self.event('deref', s2, e, ptr=o2, how='call')
                        continue
                    if o2.kind == 'ptr' and o2.args[1] and isinstance(o2.args[1][-1], P) and e.get('arrow'):
                        self.checkptr(s2, o2, e)
                    objs.append((s2, o2))
        out = []
        for s, o in objs:
            h = self.intercept(q, f, e)
            for s2, vs in self.evs(e['args'], s, fr):
                if h is not None:
                    r = h(self, s2, o, vs, e, fr)
                    if r is not None:
                        out += r
                        continue
                g = self.p.fns.get(f['id'])
                if g is not None and g.get('body') is not None and (f.get('lib') or g.get('lib') or not q.startswith('std::')):
                    out += self.call_fn(g, o, vs, s2, fr, e)
                    continue
                if f.get('implicit') and (f.get('copyassign') or f.get('moveassign')):
                    v = vs[0]
                    if isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite'):
                        v = self.read(s2, self.topl(s2, v, e), e)
                    s2 = s2.fork()
                    self.write(s2, o, v, e)
                    out.append((s2, o))
                    continue
                m = self.models.get(q)
                if m is None:
                    m = self.models.get(q.split('::')[-1]) if q.startswith(('std::', '__gnu', 'tinyobj')) else None
                if m is None:
                    out += self.unknown(s2, o, vs, e, fr, q)
                else:
                    out += m(self, s2, o, vs, e, fr)
        return self.limit(out)

    def limit(self, out):
        if len(out) > self.MAXSTATES:
            raise Stop('too many partitions')
        return out

    def intercept(self, q, f, e):
        if self.spm:
            return self.sp.intercept(q)
        return None

    def unknown(self, st, o, vs, e, fr, q):
        """call of an unmodelled function: result unknown, reference arguments unknown"""
        self.event('unknown', st, e, q=q)
        st = st.fork()
        for v, t in zip(vs, e['f'].get('ptypes', [])):
            ty = self.p.ty(t)
            if ty.k == 'ref' and not self.p.ty(ty.of).const and isinstance(v, N) and v.kind == 'ptr':
                self.write(st, v, self.make_sym(ty.of, ('out', q, str(e['l']), fr.id), '', False), e)
        if e['f'].get('noreturn'):
            self.abort(st, e, q)
            return []
        return [(st, self.unkval(e, fr))]

    def unkval(self, e, fr, name='ret'):
        t = self.p.ty(e['t'])
        if t.k == 'void':
            return None
        v = self.make_sym(e['t'], (name, fr.id, id(e)), '', False)
        if e.get('lv'):
            return node('opq', (name, fr.id, id(e)), False, False)
        return v

    def call_value(self, e, st, fr):
        """call through a function value (lambda objects are called through operator())"""
        out = []
        for s, v in self.ev(e.get('fx') or e.get('objx'), st, fr):
            for s2, vs in self.evs(e['args'], s, fr):
                if isinstance(v, N) and v.kind == 'fnp' and v.args[0] in self.p.fns:
                    out += self.call_fn(self.p.fns[v.args[0]], None, vs, s2, fr, e)
                else:
                    out.append((s2, self.unkval(e, fr)))
        return out

    def call_lambda(self, lam, vs, st, fr, e):
        g = self.p.fns.get(lam.args[0])
        if g is None or g.get('body') is None:
            return [(st, self.unkval(e, fr))]
        return self.call_fn(g, None, vs, st, fr, e, lam)

    def call_fn(self, g, this, vs, st, fr, e, lam=None):
        """inline a function; list of (state, return value)"""
        if fr is not None and fr.depth > self.MAXDEPTH:
            raise Stop('call depth')
        if fr is not None and sum(1 for x in self.callstack if x[0] == g['id']) >= self.RECUR:
            self.event('recursion', st, e)
            return [(st, self.unkval(e, fr))]
        fid = (fr.id if fr else 0, id(e))
        fid = hash(fid) & 0xffffffffffff
        nf = Frame(g, fid, this, fr)
        st = st.fork()
        self.inlined.add(g['q'])
        if lam is not None:
            nf.caps = {}
            for c in lam.args[1]:
                if c[0] == 'this':
                    nf.this = c[1]
                elif c[1] == 'ref':
                    nf.caps[c[0]] = self.topl(st, c[2], e)
                else:
                    o = ('c', fid, c[0])
                    st.mem[o] = c[2]
                    nf.caps[c[0]] = mkptr(o)
        elif this is not None and isinstance(this, N) and this.kind == 'ptr':
            v = None
            if g.get('q', '').find('(lambda') >= 0 or self.p.ty(g['rec']).lam if g.get('rec') is not None else False:
                v = self.peek(st, this)
                if isinstance(v, N) and v.kind == 'lam':
                    return self.call_fn(g, None, vs, st, fr, e, v)
        for i, prm in enumerate(g['params']):
            loc = ('v', fid, prm['id'])
            self.otype[loc] = prm['t']
            t = self.p.ty(prm['t'])
            v = vs[i] if i < len(vs) else self.make_sym(prm['t'], ('arg', fid, i), '', False)
            if t.k in ('ref', 'rref'):
                if not (isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite', 'opq', 'null', 'undef')) or \
                        (isinstance(v, N) and v.kind == 'sp' and not self.is_lv_arg(e, i)):
                    o = ('t', fid, 'p%d' % i)
                    st.mem[o] = v
                    v = mkptr(o)
                st.mem[loc] = node('refv', (self.topl(st, v, e),))
                if 'stale' in st.gh:
                    st.gh['stale'] -= {loc}
            else:
                a = self.argexpr(e, i)
                if a is not None and a.get('lv') and isinstance(v, N) and v.kind == 'ptr' and t.k == 'record':
                    v = self.read(st, v, e)
                st.mem[loc] = self.boolfix(v, prm['t']) if v is not None else v
        self.callstack.append((g['id'], e['l'] if e else '', g['q']))
        try:
            sts = [st]
            if g.get('ctor'):
                sts = self.ctor_inits(g, this, st, nf, e)
            nxt = []
            for s in sts:
                nxt += self.ex(g['body'], s, nf)
        finally:
            self.callstack.pop()
        out = [(s, None) for s in nxt] + nf.ret
        if fr is not None and len(out) > self.JOIN:
            out = self.reduce([(self.dropframe(s, fid), v) for s, v in out], self.JOIN)
        return out

    def dropframe(self, s, fid):
        """forget the storage of a finished call (unless something points there)"""
        s = s.fork()
        for o in [o for o in s.mem if o[0] in ('v', 't', 'c') and o[1] == fid]:
            if self.p.ty(self.otype[o]).k == 'record' if o in self.otype else o[0] == 't':
                continue
            del s.mem[o]
        return s

    def is_lv_arg(self, e, i):
        a = self.argexpr(e, i)
        return a is None or bool(a.get('lv'))

    def argexpr(self, e, i):
        if e is None:
            return None
        a = e.get('args')
        return a[i] if a is not None and i < len(a) else None

    def ctor_inits(self, g, this, st, fr, e):
        sts = [st]
        for i in g.get('inits', []):
            nxt = []
            for s in sts:
                x = i['e']
                if 'f' in i:
                    r = self.p.rec(g['rec'])
                    ft = [t for n, t, _ in self.allfields(r) if n == i['f']][0]
                    loc = mkptr(this.args[0], this.args[1] + (i['f'],))
                    if x is not None and x['k'] == 'ctor':
                        nxt += self.construct(x, loc, s.fork(), fr)
                    else:
                        nxt += self.init_into(x, ft, loc, s.fork(), fr)
                else:
                    # base or delegating constructor: on the same object
                    if x is not None and x['k'] == 'ctor':
                        nxt += self.construct_base(x, this, s.fork(), fr)
                    else:
                        nxt.append(s)
            sts = nxt
        return sts

    def construct_base(self, e, this, st, fr):
        f = e['f']
        body = self.p.fns.get(f['id'])
        out = []
        for s, vs in self.evs(e['args'], st, fr):
            if body is not None and body.get('body') is not None and not (f.get('copy') and f.get('implicit')):
                out += [s2 for s2, _ in self.call_fn(body, this, vs, s, fr, e)]
            elif f.get('copy') or f.get('move'):
                v = vs[0]
                src = self.topl(s, v, e)
                s = s.fork()
                r = self.p.rec(e['t'])
                for n, ft, _ in self.allfields(r) if r else []:
                    self.put(s, mkptr(this.args[0], this.args[1] + (n,)),
                             self.read(s, mkptr(src.args[0], src.args[1] + (n,)), e) if src.kind == 'ptr'
                             else self.getpath(s, src, (n,)))
                out.append(s)
            else:
                r = self.p.rec(e['t'])
                s = s.fork()
                sts = [s]
                for n, ft, init in self.allfields(r) if r else []:
                    if init is not None:
                        sts = [s3 for s2 in sts for s3 in self.init_into(init, ft, mkptr(this.args[0], this.args[1] + (n,)), s2, fr)]
                out += sts
        return out

    # ---- statements -----------------------------------------------------------------------
    def ex(self, s, st, fr):
        """list of states falling through; returns/breaks/continues go to the frame's collectors"""
        self.steps += 1
        if s is None:
            return [st]
        return getattr(self, 's_' + s['s'])(s, st, fr)

    def s_null(self, s, st, fr):
        return [st]

    def s_asm(self, s, st, fr):
        return [st]

    def s_unk(self, s, st, fr):
        raise Stop('unsupported statement %s' % s.get('w'))

    def s_block(self, s, st, fr):
        sts = [st]
        if not self.opt.get('dtors'):
            for x in s['b']:
                nxt = []
                for y in sts:
                    nxt += self.ex(x, y, fr)
                sts = nxt
                if len(sts) > self.MAXSTATES:
                    raise Stop('too many partitions')
                if not sts:
                    break
            return sts
        return self.block_dtors(s, st, fr)

    def block_dtors(self, s, st, fr):
        # collectors are intercepted so that locals are destroyed on every way out
        saved = fr.ret, fr.brk, fr.cont
        locs = []
        for x in s['b']:
            if x['s'] == 'decl':
                for d in x['d']:
                    if self.has_dtor(d['t']):
                        locs.append(d)
        if not locs:
            sts = [st]
            for x in s['b']:
                nxt = []
                for y in sts:
                    nxt += self.ex(x, y, fr)
                sts = nxt
            return sts
        fr.ret, fr.brk, fr.cont = [], ([] if saved[1] is not None else None), ([] if saved[2] is not None else None)
        self.handlers.append([])
        sts = [st]
        for x in s['b']:
            nxt = []
            for y in sts:
                nxt += self.ex(x, y, fr)
            sts = nxt
        thrown = self.handlers.pop()
        ret, brk, cont = fr.ret, fr.brk, fr.cont
        fr.ret, fr.brk, fr.cont = saved

        def clean(y):
            ys = [y]
            for d in reversed(locs):
                nxt = []
                for z in ys:
                    o = ('v', fr.id, d['id'])
                    if o in z.mem and z.gh.get(('alive', o)):
                        z = z.fork()
                        z.gh[('alive', o)] = False
                        nxt += self.destroy(d['t'], mkptr(o), z, fr, {'l': s.get('el', s['l']), 'k': 'dtor', 't': d['t']})
                    else:
                        nxt.append(z)
                ys = nxt
            return ys
        sts = [z for y in sts for z in clean(y)]
        saved[0].extend((z, v) for y, v in ret for z in clean(y))
        if brk is not None:
            saved[1].extend(z for y in brk for z in clean(y))
        if cont is not None:
            saved[2].extend(z for y in cont for z in clean(y))
        for y, ty, e in thrown:
            for z in clean(y):
                if self.handlers:
                    self.handlers[-1].append((z, ty, e))
                else:
                    self.event('escape', z, e, ty=ty)
        return sts

    def s_expr(self, s, st, fr):
        return [x for x, _ in self.ev(s['e'], st, fr)]

    def s_decl(self, s, st, fr):
        sts = [st]
        for d in s['d']:
            nxt = []
            for x in sts:
                nxt += self.declare(d, x, fr)
            sts = nxt
        return sts

    def declare(self, d, st, fr):
        if d.get('k') == 'typedef' or 'id' not in d:
            return [st]
        o = ('v', fr.id, d['id'])
        self.otype[o] = d['t']
        loc = mkptr(o)
        st = st.fork()
        if self.opt.get('dtors') and self.has_dtor(d['t']):
            st.gh[('alive', o)] = True
        t = self.p.ty(d['t'])
        if d.get('init') is None:
            st.mem[o] = self.undef_of(d['t'], d['l'])
            if t.k == 'record':
                return self.default_init(d['t'], loc, st, fr, {'l': d['l'], 'k': 'decl', 't': d['t'], 'args': []})
            return [st]
        if t.k not in ('ref', 'rref'):
            st.mem[o] = self.undef_of(d['t'], d['l'])
        return self.init_into(d['init'], d['t'], loc, st, fr)

    def s_if(self, s, st, fr):
        out = []
        sts = [st]
        if s.get('init'):
            sts = self.ex(s['init'], st, fr)
        if s.get('cv'):
            sts = [y for x in sts for y in self.declare(s['cv'], x, fr)]
        for x in sts:
            for y, c in self.ev(s['c'], x, fr):
                for z, t in self.split(y, c):
                    out += self.ex(s['t'] if t else s.get('e'), z, fr)
        return self.reduce_states(out, 2 * self.JOIN)

    def s_return(self, s, st, fr):
        if s.get('e') is None:
            fr.ret.append((st, None))
            return []
        rt = self.p.ty(fr.fn['ret']) if fr.fn is not None and fr.fn.get('ret') is not None else None
        for x, v in self.ev(s['e'], st, fr):
            if rt is not None and rt.k not in ('ref', 'rref') and s['e'].get('lv') and isinstance(v, N) and v.kind in ('ptr', 'ite', 'sp'):
                v = self.read(x, self.topl(x, v, s['e']), s['e'])
            if rt is not None and rt.k == 'bool' and isinstance(v, P):
                v = bval(v)
            if rt is not None and rt.k in ('ref', 'rref') and isinstance(v, N) and v.kind == 'sp':
                v = self.topl(x, v, s['e'])
            fr.ret.append((x, v))
        return []

    def s_break(self, s, st, fr):
        fr.brk.append(st)
        return []

    def s_continue(self, s, st, fr):
        fr.cont.append(st)
        return []

    def s_case(self, s, st, fr):
        return self.ex(s['b'], st, fr)

    s_default = s_case

    def s_try(self, s, st, fr):
        self.handlers.append([])
        out = self.ex(s['b'], st, fr)
        thrown = self.handlers.pop()
        for x, ty, e in thrown:
            done = False
            for h in s['h']:
                m = True
                if h.get('t') is not None and ty is not None:
                    m = self.catches(h['t'], ty)
                if m:
                    y = x.fork()
                    if h.get('v'):
                        o = ('v', fr.id, h['v']['id'])
                        y.mem[o] = node('refv', (mkptr(('x', ty)),)) if self.p.ty(h['v']['t']).k == 'ref' else node('opq', ('exc', ty))
                        y.mem[('x', ty)] = node('opq', ('exc', ty))
                    out += self.ex(h['b'], y, fr)
                    done = True
                    break
            if not done and self.handlers:
                self.handlers[-1].append((x, ty, e))
        return out

    def catches(self, ht, ty):
        a, b = self.p.strip(ht), self.p.strip(ty)
        if a.name == b.name:
            return True
        r = self.p.rec(b.i)
        return bool(r) and any(self.catches(ht, x['t']) for x in r.get('bases', []))

    def s_switch(self, s, st, fr):
        items = []
        stmts = s['b']['b'] if s['b'] and s['b']['s'] == 'block' else [s['b']]
        flat = []       # (labels, stmt)
        for x in stmts:
            labs = []
            while x is not None and x['s'] in ('case', 'default'):
                labs.append(x['c'] if x['s'] == 'case' else None)
                x = x['b']
            flat.append((labs, x))
        out = []
        save = fr.brk
        fr.brk = []
        for y, v in self.ev(s['c'], st, fr):
            v = pval(v)
            rest = [y]
            starts = []
            dflt = None
            for i, (labs, x) in enumerate(flat):
                for l in labs:
                    if l is None:
                        dflt = i
                        continue
                    c = self.ev(l, y, fr)[0][1]
                    nr = []
                    for r in rest:
                        for z, t in self.split(r, f_eq(v - pval(c))):
                            if t:
                                starts.append((i, z))
                            else:
                                nr.append(z)
                    rest = nr
            for r in rest:
                if dflt is not None:
                    starts.append((dflt, r))
                else:
                    out.append(r)
            for i, z in starts:
                sts = [z]
                for labs, x in flat[i:]:
                    nxt = []
                    for w in sts:
                        nxt += self.ex(x, w, fr)
                    sts = nxt
                    if not sts:
                        break
                out += sts
        out += fr.brk
        fr.brk = save
        return out

    # loops
    def s_for(self, s, st, fr):
        out = []
        for x in self.ex(s.get('i'), st, fr):
            out += self.lp.loop(self, s, s.get('c'), s.get('n'), s['b'], x, fr)
        return out

    def s_while(self, s, st, fr):
        return self.lp.loop(self, s, s['c'], None, s['b'], st, fr, s.get('cv'))

    def s_do(self, s, st, fr):
        return self.lp.loop(self, s, s['c'], None, s['b'], st, fr, None, True)

    def s_range(self, s, st, fr):
        sts = [st]
        for x in ('init', 'range', 'begin', 'end'):
            if s.get(x):
                sts = [z for y in sts for z in self.ex(s[x], y, fr)]
        body = s.get('_body')
        if body is None:
            body = s['_body'] = {'s': 'block', 'b': [s['v'], s['b']], 'l': s['l']}
        out = []
        for x in sts:
            out += self.lp.loop(self, s, s['c'], s['n'], body, x, fr)
        return out

    # ---- entry ----------------------------------------------------------------------------
    def entry(self, g, args=None, this=None, facts=(), st=None, setup=None):
        """run function g on symbolic arguments; returns (list of (state, value), thrown)"""
        st = st.fork() if st else St()
        st.facts = st.facts + tuple(facts)
        vs = []
        if g.get('rec') is not None and not g.get('static') and this is None:
            o = ('p', 'this')
            if o not in st.mem:
                st.mem[o] = self.make_sym(g['rec'], 'this')
            this = mkptr(o)
            self.otype[o] = g['rec']
        for i, prm in enumerate(g['params']):
            if args is not None and i < len(args) and args[i] is not None:
                vs.append(args[i])
                continue
            nm = prm['n'] or 'arg%d' % i
            t = self.p.ty(prm['t'])
            if t.k in ('ref', 'rref'):
                o = ('p', nm)
                if o not in st.mem:
                    st.mem[o] = self.make_sym(prm['t'], nm)
                self.otype[o] = prm['t']
                vs.append(mkptr(o))
            elif t.k == 'ptr':
                o = ('p', '*' + nm)
                el = self.p.ty(t.of)
                vs.append(self.make_sym(prm['t'], nm))
            else:
                vs.append(self.make_sym(prm['t'], nm))
        if setup:
            st = setup(self, st, this, vs) or st
        self.handlers = [[]]
        self.callstack = []
        self.args_ = vs
        self.this_ = this
        e = {'l': g['l'], 'k': 'entry', 't': g['ret']}
        out = self.call_fn(g, this, vs, st, None, e)
        return out, self.handlers[0]


def _field(v, c):
    for n, x in v.args[1]:
        if n == c:
            return x
    raise Stop('no field %s' % c)


def _numite(v):
    while isinstance(v, N) and v.kind == 'ite':
        v = v.args[1]
    return isinstance(v, P) or isinstance(v, N) and v.kind == 'num'


def _conj(f):
    if f.kind == 'and':
        return _conj(f.args[0]) + _conj(f.args[1])
    return [f]
