"""Meshes as concrete heap graphs: vertices, elements and faces are heap objects, the links between them are constant, the
coordinates are polynomials over unknowns.  A mesh is built from a description (independently of the library's own set-up
functions) and read back from an abstract state."""
import engine as E_
import ir
import numeric
import shaped
import sized
import sweep
from engine import Stop, pval, mkptr, mkrec, mkarr, NULL
from terms import P, N, ATOMS, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ge, f_eq, f_ne, f_gt, f_and, show

BOUNDARY, IMPLICIT = 1, 2


def el(p, t):
    return p.ty(t.targs[0]['t']).s.replace('const ', '')


class Kinds:
    """record types of a mesh class: mesh, its data block and lists, vertex, element, face"""

    def __init__(self, p, rec):
        self.p = p
        self.rec = p.strip(rec).i
        t = p.ty(self.rec)
        self.T, self.K = t.targs[0]['t'], int(t.targs[1]['i'])
        E = sweep.Ana(p)
        self.E = E
        ptrs = [(n, x) for n, x, _ in E.allfields(p.rec(self.rec)) if p.ty(x).k == 'ptr']
        if len(ptrs) != 1:
            raise Stop('mesh handle is not one pointer')
        self.handle = ptrs[0][0]
        self.data = p.strip(p.ty(ptrs[0][1]).of).i
        self.lists, self.rest = {}, []
        self.ty = {}
        for n, x, _ in E.allfields(p.rec(self.data)):
            q = p.ty(x)
            if q.name == 'std::vector' and p.ty(q.targs[0]['t']).k == 'ptr':
                e = p.strip(p.ty(q.targs[0]['t']).of)
                self.lists[(e.name or '').split('::Mesh')[-1]] = n
                self.ty[(e.name or '').split('::Mesh')[-1]] = e.i
            else:
                self.rest.append((n, q.k))
        if set(self.lists) != {'Vertex', 'Element', 'Edge'}:
            raise Stop('mesh lists')
        self.simplex = [x for n, x, _ in E.allfields(p.rec(self.ty['Element'])) if n == 'Element'][0]


def kinds(p):
    out = []
    for i in sorted(set(f['rec'] for f in p.lib() if f.get('rec') is not None)):
        t = p.ty(i)
        if t.name == 'NS::Mesh' and p.rec(i) and not any(k.rec == i for k in out):
            try:
                out.append(Kinds(p, i))
            except Stop:
                pass
    return out


def of_type(p, f, name):
    """positions of the operands of a class"""
    out = []
    if f.get('rec') is not None and not f.get('static') and p.strip(f['rec']).name == name:
        out.append('this')
    for i, x in enumerate(f['params']):
        if p.strip(x['t']).name == name:
            out.append(i)
    return out


def clist(ps):
    return mkarr(num(len(ps)), node('clist', (tuple(ps),)))


def vecval(E, ty, xs):
    """value of a fixed vector"""
    st = E_.St()
    v = E.make_sym(ty, 'vec')

    def go(v):
        if isinstance(v, N) and v.kind == 'arr':
            return mkarr(num(len(xs)), node('clist', (tuple(toP(x) if not isinstance(x, (int, float)) else num(x) for x in xs),)))
        if isinstance(v, N) and v.kind == 'rec':
            fs = dict(v.args[1])
            for k, x in fs.items():
                y = go(x)
                if y is not None:
                    fs[k] = y
                    return mkrec(v.args[0], fs)
        return None
    y = go(v)
    if y is None:
        raise Stop('vector expected')
    return y


def setf(E, st, ptr, **kw):
    v = E.read(st, ptr)
    fs = dict(v.args[1])
    for k, x in kw.items():
        if k not in fs:
            raise Stop('no field ' + k)
        fs[k] = x
    E.write(st, ptr, mkrec(v.args[0], fs))


def getf(E, st, ptr, k):
    v = E.read(st, ptr)
    if not (isinstance(v, N) and v.kind == 'rec'):
        raise Stop('record expected')
    fs = dict(v.args[1])
    if k not in fs:
        raise Stop('no field ' + k)
    return fs[k]


def ftype(K, cls, name):
    return [x for n, x, _ in K.E.allfields(K.p.rec(K.ty[cls])) if n == name][0]


class Topo:
    """description of a mesh: corner lists of the elements over n vertices; faces[i] = (corners, elements)"""

    def __init__(self, n, elems, name='', k=2):
        self.n, self.elems, self.name, self.k = n, [tuple(e) for e in elems], name, k

    def faces(self):
        d = {}
        for e, c in enumerate(self.elems):
            for i in range(self.k + 1):
                s = frozenset(c[j] for j in range(self.k + 1) if j != i)
                d.setdefault(s, []).append((e, i))
        return d

    def boundary(self):
        return {v for s, es in self.faces().items() if len(es) == 1 for v in s}


TOPOS = [
    Topo(3, [(0, 1, 2)], 'one triangle'),
    Topo(4, [(0, 1, 2), (1, 3, 2)], 'two triangles, same orientation'),
    Topo(4, [(2, 0, 1), (1, 2, 3)], 'two triangles, opposite orientation'),
    Topo(4, [(0, 1, 2), (0, 2, 3)], 'two triangles, diagonal 0-2'),
    Topo(4, [(1, 3, 2), (0, 1, 2)], 'two triangles, other order'),
    Topo(5, [(0, 1, 2), (2, 3, 4)], 'two triangles touching in a vertex'),
    Topo(6, [(0, 1, 2), (3, 4, 5)], 'two separate triangles'),
    Topo(5, [(0, 1, 4), (1, 2, 4), (2, 3, 4), (3, 0, 4)], 'four triangles around a vertex'),
    Topo(5, [(4, 0, 1), (2, 4, 1), (2, 3, 4), (0, 4, 3)], 'four triangles around a vertex, rotated corners'),
    Topo(5, [(0, 1, 2), (1, 3, 2), (1, 4, 3)], 'strip of three triangles'),
    Topo(6, [(0, 3, 5), (3, 1, 4), (5, 4, 2), (3, 4, 5)], 'triangle split into four'),
    Topo(4, [(0, 1, 2), (0, 2, 3), (0, 3, 1), (1, 3, 2)], 'closed surface'),
]


class World:
    """a state with one mesh built from a topology; coords: list of tuples (numbers or polynomials), None for unknowns"""

    def __init__(self, E, st, K, topo, name='m', coords=None, faces=True, flags=0, dof=False, simplex=True, refs=1, boundary=True,
                 this=None, elements=None, registered=True):
        p = K.p
        self.K, self.topo = K, topo
        k = K.K
        dim = [('x', 'y', 'z')[i] for i in range(k)]
        self.V = [('h', '%s.v%d' % (name, i)) for i in range(topo.n)]
        self.S = [('h', '%s.e%d' % (name, i)) for i in range(len(topo.elems))]
        fs = sorted(topo.faces().items(), key=lambda t: sorted(t[1])) if faces else []
        self.F = [('h', '%s.f%d' % (name, i)) for i in range(len(fs))]
        self.fs = fs
        self.facekeys = [s for s, _ in fs]
        self.xy = coords or [tuple(toP(node('sym', ('%s%d' % (d, i),), 0)) for d in dim) for i in range(topo.n)]
        vt = ftype(K, 'Vertex', 'Vertex')
        bnd = topo.boundary()
        for i, o in enumerate(self.V):
            st.mem[o] = E.make_sym(K.ty['Vertex'], name + '.v%d' % i)
            E.otype[o] = K.ty['Vertex']
            mine = [e for e, c in enumerate(topo.elems) if i in c] if registered else []
            setf(E, st, mkptr(o), Flags=num(flags | (BOUNDARY if boundary and i in bnd else 0)), GlobalIndex=num(i),
                 Vertex=vecval(E, vt, self.xy[i]), Elements=clist([mkptr(self.S[e]) for e in mine]))
        for e, o in enumerate(self.S):
            st.mem[o] = E.make_sym(K.ty['Element'], name + '.e%d' % e)
            E.otype[o] = K.ty['Element']
            setf(E, st, mkptr(o), Vertices=clist([mkptr(self.V[i]) for i in topo.elems[e]]), Neighbors=clist([NULL] * (k + 1)), DOFVertices=clist([]))
        for i, o in enumerate(self.F):
            s, es = fs[i]
            st.mem[o] = E.make_sym(K.ty['Edge'], name + '.f%d' % i)
            E.otype[o] = K.ty['Edge']
            e0, i0 = sorted(es)[0]
            cs = [topo.elems[e0][j] for j in range(k + 1) if j != i0]
            ep = [mkptr(self.S[e]) for e, _ in sorted(es)][:2]
            setf(E, st, mkptr(o), Vertices=clist([mkptr(self.V[c]) for c in cs]), Elements=clist(ep + [NULL] * (2 - len(ep))), DOFVertices=clist([]))
            for e, j in es:
                nb = list(getf(E, st, mkptr(self.S[e]), 'Neighbors').args[1].args[0])
                nb[j] = mkptr(o)
                setf(E, st, mkptr(self.S[e]), Neighbors=clist(nb))
        self.D = ('h', name + '.data')
        v = E.make_sym(K.data, name)
        d = dict(v.args[1])
        d[K.lists['Vertex']] = clist([mkptr(o) for o in self.V])
        d[K.lists['Element']] = clist([mkptr(o) for o in self.S])
        d[K.lists['Edge']] = clist([mkptr(o) for o in self.F])
        for n, kk in K.rest:
            if kk in ('uint', 'int'):
                d[n] = num(refs)
        st.mem[self.D] = mkrec(v.args[0], d)
        E.otype[self.D] = K.data
        st.gh['heap'] = st.gh.get('heap', ()) + tuple(self.V + self.S + self.F + [self.D])
        self.O = this or mkptr(('p', name))
        if this is None:
            st.mem[('p', name)] = E.make_sym(K.rec, name)
            E.otype[('p', name)] = K.rec
        setf(E, st, self.O, **{K.handle: mkptr(self.D)})
        self.st = st
        if simplex:
            for e, o in enumerate(self.S):
                self.geometry(E, e, simplex)

    def geometry(self, E, e, how):
        """run the library's own simplex: default state, the corner coordinates, prepare()"""
        K, p, st = self.K, self.K.p, self.st
        loc = mkptr(self.S[e], ('Element',))
        st = run1(E, st, method(p, K.simplex, None, 0), loc, [])[0]
        sub = method(p, K.simplex, 'operator[]', 1, const=False)
        for j, c in enumerate(self.topo.elems[e]):
            st, r = run1(E, st, sub, loc, [num(j)])
            E.write(st, r, vecval(E, ftype(K, 'Vertex', 'Vertex'), self.xy[c]))
        if how == 'prepared':
            st = run1(E, st, method(p, K.simplex, 'prepare', 0), loc, [])[0]
        self.st = st


def method(p, rec, name, nparams, const=None):
    """a member function of a class (constructor when name is None)"""
    s = p.strip(rec).s.replace('const ', '')
    for f in p.lib():
        if f.get('rec') is None or p.strip(f['rec']).s.replace('const ', '') != s or len(f['params']) != nparams:
            continue
        if name is None:
            if f.get('ctor'):
                return f
        elif ir.plain(f['q']).split('::')[-1] == name and (const is None or bool(f.get('const')) == const):
            return f
    raise Stop('no method %s of %s' % (name, s))


_e = {}


def run1(E, st, f, this, vs):
    """abstractly execute a function that has exactly one normal exit"""
    hs, cs = getattr(E, 'handlers', None), getattr(E, 'callstack', None)
    E.handlers, E.callstack = [[]], []
    e = _e.setdefault(f['id'], {'l': f['l'], 'k': 'entry', 't': f['ret']})
    out = E.call_fn(f, this, vs, st, None, e)
    E.handlers, E.callstack = hs, cs
    out = [(s, v) for s, v in out]
    if len(out) != 1:
        raise Stop('%s: %d exits' % (f['q'], len(out)))
    return out[0]


class View:
    """the mesh a handle value refers to, read back from a state"""

    def __init__(self, E, st, K, v):
        self.E, self.st, self.K = E, st, K
        if isinstance(v, N) and v.kind == 'ptr':
            v = E.read(st, v)
        if not (isinstance(v, N) and v.kind == 'rec'):
            raise Stop('no mesh value')
        h = dict(v.args[1])[K.handle]
        if not (isinstance(h, N) and h.kind == 'ptr') or h.args[1]:
            raise Stop('mesh without data')
        self.D = h.args[0]
        d = E.read(st, mkptr(self.D))
        d = dict(d.args[1])
        self.V = self.ptrs(d[K.lists['Vertex']])
        self.S = self.ptrs(d[K.lists['Element']])
        self.F = self.ptrs(d[K.lists['Edge']])

    def ptrs(self, a):
        n = a.args[0].const() if isinstance(a, N) and a.kind == 'arr' else None
        if n is None:
            raise Stop('list of unknown length')
        out = []
        for i in range(int(n)):
            x = self.E.cread(self.st, a.args[1], num(i))
            x = self.E.topl(self.st, x, None) if isinstance(x, N) and x.kind == 'refv' else x
            if isinstance(x, N) and x.kind == 'null':
                out.append(None)
            elif isinstance(x, N) and x.kind == 'ptr' and not x.args[1]:
                out.append(x.args[0])
            elif isinstance(x, N) and x.kind == 'undef':
                out.append('undefined')
            else:
                raise Stop('unknown pointer in a list')
        return out

    def get(self, o, k):
        return getf(self.E, self.st, mkptr(o), k)

    def links(self, o, k):
        return self.ptrs(self.get(o, k))

    def coords(self, v):
        a = v
        x = sized.container(a)
        n = x.args[0].const()
        return tuple(pval(self.E.cread(self.st, x.args[1], num(i))) for i in range(int(n)))

    def pos(self, o):
        return self.coords(self.get(o, 'Vertex'))

    def corners(self, e):
        """coordinates stored in the simplex of an element (through operator[])"""
        K = self.K
        sub = method(K.p, K.simplex, 'operator[]', 1, const=True)
        out = []
        for j in range(K.K + 1):
            st, r = run1(self.E, self.st.fork(), sub, mkptr(e, ('Element',)), [num(j)])
            out.append(self.coords(self.E.read(st, r)))
        return out

    def flags(self, o):
        return pval(self.get(o, 'Flags'))


def nice(o):
    return 'nothing' if o is None else str(o[1] if isinstance(o, tuple) else o) if not (isinstance(o, tuple) and len(o) == 5) else 'object %d from %s' % (o[4], str(o[1]).split('/')[-1])


class MAna(sweep.Ana):
    UNROLL = 2000

    """engine with the violations of pointer use"""

    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.bad = []

    def sure(self, st):
        if st.gh.get('joined') or st.gh.get('iffy'):
            return None
        return numeric.differ(st.facts, [(TRUE, FALSE)])

    def on_deref(self, st, e, ptr=None, how=None):
        if ptr.kind == 'null':
            self.bad.append((self.sure(st), e, 'null pointer is used (%s)' % how))

    def on_abort(self, st, e, why='', stack=()):
        self.bad.append((self.sure(st), e, 'assertion fails'))


def runs(E, st, f, this, vs):
    """abstractly execute a function: (normal exits, exits by exception)"""
    hs, cs = getattr(E, 'handlers', None), getattr(E, 'callstack', None)
    E.handlers, E.callstack = [[]], []
    e = _e.setdefault(f['id'], {'l': f['l'], 'k': 'entry', 't': f['ret']})
    out = list(E.call_fn(f, this, vs, st, None, e))
    thr = E.handlers[0]
    E.handlers, E.callstack = hs, cs
    return out, thr
