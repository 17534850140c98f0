"""Constant operands for every entry point that takes or makes a mesh: a mesh of a few triangles as a heap graph, constant
indices, free parts to add, constant cell counts."""
import engine as E_
import ir
import meshes
import shaped
import sized
import sweep
from engine import Stop, pval, mkptr, mkrec, NULL
from meshes import World, Topo, MAna
from terms import P, N, ZERO, num, toP, node

T1 = Topo(3, [(0, 1, 2)], 'one triangle')
T2 = Topo(4, [(0, 1, 2), (1, 3, 2)], 'two triangles')
T0 = Topo(0, [], 'nothing')
T3 = Topo(5, [(0, 1, 2), (0, 1, 3), (0, 1, 4)], 'three triangles at one edge')
T2R = Topo(4, [(2, 0, 1), (2, 1, 3)], 'two triangles, rotated')
XY = {0: [], 3: [(0, 0), (1, 0), (0, 1)], 4: [(0, 0), (1, 0), (0, 1), (1, 1)], 5: [(0, 0), (1, 0), (0, 1), (1, 1), (2, 3)]}


def pointee(p, t):
    q = p.ty(t)
    return (p.strip(q.of).name or '') if q.k == 'ptr' else ''


def relevant(p, f):
    if meshes.of_type(p, f, 'NS::Mesh') and not (f.get('ctor') and meshes.of_type(p, f, 'NS::Mesh') == ['this']):
        return True
    q = ir.plain(f['q'])
    return q == 'NS::HyperCube::generate'


class MC:
    """one constant case of an entry point; after run(): outs, thr, worlds"""

    def __init__(self, p, f, spec, cls=MAna, **opt):
        self.p, self.f, self.spec = p, f, spec
        self.A = cls(p, maxsteps=1500000, **opt)
        self.A.JOIN = 64
        self.worlds = []
        self.extra = []

    def setup(self, E, st, this, vs):
        p, f, sp = self.p, self.f, self.spec
        if 'counts' in sp:
            E.write(st, vs[0], meshes.vecval(E, p.strip(f['params'][0]['t']).i, sp['counts']))
            for k, nm in ((1, 's'), (2, 'o')):
                E.write(st, vs[k], meshes.vecval(E, p.strip(f['params'][k]['t']).i, [toP(node('sym', (nm + d,), 0)) for d in 'xy']))
            return self.done(E, st, this, vs)
        for j, pos in enumerate(meshes.of_type(p, f, 'NS::Mesh')):
            if pos == 'this' and f.get('ctor'):
                continue
            ptr = this if pos == 'this' else vs[pos]
            if not (isinstance(ptr, N) and ptr.kind == 'ptr'):
                raise Stop('mesh by value')
            K = meshes.Kinds(p, p.strip(f['rec'] if pos == 'this' else f['params'][pos]['t']).i)
            if j and sp.get('shared'):
                v = E.read(st, self.worlds[0].O)
                E.write(st, ptr, mkrec(v.args[0], dict(v.args[1])))
                continue
            t = sp['topo']
            W = World(E, st, K, t, name='m%d' % j, this=ptr, coords=[(num(a), num(b)) for a, b in XY[t.n]], refs=sp.get('refs', 1),
                      faces=sp.get('faces', True), simplex=sp.get('simplex', 'prepared'))
            self.worlds.append(W)
            st = W.st
        W = self.worlds[0] if self.worlds else None
        for i, q in enumerate(f['params']):
            k = shaped.kindof(p, q['t'])
            if k == 'I' and 'index' in sp:
                shaped.scalar(E, st, vs, i, sp['index'])
            x = pointee(p, q['t'])
            if x in ('NS::MeshVertex', 'NS::MeshElement') and W:
                if sp.get('part') == 'null':
                    vs[i] = NULL
                    continue
                o = ('h', 'free%d' % i)
                cls = x.split('Mesh')[-1]
                st.mem[o] = E.make_sym(W.K.ty[cls], 'free')
                E.otype[o] = W.K.ty[cls]
                st.gh['heap'] = st.gh.get('heap', ()) + (o,)
                self.extra.append(o)
                if cls == 'Vertex':
                    meshes.setf(E, st, mkptr(o), Flags=ZERO, GlobalIndex=ZERO, Elements=meshes.clist([]))
                else:
                    vv = [mkptr(v) for v in (W.V * 3)[:W.K.K + 1]] if W.V else [NULL] * (W.K.K + 1)
                    meshes.setf(E, st, mkptr(o), Vertices=meshes.clist(vv), Neighbors=meshes.clist([NULL] * (W.K.K + 1)), DOFVertices=meshes.clist([]))
                vs[i] = mkptr(o)
        return self.done(E, st, this, vs)

    def done(self, E, st, this, vs):
        self.this, self.vs = this, vs
        self.pre = dict(st.mem)
        self.preheap = st.gh.get('heap', ())
        return st

    def pre_handle(self, W):
        return self.pre[W.O.args[0]]

    def run(self):
        self.outs, self.thr = self.A.entry(self.f, setup=self.setup)
        return self

    def exits(self):
        for st, v in self.outs:
            yield 'return', st, v
        for st, ty, e in self.thr:
            yield 'exception', st, None


def specs(p, f):
    """constant cases: dictionaries that describe the operands"""
    q = ir.plain(f['q'])
    if q == 'NS::HyperCube::generate':
        return [{'counts': (1, 1)}, {'counts': (2, 1)}, {'counts': (1, 2)}, {'counts': (2, 2)}, {'counts': (0, 1)}]
    if not relevant(p, f):
        return []
    pos = meshes.of_type(p, f, 'NS::Mesh')
    out = []
    ix = any(shaped.kindof(p, x['t']) == 'I' for x in f['params'])
    part = any(pointee(p, x['t']) for x in f['params'])
    for t in (T2, T1, T0, T2R):
        for index in ([0, 1, 7] if ix else [None]):
            for pt in (['free', 'null'] if part else [None]):
                d = {'topo': t}
                if index is not None:
                    d['index'] = index
                if pt:
                    d['part'] = pt
                out.append(d)
    base = out[0]
    if not ix and not part:
        out.append(dict(base, refs=2))
        out.append(dict(base, faces=False))
        out.append(dict(base, faces=False, simplex='default'))
        out.append(dict(base, topo=T3, faces=False))
        if len(pos) > 1 and 'this' in pos and not f.get('ctor'):
            out.append(dict(base, shared=True, refs=2))
    return out


def text(sp):
    if 'counts' in sp:
        return '%d x %d cells' % sp['counts']
    r = 'mesh with %s' % sp['topo'].name
    for k in ('index', 'part', 'refs'):
        if k in sp:
            r += ', %s %s' % (k, sp[k])
    if sp.get('shared'):
        r += ', both handles share the data'
    if not sp.get('faces', True):
        r += ', neighbours not set up'
    return r
