"""Exporter runs with constant meshes, option words and data maps: the output is collected per stream and becomes one constant
text whose numbers are polynomials of the unknown coordinates and data."""
import engine as E_
import ir
import meshcases
import meshes
import models
import shaped
import sized
from engine import Stop, mkptr, mkrec, pval
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, toP, node

NAMES = [[], ['u'], ['a b', 'zeta'], ['x<y & "z">']]


def key(v):
    return v.args[0] if isinstance(v, N) and v.kind == 'ptr' else v


class VAna(meshes.MAna):
    UNROLL = 400

    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.models = dict(self.models)
        self.models.update(MAPS)

    def on_emit(self, st, e, stream=None, val=None, loc=None):
        k = ('out', key(stream))
        g = e['f'].get('ptypes') or []
        t = self.p.strip(g[-1]) if g else None
        how = 'char' if t is not None and t.s.replace('const ', '') in ('char', 'signed char', 'unsigned char') else \
            'bool' if t is not None and t.k == 'bool' else 'val'
        st.gh[k] = st.gh.get(k, ()) + ((how, val),)


def wrap(name):
    base = models.MODELS[name]

    def f(E, st, o, vs, e, fr):
        return base(E, st, o, vs, e, fr)
    return f


def str_(E, st, o, vs, e, fr):
    return [(st, node('streamtext', (st.gh.get(('out', key(o)), ()),), False, False))]


MAPS = {}
for _a in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty'):
    _b = 'std::vector::' + _a
    if _b in models.MODELS:
        MAPS['std::map::' + _a] = wrap(_b)
for _a in ('operator*', 'operator->'):
    for _c in ('std::_Rb_tree_const_iterator::', 'std::_Rb_tree_iterator::'):
        MAPS[_c + _a] = wrap('__gnu_cxx::__normal_iterator::' + _a)
for _c in ('ostringstream', 'stringstream'):
    MAPS['std::basic_%s::str' % _c] = str_


def specs():
    """(topology, quadratic, other option bits, point names, cell names)"""
    out = []
    for q in (0, 0x80):
        for bits in range(32):
            out.append((meshcases.T2, q, bits, NAMES[1], NAMES[0] if bits % 2 else NAMES[1]))
        for pn in NAMES:
            for cn in NAMES:
                out.append((meshcases.T2R, q, 31 if pn else 0, pn, cn))
        out.append((meshcases.T0, q, 31, NAMES[1], NAMES[1]))
        out.append((meshcases.T0, q, 0, NAMES[0], NAMES[0]))
        out.append((meshcases.T1, q, 31, NAMES[2], NAMES[0]))
        out.append((meshcases.T1, q, 24, NAMES[0], NAMES[2]))
    return out


def text(sp):
    t, q, bits, pn, cn = sp
    return 'mesh with %s, options 0x%x, point data %s, cell data %s' % (t.name, q | bits, pn, cn)


def flags(i):
    return (meshes.IMPLICIT if i % 2 else 0) | (meshes.BOUNDARY if i % 3 == 0 else 0)


class VC:
    def __init__(self, p, f, sp, cls=VAna, **opt):
        self.p, self.f, self.sp = p, f, sp
        self.A = cls(p, maxsteps=1500000, **opt)
        self.A.JOIN = 64
        self.data = {}

    def setup(self, E, st, this, vs):
        p, f = self.p, self.f
        topo, q, bits, pn, cn = self.sp
        pos = meshes.of_type(p, f, 'NS::Mesh')
        if len(pos) != 1 or pos[0] == 'this':
            raise Stop('mesh parameter')
        K = meshes.Kinds(p, p.strip(f['params'][pos[0]]['t']).i)
        co = meshcases.XY[topo.n]
        W = meshes.World(E, st, K, topo, this=vs[pos[0]], coords=[(num(a), num(b)) for a, b in co], simplex='prepared')
        st = W.st
        # coordinates of the vertices are unknown, the simplices are constant
        vt = meshes.ftype(K, 'Vertex', 'Vertex')
        self.xy = []
        for i, o in enumerate(W.V):
            xy = [toP(node('sym', ('%s%d' % (d, i),), 0)) for d in 'xy']
            self.xy.append(xy)
            meshes.setf(E, st, mkptr(o), Vertex=meshes.vecval(E, vt, xy), Flags=num(flags(i)))
        for j, o in enumerate(W.S):
            c = topo.elems[j]
            ds = [W.V[k] for k in c]
            if q:
                ds = ds + [W.V[c[(k + 1) % len(c)]] for k in range(len(c))]
            meshes.setf(E, st, mkptr(o), DOFVertices=meshes.clist([mkptr(d) for d in ds]))
        self.W, self.K = W, K
        maps = []
        for i, x in enumerate(f['params']):
            t = p.strip(x['t'])
            if t.name == 'std::map':
                maps.append(i)
        if len(maps) != 2:
            raise Stop('data parameters')
        for i, names, n, nm in ((maps[0], pn, topo.n, 'p'), (maps[1], cn, len(topo.elems), 'c')):
            t = p.strip(f['params'][i]['t'])
            vt = p.strip(p.ty(t.targs[1]['t']).of).i
            els = []
            self.data[nm] = []
            for k, s in enumerate(names):
                o = ('h', 'data.%s%d' % (nm, k))
                st.mem[o] = E.make_sym(vt, '%s%d' % (nm, k))
                E.otype[o] = vt
                if not sized.resize(E, st, mkptr(o), (n,)):
                    raise Stop('data vector')
                a = sized.container(st.mem[o])
                self.data[nm].append([pval(E.cread(st, a.args[1], num(j))) for j in range(n)])
                els.append(mkrec(('pair', nm), {'first': meshes.clist([num(ord(c)) for c in s]), 'second': mkptr(o)}))
            E.write(st, vs[i], meshes.clist(els))
        ints = [i for i, x in enumerate(f['params']) if p.strip(x['t']).k in ('int', 'uint', 'enum') and i not in pos]
        if len(ints) != 1:
            raise Stop('option parameter')
        vs[ints[0]] = num(q | bits)
        return st

    def run(self):
        self.outs, self.thr = self.A.entry(self.f, setup=self.setup)
        return self


class Render:
    """text of an output sequence; numbers stand as \\x01k\\x02 where k counts the values"""

    def __init__(self, seq):
        self.vals = []
        self.manip = []
        self.text = ''.join(self.one(h, v) for h, v in seq)

    def one(self, how, v):
        if isinstance(v, N) and v.kind == 'cstr':
            return v.args[0]
        if isinstance(v, N) and v.kind == 'streamtext':
            return ''.join(self.one(h, w) for h, w in v.args[0])
        if isinstance(v, N) and v.kind == 'fnp':
            s = str(v.args[0])
            if 'endl' in s:
                return '\n'
            if any(x in s for x in ('fixed', 'scientific', 'flush', 'left', 'right', 'dec', 'noboolalpha')) and 'hex' not in s:
                return ''
            raise Stop('manipulator %s' % s)
        if isinstance(v, N) and v.kind == 'arr':
            n, c = v.args[0].const(), v.args[1]
            if n is None or n and not (isinstance(c, N) and c.kind == 'clist'):
                raise Stop('unknown text')
            return ''.join(chr(int(toP(x).const())) for x in (c.args[0][:int(n)] if n else ()))
        if isinstance(v, P) or isinstance(v, N) and how == 'val' and v.kind in ('sym', 'ite', 'true', 'false'):
            if isinstance(v, N):
                v = pval(v)
            if how == 'char':
                k = v.const()
                if k is None:
                    raise Stop('unknown character')
                return chr(int(k))
            self.vals.append(v)
            return '\x01%d\x02' % (len(self.vals) - 1)
        if isinstance(v, N) and v.kind == 'opq' and 'setprecision' in str(v.args).lower():
            return ''
        raise Stop('unknown output %s' % str(v)[:80])


def writers(p):
    return [f for f in p.lib() if ir.plain(f['q']) == 'NS::VTKExporter::write']
