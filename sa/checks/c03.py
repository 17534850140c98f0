"""C03: type lattice of thrown objects, handler discipline and escape effects over the call graph."""
import ir
from common import Report

GROUPS = {'NS::InitException', 'NS::MathException', 'NS::DimensionException', 'NS::MeshException',
          'NS::TriangleLoaderException', 'NS::ObjLoaderException'}
BASE = 'NS::NSException'
# documented group of each concrete type (Exceptions.h / the loader headers)
MEMBER = {
    'NS::MatrixInitializerListFailedException': 'NS::InitException',
    'NS::DivisionByZeroException': 'NS::MathException',
    'NS::MatrixHasZeroInDiagException': 'NS::MathException',
    'NS::NotSquareException': 'NS::MathException',
    'NS::SingularException': 'NS::MathException',
    'NS::NotPositiveDefiniteException': 'NS::MathException',
    'NS::NotHermitianException': 'NS::MathException',
    'NS::InvalidOutputMatrixException': 'NS::MathException',
    'NS::MatrixVectorMismatchException': 'NS::MathException',
    'NS::VectorSizeMismatchException': 'NS::DimensionException',
    'NS::MatrixSizeMismatchException': 'NS::DimensionException',
    'NS::MatrixMulMismatchException': 'NS::DimensionException',
    'NS::InvalidVertexIndexException': 'NS::MeshException',
    'NS::IsolatedVertexException': 'NS::MeshException',
    'NS::MalformedVertexElementConnectionException': 'NS::MeshException',
    'NS::IncompleteElementException': 'NS::MeshException',
    'NS::ZeroVolumeSimplexException': 'NS::MeshException',
    'NS::MalformedElementNeighborConnectionException': 'NS::MeshException',
    'NS::ElementNeighborVertexException': 'NS::MeshException',
    'NS::InvalidElementCountException': 'NS::MeshException',
    'NS::TooManySharedFacesException': 'NS::MeshException',
    'NS::LoadTriangleNodeErrorException': 'NS::MeshException',
    'NS::LoadTriangleElementErrorException': 'NS::MeshException',
    'NS::LoadObjErrorException': 'NS::MeshException',
}
# standard functions that report malformed *content* by throwing a std exception
STDTHROW = {'stoi', 'stol', 'stoll', 'stoul', 'stoull', 'stof', 'stod', 'stold', 'exceptions',
            'rethrow_exception', 'throw_with_nested', 'bad_alloc'}


class Lattice:
    def __init__(self, p):
        self.p = p
        self.byq = {}
        for r in p.recs.values():
            self.byq.setdefault(r['q'], r)

    def rec(self, t):
        return self.p.rec(t)

    def bases(self, r, public_only=True):
        """all (transitive) bases with their multiplicity"""
        out = []
        for b in r.get('bases', []):
            br = self.rec(b['t'])
            if br is None:
                continue
            pub = b['access'] == 0
            if pub or not public_only:
                out.append(br['q'])
                out += self.bases(br, public_only)
        return out

    def isa(self, q, base):
        r = self.byq.get(q)
        return q == base or (r is not None and self.bases(r).count(base) == 1)


def escapes(p, lat):
    """throw set of every function: exception class names that can leave it"""
    eff = {f: {} for f in p.fns}

    def catches(h, q):
        if not h.get('t') and h.get('t') != 0:
            return True
        hr = lat.rec(h['t'])
        return hr is not None and lat.isa(q, hr['q'])

    def scan(x, out, cur=None):
        if isinstance(x, list):
            for y in x:
                scan(y, out, cur)
            return
        if not isinstance(x, dict):
            return
        if x.get('s') == 'try':
            inner = {}
            scan(x['b'], inner, cur)
            for q, w in inner.items():
                hit = None
                for h in x['h']:
                    if catches(h, q):
                        hit = h
                        break
                if hit is None:
                    out[q] = w
            for h in x['h']:
                caught = {q: w for q, w in inner.items() if catches(h, q)}
                scan(h['b'], out, caught)
            return
        if x.get('k') == 'lambda':
            return
        if x.get('s') == 'if':
            c = ir.cfold(p, x['c'])
            if c is not None:
                scan(x['t'] if c else x['e'], out, cur)
                return
        if x.get('k') == 'throw':
            if x.get('e') is None:
                for q, w in (cur or {}).items():
                    out[q] = w
            else:
                t = p.strip(x['et'])
                r = lat.rec(x['et']) if t.k == 'record' else None
                out[r['q'] if r else t.s] = x.get('l')
        if x.get('k') in ('call', 'ctor', 'new') and x.get('f'):
            for q, w in eff.get(x['f']['id'], {}).items():
                out.setdefault(q, w)
        for v in x.values():
            if isinstance(v, (dict, list)):
                scan(v, out, cur)

    ch = True
    while ch:
        ch = False
        for i, f in p.fns.items():
            o = {}
            scan([f.get('inits'), f.get('body')], o)
            if o.keys() != eff[i].keys():
                eff[i] = o
                ch = True
    return eff


def always_throws(p, s):
    """every path through the statement ends in a throw (or terminates)"""
    if s is None:
        return False
    k = s.get('s')
    if k == 'block':
        return any(always_throws(p, x) for x in s['b'])
    if k == 'if':
        return s.get('e') is not None and always_throws(p, s['t']) and always_throws(p, s['e'])
    if k == 'expr':
        e = s['e']
        while e and e.get('k') in ('cast', 'tmp'):
            e = e.get('e')
        if e and e.get('k') == 'throw':
            return True
        if e and e.get('k') == 'call' and e.get('f'):
            f = p.fns.get(e['f']['id'])
            return bool(f and f.get('body') and always_throws(p, f['body']))
    return False


def run():
    rep = Report('C03')
    p = ir.load()
    lat = Lattice(p)
    callers = {}
    for f in p.fns.values():
        for n, c in ir.callees(f):
            callers.setdefault(c['id'], set()).add(f['id'])

    # -- thrown types
    nt = 0
    for f in p.lib():
        for n in ir.walk(f['body']):
            if n.get('k') != 'throw' or n.get('e') is None:
                continue
            nt += 1
            t = p.ty(n['et'])
            where = '%s in %s' % (n.get('l'), f['q'])
            r = lat.rec(n['et']) if t.k == 'record' else None
            if r is None:
                rep.ob('thrown-type', False)
                rep.violation('thrown-type:%s:%s' % (ir.plain(f['q']), t.s), where,
                              'throws an object of type %s, which is not a library exception' % t.s)
                continue
            q = r['q']
            ok = True
            if not lat.isa(q, BASE):
                ok = False
                rep.violation('not-derived:%s' % q, where, 'thrown type %s is not (unambiguously, publicly) derived from %s' % (q, BASE))
            elif not any(lat.isa(q, g) for g in GROUPS):
                # any library-defined abstract group is acceptable, the base itself is not
                gs = [b for b in lat.bases(r) if b != BASE and lat.byq.get(b, {}).get('abstract')]
                if not gs:
                    ok = False
                    rep.violation('no-group:%s' % q, where, 'thrown type %s belongs to none of the documented groups' % q)
            if r.get('abstract') or q in GROUPS:
                ok = False
                rep.violation('abstract:%s' % q, where, 'thrown type %s is a group, not a concrete exception' % q)
            rep.ob('thrown-type', ok, where + ' throws ' + q)
    rep.need('thrown-type', 60)

    # -- documented group of every concrete type, and its description
    for q, g in MEMBER.items():
        r = lat.byq.get(q)
        if r is None:
            continue        # removed or renamed types are judged at the throw expressions
        ok = lat.isa(q, g)
        rep.ob('group', ok, '%s is a %s' % (q, g))
        if not ok:
            rep.violation('group:%s' % q, r['l'], '%s is not derived from its documented group %s' % (q, g))
    rep.need('group', 18)
    for r in list(p.recs.values()):
        if not r.get('lib') or r.get('abstract') or not lat.isa(r['q'], BASE) or r['q'] == BASE:
            continue
        w = None
        for q in [r['q']] + lat.bases(r):
            b = lat.byq.get(q)
            for m in (b or {}).get('methods', []):
                if m['n'] == 'what' and not m.get('pure'):
                    w = p.fns.get(m['id'])
                    break
            if w:
                break
        good = None
        if w and w.get('body'):
            rets = [n for n in ir.walk(w['body']) if n.get('s') == 'return']
            good = bool(rets)
            for n in rets:
                strs = [m for m in ir.walk(n['e']) if m.get('k') == 'str']
                nulls = [m for m in ir.walk(n['e']) if m.get('k') == 'null']
                if strs and any(not m.get('v') for m in strs) or nulls and not strs:
                    good = False
        rep.ob('description', good, '%s::what' % r['q'])
        if good is False:
            rep.violation('description:%s' % r['q'], r['l'], '%s::what() does not return a description' % r['q'])
    rep.need('description', 18)

    # -- handlers
    det = {f['id'] for f in p.lib() if ir.plain(f['q']) == 'NS::Operations::determinant'}
    if not det:
        raise ir.AnalysisBroken('NS::Operations::determinant not found')

    def only_from_det(i, seen=()):
        if i in det:
            return True
        cs = callers.get(i, set()) - set(seen)
        f = p.fns[i]
        if f.get('access') == 0 or not cs:
            return False
        return all(only_from_det(c, tuple(seen) + (i,)) for c in cs)
    for f in p.lib():
        for n in ir.walk(f['body']):
            if n.get('s') != 'try':
                continue
            for h in n['h']:
                if always_throws(p, h['b']):
                    rep.ob('handler', True, '%s rethrows' % f['q'])
                    continue
                ct = p.strip(h['t']).s if h.get('t') is not None else '...'
                r = lat.rec(h['t']) if h.get('t') is not None else None
                lib = r is None and h.get('t') is None or r is not None and (lat.isa(r['q'], BASE) or r['q'] == BASE)
                if not lib:
                    rep.ob('handler', True, '%s handles %s' % (f['q'], ct))
                    continue
                ok = r is not None and lat.isa(r['q'], 'NS::MathException') and only_from_det(f['id'])
                rep.ob('handler', ok, '%s maps %s' % (f['q'], ct))
                if not ok:
                    rep.violation('swallow:%s:%s' % (ir.plain(f['q']), ct), '%s in %s' % (h.get('l'), f['q']),
                                  'handler swallows %s' % ct)
            if h.get('t') is not None and p.ty(h['t']).k == 'record' and lat.rec(h['t']) and lat.rec(h['t']).get('abstract'):
                pass
    rep.need('handler', 1)

    # -- escape effects
    eff = escapes(p, lat)
    nv = 0
    for f in p.lib():
        if ir.plain(f['q']).endswith('::validate') and 'Mesh' in f['q']:
            nv += 1
            bad = [q for q in eff[f['id']] if not lat.isa(q, 'NS::MeshException')]
            rep.ob('validate-effect', not bad, '%s can throw %s' % (f['q'], sorted(eff[f['id']])))
            for q in bad:
                rep.violation('validate:%s' % q, '%s' % eff[f['id']][q], '%s lets %s out' % (f['q'], q))
        spec = None
        if f.get('noexcept') or f.get('dtor'):
            spec = []
        elif f.get('throws') is not None:
            spec = [lat.rec(t)['q'] for t in f['throws'] if lat.rec(t)]
        if spec is not None:
            bad = [q for q in eff[f['id']] if not any(lat.isa(q, s) for s in spec)]
            rep.ob('no-terminate', not bad, f['q'])
            for q in bad:
                rep.violation('terminate:%s:%s' % (ir.plain(f['q']), q), '%s in %s' % (eff[f['id']][q], f['q']),
                              '%s thrown here ends the program: %s promises not to throw it' % (q, f['q']))
        for n, c in ir.callees(f):
            if c.get('q', '').startswith('std::') and c['q'].split('::')[-1] in STDTHROW:
                rep.ob('std-throw', False)
                rep.violation('std-throw:%s:%s' % (ir.plain(f['q']), c['q']), '%s in %s' % (n.get('l'), f['q']),
                              '%s reports bad input with a standard exception' % c['q'])
        nc = sum(1 for n, c in ir.callees(f))
        rep.ob('std-call-scan', True, '%s: %d resolved calls' % (f['q'], nc))
    rep.need('validate-effect', 1)
    rep.cov['explanation'] = (
        'Every throw expression, handler, exception class and resolved call of the library (as instantiated by '
        'sa/drv/main.cpp) is read from the clang AST. Rules: thrown-type (each thrown static type is a concrete class '
        'with exactly one public NSException base through a group), group/description (class table), handler (a handler '
        'either always rethrows/throws, handles a foreign type, or maps MathException inside determinant), validate-effect '
        'and no-terminate (fixpoint of the throw effects over the call graph), std-call-scan (no call of a throwing std parser).')
    rep.cov['functions'] = len(p.lib())
    return rep.finish()
