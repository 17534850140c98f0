"""C11: exported VTK files are well formed and consistent for every option."""
import re
import ir
import meshes
import numeric
import prover
import sweep
import vtkcases
from checks import c12
from common import Report
from engine import Stop
from shaped import wit
from terms import P, ZERO, TRUE, FALSE, num, toP, f_eq, show
from xml.parsers import expat

XML = 'the file is well-formed XML'
STRUCT = 'elements of the file are those of an unstructured grid'
POINTS = 'three coordinates per point, those of the vertices'
CELLS = 'connectivity, offsets and types agree with dimension and order'
COUNT = 'an array has as many values as it declares'
DATA = 'data sets are written as given'
LABEL = 'labels are one exactly for the vertices with the flag'
OPTION = 'optional arrays follow the option word'
DONE = 'export analysed'
CTRL = re.compile('\x01(\\d+)\x02')


class Out(c12.L, vtkcases.VAna):
    pass


class El:
    def __init__(self, tag, at):
        self.tag, self.at, self.kids, self.text = tag, at, [], ''

    def all(self, tag):
        return [k for k in self.kids if k.tag == tag]


def parse(text):
    """element tree, or the position and kind of the error"""
    root = El('#', {})
    stack = [root]
    ps = expat.ParserCreate()

    def start(t, a):
        x = El(t, a)
        stack[-1].kids.append(x)
        stack.append(x)

    def end(t):
        stack.pop()

    def chars(s):
        stack[-1].text += s
    ps.StartElementHandler, ps.EndElementHandler, ps.CharacterDataHandler = start, end, chars
    ps.buffer_text = True
    try:
        ps.Parse(text.replace('\x01', '\ue000').replace('\x02', '\ue001'), True)
    except expat.ExpatError as x:
        lines = text.split('\n')
        i = x.lineno - 1
        return None, '%s: %r' % (expat.ErrorString(x.code), lines[i][:80] if i < len(lines) else '')
    return root.kids[0], None


def task(p, job):
    fid, k = job
    f = p.fns[fid]
    sp = vtkcases.specs()[k]
    what = vtkcases.text(sp)
    C = vtkcases.VC(p, f, sp, cls=Out)
    A = C.A
    try:
        C.run()
        res = [(DONE, True, what)]
    except Stop as x:
        C.outs, C.thr = [], []
        res = [(DONE, None, '%s: %s' % (what, x))]
    for w, e, t in A.bad:
        res.append((DONE, False if w else None, '%s: %s at %s%s' % (what, t, e.get('l', '?'), wit(w))))
    for st, ty, e in C.thr:
        res.append((DONE, None, '%s: throws' % what))
    outs = []
    for st, v in C.outs:
        seqs = [x for q, x in st.gh.items() if isinstance(q, tuple) and q[0] == 'out']
        if seqs:
            outs.append((st, max(seqs, key=len)))
    if not outs and C.outs:
        w = [A.sure(st) for st, v in C.outs]
        res.append((XML, False if all(x is not None for x in w) and w else None, '%s: nothing is written' % what))
    for st, seq in outs:
        try:
            one(A, C, st, seq, what, sp, res)
        except Stop as x:
            res.append((DONE, None, '%s: %s' % (what, x)))
    return res


def one(A, C, st, seq, what, sp, res):
    topo, quad, bits, pn, cn = sp
    R = vtkcases.Render(seq)

    def judge(rule, ok, text=''):
        if ok:
            res.append((rule, True, what))
        else:
            w = A.sure(st)
            res.append((rule, False if w is not None else None, '%s: %s%s' % (what, text, wit(w))))
        return ok

    def value(tok):
        m = re.fullmatch('\ue000(\\d+)\ue001', tok)
        if m:
            return R.vals[int(m.group(1))]
        if re.fullmatch(r'-?\d+', tok):
            return num(int(tok))
        return None

    def same(rule, tok, y, text):
        x = value(tok)
        if x is None:
            return judge(rule, False, '%s is no number: %r' % (text, show_(tok)))
        if A.holds(st, f_eq(x - y)):
            res.append((rule, True, what))
            return True
        w = None if st.gh.get('joined') or st.gh.get('iffy') else numeric.differ(st.facts, [(x, y)])
        res.append((rule, False if w else None, '%s: %s is %s instead of %s%s' % (what, text, show(x), show(y), wit(w))))
        return False

    def show_(s):
        return s.replace('\ue000', '{').replace('\ue001', '}')
    root, err = parse(R.text)
    if not judge(XML, root is not None, err or ''):
        return
    V, S = len(topo.elems and [1] * topo.n or [1] * topo.n), len(topo.elems)
    if not judge(STRUCT, root.tag == 'VTKFile' and root.at.get('type') == 'UnstructuredGrid' and len(root.all('UnstructuredGrid')) == 1
                 and len(root.kids[0].all('Piece')) == 1, 'no VTKFile/UnstructuredGrid/Piece'):
        return
    piece = root.all('UnstructuredGrid')[0].all('Piece')[0]
    tags = sorted(k.tag for k in piece.kids)
    if not judge(STRUCT, tags == ['CellData', 'Cells', 'PointData', 'Points'], 'the piece consists of %s' % ', '.join(tags)):
        return
    for at, n in (('NumberOfPoints', V), ('NumberOfCells', S)):
        if at in piece.at:
            same(STRUCT, piece.at[at].strip(), num(n), at)
        else:
            judge(STRUCT, False, 'no attribute %s' % at)
    sec = {k.tag: k for k in piece.kids}

    def arrays(x):
        for a in x.kids:
            judge(STRUCT, a.tag == 'DataArray' and a.at.get('format') == 'ascii' and a.at.get('type') in
                  ('Float32', 'Float64', 'Int8', 'UInt8', 'Int16', 'UInt16', 'Int32', 'UInt32', 'Int64', 'UInt64'),
                  'element %s of %s is no ascii array (%s)' % (a.tag, x.tag, a.at))
        return x.kids

    def comps(a):
        c = a.at.get('NumberOfComponents', '1')
        v = value(c)
        return int(v.const()) if v is not None and v.const() is not None else None

    def count(a, n, nm):
        c = comps(a)
        t = a.text.split()
        if not judge(COUNT, c is not None and c > 0, 'array %s declares no number of components (%s)' % (nm, show_(a.at.get('NumberOfComponents', '')))):
            return None
        if not judge(COUNT, len(t) == c * n, 'array %s has %d values, %d for each of %d are declared' % (nm, len(t), c, n)):
            return None
        bad = [x for x in t if value(x) is None]
        judge(COUNT, not bad, 'array %s contains %s' % (nm, ', '.join(show_(x) for x in bad[:2])))
        return t
    # points
    pa = arrays(sec['Points'])
    if judge(POINTS, len(pa) == 1, '%d arrays of points' % len(pa)):
        judge(POINTS, comps(pa[0]) == 3, 'points declare %s components' % comps(pa[0]))
        t = count(pa[0], V, 'Points')
        if t and comps(pa[0]) == 3:
            for i in range(V):
                for d, y in enumerate(C.xy[i] + [ZERO] * (3 - len(C.xy[i]))):
                    same(POINTS, t[3 * i + d], y, 'coordinate %d of point %d' % (d, i))
    # cells
    ca = {a.at.get('Name'): a for a in arrays(sec['Cells'])}
    if judge(CELLS, {'connectivity', 'offsets', 'types'} <= set(ca), 'the cells have the arrays %s' % sorted(map(str, ca))):
        per = 6 if quad else 3
        conn, off, typ = [ca[n].text.split() for n in ('connectivity', 'offsets', 'types')]
        if judge(CELLS, len(conn) == per * S and len(off) == S and len(typ) == S,
                 '%d vertex numbers, %d offsets and %d types for %d cells' % (len(conn), len(off), len(typ), S)):
            for j, c in enumerate(topo.elems):
                want = list(c) + ([c[(k + 1) % len(c)] for k in range(len(c))] if quad else [])
                for k, i in enumerate(want):
                    same(CELLS, conn[per * j + k], num(i), 'vertex %d of cell %d' % (k, j))
                same(CELLS, off[j], num(per * (j + 1)), 'offset of cell %d' % j)
                same(CELLS, typ[j], num(22 if quad else 5), 'type of cell %d' % j)
    # data
    opts = {'PointData': {'BoundaryLabel': 8, 'ImplicitLabel': 16}, 'CellData': {'ElementDeterminant': 1, 'ElementMatrix': 2, 'ElementGradient': 4}}
    ncomp = {'ElementMatrix': 4, 'ElementGradient': 2}
    for tag, n, names, data in (('PointData', V, pn, C.data['p']), ('CellData', S, cn, C.data['c'])):
        x = sec[tag]
        got = arrays(x)
        nm = [a.at.get('Name') for a in got]
        want = list(names) + [o for o, b in opts[tag].items() if bits & b]
        for s in names:
            judge(DATA, nm.count(s) == 1, 'data set %r is written %d times in %s' % (s, nm.count(s), tag))
        for o, b in opts[tag].items():
            judge(OPTION, nm.count(o) == (1 if bits & b else 0), 'array %s is written %d times with the option %s' % (o, nm.count(o), 'set' if bits & b else 'not set'))
        for s in nm:
            judge(DATA, s in want, 'array %r is written without being asked for' % s)
        for a in got:
            s = a.at.get('Name')
            if s in ncomp:
                judge(COUNT, comps(a) == ncomp[s], '%s declares %s components' % (s, comps(a)))
            t = count(a, n, s)
            if t is not None and s in names and comps(a) == 1:
                for i, y in enumerate(data[names.index(s)]):
                    same(DATA, t[i], y, 'value %d of %s' % (i, s))
            if t is not None and s in LABELS and s not in names and comps(a) == 1:
                for i, y in enumerate(t):
                    same(LABEL, y, num(1 if vtkcases.flags(i) & LABELS[s] else 0), 'value %d of %s (vertex flags %d)' % (i, s, vtkcases.flags(i)))
        for k in ('Scalars', 'Vectors'):
            if k in x.at:
                judge(DATA, x.at[k] in nm, '%s of %s names the array %r, which is not written' % (k, tag, x.at[k]))


LABELS = {'BoundaryLabel': meshes.BOUNDARY, 'ImplicitLabel': meshes.IMPLICIT}


def run():
    rep = Report('C11')
    p = ir.load()
    jobs = [(f['id'], k) for f in vtkcases.writers(p) for k in range(len(vtkcases.specs()))]
    for job, r, err, dt in sweep.run(p, task, jobs):
        f = p.fns[job[0]]
        if r is None:
            rep.ob(DONE, None, '%s %s: %s' % (f['q'], vtkcases.text(vtkcases.specs()[job[1]]), err))
            continue
        for rule, v, t in r:
            rep.ob(rule, v, '%s: %s' % (f['q'], t))
            if v is False:
                rep.violation('%s:%s' % (ir.plain(f['q']), rule), f['l'], '%s: %s: %s' % (f['q'], rule, t))
    for r in (XML, STRUCT, POINTS, CELLS, COUNT, DATA, OPTION, LABEL):
        rep.need(r, 80)
    rep.need(DONE, 80)
    rep.cov['explanation'] = EXPL
    return rep.finish()


EXPL = ('The exporter is interpreted abstractly on constant meshes, every option word and several data maps, with unknown vertex '
        'coordinates and data values; the collected output of every exit is a constant text, which must parse as XML and agree with '
        'the mesh, the options and the data.')
