"""Entry states for the mesh loaders: texts of constant layout with unknown numbers (texts.py), parsed OBJ shapes of constant
sizes with unknown contents."""
import engine as E_
import ir
import meshes
import texts
from engine import Stop, mkarr, mkrec, pval
from models import deref
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ge, f_gt, f_eq, show

NODES = ['3 2', '1 n n', '2 n n', '3 n n']
NODES0 = ['3 2', '0 n n', '1 n n', '2 n n']
ELEMS = ['1 3', '1 1 2 3']
ELEMS0 = ['1 3', '0 0 1 2']
GOODN = ['n n', 'n n n', 'n n n', 'n n n']


class C:
    """one case: description, scripts (node text, element text), which text is broken ('node', 'element' or None), whether the
    record structure is incomplete"""

    def __init__(self, name, node, elem, part, cut=False):
        self.name, self.node, self.elem, self.part, self.cut = name, node, elem, part, cut


def triangle():
    out = []
    for base, N0, E0 in (('1', NODES, ELEMS), ('0', NODES0, ELEMS0)):
        E = lambda name, s, cut=False: out.append(C('element text: ' + name + ' (numbers from %s)' % base, N0, s, 'element', cut))
        E('one triangle with unknown numbers', ['n n', 'n n n n'])
        E('triangle with unknown corners', ['1 3', base + ' n n n'])
        E('two triangles', ['2 3', base + ' n n n', '%d 1 2 n' % (int(base) + 1)])
        E('attribute columns', ['1 3 n', base + ' n n n n'])
        E('comments and blank lines', ['# n n', '', '  ', '1 3', '', '# n', base + '  n n n # n', ' '])
        E('comments behind numbers', ['1 3#n', base + ' n n n#n n', '#n'])
        E('tabs', ['1\t3', base + '\tn \tn\tn\t'])
        E('carriage returns', ['1 3\r', '\r', base + ' n n n\r'])
        E('leading blanks', ['  1 3', '  %s n n n ' % base])
        E('long numbers', ['nnn 3', base + ' nnn nn nnnn'])
        E('only the header', ['n n'])
        E('nothing', [])
        for cut in (base + ' n n', base + ' n', base, base + ' ', base + ' n n ', base + ' n n # n', base + ' n #', base + ' n n#n', base + ' n#n n', base + '#n n n', base + ' n n\r', base + ' n\r', 'n n n', '1 2 ', base + ' n nnn', base + ' nn', 'nnnn'):
            E('truncated record "%s"' % cut, ['1 3', cut], True)
        E('truncated second record', ['2 3', base + ' 1 2 1', '%d 1 2' % (int(base) + 1)], True)
        E('truncated header', ['n', base + ' n n n'], True)
        E('truncated header with comment', ['n # n', base + ' n n n'], True)
        Nn = lambda name, s, cut=False: out.append(C('node text: ' + name + ' (numbers from %s)' % base, s, E0, 'node', cut))
        Nn('unknown numbers', ['n n', 'n n n', 'n n n', 'n n n'])
        Nn('unknown coordinates', N0)
        Nn('attribute columns and comments', ['3 2 n n', base + ' n n n n', '', '# n', '%d n n # n' % (int(base) + 1), '%d  n n ' % (int(base) + 2)])
        Nn('comments behind numbers', ['3 2#n', base + ' n n#n', '%d n n#' % (int(base) + 1), '%d n n# n' % (int(base) + 2)])
        Nn('tabs', ['3\t2\tn', base + '\tn\t\tn', '%d n\tn\t' % (int(base) + 1), '%d\tn n' % (int(base) + 2)])
        Nn('carriage returns', ['3 2\r', base + ' n n\r', '\r', '%d n n\r' % (int(base) + 1), '%d n n \r' % (int(base) + 2)])
        Nn('long numbers', ['nnn 2', base + ' nnnn nnn', '%d nn nnn' % (int(base) + 1), '%d n nnn ' % (int(base) + 2)])
        Nn('unknown numbering', ['3 2', 'n n n', 'n n n', 'n n n'])
        for cut in (base + ' n', base, base + ' ', base + ' n ', base + ' n # n', base + ' #', base + ' n#n', base + '#n n', base + ' n\r', 'n n', 'n n ', base + ' nnn', 'nnn'):
            Nn('truncated record "%s"' % cut, ['3 2', cut], True)
        Nn('truncated last record', N0[:3] + ['%d n' % (int(base) + 2)], True)
        Nn('truncated header', ['n'] + N0[1:], True)
        out.append(C('node text: nothing (numbers from %s)' % base, [], E0, 'both'))
    return out


def fn(p, cls, name):
    return [f for f in p.lib() if f.get('rec') is not None and (p.strip(f['rec']).name or '') == 'NS::' + cls and ir.plain(f['q']).split('::')[-1] == name
            and f.get('access') not in (1, 2)]


def run_triangle(p, f, c, mix=None, **opt):
    """(engine, normal exits, exits by exception)"""
    names = [q['n'] for q in f['params']]
    if len(names) != 2:
        raise Stop('loader takes %d texts' % len(names))
    cls = type('T', (mix, texts.TAna), {}) if mix else texts.TAna
    A = cls(p, script=dict(zip(names, (c.node, c.elem))), maxsteps=6000000, **opt)
    A.names = names
    A.JOIN = 400
    A.MAXSTATES = 5000

    def setup(E, st, this, vs):
        # the text is at least as long as its lines; it may go on with comments
        for nm, v, s in zip(names, vs, (c.node, c.elem)):
            a = deref(E, st, v)
            st.facts += (f_ge(a.args[0] - num(sum(len(x) + 1 for x in s))),)
        return st
    outs, thr = A.entry(f, setup=setup)
    return A, outs, thr


OBJ = [(), ((9, 3),), ((9, 6, (0, 1, None, 2, None, None)),), ((12, 6, (0, 1, 2, 2, None, 3)),), ((6, 3),), ((0, 3),), ((9, 0),), ((0, 0),), ((8, 3),), ((9, 4),), ((9, 2),), ((2, 3),), ((9, 3), (9, 3))]


def objtext(o):
    return 'OBJ with %s' % ('no shapes' if not o else ' and '.join('a shape of %d coordinates and %d indices' % x[:2] for x in o))


def run_obj(p, f, o, mix=None, **opt):
    cls = type('T', (mix, texts.TAna), {}) if mix else texts.TAna
    A = cls(p, maxsteps=6000000, **opt)
    A.JOIN = 400
    A.MAXSTATES = 5000
    A.shapes = []

    def loadobj(E, st, ob, vs, e, fr):
        out = [(st.fork(), FALSE)]
        st = st.fork()
        t = E.p.strip(e['f']['ptypes'][0])
        el = t.targs[0]['t']
        sh = []
        A.shapes = []
        for i, (np, ni, *fix) in enumerate(o):
            v = E.make_sym(el, 'shape%d' % i)
            fs = dict(v.args[1])
            ms = dict(fs['mesh'].args[1])
            pos = [toP(node('sym', ('s%d.p%d' % (i, k),), 0)) for k in range(np)]
            ind = [toP(node('sym', ('s%d.i%d' % (i, k),), 2)) for k in range(ni)]
            if fix:
                ind = [x if y is None else num(y) for x, y in zip(ind, fix[0])]
            for x in ind:
                st.facts += (f_ge(x),)
            ms['positions'] = meshes.clist(pos)
            ms['indices'] = meshes.clist(ind)
            fs['mesh'] = mkrec(fs['mesh'].args[0], ms)
            sh.append(mkrec(v.args[0], fs))
            A.shapes.append((pos, ind))
        E.write(st, vs[0], meshes.clist(sh), e)
        out.append((st, TRUE))
        return out
    A.models = dict(A.models)
    A.models['tinyobj::LoadObj'] = loadobj
    A.script = {f['params'][0]['n']: []}
    outs, thr = A.entry(f)
    return A, outs, thr
