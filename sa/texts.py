"""Input texts of constant layout with unknown numbers: a text is a list of lines, a line a list of items ('n' number, 'x' a
word that is no number, ' ' blank, '#' comment sign).  Number tokens are one character wide; their values are unknowns.
Models of the string streams read such texts."""
import engine as E_
import meshes
import models
from engine import Stop, mkarr, mkptr, pval, bval
from models import deref, isit, owner, idx, arr_of
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, toP, node, f_ge, f_gt, f_eq, fn, show

CH = {'n': '1', 'x': 'q', ' ': ' ', '#': '#', '\t': '\t', '/': '/', '\n': '\n'}


class TAna(meshes.MAna):
    """engine with string streams over scripted texts; script: name of a text -> list of lines"""
    UNROLL = 400

    def __init__(self, p, script=None, **o):
        super().__init__(p, **o)
        self.models = dict(self.models)
        self.models.update(TEXT)
        self.script = script or {}
        self.range_ = []

    def text(self, name, where):
        """(value, lines) of an argument text: longer than its lines by an unknown rest"""
        v = self.make_sym(where, name)
        return v

    def on_strrange(self, st, e, b=None, en=None):
        pass

    def on_abort(self, st, e, why='', stack=()):
        w = self.sure(st)
        self.bad.append((w, e, 'the program is aborted (%s)' % (why or 'assertion')))


def key(o):
    while isinstance(o, N) and o.kind == 'ite':
        raise Stop('stream unknown')
    if not (isinstance(o, N) and o.kind == 'ptr'):
        raise Stop('stream unknown')
    return o.args[0]


def basename(a):
    """name of the text an array is"""
    c = a.args[1]
    if isinstance(c, N) and c.kind == 'cbase' and isinstance(c.args[0], str):
        return c.args[0]
    return None


def get(st, o):
    s = st.gh.get(('stream', key(o)))
    if s is None:
        raise Stop('stream unknown')
    return s


def put(st, o, s):
    st = st.fork()
    st.gh[('stream', key(o))] = s
    return st


def chars(a):
    """constant characters of an array, None when unknown; a character is the pair (code, token id)"""
    n = a.args[0].const()
    if n is None:
        return None
    c = a.args[1]
    off = 0
    while isinstance(c, N) and c.kind == 'coff':
        k = c.args[1].const()
        if k is None:
            return None
        off += int(k)
        c = c.args[0]
    if n == 0:
        return []
    if not (isinstance(c, N) and c.kind == 'clist'):
        return None
    r = list(c.args[0][off:off + int(n)])
    if len(r) != n:
        return None
    return r


def open_(E, st, loc, vs, e, fr):
    """stream over a string: (kind, data, position, state)"""
    v = deref(E, st, vs[0], e) if vs else None
    st = st.fork()
    E.put(st, loc, node('opq', ('stream', fr.id, id(e))))
    if isinstance(v, N) and v.kind == 'arr':
        nm = basename(v)
        if nm in E.script:
            s = ('lines', nm, 0, 'good')
        else:
            c = chars(v)
            if c is None:
                raise Stop('stream over an unknown text')
            s = ('chars', tuple(c), 0, 'good')
    else:
        s = ('chars', (), 0, 'good')
    st.gh[('stream', key(loc))] = s
    return [st]


def line(E, nm, i):
    """characters of a line; number tokens carry their identity in the text"""
    out = []
    for j, c in enumerate(E.script[nm][i]):
        out.append(num(ord(CH.get(c, c))))
    return out


def getline(E, st, o, vs, e, fr):
    s, dst = vs[0], vs[1]
    k, nm, i, state = get(st, s)
    if k != 'lines':
        raise Stop('getline of a part')
    if i >= len(E.script[nm]):
        st = put(st, s, (k, nm, i, 'fail'))
        return [(st, s)]
    st = put(st, s, (k, nm, i + 1, 'good'))
    cs = line(E, nm, i)
    E.write(st, dst, meshes.clist(cs), e)
    st.gh[('line', key(dst))] = (nm, i)
    st.gh['reading'] = (nm, i)
    return [(st, s)]


def extract(E, st, o, vs, e, fr):
    """number extraction"""
    s = o if o is not None else vs[0]
    dst = vs[0] if o is not None else vs[1]
    k, cs, pos, state = get(st, s)
    if k != 'chars':
        raise Stop('extraction from the whole text')
    if state != 'good':
        return [(put(st, s, (k, cs, pos, 'fail')), s)]
    i = pos
    codes = []
    for c in cs:
        x = c.const()
        if x is None:
            raise Stop('unknown character')
        codes.append(chr(int(x)))
    while i < len(codes) and codes[i].isspace():
        i += 1
    if i >= len(codes):
        return [(put(st, s, (k, cs, i, 'fail')), s)]
    t = E.p.ty(e['f']['ptypes'][-1])
    ty = t.of if t.k in ('ref', 'rref') else e['f']['ptypes'][-1]
    if E.p.ty(ty).k not in ('int', 'uint', 'float'):
        raise Stop('extraction of no number')
    if not codes[i].isdigit():
        st = put(st, s, (k, cs, i, 'fail'))
        E.write(st, dst, ZERO, e)
        return [(st, s)]
    j = i
    while j < len(codes) and codes[j].isdigit():
        j += 1
    # which token of the line is it: counted from the end of the line
    nm, ln = st.gh.get('reading', ('?', 0))
    whole = E.script[nm][ln] if nm in E.script else ''
    at = len(whole) - (len(codes) - i)
    if whole[at] == 'n':
        v = E.make_sym(ty, '%s.%d.%d' % (nm, ln, at))
    else:
        v = num(int(whole[at:at + j - i]))
    st = put(st, s, (k, cs, j, 'eof' if j >= len(codes) else 'good'))
    if E.p.ty(ty).k == 'uint':
        st.facts += (f_ge(v),)
    E.write(st, dst, v, e)
    return [(st, s)]


def state(pred):
    def f(E, st, o, vs, e, fr):
        return [(st, TRUE if pred(get(st, o)[3]) else FALSE)]
    return f


def tellg(E, st, o, vs, e, fr):
    k, cs, pos, s = get(st, o)
    if s == 'fail':
        return [(st, num(-1))]
    if s == 'eof':
        st = put(st, o, (k, cs, pos, 'fail'))       # the sentry of an unformatted input function fails at the end
        return [(st, num(-1))]
    return [(st, num(pos))]


def fpos(E, st, o, vs, e, fr):
    return [(st, deref(E, st, o, e))]


def isspace(E, st, o, vs, e, fr):
    c = models.scal(E, st, e, vs, 0)
    k = c.const()
    if k is None:
        return [(st, fn('fn', 'isspace', c, isint=1))]
    return [(st, ONE if chr(int(k)).isspace() else ZERO)]


def isdigit(E, st, o, vs, e, fr):
    c = models.scal(E, st, e, vs, 0)
    k = c.const()
    if k is None:
        return [(st, fn('fn', 'isdigit', c, isint=1))]
    return [(st, ONE if chr(int(k)).isdigit() else ZERO)]


def skip(E, st, o, vs, e, fr):
    return [(st, None)]


def flags(E, st, o, vs, e, fr):
    return [(st, ZERO)]


def cases(base):
    """element of a list of pointers: one case per position"""
    def f(E, st, o, vs, e, fr):
        i = E_.pval(vs[0])
        if i.const() is None and isinstance(o, N) and o.kind == 'ptr':
            try:
                a = arr_of(E, st, o)
            except Stop:
                return base(E, st, o, vs, e, fr)
            n = a.args[0].const()
            c = a.args[1]
            if n is not None and n <= 6 and not models.scalar_elems(E, e):
                out, rest = [], [st]
                for k in range(int(n)):
                    nxt = []
                    for s in rest:
                        for s2, t in E.split(s, f_eq(i - num(k))):
                            if t:
                                out += base(E, s2, o, [num(k)], e, fr)
                            else:
                                nxt.append(s2)
                    rest = nxt
                for s in rest:
                    out += base(E, s, o, vs, e, fr)
                return out
        return base(E, st, o, vs, e, fr)
    return f


TEXT = {}
for _n in ('std::vector::operator[]', 'std::vector::at'):
    TEXT[_n] = cases(models.MODELS[_n])
for _c in ('istringstream', 'stringstream', 'iostream', 'istream'):
    TEXT['std::basic_%s::basic_%s' % (_c, _c)] = open_
TEXT['std::getline'] = getline
TEXT['std::basic_istream::operator>>'] = extract
TEXT['std::operator>>'] = extract
TEXT['std::basic_ios::good'] = state(lambda s: s == 'good')
TEXT['std::basic_ios::fail'] = TEXT['std::basic_ios::operator!'] = state(lambda s: s == 'fail')
TEXT['std::basic_ios::eof'] = state(lambda s: s != 'good')
TEXT['std::basic_ios::operator bool'] = state(lambda s: s != 'fail')
TEXT['std::basic_istream::tellg'] = tellg
TEXT['std::fpos::operator long'] = fpos
TEXT['isspace'] = TEXT['std::isspace'] = isspace
TEXT['isdigit'] = TEXT['std::isdigit'] = isdigit
TEXT['std::operator|'] = flags


def number(E, nm, ln, at, isint):
    return toP(node('sym', ('%s.%d.%d' % (nm, ln, at),), isint))
