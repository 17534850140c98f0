"""Effects of the standard library functions the analysed code uses, in terms of the abstract memory.

A model of a function is m(engine, state, object location, argument values, call expression, frame) -> [(state, value)];
the model of a constructor writes the object and yields states."""
from fractions import Fraction

import terms
from terms import (P, N, ZERO, ONE, TRUE, FALSE, num, toP, fn, f_ge, f_gt, f_eq, f_ne, f_not, f_and, f_or, node)

MODELS = {}


def M(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def eng():
    import engine
    return engine


def deref(E, st, v, e=None):
    """value of an argument that may be a location"""
    if isinstance(v, N) and v.kind in ('ptr', 'sp', 'ite') and not (v.kind == 'ite' and eng()._numite(v)):
        return E.read(st, E.topl(st, v, e), e)
    return v


def argval(E, st, e, vs, i):
    """value of argument i (reads lvalues)"""
    v = vs[i]
    a = E.argexpr(e, i)
    if a is not None and a.get('lv') or (a is not None and a.get('k') == 'tmp'):
        v = deref(E, st, v, e)
        if isinstance(v, N) and v.kind == 'undef':
            v = E.loaded(st, v, a)
    return v


def arr_of(E, st, o):
    a = E.read(st, o)
    if isinstance(a, N) and a.kind == 'arr':
        return a
    if isinstance(a, N) and a.kind == 'ite':
        x, y = a.args[1], a.args[2]
        if isinstance(x, N) and isinstance(y, N) and x.kind == y.kind == 'arr':
            return eng().ite(a.args[0], x, y)
    raise eng().Stop('sequence expected, got %s' % terms.show(a))


def elty(E, e, o=None):
    """element type of the receiver's class"""
    r = e['f'].get('rec')
    if r is None:
        r = e['t']
    c = E.container(E.p.strip(r))
    return c[0]


def scalar_elems(E, e):
    """is the container of this member call one of numbers?"""
    try:
        return E.p.ty(elty(E, e)).k in ('int', 'uint', 'float', 'enum', 'bool')
    except Exception:
        return True


def setarr(E, st, o, size, content, e):
    st = st.fork()
    E.write(st, o, node('arr', (size, content)), e)
    return st


def moved(E, st, o, frm=None):
    """the elements of the sequence at o may have moved: references to them (from index frm on) are no longer valid"""
    if not hasattr(E, 'on_stale'):
        return st
    n = len(o.args[1])
    out = set()
    for loc, v in st.mem.items():
        if loc[0] != 'v' or not (isinstance(v, N) and v.kind == 'refv'):
            continue
        r = v.args[0]
        if isinstance(r, N) and r.kind == 'ptr' and r.args[0] == o.args[0] and len(r.args[1]) > n and r.args[1][:n] == o.args[1]:
            i = r.args[1][n]
            if frm is not None and not (isinstance(i, P) and i.const() is not None and frm.const() is not None and i.const() >= frm.const()):
                continue
            out.add(loc)
    if out:
        st.gh['stale'] = st.gh.get('stale', frozenset()) | out
    return st


def itptr(o, i):
    return node('ptr', (o.args[0], o.args[1] + (i,)))


def isit(v):
    return isinstance(v, N) and v.kind == 'ptr' and v.args[1] and isinstance(v.args[1][-1], P)


def idx(v):
    return v.args[1][-1]


def owner(v):
    return node('ptr', (v.args[0], v.args[1][:-1]))


# ---- sequences ------------------------------------------------------------------------------
@M('std::vector::size', 'std::array::size', 'std::initializer_list::size', 'std::basic_string::size', 'std::basic_string::length',
   'std::array::max_size')
def size(E, st, o, vs, e, fr):
    if o.kind != 'ptr':
        return [(st, E.unkval(e, fr))]
    return [(st, arr_of(E, st, o).args[0])]


@M('std::vector::empty', 'std::array::empty', 'std::basic_string::empty')
def empty(E, st, o, vs, e, fr):
    if o.kind != 'ptr':
        return [(st, E.unkval(e, fr))]
    return [(st, f_eq(arr_of(E, st, o).args[0]))]


@M('std::vector::operator[]', 'std::array::operator[]', 'std::basic_string::operator[]')
def subscript(E, st, o, vs, e, fr):
    i = eng().pval(vs[0])
    if o.kind != 'ptr':
        return [(st, E.unkval(e, fr))]
    return [(st, E.index(st, o, i, e))]


@M('std::vector::at', 'std::array::at', 'std::basic_string::at')
def at(E, st, o, vs, e, fr):
    i = eng().pval(vs[0])
    a = arr_of(E, st, o)
    out = []
    for s, ok in E.split(st, f_and(f_ge(i), f_gt(a.args[0] - i))):
        if ok:
            out.append((s, E.index(s, o, i, e)))
        else:
            E.raise_(s, None, e)
    return out


@M('std::vector::front', 'std::array::front', 'std::vector::back', 'std::array::back', 'std::basic_string::front',
   'std::basic_string::back')
def ends(E, st, o, vs, e, fr):
    if o.kind != 'ptr':
        return [(st, E.unkval(e, fr))]
    n = arr_of(E, st, o).args[0]
    i = ZERO if e['f']['q'].endswith('front') else n - 1
    return [(st, E.index(st, o, i, e, n))]


@M('std::vector::begin', 'std::vector::cbegin', 'std::array::begin', 'std::array::cbegin', 'std::initializer_list::begin',
   'std::basic_string::begin', 'std::basic_string::cbegin', 'std::vector::data', 'std::array::data')
def begin(E, st, o, vs, e, fr):
    if o is None or o.kind != 'ptr':
        return [(st, E.unkval(e, fr))]
    return [(st, itptr(o, ZERO))]


@M('std::vector::end', 'std::vector::cend', 'std::array::end', 'std::array::cend', 'std::initializer_list::end',
   'std::basic_string::end', 'std::basic_string::cend')
def end(E, st, o, vs, e, fr):
    if o.kind != 'ptr':
        return [(st, E.unkval(e, fr))]
    return [(st, itptr(o, arr_of(E, st, o).args[0]))]


@M('std::begin', 'std::end', 'std::cbegin', 'std::cend')
def freebegin(E, st, o, vs, e, fr):
    o = vs[0]
    if not (isinstance(o, N) and o.kind == 'ptr'):
        return [(st, E.unkval(e, fr))]
    return [(st, itptr(o, ZERO if 'begin' in e['f']['q'] else arr_of(E, st, o).args[0]))]


@M('std::vector::push_back', 'std::vector::emplace_back', 'std::basic_string::push_back')
def push_back(E, st, o, vs, e, fr):
    a = arr_of(E, st, o)
    v = argval(E, st, e, vs, 0) if vs else E.zero_of(elty(E, e))
    n = a.args[0]
    E.event('push', st, e, obj=o, val=v)
    return [(moved(E, setarr(E, st, o, n + 1, E.cset(st, a.args[1], n, v), e), o), None)]


@M('std::vector::pop_back')
def pop_back(E, st, o, vs, e, fr):
    a = arr_of(E, st, o)
    return [(setarr(E, st, o, a.args[0] - 1, a.args[1], e), None)]


@M('std::vector::reserve', 'std::vector::shrink_to_fit', 'std::basic_string::reserve')
def reserve(E, st, o, vs, e, fr):
    if vs:
        n = eng().pval(vs[0])
        E.event('reserve', st, e, n=n, obj=o)
        d = n - arr_of(E, st, o).args[0]
        if d.const() is not None and d.const() > 0:
            return [(moved(E, st.fork(), o), None)]
    return [(st, None)]


@M('std::vector::clear', 'std::basic_string::clear')
def clear(E, st, o, vs, e, fr):
    z = node('cfill', (E.zero_of(elty(E, e)),))
    return [(moved(E, setarr(E, st, o, ZERO, z, e), o), None)]


@M('std::vector::resize')
def resize(E, st, o, vs, e, fr):
    a = arr_of(E, st, o)
    n = eng().pval(vs[0])
    el = elty(E, e)
    E.event('reserve', st, e, n=n, obj=o)
    if len(vs) > 1:
        v = argval(E, st, e, vs, 1)
        outs = [(st, v)]
    else:
        outs = fresh_elem(E, el, st, fr, e)
    res = []
    for s, v in outs:
        m = a.args[0]
        z = node('cfill', (v,))
        if m.const() == 0:
            c = z
        elif m == n:
            c = a.args[1]
        else:
            c = node('ccat', (a.args[1], m, z))
        z = setarr(E, s, o, n, c, e)
        d = n - m
        if d.const() is not None and d.const():
            moved(E, z, o, None if d.const() > 0 else n)
        res.append((z, None))
    return res


def fresh_elem(E, el, st, fr, e):
    """value-initialised element of a sequence"""
    t = E.p.strip(el)
    if t.k == 'record' and not E.container(t):
        o = ('t', fr.id, 'fe%d' % id(e))
        s = st.fork()
        return [(x, x.mem[o]) for x in E.default_init(el, node('ptr', (o, ())), s, fr, e, True)]
    return [(st, E.zero_of(el))]


@M('std::vector::assign')
def assign(E, st, o, vs, e, fr):
    if len(vs) == 2 and isit(vs[0]):
        return [(copy_range(E, st, o, vs[0], vs[1], e), None)]
    n = eng().pval(vs[0])
    v = argval(E, st, e, vs, 1)
    return [(setarr(E, st, o, n, node('cfill', (v,)), e), None)]


def copy_range(E, st, o, b, en, e):
    a = arr_of(E, st, owner(b))
    c = a.args[1] if idx(b).const() == 0 else node('coff', (a.args[1], idx(b)))
    return setarr(E, st, o, idx(en) - idx(b), c, e)


@M('std::vector::insert')
def insert(E, st, o, vs, e, fr):
    it = vs[0]
    if not isit(it) or len(vs) != 2:
        return E.unknown(st, o, vs, e, fr, 'std::vector::insert')
    a = arr_of(E, st, o)
    i = idx(it)
    v = argval(E, st, e, vs, 1)
    E.event('insert', st, e, idx=i, size=a.args[0], obj=o, val=v)
    s = moved(E, setarr(E, st, o, a.args[0] + 1, node('cins', (a.args[1], i, v)), e), o)
    return [(s, itptr(o, i))]


@M('std::vector::erase')
def erase(E, st, o, vs, e, fr):
    it = vs[0]
    if not isit(it) or len(vs) != 1:
        if len(vs) == 2 and isit(it) and isit(vs[1]):
            a = arr_of(E, st, o)
            d = idx(vs[1]) - idx(it)
            c = node('ccat', (a.args[1], idx(it), node('coff', (a.args[1], idx(vs[1])))))
            return [(setarr(E, st, o, a.args[0] - d, c, e), it)]
        return E.unknown(st, o, vs, e, fr, 'std::vector::erase')
    a = arr_of(E, st, o)
    i = idx(it)
    E.event('index', st, e, idx=i, size=a.args[0], base=o)
    s = moved(E, setarr(E, st, o, a.args[0] - 1, node('cdel', (a.args[1], i)), e), o, i)
    return [(s, itptr(o, i))]


@M('std::vector::swap', 'std::array::swap', 'std::swap', 'std::basic_string::swap')
def swap(E, st, o, vs, e, fr):
    a, b = (o, vs[0]) if o is not None else (vs[0], vs[1])
    a, b = E.topl(st, a, e), E.topl(st, b, e)
    if not (isinstance(a, N) and isinstance(b, N) and a.kind == 'ptr' and b.kind == 'ptr'):
        return E.unknown(st, o, vs, e, fr, 'std::swap')
    st = st.fork()
    va, vb = E.read(st, a, e), E.read(st, b, e)
    E.write(st, a, vb, e)
    E.write(st, b, va, e)
    return [(st, None)]


@M('std::vector::operator=', 'std::array::operator=', 'std::basic_string::operator=', 'std::pair::operator=', 'std::complex::operator=')
def op_assign(E, st, o, vs, e, fr):
    v = deref(E, st, vs[0], e)
    st = st.fork()
    E.write(st, o, v, e)
    return [(st, o)]


@M('std::array::fill')
def afill(E, st, o, vs, e, fr):
    a = arr_of(E, st, o)
    return [(setarr(E, st, o, a.args[0], node('cfill', (argval(E, st, e, vs, 0),)), e), None)]


@M('std::vector::capacity')
def capacity(E, st, o, vs, e, fr):
    return [(st, E.unkval(e, fr))]


# constructors
@M('std::vector::vector')
def vec_ctor(E, st, loc, vs, e, fr):
    el = E.container(E.p.strip(e['t']))[0]
    pt = e['f'].get('ptypes', [])
    st = st.fork()
    if vs and isit(vs[0]) and len(vs) >= 2 and isit(vs[1]):
        a = arr_of(E, st, owner(vs[0]))
        b, en = idx(vs[0]), idx(vs[1])
        E.put(st, loc, node('arr', (en - b, a.args[1] if b.const() == 0 else node('coff', (a.args[1], b)))))
        return [st]
    if vs and isinstance(vs[0], N) and (vs[0].kind == 'arr' or vs[0].kind == 'ptr'):
        v = deref(E, st, vs[0], e)
        if v.kind == 'arr':
            E.put(st, loc, v)
            return [st]
        # allocator argument
        vs = []
    if vs and isinstance(vs[0], P):
        n = vs[0]
        E.event('reserve', st, e, n=n, obj=loc)
        t1 = E.p.strip(pt[1]) if len(pt) > 1 else None
        if len(vs) > 1 and t1 is not None and 'allocator' not in t1.s:
            E.put(st, loc, node('arr', (n, node('cfill', (argval(E, st, e, vs, 1),)))))
            return [st]
        out = []
        for s, v in fresh_elem(E, el, st, fr, e):
            s = s.fork()
            E.put(s, loc, node('arr', (n, node('cfill', (v,)))))
            out.append(s)
        return out
    E.put(st, loc, node('arr', (ZERO, node('cfill', (E.zero_of(el),)))))
    return [st]


@M('default:std::vector', 'default:std::basic_string', 'default:std::__cxx11::basic_string')
def vec_default(E, st, loc, vs, e, fr):
    return [st]


@M('std::array::array', 'std::initializer_list::initializer_list')
def arr_ctor(E, st, loc, vs, e, fr):
    st = st.fork()
    if vs:
        v = deref(E, st, vs[0], e)
        E.put(st, loc, v)
    else:
        E.put(st, loc, E.zero_of(e['t']) if e.get('zero') else E.undef_of(e['t'], e['l']))
    return [st]


@M('std::basic_string::basic_string')
def str_ctor(E, st, loc, vs, e, fr):
    st = st.fork()
    v = deref(E, st, vs[0], e) if vs else None
    if v is None:
        E.put(st, loc, node('arr', (ZERO, node('cfill', (ZERO,)))))
    elif isinstance(v, N) and v.kind == 'arr' and len([x for x in vs if x is not None]) == 1:
        E.put(st, loc, v)
    elif isit(vs[0]) and len(vs) > 1 and isit(vs[1]):
        a = arr_of(E, st, owner(vs[0]))
        E.event('strrange', st, e, b=vs[0], en=vs[1])
        E.put(st, loc, node('arr', (idx(vs[1]) - idx(vs[0]), node('coff', (a.args[1], idx(vs[0]))))))
    elif isinstance(v, N) and v.kind == 'cstr':
        s = str(v.args[0])
        E.put(st, loc, node('arr', (num(len(s)), node('clist', (tuple(num(ord(c)) for c in s),)))))
    else:
        E.put(st, loc, E.make_sym(e['t'], ('str', fr.id, id(e)), '', False))
    return [st]


# ---- iterators -----------------------------------------------------------------------------
@M('__gnu_cxx::__normal_iterator::__normal_iterator', 'std::_Rb_tree_const_iterator::_Rb_tree_const_iterator',
   'std::_Rb_tree_iterator::_Rb_tree_iterator')
def it_ctor(E, st, loc, vs, e, fr):
    st = st.fork()
    if vs:
        v = vs[0]
        a = E.argexpr(e, 0)
        if a is not None and (a.get('lv') or a.get('k') == 'tmp'):
            v = itval(E, st, v, e)
        E.put(st, loc, v)
    return [st]


def itval(E, st, v, e):
    """an iterator operand: either an iterator value or a location that stores one"""
    if isinstance(v, N) and v.kind == 'ptr':
        try:
            w = E.peek(st, v)
        except Exception:
            w = None
        if isinstance(w, N) and w.kind in ('ptr', 'opq', 'undef', 'null'):
            ty = None
            if isit(v):
                a = E.peek(st, owner(v))
                # an iterator into a sequence of pointers reads a pointer too: only locations of iterators are followed
                if isinstance(a, N) and a.kind == 'arr':
                    return v
            return w
    return v


def itarg(E, st, e, o):
    """value of the receiver / operand iterator"""
    return itval(E, st, o, e)


def recv(E, st, o, e):
    x = e.get('obj')
    if o is None:
        return None
    # the receiver expression denotes a location holding the iterator
    w = E.peek(st, o)
    return w if isinstance(w, N) else o


@M('__gnu_cxx::__normal_iterator::operator*', '__gnu_cxx::__normal_iterator::operator->')
def it_deref(E, st, o, vs, e, fr):
    it = recv(E, st, o, e)
    if isit(it):
        a = E.peek(st, owner(it))
        n = a.args[0] if isinstance(a, N) and a.kind == 'arr' else None
        if n is not None:
            E.event('index', st, e, idx=idx(it), size=n, base=owner(it))
        return [(st, it)]
    if isinstance(it, N) and it.kind == 'opq':
        return [(st, node('opq', (it, '*'), False, False))]
    return [(st, E.unkval(e, fr))]


@M('__gnu_cxx::__normal_iterator::operator[]')
def it_sub(E, st, o, vs, e, fr):
    it = recv(E, st, o, e)
    if isit(it):
        return [(st, E.index(st, owner(it), idx(it) + eng().pval(vs[0]), e))]
    return [(st, E.unkval(e, fr))]


def _step(E, st, o, e, d, fr):
    it = recv(E, st, o, e)
    if isit(it):
        nv = itptr(owner(it), idx(it) + d)
    else:
        nv = node('opq', (it, 'step', d), False, False)
    st = st.fork()
    E.write(st, o, nv, e)
    return st, it


@M('__gnu_cxx::__normal_iterator::operator++', '__gnu_cxx::__normal_iterator::operator--',
   'std::_Rb_tree_const_iterator::operator++', 'std::_Rb_tree_iterator::operator++')
def it_inc(E, st, o, vs, e, fr):
    s, old = _step(E, st, o, e, num(1 if e['f']['q'].endswith('++') else -1), fr)
    return [(s, old if e['f'].get('ptypes') else o)]


@M('__gnu_cxx::__normal_iterator::operator+=', '__gnu_cxx::__normal_iterator::operator-=')
def it_addassign(E, st, o, vs, e, fr):
    d = eng().pval(argval(E, st, e, vs, 0))
    if '-=' in e['f']['q']:
        d = -d
    it = recv(E, st, o, e)
    if isit(it):
        a = E.peek(st, owner(it))
        if isinstance(a, N) and a.kind == 'arr':
            E.event('itmove', st, e, idx=idx(it) + d, size=a.args[0], base=owner(it))
    s, old = _step(E, st, o, e, d, fr)
    return [(s, o)]


@M('__gnu_cxx::__normal_iterator::operator+', '__gnu_cxx::__normal_iterator::operator-')
def it_add(E, st, o, vs, e, fr):
    it = recv(E, st, o, e)
    v = argval(E, st, e, vs, 0)
    d = eng().pval(v)
    if e['f']['q'].endswith('-'):
        d = -d
    if isit(it):
        return [(st, itptr(owner(it), idx(it) + d))]
    return [(st, node('opq', (it, 'plus', d), False, False))]


@M('__gnu_cxx::operator-')
def it_diff(E, st, o, vs, e, fr):
    a, b = [itv(E, st, e, vs, i) for i in (0, 1)]
    return [(st, E.ptrdiff(st, a, b))]


def itv(E, st, e, vs, i):
    v = vs[i]
    w = E.peek(st, v) if isinstance(v, N) and v.kind == 'ptr' else None
    a = E.argexpr(e, i)
    if a is not None and (a.get('lv') or a.get('k') == 'tmp') and isinstance(w, N):
        return w
    return v


def itcmp(op):
    def f(E, st, o, vs, e, fr):
        a, b = [itv(E, st, e, vs, i) for i in (0, 1)]
        if isinstance(a, N) and isinstance(b, N) and a.kind == 'ptr' and b.kind == 'ptr':
            return [(st, E.compare(st, op, a, b))]
        if op in ('==', '!='):
            r = node('pred', ('same', a, b), False, False) if a is not b else TRUE
            return [(st, r if op == '==' else f_not(r))]
        return [(st, E.unkval(e, fr))]
    return f


for _op in ('==', '!=', '<', '>', '<=', '>='):
    MODELS['__gnu_cxx::operator' + _op] = itcmp(_op)


@M('std::operator!=', 'std::operator==')
def std_eq(E, st, o, vs, e, fr):
    a, b = [itv(E, st, e, vs, i) for i in (0, 1)]
    neg = e['f']['q'].split('<')[0].endswith('!=') or e['f']['q'].endswith('!=')
    if any(x is not None and x.get('t') is not None and E.p.strip(x['t']).name == 'std::complex' for x in (E.argexpr(e, 0), E.argexpr(e, 1))):
        return [(st, E.compare(st, '!=' if neg else '==', scal(E, st, e, vs, 0), scal(E, st, e, vs, 1)))]
    if isinstance(a, N) and isinstance(b, N) and a.kind == 'arr' and b.kind == 'arr':
        r = TRUE if a is b else node('pred', ('contents-equal', a, b), False, False)
    elif isinstance(a, P) and isinstance(b, P):
        r = f_eq(a - b)
    elif isit(a) and isit(b) and owner(a) is owner(b):
        r = E.compare(st, '==', a, b)
    elif isinstance(a, N) and a.kind == 'opq':
        r = E.fresh_pred(('same', a, b))
    else:
        r = node('pred', ('same', a, b), False, False)
    return [(st, f_not(r) if neg else r)]


@M('std::distance')
def distance(E, st, o, vs, e, fr):
    a, b = [itv(E, st, e, vs, i) for i in (0, 1)]
    return [(st, E.ptrdiff(st, b, a))]


@M('std::next', 'std::prev')
def nextit(E, st, o, vs, e, fr):
    a = itv(E, st, e, vs, 0)
    d = eng().pval(vs[1]) if len(vs) > 1 else ONE
    if 'prev' in e['f']['q']:
        d = -d
    if isit(a):
        return [(st, itptr(owner(a), idx(a) + d))]
    return [(st, E.unkval(e, fr))]


# ---- algorithms ----------------------------------------------------------------------------
@M('std::fill')
def fill(E, st, o, vs, e, fr):
    b, en = itv(E, st, e, vs, 0), itv(E, st, e, vs, 1)
    v = argval(E, st, e, vs, 2)
    if not (isit(b) and isit(en)):
        return E.unknown(st, o, vs, e, fr, 'std::fill')
    return [(range_write(E, st, b, idx(en) - idx(b), lambda s, k: [(s, v)], e)[0], None)]


@M('std::fill_n')
def fill_n(E, st, o, vs, e, fr):
    b = itv(E, st, e, vs, 0)
    v = argval(E, st, e, vs, 2)
    if not isit(b):
        return E.unknown(st, o, vs, e, fr, 'std::fill_n')
    n = eng().pval(vs[1])
    return [(range_write(E, st, b, n, lambda s, k: [(s, v)], e)[0], itptr(owner(b), idx(b) + n))]


def range_write(E, st, b, n, val, e):
    """states after writing val(k) to position b+k for k < n"""
    ow = owner(b)
    a = arr_of(E, st, ow)
    E.event('range', st, e, lo=idx(b), hi=idx(b) + n, size=a.args[0], base=ow)
    if n.const() is not None and n.const() <= E.UNROLL:
        sts = [st]
        for k in range(n.const()):
            nxt = []
            for s in sts:
                for s2, v in val(s, num(k)):
                    s2 = s2.fork()
                    E.write(s2, itptr(ow, idx(b) + k), v, e)
                    nxt.append(s2)
            sts = nxt
        return sts
    return E.lp.range_comp(E, st, b, n, val, e)


@M('std::copy', 'std::copy_n')
def copy(E, st, o, vs, e, fr):
    b, d = itv(E, st, e, vs, 0), itv(E, st, e, vs, 2)
    if not (isit(b) and isit(d)):
        return E.unknown(st, o, vs, e, fr, 'std::copy')
    if e['f']['q'].startswith('std::copy_n'):
        n = eng().pval(vs[1])
    else:
        n = idx(itv(E, st, e, vs, 1)) - idx(b)
    src = owner(b)
    src_arr = arr_of(E, st, src)
    E.event('range', st, e, lo=idx(b), hi=idx(b) + n, size=src_arr.args[0], base=src)
    out = []
    for s in range_write(E, st, d, n, lambda s, k: [(s, E.cread(s, src_arr.args[1], idx(b) + k))], e):
        out.append((s, itptr(owner(d), idx(d) + n)))
    return out


@M('std::transform')
def transform(E, st, o, vs, e, fr):
    b, en, d = [itv(E, st, e, vs, i) for i in (0, 1, 2)]
    lam = vs[-1]
    if isinstance(lam, N) and lam.kind == 'ptr':
        lam = E.read(st, lam)
    b2 = itv(E, st, e, vs, 2) if len(vs) == 5 else None
    if b2 is not None:
        d = itv(E, st, e, vs, 3)
    if not (isit(b) and isit(en) and isit(d)) or lam.kind != 'lam' or (b2 is not None and not isit(b2)):
        return E.unknown(st, o, vs, e, fr, 'std::transform')
    src = arr_of(E, st, owner(b))
    src2 = arr_of(E, st, owner(b2)) if b2 is not None else None
    n = idx(en) - idx(b)
    E.event('range', st, e, lo=idx(b), hi=idx(b) + n, size=src.args[0], base=owner(b))

    def val(s, k):
        a = [E.cread(s, src.args[1], idx(b) + k)]
        if src2 is not None:
            a.append(E.cread(s, src2.args[1], idx(b2) + k))
        out = []
        for s2, r in E.call_lambda(lam, a, s, fr, e):
            out.append((s2, deref(E, s2, r) if isinstance(r, N) and r.kind == 'ptr' else r))
        return out
    return [(s, itptr(owner(d), idx(d) + n)) for s in range_write(E, st, d, n, val, e)]


@M('std::max', 'std::min')
def minmax(E, st, o, vs, e, fr):
    if len(vs) != 2:
        return [(st, E.unkval(e, fr))]
    a, b = [argval(E, st, e, vs, i) for i in (0, 1)]
    a, b = eng().pval(a), eng().pval(b)
    mx = 'max' in e['f']['q'].split('<')[0].rsplit('::', 1)[-1]
    c = f_ge(a - b) if mx else f_ge(b - a)
    if E.holds(st, c):
        r = a
    elif E.holds(st, f_not(c)):
        r = b
    else:
        r = eng().ite(c, a, b)
    if e.get('lv'):
        t = ('t', fr.id, 'mm%d' % id(e))
        st = st.fork()
        st.mem[t] = r
        return [(st, node('ptr', (t, ())))]
    return [(st, r)]


@M('std::max_element', 'std::min_element')
def max_element(E, st, o, vs, e, fr):
    b, en = itv(E, st, e, vs, 0), itv(E, st, e, vs, 1)
    if not (isit(b) and isit(en)):
        return [(st, E.unkval(e, fr))]
    n = idx(en) - idx(b)
    nc = n.const()
    a = arr_of(E, st, owner(b)) if nc is not None and nc <= 8 else None
    lam = argval(E, st, e, vs, 2) if len(vs) == 3 else None
    if a is not None and isinstance(lam, N) and lam.kind == 'lam':
        g = E.p.fns.get(lam.args[0])
        byref = g is not None and all(E.p.ty(q['t']).k in ('ref', 'rref') for q in g['params'])
        big = 'max' in e['f']['q']

        def arg(s, k):
            k = idx(b) + k
            return itptr(owner(b), k) if byref else E.cread(s, a.args[1], k)
        res = [(st, 0)]
        for k in range(1, nc):
            nxt = []
            for s, m in res:
                for s2, r in E.call_lambda(lam, [arg(s, m), arg(s, k)] if big else [arg(s, k), arg(s, m)], s, fr, e):
                    for s3, t in E.split(s2, eng().bval(r)):
                        nxt.append((s3, k if t else m))
            res = nxt
        return [(s, itptr(owner(b), idx(b) + m)) for s, m in res]
    if a is not None and len(vs) == 2:
        res = [(st, 0)]
        for k in range(1, nc):
            nxt = []
            for s, m in res:
                x = eng().pval(E.cread(s, a.args[1], idx(b) + k))
                y = eng().pval(E.cread(s, a.args[1], idx(b) + m))
                d = x - y if 'max' in e['f']['q'] else y - x
                for s2, t in E.split(s, f_gt(d)):
                    nxt.append((s2, k if t else m))
            res = nxt
        return [(s, itptr(owner(b), idx(b) + m)) for s, m in res]
    # unknown position inside the range (or its end when empty); the element is a maximum
    st = st.fork()
    k = E.fresh('pos', 2, False)
    st.facts += (f_or(f_gt(n - k), f_eq(n)), f_ge(n - k))
    return [(st, itptr(owner(b), idx(b) + k))]


@M('std::accumulate')
def accumulate(E, st, o, vs, e, fr):
    b, en = itv(E, st, e, vs, 0), itv(E, st, e, vs, 1)
    if not (isit(b) and isit(en)) or len(vs) != 3:
        return [(st, E.unkval(e, fr))]
    a = arr_of(E, st, owner(b))
    n = idx(en) - idx(b)
    v = eng().pval(argval(E, st, e, vs, 2))
    E.event('range', st, e, lo=idx(b), hi=idx(b) + n, size=a.args[0], base=owner(b))
    if n.const() is not None and n.const() <= E.UNROLL:
        for k in range(n.const()):
            v = v + eng().pval(E.cread(st, a.args[1], idx(b) + k))
        return [(st, v)]
    return [(st, v + E.lp.sum_range(E, st, a.args[1], idx(b), n))]


def callf(E, lam, ptrs, st, fr, e):
    """call a predicate or operation on elements (given by location or value)"""
    if isinstance(lam, N) and lam.kind == 'ptr':
        lam = E.peek(st, lam)
    if not (isinstance(lam, N) and lam.kind == 'lam'):
        return None
    g = E.p.fns.get(lam.args[0])
    if g is None or g.get('body') is None:
        return None
    a = []
    for i, x in enumerate(ptrs):
        ref = i < len(g['params']) and E.p.ty(g['params'][i]['t']).k in ('ref', 'rref')
        a.append(x if ref or not (isinstance(x, N) and x.kind == 'ptr' and isit(x)) else E.read(st, x, e))
    out = []
    for s, r in E.call_fn(g, None, a, st, fr, e.setdefault('_pe', {'l': e['l'], 'k': 'call', 't': e.get('t'), 'args': None}), lam):
        lv = E.p.ty(g['ret']).k in ('ref', 'rref')
        out.append((s, E.read(s, r) if lv and isinstance(r, N) and r.kind == 'ptr' else r))
    return out


def span(E, st, e, vs, i=0):
    """(first iterator, constant length) of a range argument pair, or None"""
    b, en = itv(E, st, e, vs, i), itv(E, st, e, vs, i + 1)
    if not (isit(b) and isit(en)) or owner(b) is not owner(en):
        return None
    n = (idx(en) - idx(b)).const()
    if n is None or n < 0 or n > E.UNROLL:
        return None
    a = E.peek(st, owner(b))
    if isinstance(a, N) and a.kind == 'arr':
        E.event('range', st, e, lo=idx(b), hi=idx(b) + n, size=a.args[0], base=owner(b))
    return b, int(n)


def at_(b, k):
    return itptr(owner(b), idx(b) + k)


def eqval(E, s, x, y):
    if isinstance(x, N) and isinstance(y, N) and x.kind in ('ptr', 'sp', 'null', 'ite') and y.kind in ('ptr', 'sp', 'null', 'ite'):
        return E.ptreq(s, x, y)
    if isinstance(x, (P, N)) and isinstance(y, (P, N)):
        try:
            return f_eq(eng().pval(x) - eng().pval(y))
        except Exception:
            return None
    return None


@M('std::find', 'std::find_if', 'std::find_if_not', 'std::any_of', 'std::all_of', 'std::none_of', 'std::count', 'std::count_if')
def search(E, st, o, vs, e, fr):
    nm = e['f']['q'].split('<')[0].rsplit('::', 1)[-1]
    sp = span(E, st, e, vs)
    if sp is None:
        return E.unknown(st, o, vs, e, fr, 'std::' + nm)
    b, n = sp
    val = None
    if nm in ('find', 'count'):
        a = E.argexpr(e, 2)
        v = vs[2]
        val = E.read(st, v) if isinstance(v, N) and v.kind == 'ptr' and a is not None and (a.get('lv') or a.get('k') == 'tmp') else v
    stop = nm not in ('count', 'count_if')
    live = [(st, 0)]
    out = []
    for k in range(n):
        nxt = []
        for s, c in live:
            if val is not None:
                q = eqval(E, s, E.read(s, at_(b, k), e), val)
                rs = None if q is None else [(s, q)]
            else:
                rs = callf(E, vs[2], [at_(b, k)], s, fr, e)
            if rs is None:
                return E.unknown(st, o, vs, e, fr, 'std::' + nm)
            for s1, r in rs:
                for s2, t in E.split(s1, eng().bval(r)):
                    if nm in ('all_of', 'find_if_not'):
                        t = not t
                    if t and stop:
                        out.append((s2, {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}.get(nm) or at_(b, k)))
                    else:
                        nxt.append((s2, c + (1 if t else 0)))
        live = nxt
    for s, c in live:
        out.append((s, num(c) if not stop else {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE}.get(nm) or at_(b, n)))
    return out


@M('std::for_each')
def for_each(E, st, o, vs, e, fr):
    sp = span(E, st, e, vs)
    if sp is None:
        return E.unknown(st, o, vs, e, fr, 'std::for_each')
    b, n = sp
    live = [st]
    for k in range(n):
        nxt = []
        for s in live:
            rs = callf(E, vs[2], [at_(b, k)], s, fr, e)
            if rs is None:
                return E.unknown(st, o, vs, e, fr, 'std::for_each')
            nxt += [s2 for s2, _ in rs]
        live = nxt
    return [(s, vs[2]) for s in live]


@M('std::iota', 'std::reverse', 'std::generate')
def refill(E, st, o, vs, e, fr):
    nm = e['f']['q'].split('<')[0].rsplit('::', 1)[-1]
    sp = span(E, st, e, vs)
    if sp is None:
        return E.unknown(st, o, vs, e, fr, 'std::' + nm)
    b, n = sp
    st = st.fork()
    if nm == 'iota':
        v = eng().pval(argval(E, st, e, vs, 2))
        for k in range(n):
            E.write(st, at_(b, k), v + k, e)
        return [(st, None)]
    if nm == 'reverse':
        xs = [E.read(st, at_(b, k), e) for k in range(n)]
        for k in range(n):
            E.write(st, at_(b, k), xs[n - 1 - k], e)
        return [(st, None)]
    live = [st]
    for k in range(n):
        nxt = []
        for s in live:
            rs = callf(E, vs[2], [], s, fr, e)
            if rs is None:
                return E.unknown(st, o, vs, e, fr, 'std::' + nm)
            for s2, r in rs:
                s2 = s2.fork()
                E.write(s2, at_(b, k), r, e)
                nxt.append(s2)
        live = nxt
    return [(s, None) for s in live]


@M('std::inner_product')
def inner_product(E, st, o, vs, e, fr):
    sp = span(E, st, e, vs)
    d = itv(E, st, e, vs, 2)
    if sp is None or len(vs) != 4 or not isit(d):
        return E.unknown(st, o, vs, e, fr, 'std::inner_product')
    b, n = sp
    a = E.peek(st, owner(d))
    if isinstance(a, N) and a.kind == 'arr':
        E.event('range', st, e, lo=idx(d), hi=idx(d) + n, size=a.args[0], base=owner(d))
    v = eng().pval(argval(E, st, e, vs, 3))
    for k in range(n):
        v = v + eng().pval(E.read(st, at_(b, k), e)) * eng().pval(E.read(st, at_(d, k), e))
    return [(st, v)]


@M('std::lower_bound', 'std::upper_bound')
def bound(E, st, o, vs, e, fr):
    nm = e['f']['q'].split('<')[0].rsplit('::', 1)[-1]
    sp = span(E, st, e, vs)
    if sp is None or len(vs) != 3:
        return E.unknown(st, o, vs, e, fr, 'std::' + nm)
    b, n = sp
    v = eng().pval(argval(E, st, e, vs, 2))
    xs = [eng().pval(E.read(st, at_(b, k), e)) for k in range(n)]
    if any(not E.holds(st, f_ge(y - x)) for x, y in zip(xs, xs[1:])):
        return E.unknown(st, o, vs, e, fr, 'std::' + nm)
    live, out = [st], []
    for k in range(n):
        nxt = []
        for s in live:
            for s2, t in E.split(s, f_ge(xs[k] - v) if nm == 'lower_bound' else f_gt(xs[k] - v)):
                if t:
                    out.append((s2, at_(b, k)))
                else:
                    nxt.append(s2)
        live = nxt
    return out + [(s, at_(b, n)) for s in live]


@M('std::equal')
def equal(E, st, o, vs, e, fr):
    sp = span(E, st, e, vs)
    d = itv(E, st, e, vs, 2)
    if sp is None or len(vs) != 3 or not isit(d):
        return E.unknown(st, o, vs, e, fr, 'std::equal')
    b, n = sp
    live, out = [st], []
    for k in range(n):
        nxt = []
        for s in live:
            q = eqval(E, s, E.read(s, at_(b, k), e), E.read(s, at_(d, k), e))
            if q is None:
                return E.unknown(st, o, vs, e, fr, 'std::equal')
            for s2, t in E.split(s, q):
                if t:
                    nxt.append(s2)
                else:
                    out.append((s2, FALSE))
        live = nxt
    return out + [(s, TRUE) for s in live]


# ---- numbers -------------------------------------------------------------------------------
def scal(E, st, e, vs, i):
    return eng().pval(argval(E, st, e, vs, i))


@M('std::abs', 'abs', 'std::fabs', 'fabs')
def absf(E, st, o, vs, e, fr):
    v = scal(E, st, e, vs, 0)
    c = v.const()
    if c is not None:
        return [(st, num(abs(c)))]
    if E.holds(st, f_ge(v)):
        return [(st, v)]
    if E.holds(st, f_ge(-v)):
        return [(st, -v)]
    return [(st, toP(absn(v)))]


def absn(v):
    lead = max(k for k in v.m)
    if v.m[lead] < 0:
        v = -v
    return node('abs', (v,), 2 if v.isint() else 0)


terms.REBUILD['abs'] = lambda x, a: (num(abs(a[0].const())) if a[0].const() is not None else absn(a[0]))


@M('std::sqrt', 'sqrt')
def sqrt(E, st, o, vs, e, fr):
    v = scal(E, st, e, vs, 0)
    E.event('sqrt', st, e, arg=v)
    c = v.const()
    if c is not None and c >= 0:
        n = Fraction(c)
        from math import isqrt
        a, b = isqrt(n.numerator), isqrt(n.denominator)
        if a * a == n.numerator and b * b == n.denominator:
            return [(st, num(Fraction(a, b)))]
    r = fn('sqrt', v)
    if c is None and E.holds(st, f_ne(v)):
        st.facts += (f_ne(r),)
    return [(st, r)]


def uf(name):
    def f(E, st, o, vs, e, fr):
        return [(st, fn('fn', name, *[scal(E, st, e, vs, i) for i in range(len(vs))]))]
    return f


for _n in ('sin', 'cos', 'tan', 'exp', 'log', 'floor', 'ceil', 'fmod', 'round', 'hypot', 'acos', 'asin', 'atan', 'atan2', 'cbrt'):
    MODELS['std::' + _n] = MODELS[_n] = uf(_n)


@M('std::pow', 'pow')
def powf(E, st, o, vs, e, fr):
    a, b = scal(E, st, e, vs, 0), scal(E, st, e, vs, 1)
    c = b.const()
    if c is not None and c == int(c) and 0 <= c <= 8:
        r = ONE
        for _ in range(int(c)):
            r = r * a
        return [(st, r)]
    return [(st, fn('fn', 'pow', a, b))]


@M('std::isnan', 'std::isinf', 'std::isfinite', 'isnan', 'isinf', 'isfinite')
def fclass(E, st, o, vs, e, fr):
    v = scal(E, st, e, vs, 0)
    n = e['f']['q'].split('::')[-1].split('<')[0]
    if v.const() is not None:
        return [(st, TRUE if n == 'isfinite' else FALSE)]
    return [(st, node('pred', (n, v)))]


LIMITS = {('epsilon', 64): Fraction(1, 2 ** 52), ('epsilon', 32): Fraction(1, 2 ** 23),
          ('max', 64): Fraction((2 ** 53 - 1) * 2 ** 971), ('max', 32): Fraction((2 ** 24 - 1) * 2 ** 104),
          ('min', 64): Fraction(1, 2 ** 1022), ('min', 32): Fraction(1, 2 ** 126)}


@M('std::numeric_limits::epsilon', 'std::numeric_limits::lowest', 'std::numeric_limits::max', 'std::numeric_limits::min',
   'std::numeric_limits::infinity', 'std::numeric_limits::quiet_NaN')
def limits(E, st, o, vs, e, fr):
    n = e['f']['q'].split('::')[-1]
    t = E.p.ty(e['t'])
    if t.k == 'float':
        b = t.bits or 64
        if n == 'infinity':
            return [(st, toP(node('infinity', (), 0)))]
        if n == 'quiet_NaN':
            return [(st, toP(node('nanv', (), 0, False)))]
        if n == 'lowest':
            return [(st, num(-LIMITS['max', b]) if ('max', b) in LIMITS else E.unkval(e, fr))]
        v = LIMITS.get((n, b))
        if v is not None:
            return [(st, num(v))]
        return [(st, E.unkval(e, fr))]
    b = t.bits or 64
    if n in ('min', 'lowest'):
        return [(st, ZERO if t.k == 'uint' else num(-(1 << (b - 1))))]
    if n == 'max':
        return [(st, num((1 << b) - 1 if t.k == 'uint' else (1 << (b - 1)) - 1))]
    if n == 'epsilon':
        return [(st, ZERO)]
    return [(st, E.unkval(e, fr))]


@M('std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref')
def ident(E, st, o, vs, e, fr):
    return [(st, vs[0])]


def conjv(v):
    return v if v.const() is not None else fn('fn', 'conj', v)


@M('std::conj')
def conj(E, st, o, vs, e, fr):
    return [(st, conjv(scal(E, st, e, vs, 0)))]


@M('isspace', 'std::isspace')
def isspace(E, st, o, vs, e, fr):
    return [(st, fn('fn', 'isspace', scal(E, st, e, vs, 0), isint=1))]


# ---- complex numbers (a complex value is one number of the domain) -----------------------------
def real_(v):
    return fn('fn', 'real', v) if v.const() is None else v


def imag_(v):
    return fn('fn', 'imag', v) if v.const() is None else ZERO


@M('std::complex::complex')
def cx_ctor(E, st, loc, vs, e, fr):
    n = len(e['args'])
    v = ZERO if n == 0 else scal(E, st, e, vs, 0)
    if n > 1:
        w = scal(E, st, e, vs, 1)
        if w != ZERO:
            v = v + w * toP(node('imagunit'))
    st = st.fork()
    E.put(st, loc, v)
    return [st]


@M('std::complex::real', 'std::real')
def cx_real(E, st, o, vs, e, fr):
    v = eng().pval(E.read(st, E.topl(st, o, e), e)) if o is not None else scal(E, st, e, vs, 0)
    return [(st, real_(v))]


@M('std::complex::imag', 'std::imag')
def cx_imag(E, st, o, vs, e, fr):
    v = eng().pval(E.read(st, E.topl(st, o, e), e)) if o is not None else scal(E, st, e, vs, 0)
    return [(st, imag_(v))]


@M('std::norm')
def cx_norm(E, st, o, vs, e, fr):
    v = scal(E, st, e, vs, 0)
    return [(st, v * fn('fn', 'conj', v) if E.p.ty(e['t']).name != 'x' and v.const() is None else v * v)]


def cx_op(op):
    def f(E, st, o, vs, e, fr):
        if o is not None:
            return E.unknown(st, o, vs, e, fr, e['f']['q'])
        if not E.p.ty(e['t']).k == 'float':
            return E.unknown(st, o, vs, e, fr, e['f']['q'])
        a = scal(E, st, e, vs, 0)
        if len(vs) == 1:
            return [(st, -a if op == '-' else a)]
        return E.arith(st, op, a, scal(E, st, e, vs, 1), e['t'], e)
    return f


def cx_cop(op):
    def f(E, st, o, vs, e, fr):
        a, b = eng().pval(E.read(st, o, e)), scal(E, st, e, vs, 0)
        out = []
        for s, v in E.arith(st, op, a, b, E.p.strip(e['t']).i, e):
            s = s.fork()
            E.write(s, o, v, e)
            out.append((s, o))
        return out
    return f


for _o in '+-*/':
    MODELS['std::complex::operator%s=' % _o] = cx_cop(_o)
    if 'std::operator' + _o not in MODELS:
        MODELS['std::operator' + _o] = cx_op(_o)


# ---- program termination --------------------------------------------------------------------
@M('abort', 'std::abort', 'exit', 'std::exit', 'std::terminate', '__assert_fail', 'std::_Exit', '_exit')
def abort(E, st, o, vs, e, fr):
    E.abort(st, e, e['f']['q'])
    return []


# ---- streams -------------------------------------------------------------------------------
@M('std::operator<<', 'std::basic_ostream::operator<<')
def out(E, st, o, vs, e, fr):
    s = o if o is not None else vs[0]
    v = vs[0] if o is not None else vs[1]
    i = 0 if o is not None else 1
    a = E.argexpr(e, i)
    loc = v
    if a is not None and (a.get('lv') or a.get('k') == 'tmp') and isinstance(v, N) and v.kind in ('ptr', 'sp'):
        v = deref(E, st, v, e)
    st = E.emit(st, s, v, loc, e)
    return [(st, s)]


@M('std::basic_ofstream::close', 'std::basic_ostream::flush', 'std::basic_ofstream::open', 'std::basic_ifstream::close')
def noop(E, st, o, vs, e, fr):
    return [(st, None)]


@M('std::pair::pair', 'std::make_pair')
def pair(E, st, loc, vs, e, fr):
    st = st.fork()
    if loc is None:
        return [(st, E.unkval(e, fr))]
    t = E.p.strip(e['t'])
    r = E.p.rec(t.i)
    if len(vs) == 2 and r and r.get('full'):
        E.put(st, loc, eng().mkrec(t.i, {'first': argval(E, st, e, vs, 0), 'second': argval(E, st, e, vs, 1)}))
    elif len(vs) == 1 and isinstance(deref(E, st, vs[0], e), N) and deref(E, st, vs[0], e).kind == 'rec':
        E.put(st, loc, deref(E, st, vs[0], e))
    else:
        E.put(st, loc, E.make_sym(e['t'], ('pair', fr.id, id(e)), '', False))
    return [st]
