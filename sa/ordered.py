"""Ordered containers, queues and stacks with constant contents: modelled as sequences kept in their order."""
import engine as E_
import models
import sweep
import terms
from engine import Stop, mkrec, mkptr
from models import arr_of, argval, setarr, itptr, isit, idx, owner, deref
from terms import P, N, ZERO, ONE, TRUE, FALSE, num, node, f_eq

MAPS = {}
TREES = ('map', 'multimap', 'set', 'multiset')
SEQS = ('queue', 'deque', 'stack', 'list', 'priority_queue')


def O(cs, *names):
    def d(f):
        for c in cs:
            for n in names:
                MAPS['std::%s::%s' % (c, n)] = f
        return f
    return d


def items(E, st, o):
    """contents of a container as a list"""
    a = arr_of(E, st, o)
    n = a.args[0].const()
    if n is None:
        raise Stop('container of unknown size')
    return [E.cread(st, a.args[1], num(i)) for i in range(int(n))]


def store(E, st, o, l, e):
    return setarr(E, st, o, num(len(l)), node('clist', (tuple(l),)), e)


def kindof(e):
    return e['f']['q'].split('<')[0].split('::')[1]


def keyof(E, st, v, tree):
    """constant key of an element"""
    if tree in ('map', 'multimap'):
        if isinstance(v, N) and v.kind == 'rec':
            v = dict(v.args[1])['first']
    v = E_.pval(v) if not (isinstance(v, N) and v.kind in ('rec',)) else v
    if isinstance(v, N):
        fs = [x for _, x in v.args[1]]
        ks = [E_.pval(x).const() for x in fs]
        if None in ks:
            raise Stop('unknown key')
        return tuple(ks)
    c = v.const()
    if c is None:
        raise Stop('unknown key')
    return c


def keyarg(E, st, e, vs, i, tree):
    v = argval(E, st, e, vs, i)
    if isinstance(v, N) and v.kind == 'rec' and tree in ('map', 'multimap'):
        raise Stop('composite key')
    return keyof(E, st, v, 'set')


def plainless(E, e):
    """only containers ordered by the default comparison are modelled"""
    t = E.p.strip(e['f'].get('rec') if e['f'].get('rec') is not None else e['t'])
    for x in t.targs or []:
        if 't' in x and 'greater' in E.p.ty(x['t']).s.split('<')[0]:
            raise Stop('other comparison')


@O(TREES, 'map', 'multimap', 'set', 'multiset')
@O(SEQS, 'queue', 'deque', 'stack', 'list', 'priority_queue')
def ctor(E, st, loc, vs, e, fr):
    st = st.fork()
    for i, v in enumerate(vs):
        w = deref(E, st, v, e)
        if isinstance(w, N) and w.kind == 'arr':
            E.put(st, loc, w)
            return [st]
    if vs and isit(vs[0]):
        raise Stop('container built from a range')
    E.put(st, loc, node('arr', (ZERO, node('clist', ((),)))))
    return [st]


for _c in TREES + SEQS:
    MAPS['std::%s::%s' % (_c, _c)] = ctor
    MAPS['default:std::' + _c] = ctor


@O(TREES, 'insert', 'emplace')
def insert(E, st, o, vs, e, fr):
    t = kindof(e)
    plainless(E, e)
    l = items(E, st, o)
    if len(vs) == 2 and t in ('map', 'multimap') and not isit(vs[0]):
        v = mkrec(E.pairtype(E.p.strip(e['f']['rec'])), {'first': argval(E, st, e, vs, 0), 'second': argval(E, st, e, vs, 1)})
    elif len(vs) != 1:
        raise Stop('insertion form')
    else:
        v = argval(E, st, e, vs, 0)
    if isinstance(v, N) and v.kind == 'ptr' and t in ('map', 'multimap'):
        v = deref(E, st, v, e)
    k = keyof(E, st, v, t)
    ks = [keyof(E, st, x, t) for x in l]
    single = t in ('map', 'set')
    if single and k in ks:
        i, new = ks.index(k), False
        s = st
    else:
        i, new = sum(1 for x in ks if x <= k), True
        s = store(E, st, o, l[:i] + [v] + l[i:], e)
    it = itptr(o, num(i))
    if single:
        return [(s, mkrec(E.p.strip(e['t']).i, {'first': it, 'second': ONE if new else ZERO}))]
    return [(s, it)]


@O(TREES + ('list', 'deque'), 'erase')
def erase(E, st, o, vs, e, fr):
    t = kindof(e)
    l = items(E, st, o)
    v = vs[0]
    a = E.argexpr(e, 0)
    if a is not None and (a.get('lv') or a.get('k') == 'tmp') and isinstance(v, N) and v.kind == 'ptr':
        w = models.itval(E, st, v, e)
        v = w
    if len(vs) == 1 and isit(v) and owner(v) is o:
        i = idx(v).const()
        if i is None:
            raise Stop('unknown position')
        E.event('index', st, e, idx=idx(v), size=num(len(l)), base=o)
        i = int(i)
        if not 0 <= i < len(l):
            raise Stop('removal at the end')
        return [(store(E, st, o, l[:i] + l[i + 1:], e), itptr(o, num(i)))]
    if len(vs) == 1 and t in TREES:
        k = keyarg(E, st, e, vs, 0, t)
        r = [x for x in l if keyof(E, st, x, t) != k]
        return [(store(E, st, o, r, e), num(len(l) - len(r)))]
    raise Stop('removal form')


@O(TREES, 'find', 'lower_bound', 'upper_bound', 'equal_range', 'count')
def find(E, st, o, vs, e, fr):
    t = kindof(e)
    plainless(E, e)
    l = [keyof(E, st, x, t) for x in items(E, st, o)]
    k = keyarg(E, st, e, vs, 0, t)
    lo, up = sum(1 for x in l if x < k), sum(1 for x in l if x <= k)
    n = e['f']['q'].split('::')[-1].split('<')[0]
    if n == 'count':
        return [(st, num(up - lo))]
    if n == 'find':
        return [(st, itptr(o, num(lo if up > lo else len(l))))]
    if n == 'equal_range':
        return [(st, mkrec(E.p.strip(e['t']).i, {'first': itptr(o, num(lo)), 'second': itptr(o, num(up))}))]
    return [(st, itptr(o, num(lo if n == 'lower_bound' else up)))]


@O(('queue', 'stack'), 'push')
@O(('deque', 'list'), 'push_back')
def push(E, st, o, vs, e, fr):
    return [(store(E, st, o, items(E, st, o) + [argval(E, st, e, vs, 0)], e), None)]


@O(('deque', 'list'), 'push_front')
def pushf(E, st, o, vs, e, fr):
    return [(store(E, st, o, [argval(E, st, e, vs, 0)] + items(E, st, o), e), None)]


@O(('queue', 'stack'), 'pop')
@O(('deque', 'list'), 'pop_front', 'pop_back')
def pop(E, st, o, vs, e, fr):
    l = items(E, st, o)
    E.event('index', st, e, idx=ZERO, size=num(len(l)), base=o)
    last = kindof(e) == 'stack' or e['f']['q'].endswith('pop_back')
    return [(store(E, st, o, l[:-1] if last else l[1:], e), None)]


@O(('queue', 'deque', 'list'), 'front')
def front(E, st, o, vs, e, fr):
    return [(st, E.index(st, o, ZERO, e, num(len(items(E, st, o)))))]


@O(('stack',), 'top')
@O(('queue', 'deque', 'list'), 'back')
def back(E, st, o, vs, e, fr):
    n = len(items(E, st, o))
    return [(st, E.index(st, o, num(n - 1), e, num(n)))]


for _c in TREES + SEQS:
    for _a in ('begin', 'end', 'cbegin', 'cend', 'size', 'empty', 'clear', 'swap', 'operator='):
        if 'std::vector::' + _a in models.MODELS:
            MAPS['std::%s::%s' % (_c, _a)] = models.MODELS['std::vector::' + _a]
MAPS['std::deque::operator[]'] = models.MODELS['std::vector::operator[]']
for _c in ('std::_Rb_tree_const_iterator::', 'std::_Rb_tree_iterator::', 'std::_Deque_iterator::', 'std::_List_iterator::', 'std::_List_const_iterator::'):
    for _a in ('operator*', 'operator->'):
        MAPS[_c + _a] = models.MODELS['__gnu_cxx::__normal_iterator::' + _a]
    for _a in ('operator++', 'operator--'):
        MAPS[_c + _a] = models.it_inc
for _a in ('operator+', 'operator-', 'operator+=', 'operator-='):
    MAPS['std::_Deque_iterator::' + _a] = models.MODELS['__gnu_cxx::__normal_iterator::' + _a]


def pair(E, st, loc, vs, e, fr):
    if e['f']['q'].startswith('std::make_pair'):
        return [(st, mkrec(E.p.strip(e['t']).i, {'first': argval(E, st, e, vs, 0), 'second': argval(E, st, e, vs, 1)}))]
    if loc is None:
        return models.pair(E, st, loc, vs, e, fr)
    st = st.fork()
    t = E.p.strip(e['t'])
    if len(vs) == 2:
        E.put(st, loc, mkrec(t.i, {'first': argval(E, st, e, vs, 0), 'second': argval(E, st, e, vs, 1)}))
        return [st]
    v = deref(E, st, vs[0], e) if vs else None
    if isinstance(v, N) and v.kind == 'rec':
        E.put(st, loc, mkrec(t.i, dict(v.args[1])))
        return [st]
    return models.pair(E, st, loc, vs, e, fr)


MAPS['std::pair::pair'] = MAPS['std::make_pair'] = pair


class Outside(Exception):
    pass


class OAna(sweep.Ana):
    def __init__(self, p, **o):
        super().__init__(p, **o)
        self.models = dict(self.models)
        self.models.update(MAPS)

    def on_index(self, st, e, idx=None, size=None, base=None, **kw):
        i, n = E_.pval(idx).const(), E_.pval(size).const() if size is not None else None
        if i is not None and n is not None and not 0 <= i < n and not st.gh.get('joined'):
            raise Outside('position %d of %d' % (i, n), e)

    def on_abort(self, st, e, why='', stack=()):
        self.aborts = getattr(self, 'aborts', []) + [(stack[-1][2] if stack else why, e)]

    def container(self, t):
        n = t.name or ''
        if n in ('std::map', 'std::multimap') and t.targs:
            r = self.p.rec(t.i) or {}
            for f in r.get('fields') or []:
                pass
            return self.pairtype(t), None
        if n in tuple('std::' + c for c in TREES[2:] + SEQS) and t.targs:
            return t.targs[0]['t'], None
        return super().container(t)

    def pairtype(self, t):
        """element type of a map: std::pair of its const key and value"""
        k, v = [self.p.ty(x['t']) for x in t.targs[:2]]
        for i, x in enumerate(self.p.types):
            y = self.p.ty(i)
            if y.name == 'std::pair' and y.targs and self.p.strip(y.targs[0]['t']).i == self.p.strip(k.i).i \
                    and self.p.strip(y.targs[1]['t']).i == self.p.strip(v.i).i:
                return y.i
        return t.targs[0]['t']
