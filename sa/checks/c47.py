"""C47: counts, indices and values keep their range and precision: no conversion, counter, accumulator or parsed number is narrower than what it stands for."""
import ir
from common import Report

RULES = ('a value is not converted to an integer type of smaller range', 'a value is not converted to a type of smaller precision',
         'a loop counter is as wide as its bound', 'a counter stepped in a loop is as wide as an index', 'a number is read with the type it is used with',
         'a product is formed in the type it is used with', 'a container or sum holds the type of its values')


def interval(p, x):
    """bounds of an integer expression known from its form"""
    if not isinstance(x, dict):
        return None
    if x.get('c') is not None:
        try:
            return int(x['c']), int(x['c'])
        except ValueError:
            return None
    k = x.get('k')
    t = p.ty(x['t']) if 't' in x else None
    if t is not None and t.k == 'bool' or k == 'bool':
        return 0, 1
    if k == 'cond':
        a, b = interval(p, x.get('a')), interval(p, x.get('b'))
        return (min(a[0], b[0]), max(a[1], b[1])) if a and b else None
    if k == 'cast':
        s = p.ty(x['e']['t'])
        if s.k == 'bool':
            return 0, 1
        if s.k == 'enum':
            return -1 << 31, (1 << 31) - 1
        q = interval(p, x['e'])
        if x.get('ck') == 'IntegralCast' and q:
            return clip(t, q)
        if s.k in ('int', 'uint') and x.get('ck') == 'IntegralCast' and inside(full(s), full(t)):
            return full(s)
        return None
    if k == 'bin':
        a, b = interval(p, x['a']), interval(p, x['b'])
        op = x['op']
        if op == '%' and b and b[0] == b[1] and b[0]:
            n = abs(b[0]) - 1
            return (0, n) if t.k == 'uint' or a and a[0] >= 0 else (-n, n)
        if op == '&' and (b and b[0] >= 0 or a and a[0] >= 0):
            return 0, min(q[1] for q in (a, b) if q and q[0] >= 0)
        if not a or not b:
            return full(t) if t.k in ('int', 'uint') and t.bits < 64 else None
        if op in '+-*':
            v = [eval('i %s j' % op, {}, {'i': i, 'j': j}) for i in a for j in b]
            return clip(t, (min(v), max(v)))
        return None
    if t is not None and t.k in ('int', 'uint') and t.bits < 64:
        return full(t)
    return None


def full(t):
    return (0, (1 << t.bits) - 1) if t.k == 'uint' else (-(1 << t.bits - 1), (1 << t.bits - 1) - 1)


def inside(a, b):
    return b[0] <= a[0] and a[1] <= b[1]


def clip(t, q):
    return q if t.k in ('int', 'uint') and inside(q, full(t)) else full(t) if t.k in ('int', 'uint') else None


def isint(t):
    return t.k in ('int', 'uint')


def var(x):
    """the variable or field an lvalue is, as an identity"""
    while isinstance(x, dict) and x.get('k') in ('load', 'cast'):
        x = x.get('e')
    if isinstance(x, dict) and x.get('k') == 'var':
        return ('v', x.get('id'))
    if isinstance(x, dict) and x.get('k') == 'mem':
        return ('m', x.get('n') or x.get('f'))
    return None


def direct(x):
    """read of a variable itself"""
    if isinstance(x, dict) and x.get('k') == 'load':
        x = x.get('e')
    return isinstance(x, dict) and x.get('k') == 'var'


def scalar(p, f, t):
    """is t the element type the function was made for?"""
    args = list(f.get('targs') or [])
    if f.get('rec') is not None:
        args += list(p.strip(f['rec']).targs or [])
    for a in args:
        if 't' in a:
            s = p.strip(a['t'])
            if s.s == t.s or any('t' in b and p.strip(b['t']).s == t.s for b in s.targs or []):
                return True
    return False


def loops(s, out):
    """(loop, condition, everything repeated) of a function body"""
    for x in ir.walk([s]):
        if x.get('s') in ('for', 'while', 'do', 'range'):
            out.append(x)
    return out


def few(p, w):
    """is a loop bounded by a constant?"""
    c = w.get('c')
    return isinstance(c, dict) and c.get('k') == 'bin' and any(interval(p, c[y]) is not None and interval(p, c[y])[1] < 128 for y in 'ab')


def fbits(t):
    return {'float': 32, 'double': 64, 'long double': 80}.get(t.s.replace('const ', '').strip())


def held(p, i):
    """number types a container type stores"""
    t = p.strip(i)
    n = t.name or ''
    if not n.startswith('std::') or n.split('::')[-1].startswith(('basic_', 'char_traits', 'numeric_limits')):
        return []
    out = []
    for a in t.targs or []:
        if 't' in a and 'i' not in a:
            s = p.strip(a['t'])
            out += [s] if isint(s) or fbits(s) else held(p, a['t'])
    return out


def narrow(p, f, t):
    return (isint(t) and 8 < t.bits < 64 or isint(t) and t.bits == 8 and t.s.endswith(('unsigned char', 'signed char')) or (fbits(t) or 64) < 64) and not scalar(p, f, t)


def function(p, f, say):
    body = [f.get('body'), f.get('inits')]
    for x in ir.walk(body):
        if x.get('s') == 'decl':
            for d in x.get('d') or []:
                for t in held(p, d['t']) if 't' in d else []:
                    say(6, not narrow(p, f, t), d, 'holds %s' % t.s)
        elif x.get('k') == 'call' and (x.get('f') or {}).get('q', '').startswith(('std::accumulate', 'std::inner_product', 'std::partial_sum')):
            t = p.strip(x['t'])
            say(6, not narrow(p, f, t), x, 'adds up in %s' % t.s)
    bounded = set()             # narrow counters compared with a bound of their own width
    for x in ir.walk(body):
        k = x.get('k')
        if k == 'cast':
            convert(p, f, x, say)
        elif k == 'bin' and x['op'] in ('<', '<=', '>', '>=', '!=', '=='):
            for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
                t = p.ty(a['t'])
                if isint(t) and t.bits < 64 and var(a) and direct(a):
                    bounded.add(var(a))
        elif k == 'call' and (x.get('f') or {}).get('q', '').endswith('operator>>'):
            for a in list(x.get('args') or []) :
                t = p.strip(a['t'])
                if isint(t) and t.bits < 64 and t.bits > 8 and not scalar(p, f, t) or fbits(t) and fbits(t) < 64 and not scalar(p, f, t):
                    say(4, False, x, 'reads a %s' % t.s)
                elif isint(t) or fbits(t):
                    say(4, True, x, '')
    inner = loops(f.get('body'), [])
    for w in inner:
        steps = {}
        for x in ir.walk([w.get('b'), w.get('n')]):
            if x.get('k') in ('un', 'cassign') and x.get('op') in ('++', '--', '+', '-', '*', '+=', '-=', '*=', '<<', '<<='):
                e = x.get('e') if x['k'] == 'un' else x.get('a')
                if x['k'] == 'un' and x['op'] not in ('++', '--'):
                    continue
                if isinstance(e, dict) and 't' in e and isint(p.ty(e['t'])) and var(e):
                    steps.setdefault(var(e), (e, x))
        for x in ir.walk([w.get('c')]):
            if x.get('k') == 'bin' and x['op'] in ('<', '<=', '>', '>=', '!='):
                for a, b in ((x['a'], x['b']), (x['b'], x['a'])):
                    if var(a) not in steps:
                        continue
                    t = p.ty(steps[var(a)][0]['t'])
                    q = interval(p, b)
                    if q is None and isinstance(b, dict) and b.get('k') == 'cast' and isint(p.ty(b['e']['t'])) and p.ty(b['e']['t']).bits <= t.bits:
                        q = full(t)
                    if t.bits >= 64 or isint(p.ty(b['t'])) and p.ty(b['t']).bits <= t.bits:
                        say(2, True, x, '')
                    elif q is not None and q[1] <= full(t)[1]:
                        say(2, True, x, '')
                    else:
                        say(2, None if t.bits >= 32 else False, x, 'a %s counts up to a %s' % (t.s, p.ty(b['t']).s))
        for v, (e, x) in steps.items():
            t = p.ty(e['t'])
            ok = t.bits >= 64 or v in bounded or scalar(p, f, t) or all(few(p, y) for y in inner if any(z is x for z in ir.walk([y.get('b'), y.get('n')])))
            say(3, ok or (None if t.bits >= 32 else False), x, 'a %s is stepped in a loop' % t.s)


def convert(p, f, x, say):
    t, s, e = p.ty(x['t']), p.ty(x['e']['t']), x['e']
    ck = x.get('ck')
    if ck == 'IntegralCast' and isint(t) and isint(s):
        if t.s.replace('const ', '') == 'char':
            say(0, True, x, '')
        elif t.bits < s.bits:
            q = interval(p, e)
            # four thousand million entries do not fit a machine, but a product of two numbers reaches it
            big = t.bits >= 32 and not any(y.get('k') == 'bin' and y.get('op') == '*' or y.get('k') == 'call' and not y.get('o') and
                                           (y.get('f') or {}).get('q', '').startswith('NS::Math::') for y in ir.walk([e]))
            say(0, bool(q and inside(q, full(t))) or scalar(p, f, t) or (None if big else False), x, '%s becomes %s' % (s.s, t.s))
        elif t.bits > s.bits and e.get('c') is None and e.get('k') == 'bin' and e['op'] in ('*', '<<'):
            q = interval(p, e)
            small = q is not None and q != full(s)
            say(5, small or e['a'].get('c') is not None and e['b'].get('c') is not None, x, 'a product of type %s becomes %s' % (s.s, t.s))
        else:
            say(0, True, x, '')
    elif ck == 'FloatingToIntegral':
        say(0, e.get('c') is not None or scalar(p, f, t), x, '%s becomes %s' % (s.s, t.s))
    elif ck == 'IntegralToFloating':
        q = interval(p, e)
        n = {32: 24, 64: 53}.get(fbits(t), 64)
        say(1, e.get('c') is not None or n >= 53 or bool(q and q[1] <= 1 << n) or scalar(p, f, t), x, '%s becomes %s' % (s.s, t.s))
    elif ck == 'FloatingCast' and fbits(t) and fbits(s):
        if fbits(t) < fbits(s):
            say(1, e.get('k') == 'flt' or e.get('c') is not None or scalar(p, f, t), x, '%s becomes %s' % (s.s, t.s))
        elif fbits(t) > fbits(s) and not scalar(p, f, s):
            ok = True
            if direct(e) and not p.ty((e.get('e') or e)['t']).s.startswith('const'):
                ok = False
            elif e.get('k') == 'call':
                ok = False
            say(1, ok, x, 'a %s is used as %s' % (s.s, t.s))
        else:
            say(1, True, x, '')


def run():
    rep = Report('C47')
    seen, n = set(), 0
    for p in (ir.load(), ir.load('cplx.cpp')):
        for f in p.lib():
            if not f.get('body') and not f.get('inits'):
                continue

            def say(r, ok, x, text):
                rep.ob(RULES[r], None if ok is None else bool(ok), '%s: %s at %s' % (f['q'], text, x.get('l')))
                k = '%s:%s:%s' % (ir.plain(f['q']), r, text)
                if ok is not None and not ok and k not in seen:
                    seen.add(k)
                    rep.violation(k, x.get('l') or f['l'], '%s: %s: %s' % (f['q'], RULES[r], text))
            function(p, f, say)
            r = f.get('rec')
            if r is not None and (f.get('ctor') or f.get('dtor')) and p.rec(p.strip(r).i):
                for d in p.rec(p.strip(r).i).get('fields') or []:
                    for t in held(p, d['t']):
                        say(6, not narrow(p, f, t), {'l': f['l']}, 'field %s holds %s' % (d.get('n'), t.s))
            rep.ob('function inspected', True, f['q'])
            n += 1
    rep.cov['explanation'] = (
        'Every conversion, loop condition, step of a counter, product that is widened and stream extraction of every function of the library '
        '(as instantiated by sa/drv/main.cpp and cplx.cpp) is read from the type-checked syntax tree. An integer conversion to fewer bits is accepted only if the '
        'value range of its operand, known from constants, remainders, masks and choices, fits; the element type a template was made for is exempt.')
    rep.cov['functions'] = n
    return rep.finish()
