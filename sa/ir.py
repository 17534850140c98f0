"""Access to the extracted, resolved program (see extract.cpp)."""
import json
import re
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTRACT = os.path.join(BUILD, 'extract')
RES = '/usr/lib/llvm-18/lib/clang/18'
INC = ['-I' + REPO + '/src/lib', '-I' + REPO + '/src/objloader']
STD = '-std=c++11'


class AnalysisBroken(Exception):
    pass


def build():
    src = os.path.join(HERE, 'extract.cpp')
    os.makedirs(BUILD, exist_ok=True)
    if os.path.exists(EXTRACT) and os.path.getmtime(EXTRACT) >= os.path.getmtime(src):
        return
    tmp = EXTRACT + '.%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O1', '-fno-rtti', '-I/usr/lib/llvm-18/include', '-D_GNU_SOURCE',
           '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
           '/usr/lib/llvm-18/lib/libclang-cpp.so.18.1', '-L/usr/lib/llvm-18/lib', '-lLLVM-18',
           '-Wl,-rpath,/usr/lib/llvm-18/lib']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken('extractor does not build: ' + r.stderr[-2000:])
    os.replace(tmp, EXTRACT)


class Type:
    __slots__ = ('i', 's', 'k', 'of', 'n', 'name', 'targs', 'bits', 'const', 'lam')


class Program:
    def __init__(self, d):
        self.types = []
        for i, t in enumerate(d['types']):
            y = Type()
            y.i = i
            y.s = t.get('s', '')
            y.k = t.get('k', 'other')
            y.of = t.get('of')
            y.n = t.get('n')
            y.name = t.get('name')
            y.targs = t.get('targs')
            y.bits = t.get('bits')
            y.const = bool(t.get('const'))
            y.lam = bool(t.get('lambda'))
            if y.name == 'std::complex':        # a number of the domain
                y.k, y.bits = 'float', None
            self.types.append(y)
        self.fns = {f['id']: f for f in d['functions']}
        self.recs = {}
        for r in d['records']:
            self.recs[r['t']] = r
        self.globals = {g['id']: g for g in d['globals']}
        self.errors = d.get('errors', [])
        self.byq = {}
        for f in d['functions']:
            self.byq.setdefault(f['q'], []).append(f)

    def ty(self, i):
        return self.types[i]

    def strip(self, i):
        """the type without reference"""
        t = self.types[i]
        while t.k in ('ref', 'rref'):
            t = self.types[t.of]
        return t

    def pointee(self, i):
        t = self.strip(i)
        return self.types[t.of] if t.k == 'ptr' else t

    def rec(self, i):
        """record description for a (possibly const) record type"""
        t = self.strip(i)
        r = self.recs.get(t.i)
        if r:
            return r
        # const-qualified twins share the record
        for j, r in self.recs.items():
            u = self.types[j]
            if u.name == t.name and u.targs == t.targs and _base(u.s) == _base(t.s):
                return r
        return None

    def lib(self):
        """functions with a body that are defined in the library"""
        return [f for f in self.fns.values() if f.get('lib') and f.get('body')]


def _base(s):
    return s[6:] if s.startswith('const ') else s


_cache = {}


def load(drv='main.cpp', extra=()):
    key = (drv, tuple(extra))
    if key in _cache:
        return _cache[key]
    build()
    path = drv if os.path.isabs(drv) else os.path.join(HERE, 'drv', drv)
    fd, out = tempfile.mkstemp(suffix='.json')
    os.close(fd)
    try:
        cmd = [EXTRACT, REPO + '/src/', out, path, '--', STD, '-w', '-resource-dir', RES] + INC + list(extra)
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and not os.path.getsize(out):
            raise AnalysisBroken('extraction failed: ' + r.stderr[-3000:])
        with open(out) as f:
            d = json.load(f)
    finally:
        os.unlink(out)
    p = Program(d)
    p.stderr = r.stderr
    if len(p.fns) < 200:
        raise AnalysisBroken('only %d functions extracted: %s' % (len(p.fns), r.stderr[-2000:]))
    _cache[key] = p
    return p


def walk(x):
    """every dict node below x, in source order"""
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(reversed([v for v in y.values() if isinstance(v, (dict, list))]))
        elif isinstance(y, list):
            st.extend(reversed(y))


def callees(f):
    """resolved callees of a function (calls, constructors, destructors are not listed)"""
    for n in walk([f.get('body'), f.get('inits')]):
        k = n.get('k')
        if k in ('call', 'ctor') and n.get('f'):
            yield n, n['f']


def plain(q):
    """qualified name without template arguments"""
    out, d = [], 0
    i = 0
    while i < len(q):
        c = q[i]
        if q.startswith('operator', i) and (i == 0 or not q[i - 1].isalnum()):
            m = re.match(r'operator(<<=|>>=|<=|>=|<<|>>|->\*|->|<|>)?', q[i:])
            if d == 0:
                out.append(m.group(0))
            i += len(m.group(0))
            continue
        if c == '<':
            d += 1
        elif c == '>':
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return ''.join(out)


def cfold(p, e, depth=0):
    """constant value of an expression (integers only), or None"""
    if e is None or depth > 12:
        return None
    if 'c' in e:
        try:
            return int(e['c'])
        except (TypeError, ValueError):
            pass
    k = e.get('k')
    if k == 'int':
        return int(e['v'])
    if k == 'bool':
        return int(bool(e['v']))
    if k in ('cast', 'tmp', 'load'):
        return cfold(p, e.get('e'), depth + 1)
    if k == 'un' and e['op'] == '!':
        v = cfold(p, e['e'], depth + 1)
        return None if v is None else int(not v)
    if k == 'bin':
        a = cfold(p, e['a'], depth + 1)
        b = cfold(p, e['b'], depth + 1)
        o = e['op']
        if o == '&&':
            return 0 if a == 0 or b == 0 else 1 if a and b else None
        if o == '||':
            return 1 if a or b else 0 if a == 0 and b == 0 else None
        if a is None or b is None:
            return None
        return {'!=': int(a != b), '==': int(a == b), '<': int(a < b), '>': int(a > b), '<=': int(a <= b),
                '>=': int(a >= b), '+': a + b, '-': a - b, '*': a * b}.get(o)
    if k == 'call' and e.get('f'):
        f = e['f']
        if plain(f['q']) in ('std::array::size', 'std::array::max_size'):
            return int(p.ty(f['rec']).targs[1]['i'])
        g = p.fns.get(f['id'])
        if g and g.get('body') and not f.get('virtual'):
            b = g['body']['b'] if g['body'].get('s') == 'block' else []
            if len(b) == 1 and b[0].get('s') == 'return':
                return cfold(p, b[0].get('e'), depth + 1)
    return None
