"""C08: type checking of every header and instantiation, one-definition lint over header definitions."""
import os
import re

import cc
import ir
from common import Report

DRV = os.path.join(ir.HERE, 'drv')


def clean(l):
    return l.replace('/repo/src/', '')


def errkey(l):
    m = re.search(r'([\w./]+):\d+:\d+: (?:fatal )?error: (.*)', l)
    return (os.path.basename(m.group(1)) + ':' + re.sub(r"'[^']*'", 'X', m.group(2)))[:80] if m else l[:60]


def run():
    rep = Report('C08')
    lib = ir.REPO + '/src/lib'
    heads = []
    for d, _, fs in os.walk(lib):
        heads += [os.path.relpath(os.path.join(d, f), lib) for f in fs if f.endswith('.h')]
    heads.sort()
    jobs, what = [], []
    for h in heads:
        jobs.append({'code': '#include "%s"\n' % h})
        what.append(('header-alone', h))
        jobs.append({'code': '#include "%s"\n#include "%s"\nint main() {}\n' % (h, h)})
        what.append(('header-twice', h))
    for s in ('float', 'double'):
        jobs.append({'path': DRV + '/main.cpp', 'defs': ['-DSC=' + s]})
        what.append(('instantiate', 'all class and function templates for ' + s))
    for s in ('float', 'double', 'std::complex<float>', 'std::complex<double>'):
        jobs.append({'path': DRV + '/api.cpp', 'defs': ['-DSC=' + s]})
        what.append(('instantiate', 'unordered API for ' + s))
    for (rule, w), errs in zip(what, cc.many(jobs)):
        rep.ob(rule, not errs, w)
        if errs:
            rep.violation('%s:%s' % (rule, errkey(errs[0])), clean(errs[0].split(' error:')[0]),
                          '%s: %s' % (w, clean(' | '.join(errs[:4]))))
    rep.need('header-alone', 20)

    # one definition rule: nothing non-inline with external linkage is defined in a header
    p = ir.load()
    n = 0
    for f in p.lib():
        w = f.get('bl') or f['l']
        file = w.rsplit(':', 1)[0]
        if not file.startswith('lib/'):
            continue
        bad = f.get('ext') and not f.get('inst') and not f.get('inline') and not f.get('implicit') and not f.get('defaulted')
        n += 1
        rep.ob('odr-function', not bad, f['q'])
        if bad:
            rep.violation('odr:%s' % ir.plain(f['q']), w,
                          '%s is defined in a header with external linkage but is neither a template nor inline: '
                          'including the header in two translation units does not link' % f['q'])
    for g in p.globals.values():
        if not str(g.get('l', '')).startswith('lib/'):
            continue
        bad = bool(g.get('oddef'))
        rep.ob('odr-variable', not bad, g.get('q', g.get('n')))
        if bad:
            rep.violation('odr:%s' % g.get('q', g.get('n')), g['l'],
                          'variable %s is defined in a header with external linkage' % g.get('q', g.get('n')))
    rep.need('odr-function', 500)
    rep.cov['explanation'] = (
        'The clang front end type-checks every header of src/lib on its own and twice in one unit, the full set of explicit '
        'class/function template instantiations of sa/drv/main.cpp for float and double, and a use of every member and '
        'function template that involves no ordering (sa/drv/api.cpp) for float, double and both complex types. '
        'odr-*: every function and variable defined in a header is a template instance, inline, implicit or internal.')
    rep.cov['headers'] = len(heads)
    return rep.finish()
