import os
import re
from vc import check, build
H = ['c24.cpp', 'c24_rec.cpp']
SRC = ['HierarchyObject.cpp', 'Himalaya_interface.cpp']
LL = ['c24b_gen.cpp']
LSRC = ['HierarchyObject.cpp']
X = ('-I' + os.path.join(build.VERIF, 'contracts', 'mathlink'),)
RENAMED = {'M3': 'MG'}
SETTINGS = ('bottom', 'loopOrder', 'verbose')
OPTIONAL = ('MW', 'MZ', 'Mt', 'Mb', 'Mtau')
MIXED = {'MSt': 5, 'MSb': 6, 'MStau': 7, 's2t': 5, 's2b': 6, 's2tau': 7}


def order():
    """names and indices in the list which the Mathematica side sends"""
    t = open(os.path.join(build.SRC, 'LibraryLink', 'Himalaya_LibraryLink.m')).read()
    t = t[t.index('HimalayaCalculateDMh3LLibInterface[\n'):]
    return [(m.group(1), [int(i) - 1 for i in m.group(2).split(',')] if m.group(2) else []) for m in re.finditer(r'OptionValue\[(\w+)\](?:\[\[([\d,]+)\]\])?', t)]


def generate():
    o = order()
    at, eq = ['#define ORDER_N %d' % len(o)], []
    for k, (n, i) in enumerate(o):
        at.append('#define AT_%s %d' % ('_'.join([n] + [str(j) for j in i]), k))
        if n in SETTINGS:
            continue
        m = RENAMED.get(n, n) + ('(%s)' % ','.join(str(j) for j in i) if i else '')
        if n in OPTIONAL:
            eq.append('if (optional == %d) vc_same("%s", p.%s, x[%d]); else vc_ident("%s", p.%s, def.%s);' % (OPTIONAL.index(n), n, m, k, n, m, m))
        elif n in MIXED:
            eq.append('if (optional == %d) vc_same("%s", p.%s, x[%d]); else vc_ident("%s", p.%s, def.%s);' % (MIXED[n], n, m, k, n, m, m))
        else:
            eq.append('vc_same("%s", p.%s, x[%d]);' % (n, m, k))
    p = build.generated('c24b.cpp', '\n   '.join(eq), 'c24b_gen.cpp')
    t = open(p).read()
    if '#define ORDER_N' not in t:
        t = '\n'.join(at) + '\n' + t
        tmp = p + str(os.getpid())
        open(tmp, 'w').write(t)
        os.replace(tmp, p)
    return p


def mod():
    return check.load_module(H, SRC)


def lmod():
    return check.load_module([generate(), 'c24c.cpp'], LSRC, X, opaque=('',))


def task(out, fn, ll=False):
    r = check.Run(lmod() if ll else mod(), fn, out, mode='fp', select_fork=False)
    r.discharge(on_throw='forbid', default=('any', 1))
    r.finish()


def run():
    def names(f):
        return re.findall(r'^VC (\w+)\(\)', open(build.VERIF + '/contracts/' + f).read(), re.M)
    n1 = check.native_runner(H, SRC)
    n2 = []

    def native(res):
        if res.harness in names('c24.cpp'):
            return n1(res)
        if not n2:
            n2.append(check.native_runner([generate(), 'c24c.cpp'], LSRC, X, partial=True))
        return n2[0](res)

    def prepare():
        lmod()
        return mod()
    check.main('C24', 'C24', [(f, 'task', dict(fn=f)) for f in names('c24.cpp')] + [(f, 'task', dict(fn=f, ll=True)) for f in names('c24b.cpp')], H + ['c24b.cpp', 'c24c.cpp'],
               prepare=prepare, native=native,
               assumptions=['formatted output functions of the C++ library write what they are given, in the order of the calls',
                            'MathLink functions transfer the expressions in the order of the calls'])
