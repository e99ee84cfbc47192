from vc import check, build, eigen
from fractions import Fraction
X = ('-fno-access-control',)
SRC = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp']
MSQ = ('_ZNK8himalaya10Parameters14calculateMsq2Ev',)
MEMBERS = '_ZN?K?8himalaya19HierarchyCalculator'


def mod(h, cut, src=SRC):
    return check.load_module(h, src, X, None, [r'himalaya'], cut)


def m_suit():
    return mod(['c04.cpp', 'c04s.cpp'], MSQ)


CMP = tuple('8himalaya19HierarchyCalculator%d%s' % (len(n), n) for n in ('isHierarchySuitable', 'getMt41L', 'getMt42L', 'calculateHierarchy',
                                                                        'getExpansionUncertainty', 'calcDeltaLambda3L'))


def m_cmp():
    return mod(['c04c.cpp'], CMP)


def small(r):
    return Fraction(r.randint(1, 99), 100)


RG = {'MA': lambda r: Fraction(r.randint(20, 200), 10), 'MZ': lambda r: Fraction(r.randint(20, 200), 10), 'vu': lambda r: Fraction(r.randint(10, 30), 10),
      'vd': lambda r: Fraction(r.randint(10, 30), 10), 'Mt41L*': small, 'Mt42L*': small, 'expanded*': small, 'unc*': small}


def sel(out, fn):
    r = check.Run(m_cmp(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500, contracts={'vc_eig2': eigen.eig2_function})
    r.discharge(RG, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def m_mean():
    return mod(['c04m.cpp'], (), SRC + ['Himalaya_interface.cpp'])


def suit(out, fn):
    r = check.Run(m_suit(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=500)
    r.discharge({}, on_throw='forbid', default=('pos', 4))
    r.finish()


def mean(out, fn):
    r = check.Run(m_mean(), fn, out, mode='real', arith='uf', select_fork=False, timeout_ms=500)
    r.discharge({}, on_throw='forbid', default=('pos', 4))
    r.finish()


def prep():
    m_suit()
    m_cmp()
    m_mean()


def native(r):
    if r.harness.startswith('c04_selection'):
        return check.native_runner(['c04c.cpp'], SRC, X, cut=CMP, partial=True)(r)
    if r.harness == 'c04_mean_mass':
        return check.native_runner(['c04m.cpp'], SRC + ['Himalaya_interface.cpp'], X, partial=True)(r)
    return check.native_runner(['c04.cpp', 'c04s.cpp'], SRC, X, cut=MSQ, partial=True)(r)


def run():
    tasks = [('c04_suitable_%s%d' % (c, k), 'suit', dict(fn='c04_suitable_%s%d' % (c, k))) for c in 'tb' for k in range(3)]
    tasks += [('c04_selection_%s%d' % (c, k), 'sel', dict(fn='c04_selection_%s%d' % (c, k))) for c in 'tb' for k in range(2)]
    tasks += [('c04_exclusive', 'suit', dict(fn='c04_exclusive')), ('c04_mean_mass', 'mean', dict(fn='c04_mean_mass'))]
    check.main('C04', 'C04', tasks, ['c04.cpp'], prepare=prep, native=native)
