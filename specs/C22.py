from vc import check, build, eigen
from fractions import Fraction
X = ('-fno-access-control',)
SRC = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp']
N = ('compareHierarchies', 'calculateHierarchy', 'shiftH3mToDRbarPrime', 'getMt41L', 'getMt42L', 'getExpansionUncertainty', 'calcDeltaLambda3L', 'calcDRbarToMDRbarShift')
CUT = tuple('8himalaya19HierarchyCalculator%d%sE' % (len(n), n) for n in N)


def mod():
    return check.load_module(['c22.cpp'], SRC, X, None, [r'himalaya'], CUT)


def small(r):
    return Fraction(r.randint(1, 99), 100)


RG = {'vu': lambda r: Fraction(r.randint(10, 30), 10), 'vd': lambda r: Fraction(r.randint(10, 30), 10)}


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500)
    r.discharge(RG, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def native(r):
    return check.native_runner(['c22.cpp'], SRC, X, cut=CUT, partial=True)(r)


def run():
    tasks = [(n, 'task', dict(fn=n)) for n in ('c22_top', 'c22_bottom')]
    check.main('C22', 'C22', tasks, ['c22.cpp'], prepare=mod, native=native,
               assumptions=['real arithmetic; the parts are arbitrary functions of the arguments and parameters they read'])
