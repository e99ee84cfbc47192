from vc import check, build, eigen
from fractions import Fraction
X = ('-fno-access-control',)
SRC = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp']
CUT = ('8himalaya19HierarchyCalculator18calculateHierarchy',)
ENTRIES = [(h, q) for h in range(-1, 15) for q in 'tb']


def name(h, q, p='c21'):
    return '%s_%s_%s' % (p, q, 'none' if h < 0 else h)


def source():
    t = ''.join('VC %s() { uncertainty(%d, %s, false); }\n' % (name(h, q), h, 'true' if q == 'b' else 'false') for h, q in ENTRIES)
    t += ''.join('VC %s() { uncertainty(%d, %s, true); }\n' % (name(h, q, 'c05'), h, 'true' if q == 'b' else 'false') for h, q in ENTRIES)
    return build.generated('c21.cpp', t)


def mod():
    return check.load_module([source()], SRC, X, None, [r'himalaya'], CUT)


def elem(r):
    return Fraction(r.randint(1, 99), 100)


RG = {'base[0][1]': elem, 'E11': elem, 'E12': elem, 'E22': elem, 'base*': lambda r: Fraction(r.randint(20, 60), 10)}


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500, contracts={'vc_eig2': eigen.eig2_function})
    r.discharge(RG, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def native(r):
    return check.native_runner([source()], SRC, X, cut=CUT, partial=True)(r)


def run():
    tasks = [(name(h, q), 'task', dict(fn=name(h, q))) for h, q in ENTRIES]
    check.main('C21', 'C21', tasks, ['c21.cpp'], prepare=mod, native=native,
               assumptions=['real arithmetic; the expanded mass matrix is an arbitrary function of expansion depths, loop flags and hierarchy; eigenvalues by their definition'])
