import re
from fractions import Fraction
from vc import check, build, eigen
X = ('-fno-access-control',)
SRC = ['mh2_fo/MSSM_spectrum.cpp']
H = ['c07.cpp']


def mod():
    return check.load_module(H, SRC, X)


def mod_b():
    return check.load_module(['c07b.cpp'], SRC, X, cut=(r'MSSM_spectrum\d+calculate_M(?:VWm|VZ|F[tb]|Ftau|Sv[emt]L|S[udcstbem]|Stau|hh|Ah|Hpm|Chi|Cha)Ev$',))


def prepare():
    mod(), mod_b()


def complete(out):
    r = check.Run(mod_b(), 'c07_complete', out, mode='real', arith='lin', timeout_ms=2000)
    r.discharge({}, on_throw='forbid', default=('pos', 4))
    r.finish()


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork='decided', timeout_ms=2000, contracts={'vc_eigh2': eigen.eigh_named(2), 'vc_eigh4': eigen.eigh_named(4), 'vc_svd2': eigen.svd_named(2)})
    u = lambda r: Fraction(r.randint(-99, 99), 100)
    rg = {'eigenvector[%d][%d]' % (i, k): u for i in range(4) for k in range(4)}
    rg.update({'eigenvalue[%d]' % i: (lambda r: Fraction(r.randint(-500, 500), 7)) for i in range(4)})
    r.discharge(rg, on_throw='forbid', default=('pos', 4))
    r.finish()


def run():
    txt = open(build.VERIF + '/contracts/c07.cpp').read()
    fns = re.findall(r'^VC (c07_\w+)\(\)', txt, re.M) + ['c07_matrix_' + n for n in re.findall(r'^SF\((\w+)', txt, re.M)] + ['c07_diag_' + n for n in re.findall(r'^DIAG\((\w+)', txt, re.M)]
    check.main('C07', 'C07', [(f, 'task', dict(fn=f)) for f in fns] + [('complete', 'complete', {})], H + ['c07b.cpp'], prepare=prepare, native=check.native_runner(H + ['c07b.cpp'], SRC, X, partial=True),
               assumptions=['exact real arithmetic',
                            'the library Eigen (stand-in contracts): real symmetric matrices are decomposed into ascending eigenvalues with unit eigenvectors, real matrices into descending singular values; eigenvalues of distinct magnitude in the neutralino harness'])
