import re
from fractions import Fraction
from vc import check, build, eigen
H = ['c01.cpp']
SRC = ['Himalaya_interface.cpp']


def mod():
    return check.load_module(H, SRC)


def big(r):
    return Fraction(r.randint(10**6, 10**8), 7)


RG = dict(t=lambda r: Fraction(r.randint(-96, 96), 97), w1=lambda r: Fraction(r.randint(3000, 9000), 7)**2, w2=lambda r: Fraction(r.choice((r.randint(9100, 10000), r.randint(9100, 20000))), 7)**2,
          MW=lambda r: Fraction(r.randint(100, 9000), 7), MZ=lambda r: Fraction(r.choice((r.randint(100, 1000), r.randint(1000, 20000))), 7), Mt=lambda r: Fraction(r.randint(10, 900), 7),
          mu=lambda r: Fraction(r.randint(-500, 500), 7), s2t=lambda r: Fraction(r.randint(-96, 96), 97), s2b=lambda r: Fraction(r.randint(-96, 96), 97),
          s2tau=lambda r: Fraction(r.randint(-96, 96), 97))
for a in ('mq2', 'mu2', 'md2', 'ml2', 'me2'):
    for k in range(9):
        RG['%s%d%d' % (a, k // 3, k % 3)] = big
RG['mq222'] = lambda r: Fraction(r.randint(10**8, 10**9), 7)


def task(out, fn, arith='lin'):
    rg = dict(RG)
    for n in ('MSt', 'MSb', 'MStau'):
        rg.update({n + '0': lambda r: Fraction(r.randint(10, 1000), 3), n + '1': lambda r: Fraction(r.randint(1100, 2000), 3)})
    r = check.Run(mod(), fn, out, mode='real', arith=arith, select_fork=False, timeout_ms=300, contracts={'vc_eigh2': eigen.eigh2_rotation, 'vc_svd3': eigen.svd3})
    r.discharge(rg, on_throw='forbid', default=('pos', 4))
    r.finish()


def run():
    txt = open(build.VERIF + '/contracts/c01.cpp').read()
    fns = re.findall(r'^VC (c02_\w+)\(\)', txt, re.M)
    for s in ('stop', 'sbottom', 'stau'):
        fns += ['c02_%s_%s' % (s, n) for n in re.findall(r'PAIR\((\d+)\)', txt)] + ['c02_%s_angle_%s' % (s, n) for n in re.findall(r'ANGLE\((\d+)\)', txt)]
    check.main('C02', 'C02', [(f, 'task', dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['exact real arithmetic', 'the library Eigen returns the spectral decomposition of a symmetric 2x2 matrix with ascending eigenvalues and '
                            'orients the eigenvectors positively exactly if the first diagonal entry is the smaller one; singular values come out in descending order'])
