import re
from vc import check, build
X = ('-fno-access-control',)
SRC = ['mh2_eft/ThresholdCalculator.cpp']
H = ['c14.cpp']
CUT = (r'ThresholdCalculator\d+getDelta', r'getDRbarPrimeToMSbarXtTermsE')


def mod():
    return check.load_module(H, SRC, X, cut=CUT)


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='lin', timeout_ms=2000)
    r.discharge({}, on_throw='forbid', default=('pos', 4))
    r.finish()


def run():
    fns = re.findall(r'^VC (c14_\w+)\(\)', open(build.VERIF + '/contracts/c14.cpp').read(), re.M)
    check.main('C14', 'C14', [(f, 'task', dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC, X, cut=CUT, partial=True),
               assumptions=['real arithmetic', 'the individual threshold corrections are arbitrary functions of mass limit and log switch'])
