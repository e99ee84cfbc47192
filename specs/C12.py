import re
from fractions import Fraction
from vc import check, build, sym as S
X = ('-fno-access-control',)
SRC = ['mh2_eft/Mh2EFTCalculator.cpp']
H = ['c12.cpp']
CUT = (r'ThresholdCalculatorC[12]E', r'getThresholdCorrectionE', r'mh2_fo4b0xxE')


def mod():
    return check.load_module(H, SRC, X, cut=CUT)


def _log(ex, st, a, ins):
    return S.sym('logarithm', 'd')      # the powers of the couplings are those in front of the logarithms


RG = {'vu': lambda r: Fraction(r.randint(10, 30), 10), 'vd': lambda r: Fraction(r.randint(10, 30), 10)}


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='ord', timeout_ms=500, contracts={'log': _log, 'llvm.log.f64': _log} if 'power' in fn else {})
    r.discharge(RG, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def run():
    txt = open(build.VERIF + '/contracts/c12.cpp').read()
    fns = re.findall(r'^VC (c12_\w+)\(\)', txt, re.M) + ['c12_power_' + n for n in re.findall(r'^PW\(\d, (\w+)', txt, re.M)]
    fns = ['c12_switches_1L_%d' % i for i in range(8)] + ['c12_switches_2L_%d' % i for i in range(2)] + fns
    check.main('C12', 'C12', [(f, 'task', dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC, X, cut=CUT, partial=True),
               assumptions=['real arithmetic (a contribution that is not a number is replaced by zero)', 'thresholds and the loop function stand for arbitrary values'])
