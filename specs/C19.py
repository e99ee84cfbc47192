import time
from fractions import Fraction
import mpmath as mp
from vc import approx, check
from vc.expr import sym, absv
X = ('-fno-access-control',)
SRC = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp']
C = '8himalaya19HierarchyCalculator'
CUT = (C + '14shiftMst[12]ToMDR', C + '11calcMeanMsq')
H = ['c19.cpp']
x, y = sym('x'), sym('y')


def mod():
    return check.load_module(H, SRC, X, None, [r'himalaya'], CUT)


def point(r):
    """squark masses at all distances"""
    T = Fraction(r.randint(100, 997), r.choice((1, 10, 100)))
    d = r.choice((Fraction(r.randint(-60, 99), 100), Fraction(r.choice((1, -1)) * r.randint(2, 99), 10 ** r.randint(3, 8))))
    return dict(x=T, y=T * (1 + d))


def regular(code, env):
    """finite for equal squark masses"""
    if env is None:
        return False
    try:
        return mp.isfinite(check.mp_eval(code, dict(env, y=env['x'])))
    except ZeroDivisionError:
        return False


def near(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=2000)
    loci = [approx.Locus('equal squark masses', {'y': 'x', 'x': 'free'}, 0, absv(x - y) <= x / 50)]
    t0 = time.time()
    for i, st in enumerate(run.states):
        for kind, lab, c, s, n in st.checks:
            if kind != 'near':
                continue
            key = run.key(lab, i)
            if time.time() - t0 > 120 or sum(r.status != 'proved' for r in out.results) >= 3:
                run.add(check.Result(key, 'undecided', '', 'not attempted'))
                continue
            smp = check.Sampler('%s/%s' % (check.SEED, key), check.Joint(['x', 'y'], point).ranges(), ('pos', 4))
            approx.decide(run, st, c, s, key, loci, out, smp, stable=None if regular(c, check.Path(st, [c, s], smp, run.solver).point()) else [
                ('equal squark masses', absv(x - y) >= x / 1000)])
        st.checks = [k for k in st.checks if k[0] != 'near']
    if any(st.checks for st in run.states):
        run.discharge(check.Joint(['x', 'y'], point).ranges(), on_throw='forbid', default=('pos', 4))
    run.finish()


def exact(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=2000)
    run.discharge(check.Joint(['x', 'y'], point).ranges(), on_throw='forbid', default=('pos', 4))
    run.finish()


def prepare():
    mod()


native = check.native_runner(H, SRC, X, cut=CUT, partial=True)


def run():
    tasks = [('c19_' + n, 'near', dict(fn='c19_' + n)) for n in ('element00', 'element01', 'element10', 'element11', 'scalar')]
    tasks += [('c19_projection', 'exact', dict(fn='c19_projection'))]
    check.main('C19', 'C19', tasks, H, prepare=prepare, native=native,
               assumptions=['real arithmetic; positive masses and vacuum expectation values; shifted stop masses and the mean light squark mass are arbitrary'])
