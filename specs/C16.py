import os
import re
import shutil
import subprocess
from fractions import Fraction
from vc import check, build, fortran, frame
SRC = ['mh2l/DSZHiggs.cpp']
H = ['c16.cpp']
X = ('-fno-access-control',)


def generated():
    return build.generated('c16.cpp', fortran.stubs()[0])


def mod():
    return check.load_module([generated()], SRC, X, None, [r'himalaya'])


def stops(r):
    T = Fraction(r.randint(1, 997), r.choice((1, 7, 10, 100)))
    d = r.choice((Fraction(r.randint(-99, 99), 100), 0, Fraction(r.choice((1, -1)) * r.randint(2, 99), 10 ** r.randint(3, 8))))
    return dict(T1=T, T2=T * (1 + d))


STOPS = check.Joint(['T1', 'T2'], stops)


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500)
    r.discharge(STOPS.ranges(), on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


HB = ['c16b.cpp']
SRCB = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp', 'mh2_fo/MSSM_mass_eigenstates.cpp', 'mh2_fo/MSSM_spectrum.cpp']
CUTB = ('14shiftMst[12]ToMDRE', '21MSSM_mass_eigenstates27delta_mh2_2loop_mom_it_pertE', '21MSSM_mass_eigenstates26delta_mh2_2loop_mom_it_numE')


def callers():
    return check.load_module(HB, SRCB, X, None, [r'himalaya'], CUTB)


def task_callers(out, fn):
    r = check.Run(callers(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500)
    r.discharge({}, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def prepare():
    mod()
    callers()


def bounded(out, fn):
    """relations between results of the real corrections, Fortran code included, at random points"""
    p = relations()
    n = re.search(r'(\d+) comparisons, 0 failed', p.stdout)
    if p.returncode == 0 and n:
        out.results.append(check.Result('bounded/relations between the real corrections', 'proved', 'numeric samples (bounded)'))
        out.notes.append('%s numeric comparisons (bounded)' % n.group(1))
    else:
        out.results.append(check.Result('bounded/relations between the real corrections', 'failed', 'numeric samples (bounded)', p.stdout[:1500], harness='bounded', points=[{}]))


_p = []


def relations():
    if not _p:
        try:
            x = frame.program(tag='c16', main='c16_native.cpp', only=r'/(mh2l|misc)/')
        except build.BuildError:
            x = frame.program(tag='c16', main='c16_native.cpp')
        _p.append(subprocess.run([x], capture_output=True, text=True, timeout=300))
        shutil.rmtree(os.path.dirname(x), ignore_errors=True)
    return _p[0]


def native(r):
    if r.harness == 'bounded':
        p = relations()
        return p.returncode != 0, p.stdout[:3000]
    if '_fo_' in r.harness or 'hierarchy' in r.harness:
        return check.native_runner(HB, SRCB, X, cut=CUTB, partial=True)(r)
    p = relations()
    if p.returncode:
        return True, p.stdout[:3000]
    return check.native_runner([generated()], SRC, X, partial=True)(r)


def run():
    tasks = [(n, 'task_callers', dict(fn=n)) for n in ('c16_fo_at_as', 'c16_fo_ab_as', 'c16_fo_at_at', 'c16_fo_atau', 'c16_fo_ab_atau', 'c16_fo_all', 'c16_hierarchy_top', 'c16_hierarchy_bottom')]
    tasks += [('bounded', 'bounded', dict(fn='bounded'))]
    tasks += [(n, 'task', dict(fn=n)) for n in ('c16_at_as', 'c16_at_as_equal', 'c16_at_as_equal_unmixed', 'c16_at_as_equal_angle', 'c16_ab_as', 'c16_at_at', 'c16_atau_atau', 'c16_ab_atau')]
    check.main('C16', 'C16', tasks, H, prepare=prepare, native=native,
               assumptions=['real arithmetic; sine, cosine and the dilogarithm are arbitrary functions',
                            'the external routines are functions of their arguments; adjustments they make to their arguments for degenerate masses or vanishing mixing are idempotent (compared numerically)'],
               trusted=['gfortran tree dump: parameter order of the external routines'],
               bounded=['exchange of the squarks, sign of the mixing matrices, mass dimension, exchange of the doublets and limit of degenerate stops for the real external code: compared at 300 random points'])
