from vc import check
X = ('-fno-access-control',)
SRC = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp']
C = '8himalaya19HierarchyCalculator'
CUT = dict(a=('12calculateMsq2',), b=(C + '14shiftMst[12]ToMDR',), c=(C + '8getMt4[12]L',))
H = dict(a=['c20.cpp'], b=['c20b.cpp'], c=['c20c.cpp'])
ORDER = ['h3', 'h32q2g', 'h3q22g', 'h4', 'h5', 'h5g1', 'h6', 'h6b', 'h6b2qg2', 'h6bq22g', 'h6bq2g2', 'h6g2', 'h9', 'h9q2']


def mod(k):
    return check.load_module(H[k], SRC, X, None, [r'himalaya'], CUT[k])


def task(out, fn, k):
    r = check.Run(mod(k), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500)
    r.discharge({}, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def prepare():
    for k in 'abc':
        mod(k)


def native(r):
    k = 'b' if 'one_loop' in r.harness else 'c' if 'difference' in r.harness else 'a'
    return check.native_runner(H[k], SRC, X, cut=CUT[k], partial=True)(r)


def run():
    tasks = [('c20_%s_%s' % (q, h), 'task', dict(fn='c20_%s_%s' % (q, h), k='a')) for h in ORDER for q in ('top', 'bottom')]
    tasks += [('c20_undefined', 'task', dict(fn='c20_undefined', k='a'))]
    tasks += [('c20_one_loop_' + q, 'task', dict(fn='c20_one_loop_' + q, k='b')) for q in ('top', 'bottom')]
    tasks += [('c20_difference_' + q, 'task', dict(fn='c20_difference_' + q, k='c')) for q in ('top', 'bottom')]
    check.main('C20', 'C20', tasks, ['c20.cpp'], prepare=prepare, native=native,
               assumptions=['real arithmetic; squared shifted masses are not negative'])
