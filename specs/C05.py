from vc import check, frame
from specs import C04, C21, C22
from vc import eigen


def task(out, fn, which):
    m = dict(full=C22.mod, uncertainty=C21.mod, compare=C04.m_cmp)[which]()
    rg = dict(full=C22.RG, uncertainty=C21.RG, compare=C04.RG)[which]
    r = check.Run(m, fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500, contracts={} if which == 'full' else {'vc_eig2': eigen.eig2_function})
    r.discharge(rg, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def frame_task(out, fn):
    getattr(frame, fn + '_obligations')(out, fn)


def prep():
    C22.mod()
    C21.mod()
    C04.m_cmp()


def native(r):
    if r.backend == 'points-to':
        return frame.history(r)
    n = C22.native if 'full' in r.harness else C04.native if 'compare' in r.harness else C21.native
    return n(r)


def run():
    tasks = [('c05_full_' + k, 'task', dict(fn='c05_full_' + k, which='full')) for k in ('top', 'bottom')]
    tasks += [('c05_compare_' + k, 'task', dict(fn='c05_compare_' + k, which='compare')) for k in ('top', 'bottom')]
    tasks += [(C21.name(h, q, 'c05'), 'task', dict(fn=C21.name(h, q, 'c05'), which='uncertainty')) for h, q in C21.ENTRIES]
    tasks += [(k, 'frame_task', dict(fn=k)) for k in ('globals', 'const')]
    check.main('C05', 'C05', tasks, ['c22.cpp'], prepare=prep, native=native)
