import re
from vc import check, build, eigen
H = ['c01.cpp']
SRC = ['Himalaya_interface.cpp']


def mod():
    return check.load_module(H, SRC)


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='fp', arith='uf', select_fork=False, contracts={'vc_eigh2': eigen.eigh2_arbitrary, 'vc_svd3': eigen.svd3})
    r.discharge(on_throw='forbid', default=('any', 1))
    r.finish()


def run():
    fns = re.findall(r'^VC (c01_\w+)\(\)', open(build.VERIF + '/contracts/c01.cpp').read(), re.M)
    fns += ['c01_%s_%d' % (s, n) for s in ('stop', 'sbottom', 'stau') for n in range(1, 16)]
    check.main('C01', 'C01', [(f, 'task', dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['the library Eigen returns the eigenvalues of a symmetric matrix in ascending order, and reports no error',
                            'every std::string / iostream operation only formats messages'])
