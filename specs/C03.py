import re
from vc import check, build
H = ['c03.cpp']
SRC = ['HierarchyObject.cpp']


def mod():
    return check.load_module(H, SRC)


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='fp', select_fork=False)
    r.discharge(on_throw='forbid', default=('any', 1))
    r.finish()


def run():
    txt = open(build.VERIF + '/contracts/c03.cpp').read()
    fns = re.findall(r'^VC (\w+)\(\)', txt, re.M)
    check.main('C03', 'C03', [(f, 'task', dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['every std::string / iostream operation only formats messages (no effect on numbers)'])
