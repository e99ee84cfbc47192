import re
from vc import check, build
H = ['c08.cpp']
SRC = ['mh2_fo/Linalg.cpp']


def mod():
    return check.load_module(H, SRC)


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='exact')
    r.discharge(on_throw='forbid', ranges=check.Joint(('a11', 'a12', 'a22'), check.pyth).ranges(), default=('any', 1))
    r.finish()


def run():
    fns = re.findall(r'^VC (\w+)\(\)', open(build.VERIF + '/contracts/c08.cpp').read(), re.M)
    check.main('C08', 'C08', [(f, 'task', dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['exact real arithmetic'])
