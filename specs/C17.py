"""C17: the lock around the routines that are not reentrant, and no other shared state"""
import glob
import os
import re
from vc import build, check, fortran, frame, ir
from specs import C16

ENTRIES = ('c17_calls', 'c17_calls_equal')


def task(out, fn):
    r = check.Run(C16.mod(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500)
    r.discharge({}, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def closed(out, fn):
    """calls of routines that are not reentrant occur in the functions executed under contract only"""
    _, fs = fortran.stubs()
    names = {n + '_' for n, r in fs.items() if r.state}
    done = set()
    for e in ENTRIES:
        r = check.Run(C16.mod(), e, out, mode='real', arith='ord', select_fork=False, timeout_ms=500)
        done |= set(out.functions)
    m = frame.lib()
    headers = ''.join(open(p, errors='replace').read() for d in (build.SRC, os.path.join(build.REPO, 'include')) for p in glob.glob(d + '/**/*.hpp', recursive=True) + glob.glob(d + '/**/*.h', recursive=True))
    refs, calls = {}, {}
    for f in m.funcs.values():
        ir.body(f)
        for b in (f.blocks or {}).values():
            for i in b:
                for g in re.findall(r"\('g', '([^']+)'\)", repr(i)):
                    refs.setdefault(g, set()).add(f.name)
    k = 0
    for n in sorted(names):
        for f in sorted(refs.get(n, ())):
            base = check.demangle([f])[0].split('(')[0].split('::')[-1]
            unreachable = not refs.get(f, set()) - {f} and not re.search(r'\b%s\b' % re.escape(base), headers)
            ok = f in done or unreachable
            key = 'closed/%s is called by functions under contract only#%d' % (n, k)
            k += 1
            out.results.append(check.Result(key, 'proved', 'call graph') if ok else
                               check.Result(key, 'failed', 'points-to', '%s calls %s' % (f, n), harness='closed', points=[{}]))
    if not k:
        raise build.BuildError('no call of the external routines found')


def shared(out, fn):
    frame.globals_obligations(out, 'shared')


def prep():
    C16.mod()


def native(r):
    if r.backend == 'points-to':
        return frame.interference(r)
    c = frame.interference(r)
    return c if c[0] else check.native_runner([C16.generated()], C16.SRC, C16.X, partial=True)(r)


def run():
    tasks = [(n, 'task', dict(fn=n)) for n in ENTRIES] + [('closed', 'closed', dict(fn='closed')), ('shared', 'shared', dict(fn='shared'))]
    check.main('C17', 'C17', tasks, ['c16.cpp'], prepare=prep, native=native,
               assumptions=['the C++ run-time library is reentrant', 'a mutex of the C++ library provides mutual exclusion',
                            'thread interleavings enter through the absence of shared state and the lock only: no schedule is enumerated'],
               trusted=['gfortran tree dump: which external routines use static memory'])
