"""Frame conditions: which objects a function may write.  Inclusion-based points-to analysis of the LLVM IR (flow-, field- and
context-insensitive, hence conservative); every store, memory intrinsic and external call of the reachable code is an obligation."""
import re
from . import ir

PURE = re.compile(r'^(llvm\.(fabs|sqrt|pow|powi|log|exp|sin|cos|floor|max|min|maxnum|minnum|fmuladd|lifetime|dbg|assume|expect|experimental|ctpop|umax|umin|smax|smin|abs|is|copysign|usub|uadd|umul|sadd|ssub|smul|fshl|ctlz|cttz|trap|objectsize|eh|invariant|stacksave|stackrestore|round|trunc|ceil|vector)\b'
                  r'|sqrt|log|pow|exp|sin|cos|tan|atan|atan2|asin|acos|hypot|fabs|cbrt|log1p|log2|log10|expm1|fmod|sinh|cosh|tanh|ldexp|frexp|csqrt|clog|cexp|cpow|cabs|carg|round|floor|ceil|strlen|memcmp|bcmp|__gxx_personality|_Unwind_Resume|__cxa_(begin|end)_catch|__cxa_rethrow|__cxa_throw|__cxa_free_exception|__cxa_guard_|_ZSt9terminatev|_ZSt\d+__throw|_ZdlPv|_ZdaPv|free|abort|__clang_call_terminate|__muldc3|__divdc3|std::|_ZSt17__throw|__assert_fail|__cxa_atexit|__cxa_bad|_ZNSt9exceptionD|__dynamic_cast|__cxa_get)')
ALLOC = re.compile(r'^(_Znwm|_Znam|malloc|calloc|__cxa_allocate_exception|aligned_alloc)')
STD = re.compile(r'^_Z(N|NK)?(St|9__gnu_cxx|Sa|Ss|So|Si|l|S)|^_ZSt')
COPY = re.compile(r'^(llvm\.mem(cpy|move)|memcpy|memmove)')
SET = re.compile(r'^(llvm\.memset|memset)')
LOCK = re.compile(r'^pthread_')
PTRISH = ('p', 's', 'vec', 'a')


class Frame:
    def __init__(self, mod, roots=None, entries=None):
        """roots: {function: {param index: object name}}; entries: functions whose reachable code is considered (None: all)"""
        self.m = mod
        self.pts = {}
        self.copy = {}      # var -> set of vars that include it
        self.loads = {}     # pointer var -> [dst]
        self.stores = {}    # pointer var -> [src var]
        self.cpy = []       # (dst ptr, src ptr)
        self.calls = []
        self.effects = []   # (function, instruction text, pointer var)
        self.callees = {}
        self.bodies = {}
        self.work = []
        self.roots = roots or {}
        todo = list(entries) if entries is not None else list(mod.funcs)
        self.entries = todo[:]
        self.seen = set()
        self.globals_init()
        while todo:
            f = todo.pop()
            if f in self.seen or f not in mod.funcs:
                continue
            self.seen.add(f)
            for i, o in self.roots.get(f, {}).items():
                self.add((f, self.param(f, i)), {('R', o)})
            self.gen(f)
            todo += self.callees.get(f, ())
            if not todo:
                self.solve()
                todo = [c for c in self.indirect() if c not in self.seen]
        self.solve()

    # ------------------------------------------------------------- generation
    def param(self, f, i):
        return self.m.funcs[f].params[i][1]

    def globals_init(self):
        for g, d in self.m.globals.items():
            def walk(v, g=g):
                if not isinstance(v, (tuple, list)):
                    return
                if isinstance(v, tuple) and len(v) == 2 and v[0] == 'g':
                    self.add(('mem', ('G', g)), {('G', v[1])})
                    return
                for x in v:
                    walk(x)
            walk(d.get('init') if isinstance(d, dict) else getattr(d, 'init', None))

    def add(self, v, s):
        c = self.pts.setdefault(v, set())
        n = s - c
        if n:
            c |= n
            self.work.append((v, n))

    def edge(self, a, b):
        """b includes a"""
        if a == b:
            return
        s = self.copy.setdefault(a, set())
        if b not in s:
            s.add(b)
            if self.pts.get(a):
                self.add(b, self.pts[a])

    def val(self, f, v):
        """variable for an operand"""
        k = v[0]
        if k == 'r':
            return (f, v[1])
        if k == 'g':
            n = ('gv', v[1])
            self.add(n, {('G', v[1])})
            return n
        if k == 'ce':
            if v[1] == 'gep':
                return self.val(f, v[3])
            return self.val(f, v[3])
        if k == 'agg':
            n = ('agg', f, id(v))
            for _, x in v[1]:
                y = self.val(f, x)
                if y:
                    self.edge(y, n)
            return n
        return None

    def flow(self, f, src, dst):
        a = self.val(f, src)
        if a:
            self.edge(a, (f, dst))

    def gen(self, f):
        fn = self.m.funcs[f]
        ir.body(fn)
        self.callees.setdefault(f, set())
        for b in fn.blocks.values():
            for ins in b:
                op, dst = ins[0], ins[1]
                if op == 'alloca':
                    self.add((f, dst), {('A', f, dst)})
                elif op in ('gep',):
                    self.flow(f, ins[3], dst)
                elif op in ('bitcast', 'inttoptr', 'ptrtoint', 'freeze', 'addrspacecast', 'zext', 'trunc', 'sext'):
                    self.flow(f, ins[3], dst)
                elif op in ('add', 'sub', 'and', 'or'):
                    self.flow(f, ins[3], dst)
                    self.flow(f, ins[4], dst)
                elif op == 'select':
                    self.flow(f, ins[4], dst)
                    self.flow(f, ins[5], dst)
                elif op == 'phi':
                    for v in ins[3].values():
                        self.flow(f, v, dst)
                elif op == 'load':
                    p = self.val(f, ins[3])
                    if p and ins[2][0] != 'd' and ins[2] not in (('i', 1), ('i', 8), ('i', 16), ('i', 32)):
                        self.loads.setdefault(p, []).append((f, dst))
                elif op == 'store':
                    p = self.val(f, ins[4])
                    v = self.val(f, ins[3])
                    if p:
                        self.effects.append((f, 'store', p, ins))
                        if v:
                            self.stores.setdefault(p, []).append(v)
                    else:
                        self.effects.append((f, 'store to unknown address', None, ins))
                elif op == 'insertvalue':
                    self.flow(f, ins[3], dst)
                    self.flow(f, ins[5], dst)
                elif op == 'extractvalue':
                    self.flow(f, ins[3], dst)
                elif op == 'ret':
                    if ins[3] is not None:
                        v = self.val(f, ins[3])
                        if v:
                            self.edge(v, ('ret', f))
                elif op == 'call':
                    self.call(f, ins)
                elif op == 'landingpad':
                    self.add((f, dst), {('H', 'exception')})
                elif op == 'unsupported':
                    if ins[2] in ('cmpxchg', 'atomicrmw', 'va_arg'):
                        self.effects.append((f, ins[2], None, ins))
                elif op == 'asm' and ins[2].strip('"') and not ins[2].startswith('"#') and ('memory' in ins[3] or '*' in ins[3]):
                    self.effects.append((f, 'inline assembler', None, ins))

    def args(self, f, ins):
        out = []
        for a in ins[4]:
            v = a[1] if isinstance(a, tuple) and len(a) >= 2 else a
            out.append(self.val(f, v) if isinstance(v, tuple) else None)
        return out

    def call(self, f, ins):
        tgt = ins[3]
        args = self.args(f, ins)
        if tgt[0] == 'g':
            self.call_known(f, tgt[1], args, ins)
        elif tgt[0] == 'r':
            self.calls.append((f, (f, tgt[1]), args, ins))
        else:
            self.effects.append((f, 'call of unknown function', None, ins))

    def call_known(self, f, name, args, ins):
        dst = ins[1]
        while 'alias' in self.m.globals.get(name, ()):
            name = self.m.globals[name]['alias'][1]
        self.callees[f].add(name)
        if name in self.m.funcs:
            ps = self.m.funcs[name].params
            for a, p in zip(args, ps):
                if a:
                    self.edge(a, (name, p[1]))
            if dst is not None:
                self.edge(('ret', name), (f, dst))
            return
        if COPY.match(name):
            if args[0]:
                self.effects.append((f, name, args[0], ins))
                if args[1]:
                    self.cpy.append((args[0], args[1]))
                if dst is not None:
                    self.edge(args[0], (f, dst))
        elif SET.match(name):
            if args[0]:
                self.effects.append((f, name, args[0], ins))
        elif ALLOC.match(name):
            self.add((f, dst), {('H', f, dst)})
        elif PURE.match(name) or LOCK.match(name):
            pass
        else:
            w = args[:1] if STD.match(name) else args
            for a in w:
                if a:
                    self.effects.append((f, 'call of ' + name, a, ins))
            if dst is not None and ins[2][0] in PTRISH:
                self.add((f, dst), {('H', f, dst)})
                for a in args:
                    if a:
                        self.edge(a, (f, dst))

    def indirect(self):
        out = set()
        for f, v, args, ins in self.calls:
            for o in list(self.pts.get(v, ())):
                if o[0] == 'G' and o[1] in self.m.funcs:
                    n = o[1]
                    self.callees[f].add(n)
                    for a, p in zip(args, self.m.funcs[n].params):
                        if a:
                            self.edge(a, (n, p[1]))
                    if ins[1] is not None:
                        self.edge(('ret', n), (f, ins[1]))
                    out.add(n)
        return out

    # -------------------------------------------------------------- solution
    def solve(self):
        while True:
            while self.work:
                v, n = self.work.pop()
                for b in self.copy.get(v, ()):
                    self.add(b, n)
                for d in self.loads.get(v, ()):
                    for o in n:
                        self.edge(('mem', o), d)
                for s in self.stores.get(v, ()):
                    for o in n:
                        self.edge(s, ('mem', o))
            changed = False
            for p, ds in self.loads.items():
                for o in list(self.pts.get(p, ())):
                    for d in ds:
                        if d not in self.copy.get(('mem', o), ()):
                            self.edge(('mem', o), d)
                            changed = True
            for p, ss in self.stores.items():
                for o in list(self.pts.get(p, ())):
                    for s in ss:
                        if ('mem', o) not in self.copy.get(s, ()) and s != ('mem', o):
                            self.edge(s, ('mem', o))
                            changed = True
            for d, s in self.cpy:
                for o in list(self.pts.get(d, ())):
                    for q in list(self.pts.get(s, ())):
                        if ('mem', o) not in self.copy.get(('mem', q), ()) and o != q:
                            self.edge(('mem', q), ('mem', o))
                            changed = True
            if not self.work and not changed:
                return

    def written(self):
        """(function, what, instruction, objects) for every write"""
        for f, w, p, ins in self.effects:
            yield f, w, ins, self.pts.get(p, set()) if p is not None else {('?',)}


# ----------------------------------------------------------------- obligations
LOADTIME = re.compile(r'^(_GLOBAL__sub_I|__cxx_global_var_init|_GLOBAL__I)')
STREAMS = re.compile(r'^_ZSt4(cerr|cout|clog)$')


def _succ(t):
    if t[0] == 'jmp':
        return [t[2]]
    if t[0] == 'br':
        return [t[3], t[4]]
    if t[0] == 'switch':
        return [t[4]] + [c[1] for c in t[5]]
    if t[0] == 'call' and t[5] is not None:
        return [t[5], t[6]]
    return []


def guarded_blocks(fn, guard):
    """blocks that are only reached if the guard of a function-local static was acquired"""
    ir.body(fn)
    acq, first = set(), None
    for bn, b in fn.blocks.items():
        if first is None:
            first = bn
        for ins in b:
            if ins[0] == 'call' and ins[3] == ('g', '__cxa_guard_acquire'):
                a = ins[4][0]
                v = a[1] if isinstance(a, tuple) else a
                if v == ('g', guard):
                    acq.add(ins[1])
    if not acq:
        return set()
    cut = set()
    for bn, b in fn.blocks.items():
        cmpd = {i[1]: i for i in b if i[0] == 'icmp' and i[4][0] == 'r' and i[4][1] in acq and i[5] == ('c', 0)}
        t = b[-1]
        if t[0] == 'br' and t[2][0] == 'r' and t[2][1] in cmpd:
            pred = cmpd[t[2][1]][2]
            cut.add((bn, t[3] if pred == 'ne' else t[4]))
    if not cut:
        return set()
    seen, todo = {first}, [first]
    while todo:
        bn = todo.pop()
        for s in _succ(fn.blocks[bn][-1]):
            if (bn, s) not in cut and s not in seen:
                seen.add(s)
                todo.append(s)
    return {b for b in fn.blocks if b not in seen}


def input_values(mod, fn):
    """registers that may depend on arguments or memory written at run time"""
    ir.body(fn)
    t = {p[1] for p in fn.params}
    local = set()
    for b in fn.blocks.values():
        for ins in b:
            if ins[0] == 'alloca':
                local.add(ins[1])

    def regs(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'r':
                yield x[1]
            else:
                for y in x:
                    yield from regs(y)
        elif isinstance(x, list):
            for y in x:
                yield from regs(y)
        elif isinstance(x, dict):
            for y in x.values():
                yield from regs(y)
    changed = True
    while changed:
        changed = False
        for b in fn.blocks.values():
            for ins in b:
                if ins[1] is None or ins[1] in t:
                    if ins[0] == 'store' and any(r in t for r in regs(ins[3])):
                        for r in regs(ins[4]):
                            if r not in t:
                                t.add(r)
                                changed = True
                    continue
                d = any(r in t for r in regs(ins[2:]))
                if ins[0] == 'load' and ins[3][0] == 'g':
                    g = mod.globals.get(ins[3][1])
                    d = d or not (g and g['const'])
                if d:
                    t.add(ins[1])
                    changed = True
    return t, regs


def in_guard(F, fname, ins, g, depth=0):
    """the write happens while the function-local static g is initialised, with a value independent of any input"""
    mod = F.m
    fn = mod.funcs[fname]
    gb = guarded_blocks(fn, '_ZGV' + g[2:])
    if gb:
        for bn in gb:
            if any(x is ins for x in fn.blocks[bn]):
                t, regs = input_values(mod, fn)
                return not any(r in t for r in regs(ins[2:]))
        return False
    if depth > 2:
        return False
    sites = [(h, i) for h in F.seen for b in mod.funcs[h].blocks.values() for i in b if i[0] == 'call' and i[3] == ('g', fname)]
    return bool(sites) and all(in_guard(F, h, i, g, depth + 1) for h, i in sites)


def latch(F, fname, g):
    """flag of the one-time print-out: only set to a constant, only accessed in constructors of the calculator"""
    for h in F.seen:
        for b in F.m.funcs[h].blocks.values():
            for i in b:
                if repr(('g', g)) in repr(i):
                    if 'HierarchyCalculatorC' not in h or i[0] not in ('load', 'store') or (i[0] == 'store' and i[3][0] != 'c'):
                        return False
    return True


def describe(F, f, what, obs):
    return '%s: %s may write %s' % (f, what, ', '.join(sorted(':'.join(str(x) for x in o) for o in obs))[:300])


def library():
    from . import build
    return ir.parse_module(build.link(build.src(*build.all_sources()), {}))


_lib = []


def lib():
    if not _lib:
        _lib.append(library())
    return _lib[0]


def globals_obligations(out, name):
    from .check import Result
    F = Frame(lib())
    bad = {}
    n = {}
    for f, w, ins, obs in F.written():
        if LOADTIME.match(f):
            continue
        n[f] = n.get(f, 0) + 1
        wrong = set()
        for o in obs:
            if o[0] == '?':
                wrong.add(o)
            if o[0] != 'G' or STREAMS.match(o[1]) or o[1] in F.m.funcs:
                continue
            g = F.m.globals.get(o[1])
            if g is not None and g['const']:
                continue
            if in_guard(F, f, ins, o[1]) or latch(F, f, o[1]):
                continue
            wrong.add(o)
        if wrong:
            bad.setdefault(f, []).append(describe(F, f, w, wrong))
    for f, k in n.items():
        out.functions.add(f)
        for i in range(k):
            if f in bad and i < len(bad[f]):
                out.results.append(Result('%s/%s writes no state shared between calculations#%d' % (name, f, i), 'failed', 'points-to', bad[f][i], harness=name, points=[{}]))
            else:
                out.results.append(Result('%s/%s#%d' % (name, f, i), 'proved', 'points-to'))
    return F


def const_obligations(out, name):
    """const member functions of the library change neither their object nor any argument passed as const"""
    from .check import Result
    m = lib()
    roots = {f: {0: 'object of ' + f} for f in m.funcs if f.startswith('_ZNK8himalaya')}
    own = re.compile(r'^_ZN8himalaya19HierarchyCalculator(?!C|D|14calculateDMh3L|18compareHierarchies|23getExpansionUncertainty)')
    roots.update({f: {0: 'object of ' + f} for f in m.funcs if own.match(f) and m.funcs[f].params and m.funcs[f].params[0][0][0] == 'p'})
    # a result returned in memory comes first
    for f in roots:
        if m.funcs[f].sret:
            roots[f] = {1: 'object of ' + f}
    F = Frame(m, roots, list(roots))
    bad, n = {}, {}
    for f, w, ins, obs in F.written():
        n[f] = n.get(f, 0) + 1
        wrong = {o for o in obs if o[0] in 'R?'}
        if wrong:
            bad.setdefault(f, []).append(describe(F, f, w, wrong))
    for f, k in n.items():
        out.functions.add(f)
        for i in range(k):
            if f in bad and i < len(bad[f]):
                out.results.append(Result('%s/%s leaves the calculator as it is#%d' % (name, f, i), 'failed', 'points-to', bad[f][i], harness=name, points=[{}]))
            else:
                out.results.append(Result('%s/%s#%d' % (name, f, i), 'proved', 'points-to'))
    return F


# ------------------------------------------------------- native confirmation
def program(flags=(), tag='plain', ff=(), main='history.cpp', only=None):
    """contracts/history.cpp with the whole library, built natively"""
    import subprocess
    import glob
    import os
    from . import build, check
    from multiprocessing.pool import ThreadPool
    d = os.path.join(build.BUILD, 'history_%s_%d' % (tag, os.getpid()))
    os.makedirs(d, exist_ok=True)
    inc = ['-std=c++14', '-DEIGEN_DONT_VECTORIZE', '-I' + os.path.join(build.REPO, 'include'), '-I' + os.path.join(build.REPO, 'source'), '-I' + build.SRC, '-I/usr/include/eigen3']
    src = [f for f in build.src(*build.all_sources()) if only is None or re.search(only, f)] + [os.path.join(check.VERIF, 'contracts', main)]
    f90 = sorted(glob.glob(os.path.join(build.SRC, 'mh2l', '*.f')) + glob.glob(os.path.join(build.SRC, 'mh2l', '*.f90')))

    def one(f):
        o = os.path.join(d, os.path.basename(f) + '.o')
        if f in f90:
            c = ['gfortran', '-O1', '-fPIC'] + ([] if f.endswith('.f90') else ['-ffixed-line-length-none']) + list(ff) + ['-c', f, '-o', o]
        else:
            c = ['g++', '-O1', '-w'] + inc + ['-fno-access-control', '-pthread'] + list(flags) + ['-c', f, '-o', o]
        r = subprocess.run(c, capture_output=True, text=True)
        return o, r
    with ThreadPool(8) as p:
        rs = p.map(one, src + f90)
    for o, r in rs:
        if r.returncode:
            raise build.BuildError(r.stderr[-800:])
    x = os.path.join(d, 'history')
    r = subprocess.run(['g++'] + list(flags) + ['-pthread', '-o', x] + [o for o, _ in rs] + ['-lgfortran'], capture_output=True, text=True)
    if r.returncode:
        raise build.BuildError(r.stderr[-800:])
    for o, _ in rs:
        os.remove(o)
    return x


_prog = {}


def history(r):
    import os
    import shutil
    import subprocess
    if 'h' not in _prog:
        x = program()
        _prog['h'] = subprocess.run([x], capture_output=True, text=True, timeout=400)
        shutil.rmtree(os.path.dirname(x), ignore_errors=True)
    p = _prog['h']
    return p.returncode != 0, p.stdout[-2000:] + p.stderr[-500:]


def interference(r):
    import subprocess
    import os
    import shutil
    if 't' not in _prog:
        x = program(('-fsanitize=thread', '-g'), 'tsan', ('-fsanitize=thread', '-g'))
        _prog['t'] = subprocess.run([x, '3'], capture_output=True, text=True, timeout=400, env=dict(os.environ, TSAN_OPTIONS='halt_on_error=0 exitcode=66 report_thread_leaks=0'))
        shutil.rmtree(os.path.dirname(x), ignore_errors=True)
    p = _prog['t']
    return p.returncode != 0, p.stdout[-1500:] + p.stderr[:3000]
