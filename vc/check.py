"""Runs the contracts of one property: generates the obligations, discharges them,
accounts for them, replays counterexamples and writes the evidence."""
import json
import os
import random
import re
import subprocess
import sys
import time
import traceback
from fractions import Fraction
from multiprocessing import Pool
from . import alg, build, ir, smt
from . import exec as X
from . import sym as S
from .intrinsics import TABLE
from .sym import Node, isc

VERIF = build.VERIF
OUT = os.path.join(VERIF, 'out')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'


class Result:
    """one obligation"""
    __slots__ = ('key', 'status', 'backend', 'detail', 'env', 'harness', 'expect', 'points')

    def __init__(self, key, status, backend, detail='', env=None, harness=None, points=None):
        self.key = key
        self.status = status      # proved | failed | unknown
        self.backend = backend
        self.detail = detail
        self.env = env
        self.harness = harness
        self.expect = None
        self.points = points


class TaskOut:
    def __init__(self):
        self.results = []
        self.functions = set()
        self.contracted = set()
        self.external = set()
        self.paths = 0
        self.infeasible = 0
        self.error = None
        self.solver_s = 0.0
        self.queries = 0
        self.feas_unknown = 0
        self.wall = 0.0
        self.notes = []
        self.trials = 0


_modcache = {}


def load_module(harness_files, sources, extra=(), opt=None, opaque=(), cut=()):
    """compile and link the contracts with the given library sources and whatever else of the library they refer to
    (functions matching `opaque` are left to their contracts, library functions matching `cut` are replaced by those of the harness)"""
    hs = [os.path.join(VERIF, 'contracts', h) for h in harness_files]
    ss = build.src(*(sources if sources is not None else build.all_sources()))
    ef = {h: ['-I' + os.path.join(VERIF, 'contracts')] + list(extra) for h in hs}
    for _ in range(12):
        ll = build.link(hs + ss, ef, opt, cut)
        if ll in _modcache:
            return _modcache[ll]
        und = [n for n in build.undefined(ll) if 'himalaya' in n and not any(re.search(o, n) for o in opaque)]
        more = build.definers(und, [f for f in build.src(*build.all_sources()) if f not in ss], cut) if und else []
        if not more:
            break
        ss = ss + more
    _modcache[ll] = ir.parse_module(ll)
    return _modcache[ll]


# ------------------------------------------------------------------ sampling
class Sampler:
    """random rational points inside a path"""

    def __init__(self, seed, ranges=None, default=('pos', 4)):
        self.rng = random.Random(seed)
        self.ranges = ranges or {}
        self.default = default

    def one(self, name):
        spec = None
        for k, v in self.ranges.items():
            if k == name or (k.endswith('*') and name.startswith(k[:-1])):
                spec = v
                break
        if spec is None:
            spec = self.default
        r = self.rng
        if callable(spec):
            return spec(r)
        if spec[0] == 'pos':
            return Fraction(r.randint(1, 997), r.choice((1, 2, 3, 5, 7, 10, 11, 13, 50, 100)))
        if spec[0] == 'any':
            return Fraction(r.randint(1, 997) * r.choice((-1, 1)), r.choice((1, 2, 3, 5, 7, 10, 11, 13, 50, 100)))
        if spec[0] == 'in':
            lo, hi = Fraction(spec[1]), Fraction(spec[2])
            d = r.choice((61, 67, 71, 73, 79, 83, 89, 97))
            k = r.randint(1, d - 1)
            return lo + (hi - lo) * Fraction(k, d)
        if spec[0] == 'const':
            return Fraction(spec[1])
        raise ValueError(spec)


def symbols(nodes):
    out = {}
    for n in S.topo([x for x in nodes if isinstance(x, Node)]):
        if n.op == 'sym':
            out[n.args[0]] = n.ty
    return out


def unify(pc):
    """substitutions implied by equalities sym == const / sym == sym in the path condition"""
    sub = {}
    for c in pc:
        if c.op == 'feq':
            a, b = c.args
            if a.op == 'dc':
                a, b = b, a
            if a.op == 'sym' and b.op == 'dc':
                sub[a.args[0]] = Fraction(S.dval(b))
            elif a.op == 'sym' and b.op == 'sym':
                sub[a.args[0]] = ('=', b.args[0])
        elif c.op == 'ieq':
            a, b = c.args[0], c.args[1]
            if isinstance(a, Node) and a.op == 'sym' and isc(b):
                sub[a.args[0]] = b
            elif isinstance(b, Node) and b.op == 'sym' and isc(a):
                sub[b.args[0]] = a
    return sub


def holds(pc, env, funcs=None, cache=None):
    cache = {} if cache is None else cache
    for c in pc:
        v = alg.float_eval(c, env, cache, funcs)
        if not v:
            return False
    return True


def nice(f, digits=9):
    """short fraction close (relatively) to f"""
    if f == 0:
        return f
    m = 0
    while abs(f) < Fraction(1, 10 ** m):
        m += 1
    return f.limit_denominator(10 ** (digits + m))


class Path:
    """point finder for one path"""

    def __init__(self, st, extra_nodes, sampler, solver, attempts=2000, funcs=None, relevant=None):
        self.pc = st.pc
        self.syms = symbols(list(st.pc) + list(extra_nodes))
        self.sub = unify(st.pc)
        self.sampler = sampler
        self.solver = solver
        self.attempts = attempts
        self.funcs = funcs
        self.ints = None
        self.base = None
        self.mode = None
        self.comps = None
        self.memo = {}
        self.pinned = set()        # integers only ever taken at the solver's value

    def int_env(self):
        if self.ints is None:
            self.ints = {}
            need = [n for n, t in self.syms.items() if t != 'd' and n not in self.sub]
            if need:
                m = self.model()
                if m is None:
                    raise X.VCError('no model for integer inputs')
                mv = smt.model_values(m, [(n, self.syms[n]) for n in need])
                self.ints.update(mv)
        return self.ints

    def model(self):
        if self.base is None:
            r, s = self.solver._check(self.pc, 20000)
            self.base = s.model() if str(r) == 'sat' else False
        return None if self.base is False else self.base

    def draw_int(self, n):
        r = self.sampler.rng
        t = self.syms[n]
        if isinstance(t, int) and t == 1:
            return r.randint(0, 1)
        return S.mask(r.choice((r.randint(0, 3), r.randint(-3, 15), r.randint(0, 10**6))), t if isinstance(t, int) else 32)

    def unique(self, names):
        """the path condition leaves a single value of these integers"""
        v = self.int_env()
        for n in names:
            k = ('uniq', n)
            if k not in self.memo:
                t = self.syms[n]
                c = S.icmp('ne', S.sym(n, t), v[n], t)
                self.memo[k] = str(self.solver._check(list(self.pc) + [c], 20000)[0]) == 'unsat'
            if not self.memo[k]:
                return False
        return True

    def candidate(self, rnd=True):
        env = dict(self.int_env())
        for n in env:
            env[n] = self.draw_int(n)
        for n, t in self.syms.items():
            if n in self.sub:
                v = self.sub[n]
                if not isinstance(v, tuple):
                    env[n] = v
            elif t == 'd':
                env[n] = self.sampler.one(n)
        for _ in range(3):
            for n, v in self.sub.items():
                if isinstance(v, tuple):
                    env[n] = env.get(v[1], Fraction(1))
        return env

    def components(self):
        """groups of inputs related by conditions, each with its conditions"""
        if self.comps is None:
            par = {n: n for n in self.syms}

            def find(x):
                while par[x] != x:
                    par[x] = par[par[x]]
                    x = par[x]
                return x
            groups = [sorted(smt.syms_of(c)) for c in self.pc if not isc(c)]
            j = {}
            for n in self.syms:
                k = getattr(self.sampler.ranges.get(n), 'joint', None)
                if k is not None:
                    j.setdefault(k, []).append(n)
            groups += list(j.values()) + [[n, v[1]] for n, v in self.sub.items() if isinstance(v, tuple)]
            for g in groups:
                g = [x for x in g if x in par]
                for x in g[1:]:
                    par[find(x)] = find(g[0])
            cs = {}
            for n in self.syms:
                cs.setdefault(find(n), ([], []))[0].append(n)
            for c in self.pc:
                if not isc(c) and smt.syms_of(c):
                    cs[find(next(iter(smt.syms_of(c))))][1].append(c)
            self.comps = list(cs.values())
        return self.comps

    def random(self):
        out = {}
        for names, conds in self.components():
            ii = [n for n in names if self.syms[n] != 'd' and n not in self.sub]
            for k in range(self.attempts):
                env = dict(self.int_env())
                for n in names:
                    if n in self.sub:
                        if not isinstance(self.sub[n], tuple):
                            env[n] = self.sub[n]
                    elif self.syms[n] == 'd':
                        env[n] = self.sampler.one(n)
                if ii and k < self.attempts // 2 and not self.pinned.issuperset(ii):
                    for n in ii:
                        env[n] = self.draw_int(n)
                elif ii:
                    self.pinned.update(ii)
                for _ in range(3):
                    for n in names:
                        v = self.sub.get(n)
                        if isinstance(v, tuple):
                            env[n] = env.get(v[1], Fraction(1))
                if holds(conds, env, self.funcs):
                    break
            else:
                return None
            out.update((n, env[n]) for n in names if n in env)
        return out

    def point(self):
        """-> env or None"""
        import mpmath as mp
        with mp.workdps(40):
            if self.mode in (None, 'random'):
                env = self.random()
                if env is not None:
                    self.mode = 'random'
                    return env
            m = self.model()
            if m is None:
                return None
            self.mode = 'model'
            self.pinned.update(n for n, t in self.syms.items() if t != 'd' and n not in self.sub)
            mv = smt.model_values(m, list(self.syms.items()))
            base = {}
            for n, v in mv.items():
                base[n] = nice(Fraction(v)) if self.syms[n] == 'd' else v
            for t in range(400):
                env = dict(base)
                r = self.sampler.rng
                for n, ty in self.syms.items():
                    if ty == 'd' and n not in self.sub:
                        w = Fraction(1, 10 ** (1 + t // 20))
                        b = base[n]
                        env[n] = nice(b + (abs(b) + (Fraction(1, 1000) if t % 2 else 0)) * w * Fraction(r.randint(-97, 97), 101), 4 + t // 20)
                for _ in range(3):
                    for n, v in self.sub.items():
                        env[n] = env.get(v[1], Fraction(1)) if isinstance(v, tuple) else v
                if holds(self.pc, env, self.funcs):
                    return env
            if holds(self.pc, base, self.funcs):
                self.mode = 'isolated'
                return base
        return None


def env_field(env):
    out = {}
    for k, v in env.items():
        out[k] = alg.q2p(v) if isinstance(v, Fraction) else v
    return out


def mp_eval(node, env, funcs=None, dps=60):
    import mpmath as mp
    with mp.workdps(dps):
        return alg.float_eval(node, env, None, funcs)


def chooser(env, funcs=None):
    cache = {}
    import mpmath as mp

    def ch(c):
        with mp.workdps(40):
            return bool(alg.float_eval(c, env, cache, funcs))
    return ch


def everywhere(code, spec, sampler, trials, funcs, mpfuncs, seed):
    sy = symbols([code, spec])
    if any(t != 'd' for t in sy.values()):
        return False
    for t in range(trials):
        for retry in range(40):
            env = {n: sampler.one(n) for n in sy}
            try:
                ev = alg.Evaluator(alg.Ctx('%s/%s/%d/%d' % (SEED, seed, t, retry)), env_field(env), False, funcs, chooser(env, mpfuncs))
                if ev(code) != ev(spec):
                    return False
                break
            except (ZeroDivisionError, alg.AlgError):
                continue
            except Exception:  # noqa  (e.g. a special function outside its domain: decided on the path instead)
                return False
        else:
            return False
    return True


def same(st, code, spec, sampler, solver, key, trials=3, funcs=None, mpfuncs=None, pathobj=None, seed=0, out=None):
    """discharge code == spec as exact expressions on the path of st"""
    if code is spec:
        return Result(key, 'proved', 'syntactic')
    try:
        if solver.canon.term(code) is solver.canon.term(spec):
            return Result(key, 'proved', 'alg')
    except Exception:  # noqa  (decided below)
        pass
    if unconditional(code) and unconditional(spec):
        # an identity at every point: the path condition is not needed
        if everywhere(code, spec, sampler if sampler else Sampler('%s/%s' % (SEED, seed)), trials, funcs, mpfuncs, seed):
            if out is not None:
                out.trials += trials
            return Result(key, 'proved', 'alg')
    p = pathobj or Path(st, [code, spec], sampler, solver, funcs=mpfuncs)
    for t in range(trials):
        ok = False
        for retry in range(60):
            env = p.point()
            if env is None and unconditional(code) and unconditional(spec):
                # holds at every point or not at all: the path condition is not needed
                env = p.candidate()
            if env is None:
                r = None
                if p.model() is None:
                    r = str(solver._check(st.pc, 20000)[0])
                if r == 'unsat':
                    return Result(key, 'proved', 'z3 (path infeasible)')
                return Result(key, 'unknown', 'alg', 'no point found on the path')
            ctx = alg.Ctx('%s/%s/%d/%d' % (SEED, seed, t, retry))
            ev = alg.Evaluator(ctx, env_field(env), False, funcs, chooser(env, mpfuncs))
            try:
                a, b = ev(code), ev(spec)
                ok = True
                break
            except ZeroDivisionError:
                continue
            except alg.AlgError as e:
                err = str(e)
                if 'non-residue' in err or 'unbound' not in err:
                    continue
                return Result(key, 'unknown', 'alg', err)
        if not ok:
            return Result(key, 'unknown', 'alg', 'no regular point: %s' % (locals().get('err')))
        if out is not None:
            out.trials += 1
        if a != b:
            import mpmath as mp
            try:
                x = mp_eval(code, env, mpfuncs)
                y = mp_eval(spec, env, mpfuncs)
                with mp.workdps(60):
                    sc = max(abs(x), abs(y))
                    d = abs(x - y)
                    if mp.isnan(d) or d > sc * mp.mpf('1e-25'):
                        return Result(key, 'failed', 'alg', 'code %s, specification %s' % (mp.nstr(x, 17), mp.nstr(y, 17)), env)
                # formally different but numerically equal (e.g. rewritten inverse functions): compared at further points
                for _ in range(12):
                    e2 = p.point() or env
                    x, y = mp_eval(code, e2, mpfuncs), mp_eval(spec, e2, mpfuncs)
                    with mp.workdps(60):
                        if not abs(x - y) <= max(abs(x), abs(y)) * mp.mpf('1e-25'):
                            return Result(key, 'failed', 'alg', 'code %s, specification %s' % (mp.nstr(x, 17), mp.nstr(y, 17)), e2)
                return Result(key, 'proved', 'numeric identity to 25 digits at 12 points (bounded)')
            except Exception as e:   # noqa
                return Result(key, 'unknown', 'alg', 'referee failed: %r' % e, env)
    if p.pinned:
        rel = [n for n in symbols([code, spec]) if n in p.pinned]
        if not p.unique(rel):
            return Result(key, 'unknown', 'alg', 'values of the integers %s not sampled' % ', '.join(rel))
    return Result(key, 'proved', 'alg')


def unconditional(n):
    return all(x.op not in ('ite', 'fabs', 'call:fmax', 'call:fmin') for x in S.topo([n]))


def fmt_env(env):
    return {k: (float(v) if isinstance(v, Fraction) else v) for k, v in env.items()}


# ------------------------------------------------------------------ contract run
class Run:
    """symbolic execution of one contract harness"""

    def __init__(self, module, fname, out, mode='real', arith='uf', uf_ops=(), contracts=None, select_fork=True, timeout_ms=2000,
                 max_paths=20000, ctors=False, global_havoc=None, setup=None, max_visits=4000):
        self.solver = smt.Solver(mode, arith, uf_ops, timeout_ms)
        self.out = out
        c = dict(TABLE)
        c.update(contracts or {})
        self.ex = ex = X.Executor(module, self.solver, c, select_fork=select_fork, max_paths=max_paths, global_havoc=global_havoc,
                                  max_visits=max_visits)
        ex.inputs = {}
        ex.havocs = {}
        ex.marks = set()
        self.fname = fname
        if fname not in module.funcs:
            raise X.VCError('contract %s not found' % fname)
        st0 = None
        if ctors:
            st0 = ex.run_ctors(ex.base.clone())
        if setup:
            st0 = setup(ex, st0 or ex.base.clone())
        st = ex.start(fname, [], st0)
        self.states = ex.run(st)
        out.paths += len(self.states)
        out.infeasible += ex.infeasible
        out.functions |= ex.called
        out.contracted |= ex.contract_used
        out.external |= ex.external_used

    def finish(self):
        self.out.solver_s += self.solver.time
        self.out.queries += self.solver.queries
        self.out.feas_unknown += self.solver.unknown

    def key(self, label, i):
        return '%s/%s#%d' % (self.fname, label, i)

    def discharge(self, ranges=None, default=('pos', 4), trials=3, funcs=None, mpfuncs=None, on_throw='allow', bool_solver=None,
                  timeout=20000, labels=None):
        """standard treatment of every recorded postcondition; on_throw: 'allow' | 'forbid'"""
        n0 = len(self.out.results)
        bad = {}
        t_end = time.time() + 240
        for i, st in enumerate(self.states):
            if st.status == 'throw' and on_throw == 'forbid':
                r, m = self.solver.prove(st.pc, 0, timeout)
                self.add(Result(self.key('no exception', i), r, 'z3', 'an exception leaves the function', self.model_env(st, m)))
            pobj = None
            for kind, lab, a, b, npc in st.checks:
                if labels and not labels(lab):
                    continue
                key = self.key(lab, i)
                if bad.get(lab, 0) >= 3 or bad and time.time() > t_end:
                    # enough of this contract is refuted or undecided already
                    self.add(Result(key, 'unknown', '', 'not attempted after other failures'))
                    continue
                nr = len(self.out.results)
                if kind == 'same':
                    if pobj is None:
                        nodes = [x for k, l, x, y, n in st.checks if k == 'same'] + [y for k, l, x, y, n in st.checks if k == 'same']
                        pobj = Path(st, nodes, Sampler('%d/%s/%d' % (SEED, self.fname, i), ranges, default), self.solver, funcs=mpfuncs)
                    self.add(same(st, a, b, pobj.sampler, self.solver, key, trials, funcs, mpfuncs, pobj, key, self.out))
                elif kind == 'bool':
                    self.add(self.prove_bool(st, a, key, timeout))
                elif kind == 'ident':
                    if a is b:
                        self.add(Result(key, 'proved', 'syntactic'))
                    else:
                        g = S.bor(S.fcmp('oeq', a, b), S.band(S.fcmp('uno', a, a), S.fcmp('uno', b, b)))
                        self.add(self.prove_bool(st, g, key, timeout))
                for r in self.out.results[nr:]:
                    if r.status != 'proved':
                        bad[lab] = bad.get(lab, 0) + 1
        seen = set()
        for r in self.out.results[n0:]:
            l = r.key.rsplit('#', 1)[0]
            if r.status != 'proved' and l not in seen:
                seen.add(l)
                r.points = self.points(ranges, default)
        if len(self.out.results) == n0:
            raise X.VCError('contract %s generated no obligations' % self.fname)

    def points(self, ranges, default, n=400):
        """random inputs of the contract, tried on the real code when an obligation fails"""
        if getattr(self, 'pts', None) is None:
            sp = Sampler('%d/%s/points' % (SEED, self.fname), ranges, default)
            self.pts = []
            for _ in range(n):
                env = {}
                for k, t in self.ex.inputs.items():
                    env[k] = sp.one(k) if t == 'd' else sp.rng.randint(*t) if isinstance(t, tuple) else sp.rng.randint(-1, 5)
                self.pts.append(env)
        return self.pts

    def prove_bool(self, st, goal, key, timeout=20000):
        r, m = self.solver.prove(st.pc, goal, timeout)
        return Result(key, r, 'z3', '' if r == 'proved' else ('obligation not valid' if r == 'failed' else str(m)),
                      self.model_env(st, m, [goal]) if r == 'failed' else None)

    def model_env(self, st, m, extra=()):
        if m is None or isinstance(m, str):
            return None
        sy = symbols(list(st.pc) + [x for x in extra if isinstance(x, Node)])
        return smt.model_values(m, list(sy.items()))

    def add(self, r):
        r.harness = self.fname
        self.out.results.append(r)


# ------------------------------------------------------------------ driver
def _worker(args):
    mod, name, fnname, kw = args
    import importlib
    o = TaskOut()
    t0 = time.time()
    try:
        m = importlib.import_module('specs.' + mod)
        getattr(m, fnname)(o, **kw)
    except (X.VCError, build.BuildError, ir.IRError, alg.AlgError) as e:
        o.error = '%s: %s: %s' % (name, type(e).__name__, e)
    except Exception as e:   # noqa
        o.error = '%s: %s' % (name, traceback.format_exc())
    o.wall = time.time() - t0
    o.name = name
    return o


def demangle(names):
    names = sorted(names)
    if not names:
        return []
    r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-cxxfilt'], input='\n'.join(names), capture_output=True, text=True)
    return r.stdout.split('\n')[:len(names)]


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                out.append(m.groups())
    return out


def keymatch(pat, key):
    import fnmatch
    return fnmatch.fnmatchcase(key, pat)


def main(pid, mod, tasks, harness_files, prepare=None, assumptions=(), trusted=(), bounded=(), native=None, procs=8):
    """tasks: list of (name, function name in specs.<mod>, kwargs)"""
    t0 = time.time()
    os.makedirs(OUT, exist_ok=True)
    if prepare:
        try:
            prepare()
        except (build.BuildError, ir.IRError) as e:
            os.makedirs(os.path.join(OUT, pid), exist_ok=True)
            open(os.path.join(OUT, pid, 'undischarged.txt'), 'w').write('no obligations: %s\n' % e)
            print('ERROR: %s' % e)
            print('VIOLATION property=%s replay=out/%s/undischarged.txt no-failing-input-found' % (pid, pid))
            sys.exit(1)
    args = [(mod, n, f, kw) for n, f, kw in tasks]
    only = os.environ.get('VC_ONLY')
    if only:
        args = [a for a in args if re.search(only, a[1])]
    if procs > 1 and len(args) > 1:
        with Pool(min(procs, len(args)), maxtasksperchild=None) as pool:
            outs = list(pool.imap_unordered(_worker, args, chunksize=1))
    else:
        outs = [_worker(a) for a in args]
    outs.sort(key=lambda o: o.name)
    errors = [o.error for o in outs if o.error]
    results = [r for o in outs for r in o.results]
    for o in outs:
        if not o.error and not o.results:
            errors.append('%s: no obligations generated' % o.name)
    failed = [r for r in results if r.status == 'failed']
    unknown = [r for r in results if r.status == 'unknown']
    proved = [r for r in results if r.status == 'proved']
    known = [k for k in load_known() if k[0] == pid]
    viol, hit = [], {}
    for r in failed:
        k = next((k for k in known if keymatch(k[1], r.key)), None)
        if k:
            hit.setdefault(k, []).append(r)
        else:
            viol.append(r)
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k[2]))
    # one violation line per contract
    rc = 0
    seen = {}
    for r in viol:
        seen.setdefault((r.harness, r.key.split('#')[0]), []).append(r)
    shown = 0
    for (h, k), rs in seen.items():
        r = rs[0]
        path, conf = write_replay(pid, r, rs, native if shown < 4 else None)
        shown += 1
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conf else ' no-failing-input-found'))
        rc = 1
    left = {}
    for r in unknown:
        if (r.harness, r.key.split('#')[0]) not in seen:
            left.setdefault((r.harness, r.key.split('#')[0]), []).append(r)
    tried = 0
    for (h, k), rs in left.items():
        # obligations that are neither proved nor refuted: a failing input found on the real code refutes them
        r = next((x for x in rs if x.points or x.env), None)
        if native and r is not None and tried < 6:
            tried += 1
            path, conf = write_replay(pid, r, [r], native)
            if conf:
                print('VIOLATION property=%s replay=%s' % (pid, path))
                rc = 1
    for r in unknown[:20]:
        print('UNDECIDED %s: %s' % (r.key, r.detail))
    for e in errors:
        print('ERROR %s' % e)
    backends = {}
    for r in proved:
        backends[r.backend] = backends.get(r.backend, 0) + 1
    funcs = set()
    cons = set()
    ext = set()
    for o in outs:
        funcs |= o.functions
        cons |= o.contracted
        ext |= o.external
    own = [f for f in demangle(funcs) if 'himalaya' in f and not f.startswith('c') or 'himalaya::' in f]
    wall = time.time() - t0
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof',
              coverage=dict(obligations=len(results), discharged=len(proved), checker_cmd='python3-vt -m vc %s' % pid,
                            trusted_base=['clang 18 front end and -O2 (source to IR)', 'vc/ verification condition generator', 'z3 4.x', 'vc/alg.py exact algebra'] + list(trusted),
                            by_backend=backends, undecided=len(unknown), refuted=len(failed), known_findings=len(hit),
                            contracts=sorted(set(o.name for o in outs)), paths=sum(o.paths for o in outs),
                            infeasible_branches_pruned=sum(o.infeasible for o in outs),
                            functions_under_contract=own[:400], callee_contracts_assumed=[f for f in demangle(cons) if not f.startswith('vc_')],
                            external_functions=demangle(ext), solver_seconds=round(sum(o.solver_s for o in outs), 2),
                            solver_queries=sum(o.queries for o in outs), random_identity_trials=sum(o.trials for o in outs),
                            bounded=list(bounded), errors=errors, notes=sorted(set(n for o in outs for n in o.notes))[:40]),
              assumptions=list(assumptions), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d refuted (%d known), %d undecided, %d errors, %d paths, %.1f s' % (
        pid, len(results), len(proved), len(failed), len(failed) - len(viol), len(unknown), len(errors), sum(o.paths for o in outs), wall))
    if rc == 0 and (unknown or errors or not results):
        # obligations that are not discharged: the proof fails without a failing input
        d = os.path.join(OUT, pid)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'undischarged.txt')
        with open(path, 'w') as f:
            f.write('property %s\nobligations not discharged\n' % pid)
            for r in unknown:
                f.write('%s: %s: %s\n' % (r.key, r.backend, r.detail))
            for e in errors:
                f.write('error: %s\n' % e)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, os.path.relpath(path, VERIF)))
        rc = 1
    sys.exit(rc)


# ------------------------------------------------------------------ replay
def write_replay(pid, r, rs, native):
    d = os.path.join(OUT, pid)
    os.makedirs(d, exist_ok=True)
    nm = re.sub(r'[^A-Za-z0-9_.-]', '_', r.key)[:120]
    path = os.path.join(d, nm + '.txt')
    conf = False
    log = ''
    if native:
        for q in [x for x in rs if x.env][:3] + [x for x in rs if x.points][:1]:
            try:
                c, log = native(q)
                if c:
                    conf = True
                    r = q
                    break
            except Exception as e:   # noqa
                log = 'native replay not possible: %r' % e
    with open(path, 'w') as f:
        f.write('property %s\nfailed obligation %s\nback end %s\n%s\n' % (pid, r.key, r.backend, r.detail))
        f.write('also failing: %s\n' % ', '.join(x.key for x in rs[:30]))
        if r.env:
            f.write('counterexample\n')
            for k, v in sorted(r.env.items()):
                f.write('  %s = %r\n' % (k, float(v) if isinstance(v, Fraction) else v))
        f.write('replay on the real code: %s\n%s\n' % ('confirmed' if conf else 'no failing input found', log))
    return os.path.relpath(path, VERIF), conf


def sides(line):
    w = line.split(' ')
    try:
        return float(w[w.index('code') + 1]), float(w[w.index('specification') + 1])
    except (ValueError, IndexError):
        return None


def far(block):
    """failed equalities whose two sides differ by much more than rounding"""
    v = [(l, sides(l)) for l in block.splitlines()]
    big = max([abs(x) for _, s in v if s for x in s if abs(x) < float('inf')] or [0])
    return [l for l, s in v if s and l.startswith('FAIL ') and ((s[0] != s[0]) != (s[1] != s[1]) or
            abs(s[0] - s[1]) > max(1e-5 * max(abs(s[0]), abs(s[1])), 1e-9 * big))]


def native_runner(harness_files, sources=None, extra=(), fortran=False, cut=(), partial=False):
    """replays counterexamples: the contract is compiled natively against the library sources and run on the concrete input"""
    exe = {}

    def get():
        if 'x' in exe:
            return exe['x']
        hs = [os.path.join(VERIF, 'contracts', h) for h in harness_files]
        ss = build.src(*(sources if sources is not None else build.all_sources()))
        nat = os.path.join(VERIF, 'contracts', 'vc_native.cpp')
        ex = ['-I' + os.path.join(VERIF, 'contracts'), '-DVC_REPLAY'] + list(extra)
        bcs = [build.compile_ll(f, ex if f in hs + [nat] else (), cut=() if f in hs + [nat] else cut) for f in hs + ss + [nat]]
        objs = []
        fl = ['-Wl,--unresolved-symbols=ignore-all'] if partial else []
        if fortran or not partial and (sources is None or any('mh2l' in s or 'HierarchyCalc' in s for s in sources)):
            objs = fortran_objects()
            fl = fl + ['-lgfortran']
        out = os.path.join(build.BUILD, 'native_%d' % os.getpid())
        def ld():
            return subprocess.run(['/usr/lib/llvm-18/bin/clang++', '-O1', '-no-pie', '-o', out] + bcs + objs +
                                  ['-L' + d for d in gfortran_dirs()] + fl + ['-lm', '-lpthread', '-rdynamic', '-ldl'], capture_output=True, text=True)
        r = ld()
        if r.returncode and sources is not None:
            # refers to further parts of the library
            bcs = [build.compile_ll(f, ex if f in hs + [nat] else (), cut=() if f in hs + [nat] else cut) for f in hs + build.src(*build.all_sources()) + [nat]]
            objs, fl = fortran_objects(), ['-lgfortran']
            r = ld()
        if r.returncode:
            raise build.BuildError(r.stderr[-1500:])
        exe['x'] = out
        return out

    def run(res):
        x = get()
        inp = os.path.join(build.BUILD, 'replay_%d.in' % os.getpid())
        envs = ([res.env] if res.env else []) + (res.points or [])
        with open(inp, 'w') as f:
            for env in envs:
                f.write('point i 0\n')
                for k, v in env.items():
                    if isinstance(v, int):
                        f.write('%s i %d\n' % (k.replace(' ', '_'), v))
                    else:
                        f.write('%s d %s\n' % (k.replace(' ', '_'), float(v).hex() if float(v) == float(v) else 'nan'))
        try:
            r = subprocess.run([x, res.harness, inp], capture_output=True, text=True, timeout=120)
        finally:
            os.remove(inp)
        lab = res.key.split('/', 1)[1].rsplit('#', 1)[0]
        if res.expect is not None:
            lab = lab.split('/')[0] if '/' in lab else lab
            for l in r.stdout.splitlines():
                w = l.split(' ')
                if w[0] == 'near' or (w[0] == 'out' and w[1] == 'value'):
                    v = float(w[2])
                    if not abs(v - res.expect[0]) <= res.expect[1] and res.expect[1] > 1e-13 * abs(res.expect[0]):
                        return True, r.stdout[-2000:] + 'closed form %r, deviation beyond %r\n' % res.expect
            return False, r.stdout[-2000:]
        blocks = r.stdout.split('POINT\n')[1:]
        for env, b in zip(envs, blocks):
            bad = [l for l in b.splitlines() if l.startswith('FAIL ')]
            # the failed obligation may belong to the contract of a callee: then the caller's own postconditions decide
            if far(b):
                res.env = env
                return True, b[-2000:]
            if any(l.split(' ')[1] == lab.replace(' ', '_') for l in bad) or (lab == 'no exception' and 'THROWN' in b):
                res.env = env
                return True, b[-2000:]
        return False, (blocks[0][-2000:] if blocks else '') + r.stderr[-500:]

    return run


def gfortran_dirs():
    r = subprocess.run(['gfortran', '-print-file-name=libgfortran.so'], capture_output=True, text=True)
    return [os.path.dirname(r.stdout.strip())] if '/' in r.stdout else []


def fortran_objects():
    import glob
    import hashlib
    out = []
    for f in sorted(glob.glob(os.path.join(build.SRC, 'mh2l', '*.f')) + glob.glob(os.path.join(build.SRC, 'mh2l', '*.f90'))):
        h = hashlib.sha256(open(f, 'rb').read()).hexdigest()[:16]
        o = os.path.join(build.BUILD, os.path.basename(f) + '.' + h + '.o')
        if not os.path.exists(o):
            subprocess.run(['gfortran', '-O2'] + ([] if f.endswith('.f90') else ['-ffixed-line-length-none']) + ['-c', f, '-o', o], check=True, capture_output=True)
        out.append(o)
    return out


class Joint:
    """several inputs drawn together: gen(r) -> {name: value}; ranges() for Sampler"""

    def __init__(self, names, gen):
        self.names, self.gen, self.pend = names, gen, {}

    def ranges(self):
        def mk(n):
            def f(r):
                if n not in self.pend:
                    self.pend = dict(self.gen(r))
                return self.pend.pop(n)
            f.joint = id(self)
            return f
        return {n: mk(n) for n in self.names}


def rat(r, lo=1, hi=97, sign=True):
    v = Fraction(r.randint(lo, hi), r.choice((1, 2, 3, 5, 7, 11, 13)))
    return -v if sign and r.random() < .5 else v


def pyth(r, a='a11', b='a12', c='a22'):
    """symmetric 2x2 matrix with rational eigenvalues"""
    k, m, n = rat(r), rat(r), rat(r)
    t = rat(r)
    return {a: t + k * (m * m - n * n), b: k * m * n, c: t}
