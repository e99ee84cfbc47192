"""Branches that approximate the specification near a locus (removable singularity).

For a path whose region is provably within `radius` of a locus, code and specification are
expanded as Laurent series in the distance to the locus (exact coefficients over the prime field,
random point and direction on the locus) and must agree through the required order."""
import random
from fractions import Fraction
from . import alg, check
from . import sym as S
from .sym import Node, isc


class Locus:
    """subs: variable -> centre (Fraction | 'free' | other variable name)"""

    def __init__(self, name, subs, order, inside, free=(Fraction(1, 10), Fraction(5)), more=()):
        self.weights = {}
        self.more = more           # further (weights, order) requirements
        self.name = name
        self.subs = subs
        self.order = order
        self.inside = inside       # term: condition that must follow from the path condition
        self.free = free


def expansions(code, spec, loc, path, funcs=None, mpfuncs=None, tries=12, seed=0):
    """one expansion along the line from the locus to a random point of the path: (agreement order, point) or None"""
    for t in range(tries):
        env = path.point()
        if env is None:
            return None
        ctr = {}
        for v, c in loc.subs.items():
            if c == 'free':
                ctr[v] = env[v]
        for v, c in loc.subs.items():
            if c != 'free':
                ctr[v] = ctr[c] if isinstance(c, str) else Fraction(c)
        if all(ctr[v] == env[v] for v in ctr):
            continue
        ctx = alg.Ctx('%s/%s/%d' % (check.SEED, seed, t))
        fe = {}
        for n, v in env.items():
            if n in ctr:
                w = loc.weights.get(n, 1)
                fe[n] = alg.Ser(0, [alg.q2p(ctr[n])] + [alg.q2p(0)] * (w - 1) + [alg.q2p(v - ctr[n])])
            else:
                fe[n] = alg.Ser.const(alg.q2p(v)) if isinstance(v, Fraction) else v
        ev = alg.Evaluator(ctx, fe, True, funcs, check.chooser(env, mpfuncs))
        try:
            d = ev(code) - ev(spec)
        except (ZeroDivisionError, alg.PrecisionLost):
            continue
        except alg.AlgError as e:
            if 'non-residue' in str(e):
                continue
            raise
        if d.c:
            return d.v - 1, env
        return (10**6 if d.prec >= alg.INF else d.prec - 1), env
    return None


def weighted(code, spec, loc, path, **kw):
    """(agreement order minus required order, point) of the worst weighting"""
    res = None
    for w, o in [({}, loc.order)] + list(loc.more):
        loc.weights = w
        n = alg.Ser.N
        try:
            alg.Ser.N = n * max(list(w.values()) + [1])
            r = worst(code, spec, loc, path, **kw)
        finally:
            alg.Ser.N = n
            loc.weights = {}
        if r is None:
            return None
        if res is None or r[0] - o < res[0]:
            res = r[0] - o, r[1], r[0], o
        if res[0] < 0:
            break
    return res


def worst(code, spec, loc, path, n=3, **kw):
    best, envw = None, None
    for k in range(n):
        r = expansions(code, spec, loc, path, seed='%s%d' % (loc.name, k), **kw)
        if r is None:
            return None
        if best is None or r[0] < best:
            best, envw = r
    return best, envw


def decide(run, st, code, spec, key, loci, out, exact_sampler, mpfuncs=None, funcs=None, trials=3, stable=None):
    """obligation: on this path code equals the specification exactly, or is its expansion near one of the loci"""
    R = check.Result
    solver = run.solver
    # exact?
    p = check.Path(st, [code, spec], exact_sampler, solver, funcs=mpfuncs)
    r = check.same(st, code, spec, None, solver, key, trials, funcs, mpfuncs, p, key, out)
    if r.status == 'proved' and not r.backend.startswith('numeric'):
        run.add(r)
        if stable is not None and r.backend != 'z3 (path infeasible)':
            for nm, cond in stable:
                a, m = solver.prove(st.pc, cond, 10000)
                run.add(R(key + '/away from ' + nm, a, 'z3', 'closed form evaluated next to its removable singularity (%s)' % nm, run.model_env(st, m)))
        return 'exact'
    best = []
    for loc in loci:
        a, m = solver.prove(st.pc, loc.inside, 10000)
        if a != 'proved':
            continue
        w = weighted(code, spec, loc, p, funcs=funcs, mpfuncs=mpfuncs)
        if w is None:
            continue
        out.trials += 3
        if w[0] >= 0:
            run.add(R(key + '/expansion ' + loc.name, 'proved', 'z3 region + Laurent series', 'order %s' % w[2]))
            return loc.name
        best.append((loc, w))
    if r.status == 'proved':
        run.add(r)
        return 'exact'
    if best:
        loc, w = best[0]
        import mpmath as mp
        env, x, y, d0 = None, None, None, -1
        for e in [w[1]] + [p.point() for k in range(60)]:   # the most telling input
            if e is None:
                continue
            try:
                x1, y1 = check.mp_eval(code, e, mpfuncs), check.mp_eval(spec, e, mpfuncs)
            except Exception:   # noqa
                continue
            d1 = abs(x1 - y1) / (abs(y1) + mp.mpf('1e-30'))
            if d1 > d0:
                env, x, y, d0 = e, x1, y1, d1
        if env is None:
            env, x, y = w[1], mp.mpf(0), mp.mpf(0)
        q = R(key + '/expansion ' + loc.name, 'failed', 'Laurent series', 'expansion agrees through order %d only, %d required; code %s closed form %s' % (
            w[2], w[3], mp.nstr(x, 17), mp.nstr(y, 17)), env)
        q.expect = (float(y), float(abs(x - y)) / 2)
        run.add(q)
        return None
    if r.status == 'failed':
        r.detail += ' (and the path is not confined to a neighbourhood where an expansion is foreseen)'
    run.add(r)
    return None
