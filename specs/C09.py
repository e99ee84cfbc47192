import re
import copy
import random
from fractions import Fraction
from math import factorial
import mpmath as mp
from vc import check, build, approx, alg, smt, ratfun
from vc import sym as S
from vc.expr import E, sym, log, sqrt, q as ratio, absv, land, fn
from specs.C10 import locus1, locus2, rnd, guard
H = ['c09.cpp']
SRC = ['mh2_fo/PV.cpp']
R = check.Result
p, m, m1, m2, q = sym('p'), sym('m'), sym('m1'), sym('m2'), sym('q')


def mod():
    return check.load_module(H, SRC)


def scales(r):
    k = r.randint(0, 9)
    v = Fraction(r.randint(1, 997), r.choice((1, 3, 10, 100)))
    return v if k < 5 else v * Fraction(10) ** r.randint(-14, 6)


RG = ('in', Fraction(1, 10), 10)


def cclog(n, f):
    return lambda a, b: f(getattr(mp, n)(mp.mpc(a, b)))


MPF = {'call:csqrt.re': cclog('sqrt', mp.re), 'call:csqrt.im': cclog('sqrt', mp.im), 'call:clog.re': cclog('log', mp.re), 'call:clog.im': cclog('log', mp.im)}


def simple(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    run.discharge(on_throw='forbid', default=scales, mpfuncs=MPF)
    run.finish()


def a0(out):
    run = check.Run(mod(), 'c09_a0', out, mode='real', arith='exact')
    for i, st in enumerate(run.states):
        for kind, lab, c, s, n in st.checks:
            key = run.key(lab, i)
            approx.decide(run, st, c, s, key, [approx.Locus('massless', {'m': Fraction(0)}, 0, m <= 1e-14)], out,
                          check.Sampler('%s/%s' % (check.SEED, key), {}, scales))
    run.finish()


def d1b0(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    loci = [approx.Locus('equal', {'m1': 'm2', 'm2': 'free'}, 5, absv(m1 - m2) <= m1 / 10),
            approx.Locus('first massless', {'m1': Fraction(0), 'm2': 'free'}, 0, m1 <= m2 * 1e-13),
            approx.Locus('second massless', {'m2': Fraction(0), 'm1': 'free'}, 0, m2 <= m1 * 1e-13)]
    for i, st in enumerate(run.states):
        for kind, lab, c, s, n in st.checks:
            key = run.key(lab, i)
            smp = check.Sampler('%s/%s' % (check.SEED, key), {}, rnd(0, 5))
            if run.solver.prove(st.pc, land(m1 < 1e-14, m2 < 1e-14), 5000)[0] == 'proved':
                continue      # both massless: infrared divergent, by definition zero
            approx.decide(run, st, c, s, key, loci, out, smp, stable=[('m1=m2', absv(m1 - m2) >= m1 / 100)])
    run.finish()


def spec_xx(p, m, q):
    d = p / m
    low = E(0)
    for n in range(1, 8):
        low = low + ratio(factorial(n) ** 2, n * factorial(2 * n + 1)) * d ** n
    below = 2 - log(m / q) - 2 * sqrt(4 * m / p - 1) * fn('asin', sqrt(p / (4 * m)))
    sq = sqrt(1 - 4 * m / p)
    above = 2 - log(m / q) + sq * log(p * (1 - sq) / (2 * m) - 1)
    return low - log(m / q), below, above


def b0xx(out):
    run = check.Run(mod(), 'c09_b0xx', out, mode='real', arith='exact')
    low, below, above = spec_xx(p, m, q)
    prove = lambda st, c: run.solver.prove(st.pc, c, 10000)[0] == 'proved'
    n = 0
    for i, st in enumerate(run.states):
        c = st.outs['value']
        key = run.key('b0xx', i)
        smp = check.Sampler('%s/%s' % (check.SEED, key), {}, scales)
        if prove(st, land(p <= q * 1e-14, m <= q * 1e-14)):
            run.add(check.same(st, c, S.dconst(0.0), smp, run.solver, key + ' infrared', out=out, seed=key))
        elif prove(st, p <= 1e-2 * m):
            run.add(check.same(st, c, low.n, smp, run.solver, key + ' expansion in the momentum', out=out, seed=key))
        elif prove(st, land(p <= 4 * m, p >= 1e-4 * m)):
            run.add(check.same(st, c, below.n, smp, run.solver, key + ' below threshold', out=out, seed=key))
        elif prove(st, land(p >= 4 * m, p <= 1e3 * m)):
            run.add(check.same(st, c, above.n, smp, run.solver, key + ' above threshold', out=out, seed=key))
        else:
            loci = [approx.Locus('massless', {'m': Fraction(0), 'p': 'free'}, 0, m <= 1e-14 * p),
                    approx.Locus('large momentum', {'m': Fraction(0), 'p': 'free'}, 8, m <= 2e-2 * p)]
            how = approx.decide(run, st, c, above.n, key, loci, out, smp)
    run.finish()


def b0ref(p, a, b, q):
    """closed form of the bubble with different masses"""
    X = a + b - p
    lam = X * X - 4 * a * b
    base = 2 - mp.log(a * b / q / q) / 2 + (a - b) / p * mp.log(b / a) / 2
    if lam >= 0:
        r = (X - mp.sqrt(lam)) / (2 * mp.sqrt(a * b))
        return base - mp.sqrt(lam) / p * mp.log(abs(r))
    return base - mp.sqrt(-lam) / p * mp.acos(X / (2 * mp.sqrt(a * b)))


def pool(n, seed):
    """inputs for different masses m1 < m2, around thresholds and over many orders of magnitude"""
    r = random.Random('%s %s' % (check.SEED, seed))
    for t in range(n):
        a = Fraction(r.randint(1, 997), 97) * Fraction(10) ** r.choice((0, 0, 0, -1, -2, -4, -6, -12, -20, -32, -40))
        b = Fraction(r.randint(1, 997), 97)
        if b <= a * (1 + Fraction(1, 10 ** 13)):
            continue
        k = r.randint(0, 5)
        s = Fraction(r.randint(1, 997), 97)
        if k == 1:
            s = s * Fraction(10) ** r.randint(-5, 6)
        elif k == 2:    # around the thresholds
            s = Fraction(float((mp.sqrt(float(a)) + mp.sqrt(float(b))) ** 2)) * (1 + Fraction(r.randint(-97, 97), 1000 * 10 ** r.randint(0, 3)))
        elif k == 3:
            s = (a + b) * (1 + Fraction(r.randint(-97, 97), 1000 * 10 ** r.randint(0, 3)))
        elif k == 4:    # nearly vanishing momentum
            s = a * s / Fraction(10) ** r.randint(9, 17)
        yield dict(p=s, m1=a, m2=b, q=Fraction(r.randint(1, 97), 10), r=Fraction(r.randint(1, 97), 10))


def pick(states, env, cache):
    for i, st in states:
        if all(alg.float_eval(c, env, cache, MPF) for c in st.pc):
            return i, st
    return None


def numeric(run, out, key, states, value, want, n, tol, skip=()):
    """bounded: value(state) against want(env) at sampled points"""
    hit, cnt = set(), 0
    for env in pool(n, key):
        cache = {}
        with mp.workdps(60):
            f = pick(states, env, cache)
            if f is None:
                run.add(R('%s/coverage' % key, 'unknown', 'paths', 'input not covered by any path: %r' % check.fmt_env(env)))
                return hit, cnt
            if f[0] in skip:
                continue
            v = alg.float_eval(value(f[1]), env, cache, MPF)
            w = want(env, cache)
            cnt += 1
            hit.add(f[0])
            e = abs(v - w)
            if not e <= tol(env):
                k = R(run.key(key, f[0]), 'failed', 'numeric (60 digits)', 'code %s expected %s' % (mp.nstr(v, 17), mp.nstr(w, 17)), env)
                k.expect = (float(w), float(e) / 2)
                run.add(k)
                return hit, cnt
    run.add(R('%s/%s' % (run.fname, key), 'proved', 'numeric samples (bounded)'))
    return hit, cnt


def mpq(z):
    return mp.mpf(z.numerator) / z.denominator


NP = 6000 if check.THOROUGH else 1200


def b0_scale(out):
    run = check.Run(mod(), 'c09_b0', out, mode='real', arith='uf', timeout_ms=40)
    r = sym('r')
    sub = {'q': S.sym('r', 'd')}
    ex = smt.Solver('real', 'exact', (), 500)
    rest = []
    for i, st in enumerate(run.states):
        key = run.key('scale', i)
        if ex.prove([k for k in st.pc if cheap(k)], land(p <= q * 1e-14, m1 <= q * 1e-14, m2 <= q * 1e-14), 5000)[0] == 'proved':
            continue
        # value(q) - value(r) + log(q) - log(r) = 0: the value depends on q through -log(q^-1) alone
        v = st.outs['value']
        d = S.fbin('fsub', v, ratfun.subst(v, sub))
        rest.append((i, st, d))
    ok = []
    for i, st, d in rest:
        key = run.key('scale', i)
        s2 = copy.copy(st)
        s2.pc = list(st.pc) + [ratfun.subst(c, sub) for c in st.pc if c is not ratfun.subst(c, sub)]
        lin = linear_log(d)
        run.add(R(key, 'proved' if lin else 'unknown', 'exact algebra (path independent)', '' if lin else 'scale dependence is not log(q)'))
        ok.append(lin)
    if not all(ok):
        # written differently: bounded comparison instead
        run.out.results = [x for x in run.out.results if x.status != 'unknown']
        vals = {i: d for i, st, d in rest}
        ids = {id(st): i for i, st, d in rest}
        numeric(run, out, 'scale', list(enumerate(run.states)), lambda st: vals[ids[id(st)]], lambda e, c: mp.log(mpq(e['q']) / mpq(e['r'])), NP, lambda e: mp.mpf('1e-25'),
                set(range(len(run.states))) - set(vals))
        out.notes.append('b0: scale dependence sampled (bounded)')
    run.finish()


def linear_log(d):
    """d = log(q) - log(r) as an identity, other inputs arbitrary (complex roots are independent atoms)"""
    want = (log(q) - log(sym('r'))).n
    good = 0
    for t in range(60):
        rr = random.Random('%s scale %d' % (check.SEED, t))
        env = {n: Fraction(rr.randint(1, 10**4), rr.randint(1, 10**4)) for n in ('p', 'm1', 'm2', 'q', 'r')}
        ev = alg.Evaluator(alg.Ctx('%s/scale/%d' % (check.SEED, t)), check.env_field(env), False, None, check.chooser(env, MPF))
        try:
            if ev(d) != ev(want):
                return False
        except alg.AlgError:
            continue
        except ZeroDivisionError:
            continue
        good += 1
        if good == 3:
            return True
    return False


def b0_symmetric(out):
    run = check.Run(mod(), 'c09_b0', out, mode='real', arith='uf', timeout_ms=40)
    rev = check.Run(mod(), 'c09_b0_swapped', out, mode='real', arith='uf', timeout_ms=40)
    a = {(st.outs['value'], frozenset(st.pc)) for st in run.states}
    b = {(st.outs['value'], frozenset(st.pc)) for st in rev.states}
    miss = len(b - a)
    run.add(R('c09_b0/symmetric paths', 'proved', 'identical terms', '%d of %d paths' % (len(b) - miss, len(b))))
    if miss:
        sa = list(enumerate(run.states))
        def want(env, cache):
            f = pick(sa, env, cache)
            return alg.float_eval(f[1].outs['value'], env, cache, MPF)
        numeric(rev, out, 'symmetric', list(enumerate(rev.states)), lambda st: st.outs['value'], want, NP, lambda e: mp.mpf('1e-20'))
        out.notes.append('b0: symmetry in the masses sampled for %d paths (bounded)' % miss)
    run.finish()
    rev.finish()


def b0(out):
    run = check.Run(mod(), 'c09_b0', out, mode='real', arith='uf', timeout_ms=40)
    ex = smt.Solver('real', 'exact', (), 500)
    prove = lambda st, c: ex.prove([k for k in st.pc if cheap(k)], c, 5000)[0] == 'proved'
    lam = (p - m1 - m2) ** 2 - 4 * m1 * m2
    below = 2 - log(m1 * m2 / q / q) / 2 + (m1 - m2) / p * log(m2 / m1) / 2 - sqrt(lam) / p * log((m1 + m2 - p - sqrt(lam)) ** 2 / (4 * m1 * m2)) / 2
    rest = []
    for i, st in enumerate(run.states):
        c = st.outs['value']
        key = run.key('b0', i)
        smp = check.Sampler('%s/%s' % (check.SEED, key), {}, scales)
        exact = None
        if prove(st, land(p <= q * 1e-14, m1 <= q * 1e-14, m2 <= q * 1e-14)):
            exact = check.same(st, c, S.dconst(0.0), smp, run.solver, key + ' infrared', out=out, seed=key)
        elif prove(st, land(p <= 1e-10 * m1, m1 <= 1e-14 * m2)):
            s = 1 - log(m2 / q)
            exact = check.same(st, c, s.n, smp, run.solver, key + ' zero momentum, massless', out=out, seed=key)
        elif prove(st, p <= 1e-10 * m1):
            # leading order of the closed form in the momentum
            s = 1 - log(m2 / q) + m1 * log(m2 / m1) / (m1 - m2)
            exact = check.same(st, c, s.n, smp, run.solver, key + ' zero momentum', out=out, seed=key)
        if exact is None or exact.status == 'unknown':
            rest.append((i, st))
        else:
            run.add(exact)
    n, hit = NP, set()
    hit, n = numeric(run, out, 'closed form', list(enumerate(run.states)), lambda st: st.outs['value'],
                     lambda e, c: b0ref(mpq(e['p']), mpq(e['m1']), mpq(e['m2']), mpq(e['q'])), NP,
                     # the code keeps a regulator of 1e-15 in the imaginary part
                     lambda e: mp.mpf('1e-7') + (1e-14 * mpq(e['m2']) / mpq(e['p']) if e['p'] < e['m2'] else 0),
                     set(range(len(run.states))) - {i for i, st in rest})
    out.notes.append('b0 for different masses and non-zero momentum: closed form compared at %d points on %d of %d paths (bounded)' % (n, len(hit), len(rest)))
    run.finish()


def cheap(c):
    return len(S.topo([c])) < 30


def run():
    fns = re.findall(r'^VC (\w+)\(\)', open(build.VERIF + '/contracts/c09.cpp').read(), re.M)
    sp = {'c09_a0': 'a0', 'c09_d1b0_above': 'd1b0', 'c09_d1b0_below': 'd1b0', 'c09_b0xx': 'b0xx', 'c09_b0': 'b0'}
    fns.remove('c09_b0_swapped')
    check.main('C09', 'C09', [('c09_b0_scale', 'b0_scale', {}), ('c09_b0_symmetric', 'b0_symmetric', {})] + [(f, sp.get(f, 'simple'), {} if sp.get(f, 'd1b0') != 'd1b0' else dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['exact real arithmetic'],
               bounded=['two-point function with two different masses and non-zero momentum: complex-valued closed form sampled, tolerance 1e-7'])
