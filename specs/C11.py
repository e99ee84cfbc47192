import re
from fractions import Fraction
from math import comb, factorial
import mpmath as mp
from sympy import QQ
from sympy.polys.fields import field
from vc import check, build, ratfun, approx
from vc import sym as S
from vc.expr import E, sym, log, q, absv, land, fn
H = ['c11.cpp']
SRC = ['misc/Li2.cpp', 'mh2l/Li2f.cpp']
R = check.Result
x = sym('x')
PI = E(3.141592653589793)
EPS = Fraction(111, 10 ** 18)      # half a unit of double precision


def mod():
    return check.load_module(H, SRC)


REGIONS = [
    ('below -1', x < -1, lambda G: -PI * PI / 6 + log(1 - x) * (log(1 - x) / 2 - log(-x)) + G(1 / (1 - x))),
    ('-1 to 0', land(x > -1, x < 0), lambda G: -log(1 - x) * log(1 - x) / 2 - G(x / (x - 1))),
    ('1/2 to 1', land(x >= .5, x < 1), lambda G: PI * PI / 6 - log(x) * log(1 - x) - G(1 - x)),
    ('1 to 2', land(x > 1, x <= 2), lambda G: PI * PI / 6 - log(x) * (log(1 - 1 / x) + log(x) / 2) + G(1 - 1 / x)),
    ('above 2', x >= 2, lambda G: PI * PI / 3 - log(x) * log(x) / 2 - G(1 / x)),
]
POINTS = [('at -1', S.fcmp('oeq', x.n, S.dconst(-1.0)), lambda G: -PI * PI / 12),
          ('at 0', S.fcmp('oeq', x.n, S.dconst(0.0)), lambda G: E(0)),
          ('at 1/2', S.fcmp('oeq', x.n, S.dconst(0.5)), REGIONS[2][2]),
          ('at 2', S.fcmp('oeq', x.n, S.dconst(2.0)), REGIONS[4][2]),
          ('at 1', S.fcmp('oeq', x.n, S.dconst(1.0)), lambda G: PI * PI / 6)]


def poly_of(v):
    """ascending coefficients of numerator and denominator of a univariate field element"""
    def lst(p):
        d = p.degree() if p else 0
        r = [Fraction(0)] * (d + 1)
        for (k,), c in p.terms():
            r[k] = Fraction(int(c.numerator), int(c.denominator))
        return r
    return lst(v.numer), lst(v.denom)


def num_failure(run, key, st, code, ref, tol, detail, out, rng, mpf=None, n=60):
    """a failing obligation is confirmed by a numeric deviation somewhere on the path"""
    smp = check.Sampler('%s/%s' % (check.SEED, key), {'x': rng, 'y': rng})
    p = check.Path(st, [code], smp, run.solver, funcs=mpf)
    for _ in range(n):
        env = p.point()
        if env is None:
            break
        a = check.mp_eval(code, env, mpf)
        with mp.workdps(40):
            b = ref(*[mp.mpf(env[k].numerator) / env[k].denominator for k in ('x', 'y') if k in env])
            s = max(abs(b), mp.mpf(abs(env['x'].numerator)) / env['x'].denominator if abs(env['x']) < 1 else 1)
            if not abs(a - b) <= tol * s:
                r = R(key, 'failed', 'numeric (60 digits)', '%s; code %s exact %s' % (detail, mp.nstr(a, 20), mp.nstr(b, 20)), env)
                r.expect = (float(b), float(abs(a - b)) / 2)
                run.add(r)
                return True
    run.add(R(key, 'unknown', 'numeric', detail))
    return False


def anyx(r):
    k = r.randint(0, 3)
    v = Fraction(r.randint(-997, 997), 499)
    return v if k < 2 else (v * 10 ** r.randint(0, 4) if k == 2 else v / 10 ** r.randint(0, 6))


def li2_series(n):
    return [Fraction(1, k * k) for k in range(1, n + 1)]


def real(out, fn='c11_real'):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    ref = lambda v: mp.re(mp.polylog(2, v))
    K, X = field('x', QQ)
    one = K(1)
    cores, rest = [], []
    for i, st in enumerate(run.states):
        (cores if run.solver.prove(st.pc, land(x > 0, x <= .5), 10000)[0] == 'proved' else rest).append((i, st))
    if not cores:
        raise check.X.VCError('no branch of the real dilogarithm is confined to (0, 1/2]')
    ok = []
    for i, st in cores:
        key = run.key('core accuracy', i)
        code = st.outs['value']
        try:
            v = ratfun.in_field(code, lambda n, c: X if n.op == 'sym' else None, one)
        except ValueError as e:
            num_failure(run, key, st, code, ref, mp.mpf('1.4e-15'), str(e), out, anyx)
            continue
        # code = x * N/D; compare N/D with sum x^(k-1)/k^2, truncated at order n
        n = 48
        num, den = poly_of(v / X)
        rem = Fraction(2, (n + 1) ** 2 * 2 ** n)
        good, w = ratfun.close(num, den, li2_series(n), rem, 12 * EPS, Fraction(0), Fraction(1, 2))
        if good:
            run.add(R(key, 'proved', 'Bernstein (exact rationals)'))
            ok.append(code)
        else:
            env = {'x': w if w is not None else Fraction(1, 3)}
            if env['x'] == 0:
                env['x'] = Fraction(1, 1024)
            num_failure(run, key, st, code, ref, mp.mpf('1.33e-15'), 'approximation error bound not valid near %s' % w, out, anyx)
    G0 = (ok or [c[1].outs['value'] for c in cores])[0]

    def G(y):
        return E(ratfun.subst(G0, {'x': y.n}))
    for i, st in rest:
        key = run.key('branch', i)
        code = st.outs['value']
        done = False
        for nm, cond, spec in POINTS + REGIONS:
            if run.solver.prove(st.pc, cond, 10000)[0] != 'proved':
                continue
            r = check.same(st, code, spec(G).n, check.Sampler('%s/%s' % (check.SEED, key), {'x': anyx}), run.solver, key, 3, None, None, None, key, out)
            if r.status == 'proved':
                run.add(r)
            else:
                num_failure(run, key + ' ' + nm, st, code, ref, mp.mpf('1.4e-15'), r.detail, out, anyx)
            done = True
            break
        if not done:
            num_failure(run, key, st, code, ref, mp.mpf('1.4e-15'), 'branch not confined to one transformation region', out, anyx)
    run.finish()


def bernoulli_coeff(k):
    """coefficient of u^k of the dilogarithm of 1 - exp(-u)"""
    b = mp.bernfrac(k - 1)
    return (Fraction(int(b[0]), int(b[1])) if k != 2 else Fraction(-1, 2)) / factorial(k)


def cspec(K, name, L, z1z, half_pi):
    """value as complex polynomial of the logarithm atoms; L(w): atoms of log(w) or None if absent"""
    pi26 = Fraction(3.141592653589793) ** 2 / 6

    def cm(a, b):
        return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])

    def core(u):
        re, im = K(0), K(0)
        p = u
        for k in range(1, 28):
            if k == 1 or k == 2 or k % 2 == 1:
                c = bernoulli_coeff(k)
                re, im = re + p[0] * c.numerator / c.denominator, im + p[1] * c.numerator / c.denominator
            p = cm(p, u)
        return re, im
    return cm, core, pi26


def cinv(z):
    d = z[0] ** 2 + z[1] ** 2
    return z[0] / d, -z[1] / d


def complex_(out, fn='c11_complex'):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    y = sym('y')
    nz = x * x + y * y
    ref = lambda a, b: mp.polylog(2, mp.mpc(a, b))
    K, A, B, C, D = field('A,B,C,D', QQ)
    one = K(1)
    neg = lambda z: (-z[0], -z[1])
    m1 = lambda z: (1 - z[0], -z[1])
    cases = [
        # region, argument of the core logarithm, other logarithm
        ('small', nz <= 1e-15, None, None),
        ('unit disc', land(nz <= 1, x <= .5), lambda z: m1(z), None),
        ('inversion', land(nz >= 1, x <= nz / 2), lambda z: m1(cinv(z)), lambda z: neg(z)),
        ('reflection', land(nz <= 2 * x, x >= .5), lambda z: z, lambda z: m1(z)),
    ]
    for i, st in enumerate(run.states):
        key = run.key('branch', i)
        cre, cim = st.outs['re'], st.outs['im']
        case = next((c for c in cases if run.solver.prove(st.pc, c[1], 10000)[0] == 'proved'), None)
        if case is None:
            cfail(run, key, st, cre, cim, 'branch not confined to one transformation region', out, ref)
            continue
        nm, cond, core_arg, other = case
        smp = check.Sampler('%s/%s' % (check.SEED, key), {'x': anyx, 'y': anyx})
        p = check.Path(st, [cre, cim], smp, run.solver)
        bad = None
        for t in range(3):
            env = p.point()
            if env is None:
                bad = 'no point'
                break
            z = (env['x'], env['y'])
            expect = {}
            if core_arg:
                expect[core_arg(z)] = (A, B)
            if other:
                expect[other(z)] = (C, D)
            unknown = []

            def gens(n, c):
                if n.op == 'sym':
                    v = env[n.args[0]]
                    return one * v.numerator / v.denominator
                if n.op in ('call:clog.re', 'call:clog.im'):
                    a = tuple(Fraction(int(c[k.id].numer.coeff(1)), 1) if False else frac(c[k.id]) for k in n.args)
                    if a not in expect:
                        unknown.append(a)
                        return one * 7
                    return expect[a][0 if n.op.endswith('re') else 1]
                return None
            try:
                v = (ratfun.in_field(cre, gens, one), ratfun.in_field(cim, gens, one))
            except ValueError as e:
                bad = str(e)
                break
            if unknown:
                bad = 'logarithm of an unexpected argument'
                break
            cm, core, pi26 = cspec(K, nm, None, None, None)
            if nm == 'small':
                s = (z[0] + (z[0] ** 2 - z[1] ** 2) / 4, z[1] + z[0] * z[1] / 2)
                s = (one * s[0].numerator / s[0].denominator, one * s[1].numerator / s[1].denominator)
            else:
                u = (-A, -B)
                s = core(u)
                l = (C, D)
                pp = one * pi26.numerator / pi26.denominator
                if nm == 'inversion':
                    l2 = cm(l, l)
                    s = (-s[0] - l2[0] / 2 - pp, -s[1] - l2[1] / 2)
                if nm == 'reflection':
                    ul = cm(u, l)
                    s = (-s[0] + ul[0] + pp, -s[1] + ul[1])
            # the difference is Re/Im of sum delta_k u^k with real delta_k; |u| <= 1.06
            d = [v[w] - s[w] for w in range(2)]
            if not (d[0].denom.is_ground and d[1].denom.is_ground):
                bad = 'not a polynomial of the logarithms'
                break
            dn = Fraction(int(d[0].denom.coeff(1).numerator), int(d[0].denom.coeff(1).denominator))
            delta = {}
            for mon, co in d[0].numer.terms():
                if not (mon[1] or mon[2] or mon[3]):
                    delta[mon[0]] = Fraction(int(co.numerator), int(co.denominator)) / dn * (-1) ** mon[0]
            re, im, pw = K(0), K(0), (one, K(0))
            for k in range(max(list(delta) + [0]) + 1):
                c = delta.get(k, Fraction(0))
                re, im = re + pw[0] * c.numerator / c.denominator, im + pw[1] * c.numerator / c.denominator
                pw = cm(pw, (-A, -B))
            tot = sum(abs(c) * Fraction(106, 100) ** k for k, c in delta.items())
            if d[0] - re or d[1] - im:
                bad = 'dependence on the logarithms differs'
            elif tot > Fraction(5, 10 ** 16):
                bad = 'series coefficients deviate by up to %.3g' % float(tot)
            if bad:
                break
        if bad is None:
            run.add(R(key, 'proved', 'exact polynomial arithmetic', nm))
            out.trials += 3
        else:
            cfail(run, key, st, cre, cim, bad, out, ref)
    run.finish()


def cfail(run, key, st, cre, cim, detail, out, ref):
    mpf = {'call:clog.re': lambda a, b: mp.log(mp.hypot(a, b)), 'call:clog.im': lambda a, b: mp.atan2(b, a)}
    code = S.fbin('fadd', cre, S.fbin('fmul', S.dconst(3.0), cim))
    num_failure(run, key, st, code, lambda a, b: mp.re(ref(a, b)) + 3 * mp.im(ref(a, b)), mp.mpf('3e-15'), detail, out, anyx, mpf, n=400)


def frac(e):
    if not e.numer.is_ground or not e.denom.is_ground:
        return None
    n, d = e.numer.coeff(1) if e.numer else 0, e.denom.coeff(1)
    return Fraction(int(n.numerator), int(n.denominator)) / Fraction(int(d.numerator), int(d.denominator)) if n else Fraction(0)


# Clausen function
def clausen(out, fn='c11_clausen'):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    pi = Fraction(314159265358979323846264338327950288419716939937510, 10 ** 50)
    ref = lambda v: mp.clsin(2, v)
    mpf = {'call:fmod': lambda a, b: a - b * mp.floor(a / b)}
    K, X, L, Y = field('x,l,y', QQ)
    one = K(1)
    N = 40
    low = [Fraction(*mp.bernfrac(2 * n)) for n in range(1, N)]
    nb = 0
    for i, st in enumerate(run.states):
        key = run.key('branch', i)
        code = st.outs['value']
        good = None
        try:
            if run.solver.prove(st.pc, land(x > 0, x <= 1.5707963267948968), 10000)[0] == 'proved':
                v = ratfun.in_field(code, lambda n, c: X if n.op == 'sym' else (L if n.op == 'call:log' and n.args[0].op == 'sym' else None), one)
                w = v / X - 1 + L
                # even rational function of x: sum |B_2n| / (2n (2n+1)!) x^2n
                a = [Fraction(0)]
                for n in range(1, N):
                    a += [Fraction(0), abs(low[n - 1]) / (2 * n * factorial(2 * n + 1))]
                num, den = uni(w, 0)
                good, wit = ratfun.close(num, den, a, Fraction(1, 10 ** 30), 2 * EPS, Fraction(0), Fraction(15707963267948968, 10 ** 16))
            elif check.unify(st.pc).get('x') is None and run.solver.prove(st.pc, land(x >= 1.5707963267948965, x <= 3.1415926535897932), 10000)[0] == 'proved':
                v = ratfun.in_field(code, lambda n, c: X if n.op == 'sym' else None, one)
                w = ev(K, v, pi)      # x = pi - y
                a = []
                ln2 = Fraction(693147180559945309417232121458176568075500134360255, 10 ** 51)
                a = [ln2]
                for n in range(1, N):
                    a += [Fraction(0), -abs(low[n - 1]) * (4 ** n - 1) / (2 * n * factorial(2 * n + 1))]
                num, den = w
                # value/y: the approximation vanishes at the double closest to pi, not at pi: absolute bound on the product
                good, wit = ratfun.close(num, den, [Fraction(0)] + a, Fraction(1, 10 ** 22), 5 * EPS, Fraction(0), Fraction(1570796326794897, 10 ** 15))
        except ValueError as e:
            good = None
        if good:
            run.add(R(key, 'proved', 'Bernstein (exact rationals)'))
            continue
        # reductions of the argument: compared numerically (bounded)
        smp = check.Sampler('%s/%s' % (check.SEED, key), {'x': lambda r: Fraction(r.randint(-9973, 9973), 499)})
        p = check.Path(st, [code], smp, run.solver, funcs=mpf)
        res = 'proved'
        d = ''
        for _ in range(200):
            env = p.point()
            if env is None:
                break
            a = check.mp_eval(code, env, mpf)
            with mp.workdps(30):
                b = ref(mp.mpf(env['x'].numerator) / env['x'].denominator)
            nb += 1
            if not abs(a - b) < mp.mpf('4e-15'):
                run.add(R(key, 'failed', 'numeric (60 digits)', 'code %s exact %s' % (mp.nstr(a, 20), mp.nstr(b, 20)), env))
                res = None
                break
        if res and good is not False:
            run.add(R(key + '/sampled', 'proved', 'numeric samples (bounded)'))
        elif res:
            run.add(R(key, 'unknown', 'Bernstein', 'bound not valid near %s' % float(wit)))
    out.notes.append('Clausen function: argument reductions compared at %d points (bounded)' % nb)
    run.finish()


def uni(w, var):
    def lst(p):
        r = []
        for mon, c in p.terms():
            if any(m for k, m in enumerate(mon) if k != var):
                raise ValueError('unexpected logarithm')
            while len(r) <= mon[var]:
                r.append(Fraction(0))
            r[mon[var]] = Fraction(int(c.numerator), int(c.denominator))
        return r
    return lst(w.numer), lst(w.denom)


def ev(K, v, c):
    """numerator and denominator after x = c - y"""
    out = []
    for p in uni(v, 0):
        r = [Fraction(0)]
        for co in reversed(p):
            r = ratfun.padd(ratfun.pmul(r, [c, Fraction(-1)]), [co])
        out.append(r)
    return out


def simple(out, fn):
    cons = {}
    if 'wrapper' in fn:
        def li2c(ex, st, a, ins):
            D = check.ir.D
            re, im = ex.load(st, a[0], D), ex.load(st, a[1], D)
            ex.store(st, a[2], S.call('li2c.re', re, im), 8)
            ex.store(st, a[3], S.call('li2c.im', re, im), 8)
            return 0
        cons['li2c_'] = li2c
    run = check.Run(mod(), fn, out, mode='real', arith='exact', contracts=cons)
    run.discharge(on_throw='forbid', default=('any', 1))
    run.finish()


def run():
    tasks = [('c11_real', 'real', {}), ('c11_complex', 'complex_', {}), ('c11_clausen', 'clausen', {})] + [
        (f, 'simple', dict(fn=f)) for f in ('c11_axis', 'c11_wrapper_complex', 'c11_wrapper_real')]
    check.main('C11', 'C11', tasks, H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['exact real arithmetic (rounding of the final operations not bounded)', 'functional equations and series of the dilogarithm and Clausen function'],
               bounded=['argument reduction of the Clausen function to (0, pi): sampled points'])
