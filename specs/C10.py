import re
from fractions import Fraction
from vc import approx, check, build
from vc import alg
from vc.expr import sym, absv, near, away, land, lor
H = ['c10.cpp']
SRC = ['mh2_eft/ThresholdLoopFunctions.cpp', 'misc/Li2.cpp']
x, a, b = sym('x'), sym('a'), sym('b')
INF = 10**6


def mod():
    return check.load_module(H, SRC)


# order of the implemented Taylor expansions: {function: [(locus, order, radius)]}
ONE = {f: [('0', 0, 1e-12), ('1', 4, .02), ('-1', 4, .02)] for f in ('F1', 'F2', 'F3', 'F4', 'F5', 'F7')}
ONE['F6'] = [('0', 0, 1e-12), ('1', 4, .02), ('-1', 4, .02)]
ONE['f1'] = ONE['f2'] = [('0', 4, .02), ('1', 4, .02), ('-1', 4, .02)]
ONE['f3'] = ONE['f4'] = [('0', 2, 1e-5), ('1', 4, .02), ('-1', 4, .02)]
# stability: the closed form is not to be used within this distance of the removable singularity
SYMM = lambda o11, o1, oeq, req=2e-4: [('11', o11, .03), ('1*', o1, .03), ('*1', o1, .03), ('==', oeq, req)]
TWO = {
    'F8': [('00', 0, 1e-13), ('10', 2, .03), ('01', 2, .03), ('0*', 2, 1e-4), ('*0', 2, 1e-4)] + SYMM(4, 4, 3, 1e-4),
    'F9': [('10', 0, 1e-12), ('01', 0, 1e-12), ('0*', 0, 1e-12), ('*0', 0, 1e-12), ('==r', 3, 1e-4)] + SYMM(4, 4, 3, 1e-12),
    'f5': [('00', 1, 5e-4), ('10', 2, .03), ('01', 2, .03), ('0*', 2, 5e-4), ('*0', 2, 5e-4)] + SYMM(4, 4, 3),
    'f6': [('00', 0, 1e-9), ('00', 3, 5e-4), ('10', 4, .03), ('01', 4, .03), ('0*', 4, 5e-4), ('*0', 4, 5e-4)] + SYMM(4, 4, 4),
    'f7': [('00', 1, 5e-4), ('10', 2, .03), ('01', 2, .03), ('0*', 2, 1e-6), ('0*', 4, 5e-4), ('*0', 2, 1e-6), ('*0', 4, 5e-4)] + SYMM(4, 4, 4),
    'f8': [('00', 0, 1e-9), ('00', 2, 5e-4), ('10', 3, .03), ('01', 3, .03), ('0*', 3, 1e-6), ('0*', 4, 5e-4), ('*0', 3, 1e-6), ('*0', 4, 5e-4)] + SYMM(4, 4, 4),
}


# weighted orders, which reach mixed terms of the expansions around (1, 0)
MORE = {('F8', '10'): [(dict(a=3, b=2), 7), (dict(a=4, b=3), 11)], ('F8', '01'): [(dict(a=2, b=3), 7), (dict(a=3, b=4), 11)],
        ('f7', '10'): [(dict(a=2, b=3), 8), (dict(a=3, b=4), 11)], ('f7', '01'): [(dict(a=3, b=2), 8), (dict(a=4, b=3), 11)]}


def locus1(n, o, r):
    c = int(n)
    return approx.Locus(n, {'x': c}, o, near(x, c, r))


def locus2(n, o, r, more=()):
    F = {'0': 0, '1': 1}
    if n == '==':
        return approx.Locus(n, {'a': 'b', 'b': 'free'}, o, near(a, b, r))
    if n == '==r':
        return approx.Locus(n, {'a': 'b', 'b': 'free'}, o, absv(a - b) <= r * (a + b))
    s = {v: F.get(c, 'free') for v, c in zip('ab', n)}
    return approx.Locus(n, s, o, land(*[near(v, F[c], r) for v, c in ((a, n[0]), (b, n[1])) if c in F]), more=more)


def rnd(lo, hi, neg=False):
    """points at all scales: close to 0, close to 1, generic"""
    def f(r):
        k = r.randint(0, 9)
        if k < 4:
            v = Fraction(r.randint(1, 499), 100)
        elif k < 7:
            v = Fraction(r.randint(11, 997), 1000) * Fraction(1, 10 ** r.randint(0, 11))
        else:
            v = 1 + Fraction(r.randint(-997, 997), 1000) * Fraction(1, 10 ** r.randint(1, 5))
        return -v if neg else v
    return f


TOL = 3e-5


def lab_is_F8(key):
    return '/F8' in key   # F8 has a zero near (1,0)


def guard(run, st, i, code, spec, key, neg):
    """bounded: numeric agreement at sampled points of the region (estimate of the remainder)"""
    import mpmath as mp
    smp = check.Sampler('%s/guard/%s' % (check.SEED, key), {}, rnd(0, 5, neg))
    p = check.Path(st, [code, spec], smp, run.solver)
    n = 0
    for k in range(60 if check.THOROUGH else 15):
        env = p.point()
        if env is None:
            break
        n += 1
        c, s = check.mp_eval(code, env), check.mp_eval(spec, env)
        if not mp.isfinite(s) and mp.isfinite(c):
            continue
        e = abs(c - s)
        if not e <= TOL * max(abs(s), mp.mpf('0.1' if lab_is_F8(key) else '0.01')):
            q = check.Result(key + '/accuracy', 'failed', 'numeric (60 digits)', 'code %s closed form %s' % (mp.nstr(c, 12), mp.nstr(s, 12)), env)
            q.expect = (float(s), float(e) / 2)
            run.add(q)
            return 0
    return n


def task(out, fn, part=None, parts=1):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    m = re.match(r'c10_(\w\d?)(_neg)?$', fn)
    f, neg = m.group(1), bool(m.group(2))
    loci = [locus1(*t) for t in ONE[f]] if f in ONE else [locus2(*t, MORE.get((f, t[0]), ())) for t in TWO[f]]
    samples = 0
    if f in ONE:
        st0 = [('1', lor(away(x, 1, 1e-3))), ('-1', away(x, -1, 1e-3) if f in ('F5', 'F6', 'F7', 'f1', 'f2', 'f3', 'f4') else 1)]
    else:
        st0 = [('a=1', away(a, 1, 5e-4)), ('b=1', away(b, 1, 5e-4)), ('a=b', lor(absv(a - b) >= 1e-6 * (a + b), a + b > 4))]
    for i, st in enumerate(run.states):
        if part is not None and i % parts != part:
            continue
        for kind, lab, c, s, n in st.checks:
            key = run.key(lab, i)
            smp = check.Sampler('%s/%s' % (check.SEED, key), {}, rnd(0, 5, neg))
            how = approx.decide(run, st, c, s, key, loci, out, smp, stable=st0)
            if how not in (None, 'exact'):
                samples += guard(run, st, i, c, s, key, neg)
    out.notes.append('%s: remainder of the expansions sampled at %d points (bounded)' % (fn, samples))
    run.finish()


def simple(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='exact')
    run.discharge()
    run.finish()


P, Q, U, V, LS = sym('p'), sym('q'), sym('u'), sym('v'), sym('s')
TINY = 1e-10


def phi_contracts():
    from vc import sym as S
    return {'_ZN8himalaya5dilogEd': lambda ex, st, a, ins: S.call('li2', a[0]),
            '_ZN8himalaya9clausen_2Ed': lambda ex, st, a, ins: S.call('clausen_2', a[0])}


def rnd01(r):
    k = r.randint(0, 9)
    v = Fraction(r.randint(1, 996), 997)
    if k < 4:
        return v
    return v * Fraction(1, 10 ** r.randint(0, 8)) if k < 8 else 1 - v * Fraction(1, 10 ** r.randint(1, 6))


class Heron:
    """squared sides (u, v) of triangles with third side 1 and rational sides and area"""

    def __init__(self):
        self.pend = {}

    def get(self, which):
        def f(r):
            if which not in self.pend:
                t1, t2 = Fraction(r.randint(1, 40), r.randint(1, 40)), Fraction(r.randint(1, 40), r.randint(1, 40))
                s1, c1 = 2 * t1 / (1 + t1 ** 2), (1 - t1 ** 2) / (1 + t1 ** 2)
                s2, c2 = 2 * t2 / (1 + t2 ** 2), (1 - t2 ** 2) / (1 + t2 ** 2)
                s3 = s1 * c2 + c1 * s2
                if s3 <= 0:
                    return Fraction(1, 2)
                self.pend = {'u': (s1 / s3) ** 2, 'v': (s2 / s3) ** 2}
            return self.pend.pop(which)
        return f


def phi(out, fn):
    """the vacuum function: closed form, its expansion for two small masses, or a region narrower than TINY"""
    import mpmath as mp
    pos = 'pos' in fn
    run = check.Run(mod(), fn, out, mode='real', arith='exact', contracts=phi_contracts(), ctors=True)
    mpf = {'call:clausen_2': lambda x: mp.clsin(2, x)}
    if pos:
        u, v = P * (1 - Q), Q * (1 - P)
        loci = [approx.Locus('00', {'p': Fraction(0), 'q': Fraction(0)}, 3, land(P <= 1e-3, Q <= 1e-3))]
        sliver = [('equal', absv(u - v) <= TINY), ('threshold', (1 - P - Q) ** 2 <= TINY)]
    else:
        u, v = U, V
        loci = []
        l2 = (1 - u - v) ** 2 - 4 * u * v
        sliver = [('equal', absv(u - v) <= TINY), ('first one', absv(u - 1) <= TINY), ('second one', absv(v - 1) <= TINY),
                  ('threshold', l2 >= -TINY)]
    rg = {'p': rnd01, 'q': rnd01, 'u': rnd01, 'v': rnd01}
    h = Heron()
    rgh = rg if pos else {'u': h.get('u'), 'v': h.get('v')}
    nb = 0
    for i, st in enumerate(run.states):
        for kind, lab, c, s, n in st.checks:
            key = run.key(lab, i)
            r, p = None, None
            hit = None
            for nm, cond in sliver:
                if run.solver.prove(st.pc, cond, 10000)[0] == 'proved':
                    hit = nm
                    break
            if hit is None:
                approx.decide(run, st, c, s, key, loci, out, check.Sampler('%s/%s' % (check.SEED, key), rgh), mpfuncs=mpf)
                continue
            run.add(check.Result(key + '/confined to ' + hit, 'proved', 'z3'))
            p = check.Path(st, [c, s], check.Sampler('%s/%s' % (check.SEED, key), rg), run.solver, funcs=mpf)
            for k in range(10):
                env = p.point()
                if env is None:
                    break
                try:
                    a, b = check.mp_eval(c, env, mpf), check.mp_eval(s, env, mpf)
                except Exception:   # noqa  value not representable at this precision
                    continue
                nb += 1
                if not abs(a - b) <= 2e-6 * float(env['s']):
                    q = check.Result(key + '/accuracy', 'failed', 'numeric (60 digits)', 'code %s closed form %s' % (mp.nstr(a, 12), mp.nstr(b, 12)), env)
                    q.expect = (float(mp.re(b)), float(abs(a - b)) / 2)
                    run.add(q)
                    break
    out.notes.append('%s: regions narrower than %g compared numerically at %d points (bounded)' % (fn, TINY, nb))
    run.finish()


def run():
    tasks = []
    for f in ONE:
        tasks.append(('c10_' + f, 'task', dict(fn='c10_' + f)))
        tasks.append(('c10_%s_zero' % f, 'simple', dict(fn='c10_%s_zero' % f)))
        if f in ('F5', 'F6', 'F7', 'f1', 'f2', 'f3', 'f4'):
            tasks.append(('c10_%s_neg' % f, 'task', dict(fn='c10_%s_neg' % f)))
    for f in TWO:
        for k in range(4):
            tasks.insert(0, ('c10_%s part %d' % (f, k), 'task', dict(fn='c10_' + f, part=k, parts=4)))
    tasks += [(f, 'simple', dict(fn=f)) for f in ('c10_f', 'c10_g', 'c10_F8_first0', 'c10_F8_second0', 'c10_F9_first0', 'c10_F9_second0')]
    tasks += [('c10_phi_%s%d' % (w, k), 'phi', dict(fn='c10_phi_%s%d' % (w, k))) for k in range(6) for w in ('pos', 'neg')]
    tasks.append(('c10_delta', 'simple', dict(fn='c10_delta')))
    check.main('C10', 'C10', tasks, H, prepare=mod, native=check.native_runner(H, SRC),
               assumptions=['exact real arithmetic: rounding in the closed forms is bounded only by the obligation that they are not evaluated next to their removable singularities'],
               bounded=['size of the Taylor remainder inside each expansion region: compared numerically at random points (relative accuracy 3e-5)'])
