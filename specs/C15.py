"""Renormalisation group equations of the threshold corrections.

The corrections are coefficients of the expansion in y_S^4 k^n g_S^2m (k = 1/(16 pi^2), couplings of the effective theory
on the right): g = g_S (1 + k g_S^2 dg), y = y_S (1 + k g_S^2 d1 + k^2 g_S^4 d2), lambda = k y_S^4 (l1 + k g_S^2 l2 + ...).
Differentiating both sides with respect to t = ln(scale^2), with the beta functions of the Standard Model for the effective
theory and those of the MSSM (DR-bar') for the couplings, squark masses, gluino mass and trilinear coupling, gives the explicit
scale dependence (d) of each order in terms of lower orders and their change (D) along the running of the masses.
The derivatives are exact: first coefficients of power series over a prime field at a random point."""
import random
import re
from fractions import Fraction
from vc import alg, build, check
from . import C13
X = ('-fno-access-control',)
SRC = ['mh2_eft/ThresholdCalculator.cpp']
H = ['c15.cpp']
CUT = (r'himalaya5dilogEd',)
DEGREE = {'g3_as': 1, 'yt_as': 1, 'yt_as2': 2, 'lambda_at': 1, 'lambda_at_as': 2, 'lambda_at_as2': 3}
N = 12


def mod():
    return check.load_module(H, SRC, X, cut=CUT)


def F(a):
    return alg.q2p(Fraction(a))


def equations(outs, env, seed, choose=lambda c: None):
    """label -> residue; degree of the polynomials in the logarithm of the scale"""
    base = {k: alg.q2p(v) if isinstance(v, Fraction) else v for k, v in env.items()}

    def along(d):
        e = {k: alg.Ser.const(v) for k, v in base.items()}
        for k, cs in d.items():
            e[k] = alg.Ser(0, [base[k]] + [c % alg.P for c in cs])
        ev = alg.Evaluator(alg.Ctx(seed), e, True, None, choose)
        return {k: ev(v) for k, v in outs.items()}
    # scale = scale0 exp(eps/2)
    cs, f = [], 1
    for k in range(1, N + 1):
        f = f * alg.inv(2 * k) % alg.P
        cs.append(base['scale'] * f)
    T = along({'scale': cs})
    g = base['g']

    def masses(b):
        """running of the squared squark masses"""
        return {n: [b * alg.inv(2 * base[n] % alg.P)] for n in ('q', 'u', 's')}
    D = along(dict(masses(F('-16/3') * g * g), g=[-3 * g], At=[F('16/3') * g]))
    tr = base['q'] ** 2 + base['u'] ** 2 + 10 * base['s'] ** 2
    D2 = along(dict(masses(F('-64/3') * g * g + F('8/3') * tr), At=[F('32/9') * g]))
    c = {k: v.coef(0) for k, v in T.items()}
    d = {k: v.coef(1) for k, v in T.items()}
    D = {k: v.coef(1) for k, v in D.items()}
    D2 = {k: v.coef(1) for k, v in D2.items()}
    # anomalous dimensions of the top Yukawa coupling in the MSSM and the SM, beta function of g3 in the SM
    m1, m2, s1, s2, b = F('-8/3'), F('-8/9'), F(-4), F(-54), F(-7)
    z3 = alg.Ctx(seed).h('zeta3', 1)
    eqs = {
        'g3_as': d['g3_as'] - (F('-3/2') - F('-7/2')),
        'yt_as': d['yt_as'] - (m1 - s1),
        'yt_as2': d['yt_as2'] - (2 * m1 * c['g3_as'] + m2 - s2 - b * c['yt_as'] - D['yt_as'] + c['yt_as'] * d['yt_as']),
        'lambda_at': d['lambda_at'] + 12,
        'lambda_at_as': d['lambda_at_as'] + D['lambda_at'] + 4 * s1 * c['lambda_at'] + 64,
        'lambda_at_as2': d['lambda_at_as2'] + D['lambda_at_as'] + 2 * c['g3_as'] * D['lambda_at'] + D2['lambda_at'] + b * c['lambda_at_as']
        + 4 * s1 * c['lambda_at_as'] + 4 * s2 * c['lambda_at'] + F('1064/3') - 128 * z3,
    }
    deg = {k: (v.v + len(v.c) - 1 if v.c else 0) for k, v in T.items()}
    return {k: v % alg.P for k, v in eqs.items()}, deg


def running(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=2000)
    for i, st in enumerate(run.states):
        if st.status == 'throw':
            raise check.X.VCError('correction refused')
        syms = check.symbols(list(st.outs.values()) + list(st.pc))
        bad, deg, done, cases = {}, {}, 0, False
        for a in range(400):
            r = random.Random('%s/%s/%d' % (check.SEED, fn, a))
            env = similar(r, syms) if cases else C13.values(r, syms)
            try:
                eqs, dg = equations(st.outs, env, 'running/%d' % a, *([check.chooser(env)] if cases else []))
            except alg.AlgError as e:
                if 'non-residue' in str(e):
                    continue
                if 'conditional' not in str(e) or cases:
                    raise
                # a distinction of cases is followed at points only: it can be refuted, but not proved
                cases = True
                continue
            done += 1
            for k, v in eqs.items():
                if v:
                    bad.setdefault(k, env)
                if dg[k] > DEGREE[k]:
                    deg.setdefault(k, env)
            if done == (60 if cases else 4):
                break
        if done < 4 or cases and not bad and not deg:
            raise check.X.VCError('distinction of cases' if cases else 'no point found')
        out.trials += done
        for k in DEGREE:
            run.add(check.Result(run.key(k, i), 'failed' if k in bad else 'proved', 'power series', 'not the scale dependence required by the renormalisation group' if k in bad else '', bad.get(k) if cases else nearby(bad.get(k))))
            run.add(check.Result(run.key(k + ' polynomial', i), 'failed' if k in deg else 'proved', 'power series', 'not a polynomial of degree %d in the logarithm of the scale' % DEGREE[k] if k in deg else '', deg.get(k) if cases else nearby(deg.get(k))))
    run.finish()


def similar(r, syms):
    """masses of similar size, any scale"""
    env = C13.values(r, syms)
    for n, t in syms.items():
        if t == 'd':
            env[n] = Fraction(r.randint(100, 300), 100)
    if 'scale' in env:
        env['scale'] = Fraction(r.randint(100, 999), 100) * Fraction(10) ** r.randint(-2, 1)
    return env


def nearby(env):
    """masses of similar size for the replay"""
    if env is None:
        return None
    e = {k: float(v) if not isinstance(v, int) else v for k, v in env.items()}
    e.update(q=1.3, u=1.7, g=2.1, s=2.6, t=1.1, scale=1.9, At=0.9, mu=0.7, vu=2.0, vd=1.5)
    return {k: Fraction(v) if isinstance(v, float) else v for k, v in e.items()}


def limit(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=2000)
    for i, st in enumerate(run.states):
        if st.status == 'throw':
            raise check.X.VCError('a mass limit is refused')
        for kind, lab, c, s, n in st.checks:
            C13.decide(run, run.key(lab, i), [list(C13.MASS[lab])], check.symbols([c, s] + list(st.pc)), out, lambda e, at, c=c, s=s: (c, s))
    run.finish()


def logs(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=2000)
    run.discharge({}, on_throw='forbid', default=('pos', 4))
    run.finish()


def run():
    fns = re.findall(r'^VC (c15_\w+)\(\)', open(build.VERIF + '/contracts/c15.cpp').read(), re.M)
    check.main('C15', 'C15', [(f, f.split('_')[1], dict(fn=f)) for f in fns], H, prepare=mod, native=check.native_runner(H, SRC, X, cut=CUT, partial=True),
               assumptions=['real arithmetic; positive masses', 'published beta functions of the Standard Model and the MSSM',
                            'derivative and functional equations of the dilogarithm'])
