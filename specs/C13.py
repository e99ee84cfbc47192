"""Laurent expansion of the general formula around coinciding masses (random mass values and direction, exact
coefficients over a prime field): no pole may remain and the constant term must be the formula for coinciding masses."""
import random
from fractions import Fraction
import mpmath as mp
from vc import alg, build, check
from vc.expr import sym
import re
X = ('-fno-access-control',)
SRC = ['mh2_eft/ThresholdCalculator.cpp']
H = ['c13.cpp']
CUT = (r'himalaya5dilogEd',)
CUTC = (r'getDeltaYtAlphas2E', r'calculateMsq2', r'Parameters8validateE')
MASS = {'mQ3 = mU3': ('q', 'u'), 'mQ3 = m3': ('q', 'g'), 'mU3 = m3': ('u', 'g'), 'mQ3 = mU3 = m3': ('q', 'u', 'g'),
        'mQ3 = mU3 = m3 = msq': ('q', 'u', 'g', 's')}


def mod():
    return check.load_module(H, SRC, X, cut=CUT)


def mod_choice():
    return check.load_module(['c13c.cpp'], SRC, X, cut=CUTC)


def prepare():
    mod(), mod_choice()


def native(r):
    h, c = (['c13c.cpp'], CUTC) if r.harness.startswith('c13c') else (H, CUT)
    return check.native_runner(h, SRC, X, cut=c, partial=True)(r)


def choice(out, fn):
    run = check.Run(mod_choice(), fn, out, mode='real', arith='lin', timeout_ms=2000)
    run.discharge({}, on_throw='forbid', default=('pos', 4))
    run.finish()


def values(r, syms):
    """a point, masses all different"""
    env = {}
    for n, t in syms.items():
        if t == 'd':
            env[n] = Fraction(r.randint(100, 999), r.choice((7, 11, 13, 17, 19))) * (r.choice((-1, 1)) if n in ('At', 'mu') else 1)
        else:
            env[n] = r.randint(0, 1) if r.random() < .5 else r.randint(2, 9)
    return env


def expand(code, spec, groups, env, r, seed, N):
    """difference of the two along a line through equal masses"""
    e = {}
    ctx = alg.Ctx('%s/%s' % (check.SEED, seed))
    for n, v in env.items():
        equal = next((g for g in groups if n in g), None)
        if equal:
            e[n] = alg.Ser(0, [alg.q2p(env[equal[0]]), alg.q2p(Fraction(r.randint(-99, 99) or 1, 10))])
        else:
            e[n] = alg.Ser.const(alg.q2p(v)) if isinstance(v, Fraction) else v
    old = alg.Ser.N
    try:
        alg.Ser.N = N
        ev = alg.Evaluator(ctx, e, True, None, lambda c: None)
        return ev(code) - ev(spec)
    finally:
        alg.Ser.N = old


def near(code, spec, groups, env):
    """a point next to the limit where the two differ most compared with the distance"""
    best = None
    for k, d in enumerate((Fraction(1, 50), Fraction(1, 200), Fraction(-1, 50))):
        e = dict(env)
        for g in groups:
            for i, n in enumerate(g):
                e[n] = env[g[0]] * (1 + d * i)
        try:
            a, b = check.mp_eval(code, e), check.mp_eval(spec, e)
        except Exception:   # noqa
            continue
        c = abs(a - b) / (abs(a) + abs(b) + mp.mpf('1e-30'))
        if best is None or c > best[0]:
            best = c, e, a, b
    return best


def decide(run, key, groups, syms, out, pick):
    """the value away from equal masses tends to the one at equal masses"""
    order, env, why, d, pair = None, None, '', None, None
    for t in range(3):
        for a in range(20):
            r = random.Random('%s/%s/%d/%d' % (check.SEED, key, t, a))
            env = values(r, syms)
            at = dict(env, **{n: env[g[0]] for g in groups for n in g})
            c, s = pair = pick(env, at)
            d = None
            for N in (8, 14, 22, 34, 48):
                try:
                    d = expand(c, s, groups, env, r, '%s/%d/%d' % (key, t, a), N)
                except (alg.PrecisionLost, ZeroDivisionError):
                    d = None
                    continue
                except alg.AlgError as e:
                    why = str(e)
                    d = None
                    break
                if d.c or d.prec > 0:
                    break
                d = None
            if d is not None or (why and 'non-residue' not in why):
                break
        if d is None:
            break
        out.trials += 1
        order = (d.v if d.c else d.prec) if order is None else min(order, d.v if d.c else d.prec)
        if order <= 0:
            break
    if d is None:
        run.add(check.Result(key, 'undecided', 'Laurent series', why or 'no expansion found'))
    elif order > 0:
        run.add(check.Result(key, 'proved', 'Laurent series'))
    else:
        c, s = pair
        w = near(c, s, groups, env)
        q = check.Result(key, 'failed', 'Laurent series', 'general formula and limit differ at order %d of the mass difference; general %s limit %s' % (
            order, mp.nstr(w[2], 17) if w else '?', mp.nstr(w[3], 17) if w else '?'), w[1] if w else env)
        if w:
            q.expect = (float(w[3]), float(abs(w[2] - w[3])) / 2)
        run.add(q)


def task(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=2000)
    for i, st in enumerate(run.states):
        for kind, lab, c, s, n in st.checks:
            if kind != 'near':
                raise check.X.VCError('unexpected obligation')
            decide(run, run.key(lab, i), [list(MASS[lab])], check.symbols([c, s] + list(st.pc)), out, lambda e, at, c=c, s=s: (c, s))
    if any(st.status == 'throw' for st in run.states):
        raise check.X.VCError('a mass limit is refused')
    run.finish()


# the others choose the formula by the masses: the path taken at equal masses against the one taken away from them
CHOSEN = {'c13b_vev_yb2': ['qd'], 'c13b_vev_ytau2': ['le'], 'c13b_lambda_yb4_g32': ['qdg', 'qd', 'qg', 'dg'],
          'c13b_lambda_ytau4_yb2': ['qd', 'le', 'qd+le'], 'c13b_lambda_ytau2_yb4': ['qd', 'le', 'qd+le']}


def chosen(out, fn):
    run = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=True, timeout_ms=2000)
    syms = {n: t for st in run.states for n, t in check.symbols(list(st.pc) + list(st.outs.values())).items()}

    def value(env):
        r = [st for st in run.states if all(check.chooser(env)(c) for c in st.pc)]
        if len(r) != 1 or r[0].status == 'throw':
            raise check.X.VCError('no value at this point')
        return r[0].outs['value']
    for pat in CHOSEN[fn]:
        groups = [list(g) for g in pat.split('+')]
        key = run.key(pat, 0)
        decide(run, key, groups, syms, out, lambda e, at: (value(e), value(at)))
    run.finish()


def run():
    txt = open(build.VERIF + '/contracts/c13.cpp').read()
    fns = re.findall(r'^VC (c13_\w+)\(\)', txt, re.M)
    cfn = re.findall(r'^VC (c13c_\w+)\(\)', open(build.VERIF + '/contracts/c13c.cpp').read(), re.M)
    check.main('C13', 'C13', [(f, 'task', dict(fn=f)) for f in fns] + [(f, 'chosen', dict(fn=f)) for f in CHOSEN] + [(f, 'choice', dict(fn=f)) for f in cfn],
               H + ['c13c.cpp'], prepare=prepare, native=native,
               assumptions=['real arithmetic; positive masses', 'dilogarithm: derivative and functional equations (its accuracy is property C11)',
                            'choice of the formula: the correction is an arbitrary function of mass limit and masses; validated parameters are left as they are'])
