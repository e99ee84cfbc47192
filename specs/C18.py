"""Structure of the contributions of the fourteen hierarchies: additivity in the loop orders, powers of the strong coupling,
and the contribution to the quartic coupling as the cubic polynomial in the logarithm that the self-energies contain."""
import hashlib
import os
import random
import re
from fractions import Fraction
import mpmath as mp
from vc import alg, build, check
from . import C06, C13
X = ('-fno-access-control',)


CONST = re.compile(r'\bconst double (\w+)\s*=\s*(-?[0-9.]+(?:e[-+]?\d+)?);')

# decimal literals of the formulas round fractions with such denominators
DENOMINATORS = (2, 3, 5, 7, 11), 10**10


def source(h):
    p = ', '.join('v.' + n for t, n in C06.ctor(h))
    t = 'template <> %s make<%s>(const In& v) { return %s(v.depth, %s); }\n} }\nusing namespace c18;\n' % (h, h, h, p)
    t += 'VC c18_%s_loops() { loops<%s>(); }\nVC c18_%s_coefs() { coefs<%s>(); }\n' % (h, h, h, h)
    t += 'VC c18_%s_polynomial() { %s(); }\n' % (h, 'polynomial_h5' if h == 'H5' else ('polynomial_dmsq<%s>' if h in TRUNCATED else 'polynomial<%s>') % h)
    # what is included takes part in the name of the compiled file
    f = [os.path.join(shadow(), 'himalaya', 'misc', 'Constants.hpp'), os.path.join(build.SRC, 'hierarchies', h + '.cpp')]
    return build.generated('c18.cpp', t + '// %s\n' % hashlib.sha256(b''.join(open(x, 'rb').read() for x in f)).hexdigest(), 'c18_%s_gen.cpp' % h)


def shadow():
    """misc/Constants.hpp with arbitrary values for the constants that are no rational numbers"""
    d = os.path.join(build.BUILD, 'c18inc', 'himalaya', 'misc')
    os.makedirs(d, exist_ok=True)
    s = open(os.path.join(build.SRC, 'misc', 'Constants.hpp')).read()
    s, n = CONST.subn(lambda m: m.group(0) if alg.simple_frac(float(m.group(2))) is not None else 'const double %s = vc_sym("%s", 0);' % (m.group(1), m.group(1)), s)
    if n < 4:
        raise build.BuildError('constants of misc/Constants.hpp not found')
    s = s.replace('#pragma once', '#pragma once\nextern "C" double vc_sym(const char*, int);', 1)
    p = os.path.join(d, 'Constants.hpp')
    if not os.path.exists(p) or open(p).read() != s:
        open(p + str(os.getpid()), 'w').write(s)
        os.replace(p + str(os.getpid()), p)
    return os.path.dirname(os.path.dirname(d))


def mod(h):
    return check.load_module([source(h)], [], X + ('-iquote', shadow(), '-DSOURCE="himalaya/hierarchies/%s.cpp"' % h))


def prepare():
    for h in C06.ORDER:
        mod(h)


# hierarchies whose self-energies and coefficients are truncated differently: small quantities (power) and first order in
# which they may differ, relative to the leading order
TRUNCATED = {'H5': ({'Mst1': 1, 'Dmglst1': 1, 'MuSUSY': 1, 's2t': 1}, 4),
             'H6bq22g': ({'Dmsqst2': 1}, 3), 'H6bq2g2': ({'Dmsqst2': 1}, 3)}


def expanded(run, key, code, spec, h, out, path):
    """both agree in the expansion in small quantities up to the order in which one of them is truncated"""
    small, need = TRUNCATED[h]
    syms = check.symbols([code, spec] + list(path))
    worst, env = None, None
    for t in range(3):
        for a in range(30):
            r = random.Random('%s/%s/%d/%d' % (check.SEED, key, t, a))
            env = C13.values(r, syms)
            e = {n: alg.Ser.const(alg.q2p(v)) if isinstance(v, Fraction) else v for n, v in env.items()}
            for n, k in small.items():
                e[n] = alg.Ser(k, [alg.q2p(env[n])])
            try:
                ev = alg.Evaluator(alg.Ctx('%s/%s/%d/%d' % (check.SEED, key, t, a)), e, True, None, lambda c: None)
                c, s = ev(code), ev(spec)
            except alg.AlgError as x:
                if 'non-residue' in str(x):
                    continue
                raise
            d = c - s
            break
        else:
            raise check.X.VCError('no point found')
        out.trials += 1
        o = (d.v if d.c else d.prec) - min(0, c.v)
        if worst is None or o < worst:
            worst = o
        if worst < need:
            break
    run.add(check.Result(key, 'proved' if worst >= need else 'failed', 'power series', '' if worst >= need else 'differ at relative order %d of the expansion, both are complete below order %d' % (worst, need),
                         None if worst >= need else env))


def task(out, fn):
    h = fn.split('_')[1]
    alg.SMOOTH = DENOMINATORS
    alg._RC.clear()
    r = check.Run(mod(h), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=1000, ctors=True)
    near = [(i, st, x) for i, st in enumerate(r.states) for x in st.checks if x[0] == 'near']
    for i, st, (kind, lab, c, s, n) in near:
        expanded(r, r.key(lab, i), c, s, h, out, st.pc)
    if any(x[0] == 'same' for st in r.states for x in st.checks):
        r.discharge({}, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def constants(out, fn):
    """the constants have the values of their definition"""
    mp.mp.dps = 30
    r = check.Run(check.load_module(['c18c.cpp'], [], X), fn, out, mode='real', arith='lin')
    z2, z3, z4, l2, q3 = mp.zeta(2), mp.zeta(3), mp.zeta(4), mp.log(2), mp.sqrt(3)
    c2, p4 = mp.im(mp.polylog(2, mp.exp(1j * mp.pi / 3))), mp.polylog(4, mp.mpf(1) / 2)
    c3 = mp.im(mp.polylog(3, mp.exp(-1j * mp.pi / 6) / q3))
    want = {'Pi': mp.pi, 'z2': z2, 'z3': z3, 'z4': z4, 'log2': l2, 'S2': 4 * c2 / (9 * q3),
            'B4': -4 * z2 * l2**2 + 2 * l2**4 / 3 - 13 * z4 / 2 + 16 * p4, 'D3': 6 * z3 - 15 * z4 / 4 - 6 * c2**2,
            'DN': 6 * z3 - 4 * z2 * l2**2 + 2 * l2**4 / 3 - 21 * z4 / 2 + 16 * p4,
            'OepS2': -mp.mpf(763) / 32 - 9 * mp.pi * q3 * mp.log(3)**2 / 16 - 35 * mp.pi**3 * q3 / 48 + 195 * z2 / 16 - 15 * z3 / 4 + 57 * z4 / 16
            + 45 * q3 / 2 * c2 - 27 * q3 * c3,
            'T1ep': -mp.mpf(45) / 2 - mp.pi * q3 * mp.log(3)**2 / 8 - 35 * mp.pi**3 * q3 / 216 - 9 * z2 / 2 + z3 + 6 * q3 * c2 - 6 * q3 * c3}
    for i, st in enumerate(r.states):
        for k, v in want.items():
            x = mp.mpf(check.S.bits2d(st.outs[k].args[0])) if st.outs[k].op == 'dc' else None
            ok = x is not None and abs(x - v) < mp.mpf('2e-15') * max(1, abs(v))
            r.add(check.Result(r.key(k, i), 'proved' if ok else 'failed', 'interval arithmetic', '' if ok else 'value %s, definition %s' % (x, mp.nstr(v, 17)), None if ok else {}))
    r.finish()


def native(r):
    if r.harness == 'c18_constants':
        return check.native_runner(['c18c.cpp'], [], X)(r)
    h = r.harness.split('_')[1]
    return check.native_runner([source(h)], ['hierarchies/%s.cpp' % h], X, partial=True)(r)


def run():
    tasks = [('c18_%s_%s' % (h, k), 'task', dict(fn='c18_%s_%s' % (h, k))) for h in C06.ORDER for k in ('loops', 'coefs', 'polynomial')]
    tasks.append(('c18_constants', 'constants', dict(fn='c18_constants')))
    check.main('C18', 'C18', tasks, ['c18.cpp', 'c18c.cpp'], prepare=prepare, native=native,
               assumptions=['real arithmetic; all terms of the expansions kept (expansion flags 1)', 'decimal constants of the formulas stand for the rational numbers and zeta values they round'])
