import random
from fractions import Fraction
from vc import alg, build, check, eigen
X = ('-fno-access-control',)
SRC = ['mh2_fo/MSSM_mass_eigenstates.cpp', 'mh2_fo/MSSM_spectrum.cpp']
H = ['c23.cpp']
P = alg.P


def mod():
    return check.load_module(H, SRC, X, None, [r'himalaya'])


PARTS = ('21MSSM_mass_eigenstates15delta_mh2_1loopE', '21MSSM_mass_eigenstates25delta_mh2_1loop_gaugelessE', '21MSSM_mass_eigenstates31delta_mh2_1loop_gaugeless_derivE', '21MSSM_mass_eigenstates15delta_mh2_2loopE')
SRCB = ['mh2_fo/MSSM_mass_eigenstates.cpp']


def mod_b():
    return check.load_module(['c23b.cpp'], SRCB, X, None, [r'himalaya'], PARTS)


def mod_c():
    return check.load_module(['c23c.cpp'], SRCB, X, None, [r'himalaya'])


def task_b(out, fn, mod):
    r = check.Run(globals()[mod](), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500, contracts={'vc_eigh2': eigen.eigh2_function}, ctors=True)
    r.discharge({}, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


# ------------------------------------------------------- spectra over the prime field
# The contract of the diagonalisation (M = Z^T D Z, Z Z^T = 1; C07) is algebraic: points of the field that satisfy it exactly
# are found from the mass matrices of the code itself, evaluated at random parameters.
def pmulmod(a, b, f):
    n = len(f) - 1
    r = [0] * (2 * n - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    for i in range(2 * n - 2, n - 1, -1):
        c = r[i] % P
        if c:
            for j in range(n):
                r[i - n + j] -= c * f[j]
    return [x % P for x in r[:n]]


def ppow(a, e, f):
    r = [1] + [0] * (len(f) - 2)
    for b in bin(e)[2:]:
        r = pmulmod(r, r, f)
        if b == '1':
            r = pmulmod(r, a, f)
    return r


def trim(a):
    a = [x % P for x in a]
    while a and not a[-1]:
        a.pop()
    return a


def pgcd(a, b):
    a, b = trim(a), trim(b)
    while b:
        iv = alg.inv(b[-1])
        while len(a) >= len(b):
            c = a[-1] * iv
            for i in range(len(b)):
                a[len(a) - len(b) + i] -= c * b[i]
            a = trim(a[:-1])
        a, b = b, a
    iv = alg.inv(a[-1])
    return [x * iv % P for x in a]


def roots(f, rng):
    """roots of a polynomial with distinct roots in the field, None otherwise"""
    n = len(f) - 1
    if n == 0:
        return []
    if n == 1:
        return [-f[0] % P]
    x = [0, 1] + [0] * (n - 2) if n > 2 else [0, 1]
    if ppow(x, P, f) != x:
        return None

    def split(g):
        k = len(g) - 1
        if k == 1:
            return [-g[0] % P]
        while True:
            s = [rng.randrange(P), 1] + [0] * (k - 2)
            h = ppow(s, (P - 1) // 2, g)
            h[0] -= 1
            if not trim(h):
                continue
            d = pgcd(g, h)
            if 1 < len(d) < len(g):
                q, a = [], list(g)
                for i in range(len(g) - len(d), -1, -1):
                    c = a[i + len(d) - 1] % P
                    q.append(c)
                    for j in range(len(d)):
                        a[i + j] -= c * d[j]
                return split(d) + split(q[::-1])
    r = split(f)
    return r if len(set(r)) == n else None


def charpoly(m):
    n = len(m)
    k = [[0] * n for _ in range(n)]
    c = [0] * n + [1]
    for i in range(1, n + 1):
        k = [[(sum(m[a][x] * k[x][b] for x in range(n)) + (c[n - i + 1] if a == b else 0)) % P for b in range(n)] for a in range(n)]
        t = sum(m[a][x] * k[x][a] for a in range(n) for x in range(n))
        c[n - i] = -t * alg.inv(i) % P
    return c


def nullvec(m):
    """unit vector of a one-dimensional kernel, None if its norm is not a square"""
    n = len(m)
    a = [list(r) for r in m]
    piv = []
    for c in range(n):
        r = next((r for r in range(len(piv), n) if a[r][c] % P), None)
        if r is None:
            continue
        k = len(piv)
        a[k], a[r] = a[r], a[k]
        iv = alg.inv(a[k][c])
        a[k] = [x * iv % P for x in a[k]]
        for r in range(n):
            if r != k and a[r][c]:
                f = a[r][c]
                a[r] = [(x - f * y) % P for x, y in zip(a[r], a[k])]
        piv.append(c)
    free = [c for c in range(n) if c not in piv]
    if len(free) != 1:
        return None
    v = [0] * n
    v[free[0]] = 1
    for k, c in enumerate(piv):
        v[c] = -a[k][free[0]] % P
    s = alg.tonelli(sum(x * x for x in v) % P)
    if not s:
        return None
    iv = alg.inv(s)
    return [x * iv % P for x in v]


def eigh(m, rng):
    if all(m[i][k] == 0 for i in range(len(m)) for k in range(len(m)) if i != k):
        return [m[i][i] for i in range(len(m))], [[int(i == k) for k in range(len(m))] for i in range(len(m))]
    ev = roots(charpoly(m), rng)
    if ev is None:
        return None
    z = [nullvec([[m[i][k] - (e if i == k else 0) for k in range(len(m))] for i in range(len(m))]) for e in ev]
    return None if None in z else (ev, z)


class Spectrum:
    def __init__(self, outs, ctx, seed):
        self.outs, self.ctx, self.rng, self.env = outs, ctx, random.Random(seed), {}

    def draw(self, *names):
        for n in names:
            self.env[n + ('' if n.endswith(']') else '[0]')] = alg.q2p(Fraction(self.rng.randint(1, 10**6), self.rng.randint(1, 10**4)))

    def matrix(self, n, k=2):
        ev = alg.Evaluator(self.ctx, self.env)
        return [[ev(self.outs['%s%d%d' % (n, i, j)]) for j in range(k)] for i in range(k)]

    def put(self, n, z, s):
        for i, e in enumerate(s[0]):
            self.env['%s[%d]' % (n, i)] = e
            for k, x in enumerate(s[1][i]):
                self.env['%s[%d][%d]' % (z, i, k)] = x

    def sector(self, params, *what):
        """draws the parameters until the mass matrices have their eigenvalues and unit eigenvectors in the field"""
        for _ in range(20000):
            self.draw(*params)
            done = []
            for n, z, k in what:
                if n == 'Cha':
                    m = self.matrix(n)
                    h = [[sum(m[i][x] * m[j][x] for x in range(2)) % P for j in range(2)] for i in range(2)]
                    s = eigh(h, self.rng)
                    if s is None:
                        break
                    d = [alg.tonelli(e) for e in s[0]]
                    if not all(d):
                        break
                    up = [[sum(s[1][i][x] * m[x][k] for x in range(2)) * alg.inv(d[i]) % P for k in range(2)] for i in range(2)]
                    done += [('Cha', 'UM', (d, s[1])), ('Cha', 'UP', (d, up))]
                else:
                    s = eigh(self.matrix(n, k), self.rng)
                    if s is None:
                        break
                    done.append((n, z, s))
            else:
                for d in done:
                    self.put(*d)
                return
        raise alg.AlgError('no spectrum found')

    def build(self):
        self.draw('Q', 'Q[1]', 'p2', 'h', 'g3', 'M3')
        self.sector(('vu', 'vd', 'g1', 'g2', 'MA'), ('hh', 'ZH', 2), ('Ah', 'ZA', 2), ('Hpm', 'ZP', 2))
        self.sector(('mu', 'M2'), ('Cha', 'UM', 2))
        self.sector(('M1',), ('Chi', 'ZN', 4))
        self.sector(('yt', 'At', 'mq2[2]', 'mu2[2]'), ('St', 'ZT', 2))
        self.sector(('yb', 'Ab', 'md2[2]'), ('Sb', 'ZB', 2))
        self.sector(('ytau', 'Atau', 'ml2[2]', 'me2[2]'), ('Stau', 'ZTau', 2))
        self.sector(['%s[%d]' % (n, i) for n in ('mq2', 'mu2', 'md2', 'ml2', 'me2') for i in range(2)],
                    *[(n, z, 2) for n, z in (('Su', 'ZU'), ('Sd', 'ZD'), ('Sc', 'ZC'), ('Ss', 'ZS'), ('Se', 'ZE'), ('Sm', 'ZM'))])
        return self.env


def floats(rng):
    """a physical point for the real code"""
    u = lambda a, b: Fraction(rng.randint(a, b))
    e = {'Q[0]': u(500, 3000), 'Q[1]': u(3001, 9000), 'p2[0]': u(1, 90000), 'h[0]': Fraction(1), 'g1[0]': Fraction(rng.randint(40, 50), 100), 'g2[0]': Fraction(rng.randint(60, 70), 100), 'g3[0]': Fraction(1),
         'mu[0]': u(-2000, 2000), 'vd[0]': u(20, 170), 'vu[0]': u(170, 245), 'yt[0]': Fraction(rng.randint(5, 9), 10), 'yb[0]': Fraction(rng.randint(1, 9), 10), 'ytau[0]': Fraction(rng.randint(1, 9), 10),
         'M1[0]': u(100, 2000), 'M2[0]': u(100, 2000), 'M3[0]': u(100, 2000), 'MA[0]': u(100, 2000)}
    for n in ('At', 'Ab', 'Atau'):
        e[n + '[0]'] = u(-1500, 1500)
    for n in ('mq2', 'mu2', 'md2', 'ml2', 'me2'):
        for i in range(3):
            e['%s[%d]' % (n, i)] = u(10**6, 10**7)
    return e


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='ord', select_fork=False, timeout_ms=500, ctors=True)
    rng = random.Random('%s/%s' % (check.SEED, fn))
    bad = set()
    for i, st in enumerate(r.states):
        if st.status == 'throw':
            r.add(check.Result(r.key('no exception', i), 'failed', 'alg', 'an exception leaves the function'))
            continue
        same = [c for c in st.checks if c[0] == 'same']
        res = [None] * len(same)
        for t in range(2 if build_tier() == 'quick' else 6):
            err = None
            for retry in range(20):
                ctx = alg.Ctx('%s/%s/%d/%d/%d' % (check.SEED, fn, i, t, retry))
                try:
                    env = Spectrum(st.outs, ctx, '%s/%s/%d/%d/%d' % (check.SEED, fn, i, t, retry)).build()
                    ev = alg.Evaluator(ctx, env)
                    vals = [(ev(c[2]), ev(c[3])) for c in same]
                    break
                except (ZeroDivisionError, alg.AlgError) as e:
                    err = str(e) or repr(e)
                    if 'unresolved' in err or 'unbound' in err:
                        retry = 99
                        break
            else:
                retry = 99
            if retry == 99:
                res = [x or ('unknown', err) for x in res]
                break
            out.trials += 1
            for k, (a, b) in enumerate(vals):
                if a != b:
                    res[k] = ('failed', 'the two sides differ at an exact point')
        for c, x in zip(same, res):
            q = check.Result(r.key(c[1], i), x[0] if x else 'proved', 'alg', x[1] if x else '')
            if x and c[1] not in bad:
                bad.add(c[1])
                q.points = [dict(floats(rng), only_at=k % 2) for k in range(20)]
            r.add(q)
        if not same:
            raise RuntimeError('no obligations')
    r.finish()


def build_tier():
    import os
    return os.environ.get('VERIF_TIER', 'quick')


def prepare():
    mod(), mod_b(), mod_c()


def native(r):
    if r.harness in ('c23_assembly', 'c23_momentum_iteration', 'c23_momentum_iteration_numerical', 'c23_point'):
        return check.native_runner(['c23c.cpp' if r.harness == 'c23_point' else 'c23b.cpp'], None, X, fortran=True)(r)
    return check.native_runner(H, SRC + ['mh2_fo/PV.cpp', 'mh2_fo/Linalg.cpp'], X, partial=True)(r)


def run():
    tasks = [(n, 'task', dict(fn=n)) for n in ('c23_running', 'c23_running_gaugeless', 'c23_gaugeless_limit', 'c23_only_at', 'c23_from_masses')]
    tasks += [(n, 'task_b', dict(fn=n, mod='mod_b')) for n in ('c23_assembly', 'c23_momentum_iteration', 'c23_momentum_iteration_numerical')] + [('c23_point', 'task_b', dict(fn='c23_point', mod='mod_c'))]
    check.main('C23', 'C23', tasks, H + ['c23b.cpp', 'c23c.cpp'], prepare=prepare, native=native,
               bounded=['numerical momentum iteration: at most 3 iterations'],
               assumptions=['real arithmetic',
                            'contracts of the loop integrals (their dependence on the scale, symmetry, derivative at zero momentum): proved as C09',
                            'contract of the diagonalisation (masses and mixing matrices decompose the mass matrices of the code): C07'])
