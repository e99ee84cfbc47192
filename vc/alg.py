"""Exact algebra back end.

Terms are evaluated as *formal* expressions over a large prime field F_P at exact
rational points.  log, sqrt, dilogarithm, trigonometric functions and pi are
transcendental/algebraic atoms: they get random field values that respect the
identities listed below (homomorphisms / canonicalisation), so that two terms
get the same value at a random point iff they are identical as formal
expressions modulo these identities (Schwartz-Zippel; error probability
< degree/|sample set| per trial, several independent trials).

identities built in:
  log(ab)=log a+log b, log 1=0, log|.|     sqrt(a)^2=a, sqrt(ab)=sqrt a sqrt b
  Li2: inversion, reflection, Landen (reduction to (0,1/2])
  sin/cos/tan of linear combinations of angles, of atan/asin/acos/atan2
  pi, pi^2, zeta(3), sqrt(2).. recognised in floating-point literals
Laurent series in a formal eps (with log(eps) as an atom) decide limits and
agreement of branches up to a given order.
"""
import hashlib
import math
import os
import random
from fractions import Fraction
from . import sym as S
from .sym import Node, isc

P = 0x12bb3cf8117e7f44602e36c3117782a9f90f3a680d0f4a58d66a85775517f15b0f1a84313484e4d19a1ff7acb6bce09cb77c2a0cfe370eaad3c66d8da7bc34776d1
INF = 10**9


class AlgError(Exception):
    pass


class PrecisionLost(AlgError):
    pass


def inv(a):
    a %= P
    if a == 0:
        raise ZeroDivisionError
    return pow(a, -1, P)


def q2p(q):
    return q.numerator % P * inv(q.denominator) % P


# ------------------------------------------------------------- literals
_PI = math.pi
_RC = {}
SPECIAL = [('pi', 1, math.pi), ('pi', 2, math.pi**2), ('pi', 4, math.pi**4), ('zeta3', 1, 1.2020569031595942),
           ('pi', -1, 1 / math.pi), ('pi', -2, 1 / math.pi**2),
           ('sqrt', 2, math.sqrt(2)), ('sqrt', 3, math.sqrt(3)), ('sqrt', 5, math.sqrt(5)), ('sqrt', 15, math.sqrt(15)), ('log', 2, math.log(2)),
           ('log', 3, math.log(3)), ('pi', 3, math.pi**3), ('pi', -4, math.pi**-4), ('pi', -6, math.pi**-6),
           ('log2sq', 2, math.log(2)**2), ('pisqrt', 3, math.pi / math.sqrt(3)), ('Li4h', 1, 0.5174790616738993863),
           ('log4', 2, math.log(2)**4), ('pilog', 2, math.pi**2 * math.log(2)**2), ('pilog1', 2, math.pi**2 * math.log(2))]


def simple_frac(x, maxbits=44, ulps=1.0):
    """simplest fraction within `ulps` ulp of x, if clearly simpler than the double"""
    if x == 0:
        return Fraction(0)
    if x == int(x) and abs(x) < 2**60:
        return Fraction(int(x))
    fx = Fraction(x)
    tol = Fraction(math.ulp(x)) * Fraction(ulps)
    # continued fraction
    h0, k0, h1, k1 = 0, 1, 1, 0
    y = fx
    for _ in range(60):
        a = y.numerator // y.denominator
        h0, k0, h1, k1 = h1, k1, a * h1 + h0, a * k1 + k0
        f = Fraction(h1, k1)
        if abs(f - fx) <= tol:
            if abs(h1).bit_length() + k1.bit_length() <= maxbits:
                return f
            return None
        r = y - a
        if r == 0:
            break
        y = 1 / r
    return None


def affine_z3(x):
    """integer plus integer multiple of zeta(3), folded by the compiler"""
    z = 1.2020569031595942
    for b in range(1, 3001):
        for sg in (b, -b):
            a = Fraction(x) - sg * Fraction(z)
            n = round(a)
            if abs(n) < 10**5 and abs(a - n) <= 4 * Fraction(math.ulp(max(abs(x), b * z, abs(n)))):
                return (Fraction(1), 'affz3', (n, sg))
    return None


SMOOTH = 0       # primes of the denominators of decimal literals, and the largest denominator, or 0
_SM = {}


def smooth_frac(x):
    """fraction within one ulp whose denominator has small prime factors only"""
    if SMOOTH not in _SM:
        primes, top = SMOOTH
        l = [1]
        for p in primes:
            n = []
            for d in l:
                while d <= top:
                    n.append(d)
                    d *= p
            l = n
        _SM[SMOOTH] = sorted(l)
    fx, tol = Fraction(x), Fraction(math.ulp(x))
    for d in _SM[SMOOTH]:
        n = round(fx * d)
        if abs(Fraction(n, d) - fx) <= tol:
            return Fraction(n, d)
    return None


def literal(bits):
    """-> list of (Fraction, kind, arg) meaning Fraction * atom"""
    r = _RC.get(bits)
    if r is not None:
        return r
    x = S.bits2d(bits)
    if x != x or x in (math.inf, -math.inf):
        raise AlgError('non-finite literal')
    f = simple_frac(x)
    if f is not None:
        r = (f, None, None)
    else:
        for k, a, v in SPECIAL:
            f = simple_frac(x / v, maxbits=30, ulps=3.0)
            if f is not None:
                r = (f, k, a)
                break
        else:
            q = smooth_frac(x) if SMOOTH else None
            r = (q, None, None) if q is not None else affine_z3(x) or (Fraction(x), None, None)
        if r[1] is None:
            UNRECOGNISED.add(x)
    _RC[bits] = r
    return r


UNRECOGNISED = set()


def is_prime_factor(n):
    import sympy
    return sympy.factorint(n)


class Ctx:
    """one random assignment of the atoms"""

    def __init__(self, seed):
        self.seed = str(seed)
        self.atoms = {}
        self.roots = {}
        self.I = self.sqrt_int(-1)
        self.opaque = 0

    def h(self, *key):
        k = key
        v = self.atoms.get(k)
        if v is None:
            d = hashlib.sha512(repr((self.seed,) + key).encode()).digest()
            d2 = hashlib.sha512(d).digest()
            v = self.atoms[k] = int.from_bytes(d + d2[:16], 'big') % P
            if v == 0:
                v = self.atoms[k] = 1
        return v

    @property
    def pi(self):
        return self.h('pi')

    # ------------------------------------------------ rationals
    def rat(self, a):
        """rational reconstruction; None if a is not a simple rational"""
        a %= P
        if a == 0:
            return Fraction(0)
        bound = 1 << 230
        r0, r1, s0, s1 = P, a, 0, 1
        while r1 > bound:
            q = r0 // r1
            r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
        if s1 == 0 or abs(s1) > bound:
            return None
        if s1 < 0:
            r1, s1 = -r1, -s1
        # random elements give numerator*denominator ~ P: reject unless clearly smaller
        if r1.bit_length() + s1.bit_length() > 460:
            return None
        return Fraction(r1, s1)

    _fac = {}

    def factor(self, n):
        f = Ctx._fac.get(n)
        if f is None:
            if n == 1:
                f = {}
            else:
                import sympy
                if n.bit_length() <= 100:
                    f = sympy.factorint(n)
                else:
                    f = sympy.factorint(n, limit=20000)
            Ctx._fac[n] = f
        return f

    def log(self, a):
        """log|a| of a field element"""
        q = self.rat(a)
        if q is None:
            self.opaque += 1
            b = min(a % P, -a % P)
            bi = inv(a)
            c = min(bi, -bi % P)
            if b <= c:
                return self.h('olog', b)
            return -self.h('olog', c) % P
        if q == 0:
            raise ZeroDivisionError
        r = 0
        for n, s in ((abs(q.numerator), 1), (q.denominator, -1)):
            for pr, e in self.factor(n).items():
                r += s * e * self.h('log', int(pr))
        return r % P

    def sqrt_int(self, n):
        """fixed square root of the (prime or -1) integer n mod P"""
        r = self.roots.get(n)
        if r is None:
            r = tonelli(n % P)
            if r is None:
                r = 0
                raise AlgError('non-residue %d' % n)
            self.roots[n] = r
        return r

    def sqrt(self, a):
        q = self.rat(a)
        if q is not None:
            if q == 0:
                return 0
            r = 1
            if q < 0:
                r = self.I
            for n, s in ((abs(q.numerator), 1), (q.denominator, -1)):
                for pr, e in self.factor(n).items():
                    b = pow(int(pr), e // 2, P)
                    if e % 2:
                        b = b * self.sqrt_int(int(pr)) % P
                    r = r * (b if s == 1 else inv(b)) % P
            return r
        self.opaque += 1
        r = tonelli(a % P)
        if r is None:
            raise AlgError('sqrt of non-residue')
        return min(r, P - r)

    # ------------------------------------------------ dilogarithm
    def li2(self, a):
        q = self.rat(a)
        if q is None:
            self.opaque += 1
            return self.h('oli2', a % P)
        return self.li2q(q)

    def li2q(self, q):
        pi2 = self.pi * self.pi % P
        L = lambda r: self.log(q2p(r))
        half = Fraction(1, 2)
        if q == 0:
            return 0
        if q == 1:
            return pi2 * inv(6) % P
        if q == half:
            return (pi2 * inv(12) - L(Fraction(2))**2 * inv(2)) % P
        if 0 < q < half:
            return self.h('li2', q.numerator, q.denominator)
        if half < q < 1:
            return (pi2 * inv(6) - L(q) * L(1 - q) - self.li2q(1 - q)) % P
        if q > 1:
            # Re Li2(q) = pi^2/3 - log^2(q)/2 - Li2(1/q)
            return (pi2 * inv(3) - L(q) * L(q) * inv(2) - self.li2q(1 / q)) % P
        # q < 0 : Landen  Li2(q) = -Li2(q/(q-1)) - log^2(1-q)/2
        return (-self.li2q(q / (q - 1)) - L(1 - q) * L(1 - q) * inv(2)) % P

    def lit(self, bits):
        f, k, a = literal(bits)
        r = q2p(f)
        if k is None:
            return r
        if k == 'pi':
            b = self.pi
            return r * (pow(b, a, P) if a > 0 else inv(pow(b, -a, P))) % P
        if k == 'affz3':
            return (a[0] + a[1] * self.h('zeta3', 1)) % P
        if k == 'sqrt':
            return r * self.sqrt(a) % P
        if k == 'log':
            return r * self.log(a) % P
        if k == 'log2sq':
            return r * pow(self.log(2), 2, P) % P
        if k == 'log4':
            return r * pow(self.log(2), 4, P) % P
        if k == 'pilog':
            return r * pow(self.log(2) * self.pi, 2, P) % P
        if k == 'pilog1':
            return r * self.log(2) * self.pi * self.pi % P
        if k == 'pisqrt':
            return r * self.pi * inv(self.sqrt(3)) % P
        return r * self.h(k, a) % P


_nonres = []


def tonelli(n):
    if n == 0:
        return 0
    if pow(n, (P - 1) // 2, P) != 1:
        return None
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = _nonres[0] if _nonres else 2
    while not _nonres:
        if pow(z, (P - 1) // 2, P) == P - 1:
            _nonres.append(z)
        else:
            z += 1
    m, c, t, r = s, pow(z, q, P), pow(n, q, P), pow(n, (q + 1) // 2, P)
    while t != 1:
        i, t2 = 0, t
        while t2 != 1:
            t2 = t2 * t2 % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c = i, b * b % P
        t, r = t * c % P, r * b % P
    return r


# ------------------------------------------------------------- Laurent series
class Ser:
    """sum_{k>=v} c[k-v] eps^k + O(eps^prec)"""
    __slots__ = ('v', 'c', 'prec')
    N = 12   # relative number of terms kept

    def __init__(self, v, c, prec=INF):
        # normalise
        i = 0
        n = len(c)
        while i < n and c[i] == 0:
            i += 1
        c = c[i:]
        v += i
        if prec < INF and len(c) > prec - v:
            c = c[:max(0, prec - v)]
        while c and c[-1] == 0:
            c = c[:-1]
        if len(c) > Ser.N:
            if v + Ser.N < prec:
                prec = v + Ser.N
            c = c[:Ser.N]
        if not c:
            v = 0
        self.v = v
        self.c = c
        self.prec = prec

    @staticmethod
    def const(a):
        return Ser(0, [a % P])

    def is_zero(self):
        if self.c:
            return False
        if self.prec >= INF:
            return True
        raise PrecisionLost()

    def __add__(self, o):
        prec = min(self.prec, o.prec)
        if not self.c:
            return Ser(o.v, o.c, prec)
        if not o.c:
            return Ser(self.v, self.c, prec)
        v = min(self.v, o.v)
        e = max(self.v + len(self.c), o.v + len(o.c))
        r = [0] * (e - v)
        for i, x in enumerate(self.c):
            r[i + self.v - v] = x
        for i, x in enumerate(o.c):
            j = i + o.v - v
            r[j] = (r[j] + x) % P
        return Ser(v, r, prec)

    def __neg__(self):
        return Ser(self.v, [-x % P for x in self.c], self.prec)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if not self.c or not o.c:
            # zero (maybe inexact)
            pa = INF
            if self.prec < INF:
                pa = self.prec + (o.v if o.c else min(0, 0))
            if o.prec < INF:
                pa = min(pa, o.prec + (self.v if self.c else 0))
            if (not self.c and self.prec >= INF) or (not o.c and o.prec >= INF):
                return Ser(0, [])
            return Ser(0, [], pa)
        prec = INF
        if self.prec < INF:
            prec = self.prec + o.v
        if o.prec < INF:
            prec = min(prec, o.prec + self.v)
        v = self.v + o.v
        n = len(self.c) + len(o.c) - 1
        if prec < INF:
            n = min(n, prec - v)
        n = min(n, Ser.N + 1)
        r = [0] * n
        oc = o.c
        for i, x in enumerate(self.c):
            if i >= n:
                break
            if x == 1:
                for j in range(min(len(oc), n - i)):
                    r[i + j] += oc[j]
            else:
                for j in range(min(len(oc), n - i)):
                    r[i + j] += x * oc[j]
        full = len(self.c) + len(o.c) - 1
        if n < full and prec >= INF:
            prec = v + n
        elif n < full:
            prec = min(prec, v + n)
        return Ser(v, [x % P for x in r], prec)

    def inverse(self):
        if not self.c:
            if self.prec >= INF:
                raise ZeroDivisionError
            raise PrecisionLost()
        if len(self.c) == 1 and self.prec >= INF:
            return Ser(-self.v, [inv(self.c[0])])
        n = Ser.N
        prec = INF
        if self.prec < INF:
            n = min(n, self.prec - self.v)
        i0 = inv(self.c[0])
        r = [i0]
        c = self.c
        for k in range(1, n):
            s = 0
            for j in range(1, min(k, len(c) - 1) + 1):
                s += c[j] * r[k - j]
            r.append(-s * i0 % P)
        return Ser(-self.v, r, -self.v + n)

    def coef(self, k):
        if k >= self.prec:
            raise PrecisionLost()
        i = k - self.v
        if 0 <= i < len(self.c):
            return self.c[i]
        return 0

    def __repr__(self):
        return 'Ser(v=%d, %d terms, prec=%s)' % (self.v, len(self.c), self.prec)


class Field:
    """element operations: generic over int (no series) and Ser"""

    def __init__(self, ctx, series):
        self.ctx = ctx
        self.series = series

    def const(self, a):
        return Ser.const(a) if self.series else a % P

    def add(self, a, b):
        return a + b if self.series else (a + b) % P

    def sub(self, a, b):
        return a - b if self.series else (a - b) % P

    def mul(self, a, b):
        return a * b if self.series else a * b % P

    def div(self, a, b):
        if self.series:
            return a * b.inverse()
        return a * inv(b) % P

    def neg(self, a):
        return -a if self.series else -a % P

    # -- analytic functions on series
    def unit(self, s):
        """s = c eps^v (1+u): returns c, v, u"""
        if not s.c:
            if s.prec >= INF:
                raise ZeroDivisionError
            raise PrecisionLost()
        c = s.c[0]
        ci = inv(c)
        u = Ser(0, [0] + [x * ci % P for x in s.c[1:]], s.prec - s.v if s.prec < INF else INF)
        return c, s.v, u

    def powser(self, u, coefs):
        """sum_k coefs[k] u^k for u = O(eps)"""
        r = Ser.const(0)
        if not u.c and u.prec >= INF:
            return Ser.const(coefs[0])
        for c in reversed(coefs):
            r = r * u + Ser.const(c)
        # truncated after len(coefs)-1 powers
        n = len(coefs)
        vu = u.v if u.c else 1
        return Ser(r.v, r.c, min(r.prec, n * max(1, vu)))

    def log(self, a):
        if not self.series:
            return self.ctx.log(a)
        c, v, u = self.unit(a)
        cs = [0] + [q2p(Fraction((-1)**(k + 1), k)) for k in range(1, Ser.N + 2)]
        r = self.powser(u, cs) + Ser.const(self.ctx.log(c))
        if v:
            r = r + Ser.const(v * self.ctx.h('logeps'))
        return r

    def sqrt(self, a):
        if not self.series:
            return self.ctx.sqrt(a)
        if not a.c and a.prec >= INF:
            return a
        c, v, u = self.unit(a)
        if v % 2:
            raise AlgError('sqrt of odd power')
        cs = [1]
        b = Fraction(1)
        for k in range(1, Ser.N + 2):
            b = b * (Fraction(1, 2) - (k - 1)) / k
            cs.append(q2p(b))
        r = self.powser(u, cs)
        return r * Ser(v // 2, [self.ctx.sqrt(c)])

    def li2(self, a):
        if not self.series:
            return self.ctx.li2(a)
        a0 = a.coef(0) if a.prec > 0 else None
        if a.v < 0 and a.c:
            # inversion: Re Li2(x) = pi^2/3 - log^2|x|/2 - Li2(1/x) for x>1 ; -pi^2/6 - log^2(-x)/2 - Li2(1/x) x<0
            raise AlgError('li2 of pole')
        w = a - Ser.const(a0)
        if a0 == 0:
            return self.powser(w, [0] + [q2p(Fraction(1, k * k)) for k in range(1, Ser.N + 2)])
        if a0 == 1:
            if not w.c and w.prec >= INF:
                return Ser.const(self.ctx.li2(1))
            one = Ser.const(1)
            oma = one - a
            r = Ser.const(self.ctx.pi * self.ctx.pi * inv(6)) - self.log(oma) * self.log(a)
            return r - self.li2(oma)
        # Taylor around a0: f' = -log(1-x)/x
        n = Ser.N + 1
        ln = [self.ctx.log(1 - a0)] + [-inv(k * pow(1 - a0, k, P)) % P for k in range(1, n)]
        # log(1-a0-t) = log(1-a0) - sum t^k/(k (1-a0)^k)
        iv = [inv(a0)]
        for k in range(1, n):
            iv.append(-iv[-1] * iv[0] % P)
        d = [0] * n
        for i in range(n):
            s = 0
            for j in range(i + 1):
                s += ln[j] * iv[i - j]
            d[i] = -s % P
        cs = [self.ctx.li2(a0)] + [d[k - 1] * inv(k) % P for k in range(1, n)]
        return self.powser(w, cs)


# ------------------------------------------------------------- evaluation
class Evaluator:
    """evaluates nodes; env: symbol name -> field element (int) or Ser"""

    def __init__(self, ctx, env, series=False, funcs=None, choose=None):
        self.ctx = ctx
        self.F = Field(ctx, series)
        self.env = env
        self.cache = {}
        self.funcs = funcs or {}
        self.choose = choose     # decision for ite conditions

    def __call__(self, root):
        if root.id in self.cache:
            return self.cache[root.id]
        # iterative post-order with lazy ite
        st = [root]
        cache = self.cache
        while st:
            n = st[-1]
            if n.id in cache:
                st.pop()
                continue
            if n.op == 'ite':
                c = self.choose(n.args[0]) if self.choose else None
                if c is None:
                    raise AlgError('unresolved conditional value')
                k = n.args[1] if c else n.args[2]
                if k.id in cache:
                    cache[n.id] = cache[k.id]
                    st.pop()
                else:
                    st.append(k)
                continue
            todo = [a for a in n.args if isinstance(a, Node) and a.id not in cache] if n.op not in TRIG and n.op not in ('sitofp', 'uitofp') else []
            if todo:
                st.extend(todo)
                continue
            cache[n.id] = self.one(n)
            st.pop()
        return cache[root.id]

    def one(self, n):
        op = n.op
        F = self.F
        C = self.cache
        a = n.args
        if op == 'dc':
            return F.const(self.ctx.lit(a[0]))
        if op == 'sym':
            v = self.env.get(a[0])
            if v is None:
                raise AlgError('unbound symbol ' + a[0])
            return v if not (F.series and isinstance(v, int)) else Ser.const(v)
        if op == 'fadd':
            return F.add(C[a[0].id], C[a[1].id])
        if op == 'fsub':
            return F.sub(C[a[0].id], C[a[1].id])
        if op == 'fmul':
            return F.mul(C[a[0].id], C[a[1].id])
        if op == 'fdiv':
            return F.div(C[a[0].id], C[a[1].id])
        if op == 'fneg':
            return F.neg(C[a[0].id])
        if op == 'fabs':
            s = self.choose(S.fcmp('olt', a[0], S.dconst(0.0))) if self.choose else None
            if s is None:
                raise AlgError('unresolved sign')
            v = C[a[0].id]
            return F.neg(v) if s else v
        if op in self.funcs:
            return self.funcs[op](self, n, [C[x.id] for x in a])
        if op == 'call:log':
            return F.log(C[a[0].id])
        if op == 'call:log1p':
            return F.log(F.add(F.const(1), C[a[0].id]))
        if op == 'call:sqrt':
            return F.sqrt(C[a[0].id])
        if op == 'call:li2':
            return F.li2(C[a[0].id])
        if op == 'call:pow':
            return self.pow(n)
        if op in TRIG:
            return self.trig(n)
        if op in ('sitofp', 'uitofp'):
            v = self.env.get(('int', a[0].id))
            if v is None and a[0].op == 'sym':
                v = self.env.get(a[0].args[0])
            if v is None and self.choose and a[0].ty == 1:
                v = 1 if self.choose(a[0]) else 0
            if v is None:
                raise AlgError('unbound integer')
            return F.const(v)
        if op in ('call:fmax', 'call:fmin'):
            x, y = a
            lt = self.choose(S.fcmp('olt', x, y)) if self.choose else None
            if lt is None:
                raise AlgError('unresolved max/min')
            big = (op == 'call:fmax')
            return C[(y if lt == big else x).id]
        if op.startswith('call:'):
            # opaque function: congruence only
            if F.series:
                vals = []
                for x in a:
                    s = C[x.id]
                    if s.c and (s.v < 0 or len(s.c) > 1 or s.v > 0):
                        raise AlgError('series of opaque function ' + op)
                    vals.append(s.coef(0))
                return Ser.const(self.ctx.h('fn', op, *vals))
            return self.ctx.h('fn', op, *[C[x.id] for x in a])
        raise AlgError('op ' + op)

    def pow(self, n):
        x, y = n.args
        F = self.F
        q = None
        yv = S.dval(y)
        if yv is not None:
            q = simple_frac(yv, 12)
        if q is not None and q.denominator in (1, 2):
            b = self.cache[x.id]
            if q.denominator == 2:
                b = F.sqrt(b)
            e = abs(q.numerator)
            r = F.const(1)
            for _ in range(e):
                r = F.mul(r, b)
            if q < 0:
                r = F.div(F.const(1), r)
            return r
        if F.series:
            raise AlgError('series pow')
        return self.ctx.h('pow', self.cache[x.id], self.cache[y.id])

    # ------------------------------------------------ trigonometry
    def angle(self, n):
        """linear form {atom node id: (node, Fraction)} and constant pi-multiple"""
        if n.op == 'fadd' or n.op == 'fsub':
            l1, c1 = self.angle(n.args[0])
            l2, c2 = self.angle(n.args[1])
            s = 1 if n.op == 'fadd' else -1
            r = dict(l1)
            for k, (nd, q) in l2.items():
                r[k] = (nd, r[k][1] + s * q if k in r else s * q)
            return r, c1 + s * c2
        if n.op == 'fneg':
            l, c = self.angle(n.args[0])
            return {k: (nd, -q) for k, (nd, q) in l.items()}, -c
        if n.op == 'fmul':
            for i in (0, 1):
                d = n.args[i]
                if d.op == 'dc':
                    f, k, _ = literal(d.args[0])
                    if k is None:
                        l, c = self.angle(n.args[1 - i])
                        return {kk: (nd, q * f) for kk, (nd, q) in l.items()}, c * f
        if n.op == 'fdiv' and n.args[1].op == 'dc':
            f, k, _ = literal(n.args[1].args[0])
            if k is None:
                l, c = self.angle(n.args[0])
                return {kk: (nd, q / f) for kk, (nd, q) in l.items()}, c / f
        if n.op == 'dc':
            f, k, a = literal(n.args[0])
            if f == 0:
                return {}, Fraction(0)
            if k == 'pi' and a == 1:
                return {}, f
        if n.op == 'ite':
            c = self.choose(n.args[0]) if self.choose else None
            if c is not None:
                return self.angle(n.args[1] if c else n.args[2])
        return {n.id: (n, Fraction(1))}, Fraction(0)

    def expi(self, nd, half):
        """exp(i*angle) (half: exp(i*angle/2))"""
        F = self.F
        one = F.const(1)
        I = F.const(self.ctx.I)
        if nd.op == 'call:atan':
            t = self(nd.args[0])
            z = F.div(F.add(one, F.mul(I, t)), F.sqrt(F.add(one, F.mul(t, t))))
        elif nd.op == 'call:asin':
            s = self(nd.args[0])
            z = F.add(F.sqrt(F.sub(one, F.mul(s, s))), F.mul(I, s))
        elif nd.op == 'call:acos':
            c = self(nd.args[0])
            z = F.add(c, F.mul(I, F.sqrt(F.sub(one, F.mul(c, c)))))
        elif nd.op == 'call:atan2':
            y = self(nd.args[0])
            x = self(nd.args[1])
            z = F.div(F.add(x, F.mul(I, y)), F.sqrt(F.add(F.mul(x, x), F.mul(y, y))))
        else:
            v = self(nd)
            if F.series:
                if not v.c and v.prec >= INF:
                    return one
                if v.v != 0 or len(v.c) > 1 or v.prec < INF:
                    raise AlgError('series of angle')
                v = v.c[0]
            # random point on the unit circle: z2 = exp(i angle/4) so that halves stay available
            u = self.ctx.h('angle', v)
            w = (1 + self.ctx.I * u) % P
            z1 = w * w % P * inv(1 + u * u) % P
            z4 = z1
            z2 = z4 * z4 % P       # exp(i angle/2)
            if half:
                return F.const(z2)
            return F.const(z2 * z2)
        if half:
            return F.sqrt(z)
        return z

    def trig(self, n):
        F = self.F
        lin, cpi = self.angle(n.args[0])
        z = F.const(1)
        for k, (nd, q) in lin.items():
            if q == 0:
                continue
            if q.denominator not in (1, 2):
                raise AlgError('angle fraction')
            e = self.expi(nd, q.denominator == 2)
            m = q.numerator
            if m < 0:
                e = F.div(F.const(1), e)
                m = -m
            for _ in range(m):
                z = F.mul(z, e)
        if cpi:
            d = cpi * 4
            if d.denominator != 1:
                raise AlgError('angle constant')
            w = (1 + self.ctx.I) * inv(self.ctx.sqrt(2)) % P
            z = F.mul(z, F.const(pow(w, int(d) % 8, P)))
        zi = F.div(F.const(1), z)
        h = F.const(inv(2))
        c = F.mul(F.add(z, zi), h)
        s = F.mul(F.mul(F.sub(z, zi), h), F.const(-self.ctx.I % P))
        if n.op == 'call:cos':
            return c
        if n.op == 'call:sin':
            return s
        return F.div(s, c)


TRIG = ('call:sin', 'call:cos', 'call:tan')


# ------------------------------------------------------------- numeric evaluation of conditions
def float_eval(root, env, cache=None, funcs=None):
    """high-precision numeric value of a term/condition at a concrete point (mpmath)"""
    import mpmath as mp
    cache = {} if cache is None else cache
    for n in S.topo([root]) if isinstance(root, Node) else []:
        if n.id in cache:
            continue
        cache[n.id] = _fe(n, env, cache, mp, funcs)
    if isc(root):
        return root
    return cache[root.id]


def _fe(n, env, c, mp, funcs=None):
    op, a = n.op, n.args
    g = lambda x: c[x.id] if isinstance(x, Node) else x
    if op == 'dc':
        d = S.dval(n)
        if d - d != 0:
            return mp.mpf(d)
        f, k, b = literal(a[0])
        if k is None:
            return mp.mpf(f.numerator) / f.denominator
        q = mp.mpf(f.numerator) / f.denominator
        if k == 'pi':
            return q * mp.pi ** b
        if k in ('sqrt', 'log'):
            return q * getattr(mp, k)(b)
        if k in ('log2sq', 'log4'):
            return q * mp.log(2) ** b
        if k == 'pilog':
            return q * (mp.log(2) * mp.pi) ** 2
        if k == 'pilog1':
            return q * mp.log(2) * mp.pi ** 2
        if k == 'pisqrt':
            return q * mp.pi / mp.sqrt(3)
        if k == 'zeta3':
            return q * mp.zeta(3)
        if k == 'Li4h':
            return q * mp.polylog(4, mp.mpf(1) / 2)
        return mp.mpf(S.bits2d(a[0]))
    if op == 'sym':
        v = env[a[0]]
        if isinstance(v, Fraction):
            return mp.mpf(v.numerator) / v.denominator
        return v
    if op == 'fadd':
        return g(a[0]) + g(a[1])
    if op == 'fsub':
        return g(a[0]) - g(a[1])
    if op == 'fmul':
        return g(a[0]) * g(a[1])
    if op == 'fdiv':
        d = g(a[1])
        if d == 0:
            return mp.nan
        return g(a[0]) / d
    if op == 'fneg':
        return -g(a[0])
    if op == 'fabs':
        return abs(g(a[0]))
    if op == 'ite':
        return g(a[1]) if g(a[0]) else g(a[2])
    if op == 'flt':
        return int(g(a[0]) < g(a[1]))
    if op == 'fle':
        return int(g(a[0]) <= g(a[1]))
    if op == 'feq':
        return int(g(a[0]) == g(a[1]))
    if op == 'fnan':
        return int(mp.isnan(g(a[0])))
    if op == 'not':
        return 1 - g(a[0])
    if op == 'and':
        return g(a[0]) & g(a[1])
    if op == 'or':
        return g(a[0]) | g(a[1])
    if op == 'xor1':
        return g(a[0]) ^ g(a[1])
    if op == 'ieq':
        return int(g(a[0]) == g(a[1]))
    if op == 'islt':
        return int(S.sgn(g(a[0]), a[2]) < S.sgn(g(a[1]), a[2]))
    if op == 'iult':
        return int(g(a[0]) < g(a[1]))
    if op == 'sitofp':
        w = a[0].ty
        return mp.mpf(S.sgn(g(a[0]), w))
    if op == 'uitofp':
        return mp.mpf(g(a[0]))
    if funcs and op in funcs:
        return funcs[op](*[g(x) for x in a])
    try:
        if op == 'call:log':
            return mp.log(g(a[0])) if g(a[0]) > 0 else (mp.nan if g(a[0]) < 0 else mp.ninf)
        if op == 'call:log1p':
            return mp.log(1 + g(a[0]))
        if op == 'call:sqrt':
            return mp.sqrt(g(a[0])) if g(a[0]) >= 0 else mp.nan
        if op == 'call:li2':
            return mp.re(mp.polylog(2, g(a[0])))
        if op == 'call:pow':
            return mp.power(g(a[0]), g(a[1]))
        if op == 'call:fmax':
            return max(g(a[0]), g(a[1]))
        if op == 'call:fmin':
            return min(g(a[0]), g(a[1]))
        if op == 'call:atan2':
            return mp.atan2(g(a[0]), g(a[1]))
        if op == 'call:hypot':
            return mp.hypot(g(a[0]), g(a[1]))
        if op.startswith('call:') and hasattr(mp, op[5:]):
            r = getattr(mp, op[5:])(*[g(x) for x in a])
            return mp.re(r) if mp.im(r) == 0 else mp.nan
    except (ValueError, ZeroDivisionError):
        return mp.nan
    # deterministic pseudo value for opaque functions
    if n.ty == 'd':
        h = hashlib.sha256(repr((op, [mp.nstr(g(x), 15) for x in a])).encode()).digest()
        return mp.mpf(int.from_bytes(h[:6], 'big')) / 2**48 + mp.mpf('0.5')
    if op in ('zext',):
        return g(a[0])
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr'):
        return S.ibin(op, int(g(a[0])), int(g(a[1])), n.ty)
    if op == 'trunc':
        return S.mask(int(g(a[0])), n.ty)
    if op == 'sext':
        return S.mask(S.sgn(int(g(a[0])), a[0].ty), n.ty)
    raise AlgError('float_eval op ' + op)
