"""Exact rational functions and polynomials of terms; certified bounds by Bernstein coefficients."""
from fractions import Fraction
from math import comb
from . import sym as S
from .sym import Node


def subst(node, sub, cache=None):
    """replace symbols (by name) by terms"""
    cache = {} if cache is None else cache
    g = lambda a: cache[a.id] if isinstance(a, Node) else a
    for n in S.topo([node]):
        if n.id in cache:
            continue
        if n.op == 'sym':
            cache[n.id] = sub.get(n.args[0], n)
            continue
        a = [g(x) for x in n.args]
        if all(x is y for x, y in zip(a, n.args)):
            cache[n.id] = n
        elif n.op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            cache[n.id] = S.fbin(n.op, *a)
        elif n.op == 'fneg':
            cache[n.id] = S.fneg(*a)
        elif n.op == 'fabs':
            cache[n.id] = S.fabs(*a)
        elif n.op in ('flt', 'fle', 'feq'):
            cache[n.id] = S.fcmp('o' + n.op[1:], *a)
        elif n.op == 'not':
            cache[n.id] = S.bnot(*a)
        elif n.op == 'and':
            cache[n.id] = land(*a)
        elif n.op == 'or':
            cache[n.id] = S.bnot(land(*[S.bnot(x) for x in a]))
        elif n.op == 'ite':
            cache[n.id] = S.ite(*a)
        elif n.op.startswith('call:'):
            cache[n.id] = S.call(n.op[5:], *a)
        else:
            cache[n.id] = S.mk(n.op, tuple(a), n.ty)
    return g(node)


def land(*c):
    r = 1
    for x in c:
        r = S.band(r, x)
    return r


def in_field(node, gens, one, lit=None):
    """value of the term in a sympy field; gens: function node -> field element | None"""
    c = {}
    for n in S.topo([node]):
        g = gens(n, c)
        if g is not None:
            c[n.id] = g
        elif n.op == 'dc':
            q = Fraction(S.dval(n)) if lit is None else lit(n)
            c[n.id] = one * q.numerator / q.denominator
        elif n.op == 'fadd':
            c[n.id] = c[n.args[0].id] + c[n.args[1].id]
        elif n.op == 'fsub':
            c[n.id] = c[n.args[0].id] - c[n.args[1].id]
        elif n.op == 'fmul':
            c[n.id] = c[n.args[0].id] * c[n.args[1].id]
        elif n.op == 'fdiv':
            c[n.id] = c[n.args[0].id] / c[n.args[1].id]
        elif n.op == 'fneg':
            c[n.id] = -c[n.args[0].id]
        elif n.op == 'fabs':
            c[n.id] = None
        else:
            raise ValueError('not rational: ' + n.op)
    return c[node.id]


# polynomials: list of Fractions, lowest degree first
def padd(a, b):
    n = max(len(a), len(b))
    return [(a[i] if i < len(a) else 0) + (b[i] if i < len(b) else 0) for i in range(n)]


def pscale(a, s):
    return [x * s for x in a]


def pmul(a, b):
    r = [Fraction(0)] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return r


def bernstein(p, a, b):
    """Bernstein coefficients of p on [a, b]"""
    n = len(p) - 1
    # shift: q(t) = p(a + (b-a) t)
    q = [Fraction(0)] * (n + 1)
    w = b - a
    # Taylor shift by Horner
    c = list(p)
    for i in range(n + 1):
        for j in range(n - 1, i - 1, -1):
            c[j] += a * c[j + 1]
    q = [c[k] * w ** k for k in range(n + 1)]
    return [sum(q[k] * comb(i, k) / Fraction(comb(n, k)) for k in range(i + 1)) for i in range(n + 1)]


def _split(c):
    n = len(c)
    left, right, cur = [], [], list(c)
    for k in range(n):
        left.append(cur[0])
        right.append(cur[-1])
        cur = [(cur[i] + cur[i + 1]) / 2 for i in range(len(cur) - 1)]
    return left, right[::-1]


def nonneg(p, a, b, depth=14):
    """certified p >= 0 on [a, b]: True; False with a witness point; None undecided"""
    st = [(bernstein([Fraction(x) for x in p], Fraction(a), Fraction(b)), Fraction(a), Fraction(b), 0)]
    while st:
        c, lo, hi, d = st.pop()
        if min(c) >= 0:
            continue
        if c[0] < 0:
            return False, lo
        if c[-1] < 0:
            return False, hi
        if d >= depth:
            return None, lo
        # keep the numbers short
        l, r = _split(c)
        m = (lo + hi) / 2
        st.append((l, lo, m, d + 1))
        st.append((r, m, hi, d + 1))
    return True, None


def close(num, den, target, rem, eps, a, b):
    """certified |num/den - target| <= eps - rem on [a, b] (target polynomial, rem bounds its truncation error)"""
    ok, w = nonneg(den, a, b)
    if not ok:
        den, num = pscale(den, -1), pscale(num, -1)
        ok, w = nonneg(den, a, b)
        if not ok:
            return False, w
    d = padd(num, pscale(pmul(target, den), -1))
    e = pscale(den, Fraction(eps) - Fraction(rem))
    for s in (1, -1):
        ok, w = nonneg(padd(e, pscale(d, s)), a, b)
        if not ok:
            return ok, w
    return True, None
