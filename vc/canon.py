"""Identification of algebraically equal terms: values at two fixed random points of a large prime field.
Equal terms get one representative, so that the solver and the contracts of opaque functions see them as equal."""
import random
from fractions import Fraction
from . import alg
from . import sym as S
from .sym import Node


class FP(alg.Evaluator):
    """values of terms with real symbols at random rationals; conditionals and moduli are opaque functions of their parts"""

    def __init__(self, seed):
        super().__init__(alg.Ctx('canon/%s' % seed), {})
        self.seed = seed
        self.angles = {}

    def root(self, v):
        h = self.ctx.h
        q = self.ctx.rat(v)
        if q is not None and q >= 0:
            from math import isqrt
            x, y = isqrt(q.numerator), isqrt(q.denominator)
            if x * x == q.numerator and y * y == q.denominator:
                return alg.q2p(Fraction(x, y))
        return h('sqrt', v)

    def value(self, root):
        for n in S.topo([root]):
            if n.id not in self.cache:
                self.cache[n.id] = self.one1(n)
        return self.cache[root.id]

    def one1(self, n):
        op, a, h = n.op, n.args, self.ctx.h
        C = lambda x: self.cache[x.id] if isinstance(x, Node) else ('const', x)
        if op == 'sym' and n.ty == 'd':
            r = random.Random('%s/%s' % (self.seed, a[0]))
            return alg.q2p(Fraction(r.randint(10**6, 10**9), r.randint(10**6, 10**9)))
        try:
            if op == 'fabs':
                v = C(a[0])
                return h('fabs', min(v, -v % alg.P))
            if op == 'call:sqrt':
                return self.root(C(a[0]))
            if op == 'call:atan':
                v = h('atan', C(a[0]))
                self.angles[v] = (1, C(a[0]))
                self.angles[2 * v % alg.P] = (2, C(a[0]))
                return v
            if op in ('call:sin', 'call:cos', 'call:tan') and C(a[0]) in self.angles:
                k, t = self.angles[C(a[0])]
                inv = pow(1 + t * t, -1, alg.P)
                if k == 1:
                    r = pow(self.root((1 + t * t) % alg.P), -1, alg.P)
                    return {'call:sin': t * r, 'call:cos': r, 'call:tan': t}[op] % alg.P
                return {'call:sin': 2 * t * inv, 'call:cos': (1 - t * t) * inv, 'call:tan': 2 * t * pow(1 - t * t, -1, alg.P)}[op] % alg.P
            if op in ('call:fmax', 'call:fmin'):
                return h(op, *sorted(C(x) for x in a))
            if n.ty == 'd' and op not in ('ite', 'sitofp', 'uitofp') and all(x.ty == 'd' for x in a if isinstance(x, Node)):
                return self.one(n)
        except (alg.AlgError, ZeroDivisionError):
            pass
        if op in ('feq', 'ieq'):
            return h(op, *sorted((C(x) for x in a[:2]), key=repr))
        return h(op, n.ty, *[C(x) for x in a])


class Canon:
    def __init__(self):
        self.e = [FP(1), FP(2)]
        self.rep = {}
        self.memo = {}

    def key(self, n):
        return tuple(e.value(n) for e in self.e)

    def term(self, n):
        """representative of the terms equal to n"""
        if not isinstance(n, Node) or n.op in ('sym', 'dc'):
            if isinstance(n, Node) and n.id not in self.memo:
                self.memo[n.id] = self.rep.setdefault(self.key(n), n)
            return self.memo[n.id] if isinstance(n, Node) else n
        r = self.memo.get(n.id)
        if r is None:
            r = self.memo[n.id] = self.rep.setdefault(self.key(n), n)
        return r
