"""Specification terms in Python."""
from fractions import Fraction
from . import sym as S
from .sym import Node


def lit(x):
    if isinstance(x, E):
        return x.n
    if isinstance(x, Node):
        return x
    if isinstance(x, Fraction):
        return S.fbin('fdiv', S.dconst(float(x.numerator)), S.dconst(float(x.denominator)))
    return S.dconst(float(x))


class E:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = lit(n)

    def __add__(self, o): return E(S.fbin('fadd', self.n, lit(o)))
    def __radd__(self, o): return E(S.fbin('fadd', lit(o), self.n))
    def __sub__(self, o): return E(S.fbin('fsub', self.n, lit(o)))
    def __rsub__(self, o): return E(S.fbin('fsub', lit(o), self.n))
    def __mul__(self, o): return E(S.fbin('fmul', self.n, lit(o)))
    def __rmul__(self, o): return E(S.fbin('fmul', lit(o), self.n))
    def __truediv__(self, o): return E(S.fbin('fdiv', self.n, lit(o)))
    def __rtruediv__(self, o): return E(S.fbin('fdiv', lit(o), self.n))
    def __neg__(self): return E(S.fneg(self.n))

    def __pow__(self, k):
        if k < 0:
            return 1 / (self ** -k)
        r = E(1)
        for _ in range(k):
            r = r * self
        return r

    def __lt__(self, o): return S.fcmp('olt', self.n, lit(o))
    def __le__(self, o): return S.fcmp('ole', self.n, lit(o))
    def __gt__(self, o): return S.fcmp('ogt', self.n, lit(o))
    def __ge__(self, o): return S.fcmp('oge', self.n, lit(o))


def sym(n): return E(S.sym(n, 'd'))
def log(x): return E(S.call('log', lit(x)))
def sqrt(x): return E(S.call('sqrt', lit(x)))
def li2(x): return E(S.call('li2', lit(x)))
def absv(x): return E(S.fabs(lit(x)))
def fn(name, *a): return E(S.call(name, *[lit(x) for x in a]))
def q(a, b): return E(Fraction(a, b))
def near(x, c, r): return absv(x - c) <= r
def away(x, c, r): return absv(x - c) >= r
def land(*c):
    r = 1
    for x in c:
        r = S.band(r, x)
    return r
def lor(*c):
    r = 0
    for x in c:
        r = S.bor(r, x)
    return r
