"""z3 back end: feasibility of paths and discharge of boolean obligations.

mode 'fp'   : doubles are IEEE binary64 values; comparison, negation, absolute value,
              min/max and NaN behaviour exact; add/mul/... either exact or uninterpreted
              (congruence only; sound for proving since every total function is allowed)
mode 'real' : doubles are mathematical reals (rounding ignored, NaN excluded)
"""
import time
import z3
from fractions import Fraction
from . import sym as S
from .sym import Node, isc
from .canon import Canon

DSORT = z3.Float64()
RNE = z3.RNE()


class Tr:
    def __init__(self, mode='real', arith='uf', uf_ops=()):
        self.mode = mode
        self.arith = arith
        self.cache = {}
        self.ufs = {}
        self.side = []        # side axioms
        self.side_for = {}
        self.sidec = {}
        self.uf_ops = set(uf_ops)
        self.sqrtc = {}

    def uf(self, name, *sorts):
        k = (name,) + tuple(str(s) for s in sorts)
        f = self.ufs.get(k)
        if f is None:
            f = self.ufs[k] = z3.Function(name, *sorts)
        return f

    def dsort(self):
        return DSORT if self.mode == 'fp' else z3.RealSort()

    def const_d(self, bits):
        x = S.bits2d(bits)
        if self.mode == 'fp':
            return z3.FPVal(x, DSORT)
        if x != x or x in (float('inf'), float('-inf')):
            return z3.Real('const_%016x' % bits)
        fr = Fraction(x)
        return z3.Q(fr.numerator, fr.denominator)

    def i(self, x, n):
        if isc(x):
            if n == 1:
                return z3.BoolVal(bool(x))
            return z3.BitVecVal(x, n)
        return self.t(x)

    def t(self, root):
        if isc(root):
            return z3.BoolVal(bool(root))
        c = self.cache
        if root.id in c:
            return c[root.id]
        for n in S.topo([root]):
            if n.id not in c:
                k = len(self.side)
                c[n.id] = self.one(n)
                if len(self.side) > k:
                    self.side_for[n.id] = self.side[k:]
        return c[root.id]

    def side_of(self, conds):
        """axioms about the terms that occur in the conditions"""
        out = {}
        for r in conds:
            if isc(r):
                continue
            v = self.sidec.get(r.id)
            if v is None:
                v = self.sidec[r.id] = [n.id for n in S.topo([r]) if n.id in self.side_for]
            for i in v:
                if i not in out:
                    out[i] = self.side_for[i]
        return [e for v in out.values() for e in v]

    def one(self, n):
        op = n.op
        a = n.args
        c = self.cache
        g = lambda x: c[x.id]
        if op == 'dc':
            return self.const_d(a[0])
        if op == 'sym':
            if n.ty == 'd':
                return z3.FP(a[0], DSORT) if self.mode == 'fp' else z3.Real(a[0])
            if n.ty == 1:
                return z3.Bool(a[0])
            return z3.BitVec(a[0], n.ty)
        if op == 'not':
            return z3.Not(g(a[0]))
        if op == 'and':
            return z3.And(g(a[0]), g(a[1]))
        if op == 'or' and n.ty == 1:
            return z3.Or(g(a[0]), g(a[1]))
        if op == 'xor1':
            return z3.Xor(g(a[0]), g(a[1]))
        if op == 'ite':
            if n.ty == 'd':
                return z3.If(g(a[0]), g(a[1]), g(a[2]))
            w = n.ty
            return z3.If(g(a[0]), self.i(a[1], w), self.i(a[2], w))
        if n.ty == 'd' or op in ('flt', 'fle', 'feq', 'fnan'):
            return self.one_fp(n, g) if self.mode == 'fp' else self.one_real(n, g)
        # integers
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            x, y = self.i(a[0], n.ty), self.i(a[1], n.ty)
            if n.ty == 1:
                raise ValueError('bool op ' + op)
            return {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
                    'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
                    'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
                    'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        if op in ('ieq', 'iult', 'islt'):
            w = a[2]
            x, y = self.i(a[0], w), self.i(a[1], w)
            if op == 'ieq':
                return x == y
            return z3.ULT(x, y) if op == 'iult' else x < y
        if op in ('zext', 'sext'):
            x = self.i(a[0], a[0].ty)
            w = a[0].ty
            if w == 1:
                one = z3.BitVecVal(1, n.ty) if op == 'zext' else z3.BitVecVal(-1, n.ty)
                return z3.If(x, one, z3.BitVecVal(0, n.ty))
            return z3.ZeroExt(n.ty - w, x) if op == 'zext' else z3.SignExt(n.ty - w, x)
        if op == 'trunc':
            x = self.i(a[0], a[0].ty)
            if n.ty == 1:
                return z3.Extract(0, 0, x) == 1
            return z3.Extract(n.ty - 1, 0, x)
        if op in ('fptosi', 'fptoui'):
            if self.mode == 'fp':
                return z3.fpToSBV(z3.RTZ(), g(a[0]), z3.BitVecSort(n.ty))
            return self.uf(op + str(n.ty), z3.RealSort(), z3.BitVecSort(n.ty))(g(a[0]))
        if op == 'd2i':
            if self.mode == 'fp':
                b = z3.BitVec('d2i_%d' % n.id, 64)
                self.side.append(z3.fpBVToFP(b, DSORT) == g(a[0]))
                return b
            return self.uf('d2i', z3.RealSort(), z3.BitVecSort(64))(g(a[0]))
        raise ValueError('smt: op %s' % op)

    def one_fp(self, n, g):
        op = n.op
        a = n.args
        if op == 'flt':
            return z3.fpLT(g(a[0]), g(a[1]))
        if op == 'fle':
            return z3.fpLEQ(g(a[0]), g(a[1]))
        if op == 'feq':
            return z3.fpEQ(g(a[0]), g(a[1]))
        if op == 'fnan':
            return z3.fpIsNaN(g(a[0]))
        if op == 'fneg':
            return z3.fpNeg(g(a[0]))
        if op == 'fabs':
            return z3.fpAbs(g(a[0]))
        if op == 'i2d':
            return z3.fpBVToFP(self.i(a[0], 64), DSORT)
        if op == 'sitofp':
            return z3.fpSignedToFP(RNE, self.i(a[0], a[0].ty), DSORT)
        if op == 'uitofp':
            return z3.fpUnsignedToFP(RNE, self.i(a[0], a[0].ty) if a[0].ty != 1 else z3.If(g(a[0]), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), DSORT)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv') and self.arith == 'exact' and op not in self.uf_ops:
            f = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return f(RNE, g(a[0]), g(a[1]))
        if op == 'call:sqrt' and self.arith == 'exact' and 'sqrt' not in self.uf_ops:
            return z3.fpSqrt(RNE, g(a[0]))
        if op == 'call:fmax':
            x, y = g(a[0]), g(a[1])
            return z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpLT(x, y), y, x)))
        if op == 'call:fmin':
            x, y = g(a[0]), g(a[1])
            return z3.If(z3.fpIsNaN(x), y, z3.If(z3.fpIsNaN(y), x, z3.If(z3.fpLT(y, x), y, x)))
        args = [g(x) if isinstance(x, Node) else self.const_d(x) for x in a]
        if op in ('fadd', 'fmul'):
            # commutative
            if a[0].id > a[1].id:
                args.reverse()
        f = self.uf(op, *([x.sort() for x in args] + [DSORT]))
        r = f(*args)
        # facts true of every IEEE operation we leave uninterpreted
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            self.side.append(z3.Implies(z3.Or(z3.fpIsNaN(args[0]), z3.fpIsNaN(args[1])), z3.fpIsNaN(r)))
            if op == 'fmul' and a[0] is a[1]:
                self.side.append(z3.Not(z3.fpLT(r, z3.FPVal(0, DSORT))))
                self.side.append(z3.Implies(z3.Not(z3.fpIsNaN(args[0])), z3.Not(z3.fpIsNaN(r))))
        if op == 'call:sqrt':
            zero = z3.FPVal(0, DSORT)
            self.side.append(z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(args[0]), z3.fpLT(args[0], zero)))
            self.side.append(z3.Not(z3.fpLT(r, zero)))
        return r

    def one_real(self, n, g):
        op = n.op
        a = n.args
        if op == 'flt':
            return g(a[0]) < g(a[1])
        if op == 'fle':
            return g(a[0]) <= g(a[1])
        if op == 'feq':
            return g(a[0]) == g(a[1])
        if op == 'fnan':
            return z3.BoolVal(False)
        if op == 'fneg':
            return -g(a[0])
        if op == 'fabs':
            x = g(a[0])
            return z3.If(x >= 0, x, -x)
        if op in self.uf_ops:
            return self.uf(op, *([z3.RealSort()] * (len(a) + 1)))(*[g(x) for x in a])
        if self.arith == 'lin' and op in ('fmul', 'fdiv', 'call:sqrt') and not (op == 'fmul' and 'dc' in (a[0].op, a[1].op)) and \
                not (op == 'fdiv' and a[1].op == 'dc' and S.dval(a[1])):
            # products of unknowns are left uninterpreted
            v = sorted(a, key=lambda x: x.id) if op == 'fmul' else a
            r = self.uf(op, *([z3.RealSort()] * (len(a) + 1)))(*[g(x) for x in v])
            if op == 'call:sqrt' or (op == 'fmul' and a[0] is a[1]):
                self.side.append(r >= 0)
            return r
        if op == 'fadd':
            return g(a[0]) + g(a[1])
        if op == 'fsub':
            return g(a[0]) - g(a[1])
        if op == 'fmul':
            return g(a[0]) * g(a[1])
        if op == 'fdiv':
            return g(a[0]) / g(a[1])
        if op == 'sitofp':
            return z3.ToReal(z3.BV2Int(self.i(a[0], a[0].ty), True))
        if op == 'uitofp':
            if a[0].ty == 1:
                return z3.If(g(a[0]), z3.RealVal(1), z3.RealVal(0))
            return z3.ToReal(z3.BV2Int(self.i(a[0], a[0].ty), False))
        if op == 'call:sqrt':
            y = z3.Real('sqrt_%d' % n.id)
            x = g(a[0])
            self.side.append(y >= 0)
            self.side.append(z3.Implies(x >= 0, y * y == x))
            return y
        if op == 'call:fmax':
            x, y = g(a[0]), g(a[1])
            return z3.If(x < y, y, x)
        if op == 'call:fmin':
            x, y = g(a[0]), g(a[1])
            return z3.If(y < x, y, x)
        if op == 'i2d':
            return self.uf('i2d', z3.BitVecSort(64), z3.RealSort())(self.i(a[0], 64))
        args = [g(x) for x in a]
        r = self.uf(op, *([z3.RealSort()] * (len(a) + 1)))(*args)
        if op in ('call:sin', 'call:cos'):
            self.side.append(z3.And(r <= 1, r >= -1))
        if op == 'call:exp':
            self.side.append(r > 0)
        if op == 'call:log':
            x = args[0]
            self.side.append(z3.Implies(x > 1, r > 0))
            self.side.append(z3.Implies(z3.And(x > 0, x < 1), r < 0))
            self.side.append(z3.Implies(x == 1, r == 0))
        if op == 'call:pow':
            self.side.append(z3.Implies(args[0] > 0, r > 0))
        return r


class Ord(Tr):
    """orderings only: compared quantities are atoms, one per class of algebraically equal terms"""

    def __init__(self, canon, uf_ops=()):
        super().__init__('real', 'lin', uf_ops)
        self.canon = canon

    def t(self, root):
        if isc(root):
            return z3.BoolVal(bool(root))
        c = self.cache
        if root.id in c:
            return c[root.id]
        todo = [root]
        order = []
        seen = set()
        while todo:
            n = todo[-1]
            if n.id in c or n.id in seen and n in order:
                todo.pop()
                continue
            kids = [] if n.op in ('flt', 'fle', 'feq') else [x for x in n.args if isinstance(x, Node) and x.id not in c]
            if kids and n.id not in seen:
                seen.add(n.id)
                todo.extend(kids)
                continue
            k = len(self.side)
            c[n.id] = self.cmp(n) if n.op in ('flt', 'fle', 'feq') else self.one(n)
            if len(self.side) > k:
                self.side_for[n.id] = self.side[k:]
            todo.pop()
        return c[root.id]

    def cmp(self, n):
        x, y = self.atom(n.args[0]), self.atom(n.args[1])
        return x < y if n.op == 'flt' else x <= y if n.op == 'fle' else x == y

    def atom(self, n):
        n = self.canon.term(n)
        if n.op == 'dc':
            return self.const_d(n.args[0])
        if n.op == 'sym':
            return z3.Real(n.args[0])
        if n.op == 'ite':
            return z3.If(self.t(n.args[0]), self.atom(n.args[1]), self.atom(n.args[2]))
        if n.op in ('call:fmax', 'call:fmin'):
            x, y = self.atom(n.args[0]), self.atom(n.args[1])
            return z3.If(x < y, y, x) if n.op == 'call:fmax' else z3.If(y < x, y, x)
        r = z3.Real('atom_%d' % n.id)
        if n.op in ('call:sqrt', 'fabs') or n.op == 'fmul' and n.args[0] is n.args[1]:
            self.side.append(r >= 0)
        return r


_symc = {}


def syms_of(n):
    v = _symc.get(n.id)
    if v is None:
        v = _symc[n.id] = frozenset(x.args[0] for x in S.topo([n]) if x.op == 'sym')
    return v


class Solver:
    def __init__(self, mode='real', arith='uf', uf_ops=(), timeout_ms=2000):
        self.mode = mode
        self.arith = arith
        self.uf_ops = uf_ops
        self.timeout = timeout_ms
        self.memo = {}
        self.proved = set()
        self.queries = 0
        self.time = 0.0
        self.unknown = 0
        self.tr = Tr(mode, 'exact' if arith in ('lin', 'ord') else arith, uf_ops)
        self.canon = Canon()
        self.ord = Ord(self.canon, uf_ops) if arith == 'ord' else None
        # coarser reading of the same conditions, for quick refutations
        self.lin = Tr(mode, 'lin', uf_ops) if mode == 'real' else None

    def _check(self, conds, timeout=None, lin=True):
        if self.ord:
            r, s = self._check1(self.ord, conds, 5000)
            if r == z3.unsat:
                return r, s
        if lin and self.lin and any(n.op in ('fmul', 'fdiv', 'call:sqrt') for n in S.topo([c for c in conds if not isc(c)])):
            r, s = self._check1(self.lin, conds, 1000)
            if r == z3.unsat:
                return r, s
        return self._check1(self.tr, conds, timeout)

    def _check1(self, tr, conds, timeout=None):
        t0 = time.time()
        self.queries += 1
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        n0 = 0
        es = [tr.t(c) for c in conds]
        for e in es:
            s.add(e)
        for e in tr.side_of(conds):
            s.add(e)
        r = s.check()
        self.time += time.time() - t0
        return r, s

    def slice(self, pc, roots):
        """conditions connected to the given ones through common symbols"""
        have = set()
        for r in roots:
            have |= syms_of(r)
        rest = [c for c in pc]
        out = []
        while True:
            more = [c for c in rest if syms_of(c) & have]
            if not more:
                break
            out += more
            ids = {id(c) for c in more}
            rest = [c for c in rest if id(c) not in ids]
            for c in more:
                have |= syms_of(c)
        ids = {c.id for c in out}
        return [c for c in pc if c.id in ids]

    def feasible(self, pc, new=0):
        """may be true, given that it was before the conditions from index new on were added"""
        if new:
            pc = self.slice(pc[:new], pc[new:]) + pc[new:]
        k = frozenset(c.id for c in pc)
        r = self.memo.get(k)
        if r is None:
            rr, _ = self._check1(self.ord, pc) if self.ord else self._check1(self.lin, pc) if self.arith == 'lin' else self._check(pc)
            if rr == z3.unknown:
                self.unknown += 1
            r = self.memo[k] = rr != z3.unsat
        return r

    def prove(self, pc, goal, timeout=None):
        """('proved',None) | ('failed',model) | ('unknown',reason)"""
        if isc(goal):
            if goal:
                return 'proved', None
            # goal is false: proved only if the path is infeasible
            r, s = self._check(pc, timeout)
        else:
            sl = self.slice(pc, [goal])
            if len(sl) < len(pc):
                k = (frozenset(c.id for c in sl), goal.id)
                if k in self.proved:
                    return 'proved', None
                r, s = self._check(sl + [S.bnot(goal)], timeout)
                if r == z3.unsat:
                    self.proved.add(k)
                    return 'proved', None
            r, s = self._check(list(pc) + [S.bnot(goal)], timeout)
        if r == z3.unsat:
            return 'proved', None
        if r == z3.sat:
            return 'failed', s.model()
        return 'unknown', s.reason_unknown()


def enumerate_values(pc, term, width, limit=64):
    tr = Tr('real')
    s = z3.Solver()
    s.set('timeout', 5000)
    for c in pc:
        s.add(tr.t(c))
    x = tr.t(term)
    for e in tr.side:
        s.add(e)
    out = []
    while True:
        r = s.check()
        if r == z3.unsat:
            return out
        if r != z3.sat or len(out) >= limit:
            from .exec import VCError
            raise VCError('too many values for symbolic address')
        v = s.model().eval(x, model_completion=True).as_long()
        out.append((S.icmp('eq', term, v, width), S.sgn(v, width)))
        s.add(x != v)


def model_values(model, syms):
    """concrete values for the symbols (name -> python value)"""
    out = {}
    byname = {d.name(): d for d in model.decls() if d.arity() == 0}
    for name, ty in syms:
        d = byname.get(name)
        if d is None:
            out[name] = 0.0 if ty == 'd' else 0
            continue
        v = model[d]
        out[name] = zval(v, ty)
    return out


def zval(v, ty):
    if ty == 'd':
        if z3.is_fp(v):
            if z3.is_fprm(v):
                return 0.0
            if v.isNaN():
                return float('nan')
            if v.isInf():
                return float('-inf') if v.isNegative() else float('inf')
            b = z3.simplify(z3.fpToIEEEBV(v)).as_long()
            return S.bits2d(b)
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if ty == 1:
        return int(z3.is_true(v))
    return v.as_long()
