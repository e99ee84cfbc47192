"""Hash-consed symbolic terms.

Sorts: 'd' (double), ints by bit width n (1 = bool).
Int/bool constants are plain Python ints (unsigned); doubles are always Node.
"""
import math
import struct


class Node:
    __slots__ = ('op', 'args', 'ty', 'id', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def mk(op, args, ty):
    k = (op, args, ty)
    r = _tab.get(k)
    if r is None:
        r = Node()
        r.op = op
        r.args = args
        r.ty = ty
        _n[0] += 1
        r.id = _n[0]
        _tab[k] = r
    return r


def d2bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def bits2d(b):
    return struct.unpack('<d', struct.pack('<Q', b & (2**64 - 1)))[0]


def dconst(x):
    return mk('dc', (d2bits(x),), 'd')


def dval(n):
    """python float of a double constant node, else None"""
    if n.op == 'dc':
        return bits2d(n.args[0])
    return None


def sym(name, ty):
    return mk('sym', (name,), ty)


_fresh = [0]


def fresh(name, ty):
    _fresh[0] += 1
    return sym('%s!%d' % (name, _fresh[0]), ty)


def isc(x):
    return isinstance(x, int)


def mask(x, n):
    return x & ((1 << n) - 1)


def sgn(x, n):
    return x - (1 << n) if x >> (n - 1) & 1 else x


# ------------------------------------------------------------------ booleans
def bnot(a):
    if isc(a):
        return 1 - a
    if a.op == 'not':
        return a.args[0]
    return mk('not', (a,), 1)


def band(a, b):
    if isc(a):
        return b if a else 0
    if isc(b):
        return a if b else 0
    if a is b:
        return a
    return mk('and', (a, b), 1)


def bor(a, b):
    if isc(a):
        return 1 if a else b
    if isc(b):
        return 1 if b else a
    if a is b:
        return a
    return mk('or', (a, b), 1)


# ------------------------------------------------------------------ doubles
def fbin(op, a, b):
    x, y = dval(a), dval(b)
    if x is not None and y is not None:
        try:
            if op == 'fadd':
                return dconst(x + y)
            if op == 'fsub':
                return dconst(x - y)
            if op == 'fmul':
                return dconst(x * y)
            if op == 'fdiv':
                if y == 0.0:
                    if x == 0.0 or x != x:
                        return dconst(math.nan)
                    return dconst(math.copysign(math.inf, x) * math.copysign(1.0, y))
                return dconst(x / y)
        except OverflowError:
            pass
    return mk(op, (a, b), 'd')


def fneg(a):
    x = dval(a)
    if x is not None:
        return dconst(-x)
    if a.op == 'fneg':
        return a.args[0]
    return mk('fneg', (a,), 'd')


def fabs(a):
    x = dval(a)
    if x is not None:
        return dconst(abs(x))
    if a.op == 'fneg':
        return fabs(a.args[0])
    if a.op == 'fabs':
        return a
    return mk('fabs', (a,), 'd')


FC = {'oeq': lambda x, y: x == y, 'ogt': lambda x, y: x > y, 'oge': lambda x, y: x >= y,
      'olt': lambda x, y: x < y, 'ole': lambda x, y: x <= y, 'one': lambda x, y: x < y or x > y,
      'ord': lambda x, y: x == x and y == y, 'uno': lambda x, y: x != x or y != y,
      'ueq': lambda x, y: not (x < y or x > y), 'ugt': lambda x, y: not x <= y,
      'uge': lambda x, y: not x < y, 'ult': lambda x, y: not x >= y, 'ule': lambda x, y: not x > y,
      'une': lambda x, y: not x == y}


def fcmp(pred, a, b):
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    x, y = dval(a), dval(b)
    if x is not None and y is not None:
        return int(FC[pred](x, y))
    # normal form: olt / ole / oeq / uno (+ not)
    if pred == 'ogt':
        return mk('flt', (b, a), 1)
    if pred == 'olt':
        return mk('flt', (a, b), 1)
    if pred == 'oge':
        return mk('fle', (b, a), 1)
    if pred == 'ole':
        return mk('fle', (a, b), 1)
    if pred == 'oeq':
        return mk('feq', (a, b) if a.id <= b.id else (b, a), 1)
    if pred == 'une':
        return bnot(fcmp('oeq', a, b))
    if pred == 'uge':
        return bnot(fcmp('olt', a, b))
    if pred == 'ugt':
        return bnot(fcmp('ole', a, b))
    if pred == 'ult':
        return bnot(fcmp('oge', a, b))
    if pred == 'ule':
        return bnot(fcmp('ogt', a, b))
    if pred == 'uno':
        ra = fisnan(a)
        rb = fisnan(b)
        return bor(ra, rb)
    if pred == 'ord':
        return bnot(fcmp('uno', a, b))
    if pred == 'one':
        return bor(mk('flt', (a, b), 1), mk('flt', (b, a), 1))
    if pred == 'ueq':
        return bnot(fcmp('one', a, b))
    raise ValueError(pred)


def fisnan(a):
    x = dval(a)
    if x is not None:
        return int(x != x)
    return mk('fnan', (a,), 1)


def ite(c, a, b):
    if isc(c):
        return a if c else b
    if a is b:
        return a
    if isc(a) and isc(b) and a == b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    ty = a.ty if isinstance(a, Node) else (b.ty if isinstance(b, Node) else None)
    if ty is None:
        ty = 'int?'
    if ty == 1:
        # boolean ite
        return bor(band(c, a), band(bnot(c), b))
    return mk('ite', (c, a, b), ty)


def iite(c, a, b, n):
    """integer ite with explicit width"""
    if isc(c):
        return a if c else b
    if isc(a) and isc(b):
        if a == b:
            return a
        if n == 1:
            return c if a else bnot(c)
    if n == 1:
        return bor(band(c, a), band(bnot(c), b))
    if a is b:
        return a
    return mk('ite', (c, a, b), n)


# ------------------------------------------------------------------ ints
def ibin(op, a, b, n):
    if isc(a) and isc(b):
        sa, sb = sgn(a, n), sgn(b, n)
        if op == 'add':
            return mask(a + b, n)
        if op == 'sub':
            return mask(a - b, n)
        if op == 'mul':
            return mask(a * b, n)
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return mask(a << b, n) if b < n else 0
        if op == 'lshr':
            return a >> b if b < n else 0
        if op == 'ashr':
            return mask(sa >> min(b, n - 1), n)
        if op == 'udiv' and b:
            return a // b
        if op == 'urem' and b:
            return a % b
        if op == 'sdiv' and sb:
            q = abs(sa) // abs(sb)
            return mask(q if (sa < 0) == (sb < 0) else -q, n)
        if op == 'srem' and sb:
            q = abs(sa) % abs(sb)
            return mask(q if sa >= 0 else -q, n)
    if n == 1:
        if op == 'and':
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        if op == 'xor':
            if isc(a):
                return bnot(b) if a else b
            if isc(b):
                return bnot(a) if b else a
            return mk('xor1', (a, b), 1)
    if isc(b):
        if b == 0:
            if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if op in ('mul', 'and'):
                return 0
        if b == 1 and op in ('mul', 'sdiv', 'udiv'):
            return a
        if op == 'and' and b == (1 << n) - 1:
            return a
    if isc(a):
        if a == 0:
            if op in ('add', 'or', 'xor'):
                return b
            if op in ('mul', 'and', 'shl', 'lshr', 'ashr', 'sdiv', 'udiv', 'srem', 'urem'):
                return 0
        if a == 1 and op == 'mul':
            return b
    # structure for packed pairs: or(shl(zext x,k), zext y)
    if op in ('shl', 'lshr') and isc(b):
        if op == 'lshr' and isinstance(a, Node):
            if a.op == 'or':
                return ibin('or', ibin('lshr', a.args[0], b, n), ibin('lshr', a.args[1], b, n), n)
            if a.op == 'shl' and isc(a.args[1]) and a.args[1] == b and isinstance(a.args[0], Node) and \
                    a.args[0].op == 'zext' and width(a.args[0].args[0]) + b <= n:
                return a.args[0]
            if a.op == 'zext' and width(a.args[0]) <= b:
                return 0
    return mk(op, (a, b), n)


def width(x):
    return x.ty


def icmp(pred, a, b, n):
    if isc(a) and isc(b):
        sa, sb = sgn(a, n), sgn(b, n)
        return int({'eq': a == b, 'ne': a != b, 'ugt': a > b, 'uge': a >= b, 'ult': a < b, 'ule': a <= b,
                    'sgt': sa > sb, 'sge': sa >= sb, 'slt': sa < sb, 'sle': sa <= sb}[pred])
    if pred == 'ne':
        return bnot(icmp('eq', a, b, n))
    if pred in ('ugt', 'sgt'):
        return icmp(pred[0] + 'lt', b, a, n)
    if pred in ('uge', 'sge'):
        return bnot(icmp(pred[0] + 'lt', a, b, n))
    if pred in ('ule', 'sle'):
        return bnot(icmp(pred[0] + 'lt', b, a, n))
    if pred == 'eq':
        if a is b:
            return 1
        if isc(a):
            a, b = b, a
        if n == 1:
            if isc(b):
                return a if b else bnot(a)
            return bnot(mk('xor1', (a, b), 1))
        if isc(b) and isinstance(a, Node):
            if a.op == 'zext':
                w = width(a.args[0])
                if b >> w:
                    return 0
                return icmp('eq', a.args[0], b, w)
            if a.op == 'ite' and isc(a.args[1]) and isc(a.args[2]):
                e1, e2 = a.args[1] == b, a.args[2] == b
                if e1 and e2:
                    return 1
                if e1:
                    return a.args[0]
                if e2:
                    return bnot(a.args[0])
                return 0
        if isinstance(b, Node) and isinstance(a, Node) and a.id > b.id:
            a, b = b, a
    if pred in ('ult', 'slt') and a is b:
        return 0
    return mk('i' + pred + str(n) if False else 'i' + pred, (a, b, n), 1)


def icast(op, a, n, m):
    if isc(a):
        if op == 'zext':
            return a
        if op == 'sext':
            return mask(sgn(a, n), m)
        if op == 'trunc':
            return mask(a, m)
    if op == 'trunc':
        if a.op in ('zext', 'sext'):
            w = width(a.args[0])
            if w == m:
                return a.args[0]
            if w < m:
                return icast(a.op, a.args[0], w, m)
            return icast('trunc', a.args[0], w, m)
        if a.op == 'or' and not isc(a.args[0]) and not isc(a.args[1]):
            x = icast('trunc', a.args[0], n, m)
            y = icast('trunc', a.args[1], n, m)
            return ibin('or', x, y, m)
        if a.op == 'shl' and isc(a.args[1]) and a.args[1] >= m:
            return 0
        if m == 1:
            return bnot(icmp('eq', mk('trunc', (a,), 1), 0, 1)) if False else mk('trunc', (a,), 1)
    if op == 'zext' and a.op == 'zext':
        return mk('zext', a.args, m)
    return mk(op, (a,), m)


def sitofp(a, n):
    if isc(a):
        return dconst(float(sgn(a, n)))
    return mk('sitofp', (a,), 'd')


def uitofp(a, n):
    if isc(a):
        return dconst(float(a))
    return mk('uitofp', (a,), 'd')


def bitcast_d2i(a):
    if a.op == 'dc':
        return a.args[0]
    if a.op == 'i2d':
        return a.args[0]
    return mk('d2i', (a,), 64)


def bitcast_i2d(a):
    if isc(a):
        return mk('dc', (a,), 'd')
    if a.op == 'd2i':
        return a.args[0]
    return mk('i2d', (a,), 'd')


def call(name, *args):
    return mk('call:' + name, tuple(args), 'd')


def show(n, depth=6):
    if isc(n):
        return str(n)
    if n.op == 'dc':
        return repr(bits2d(n.args[0]))
    if n.op == 'sym':
        return n.args[0]
    if depth == 0:
        return '...'
    return '(%s %s)' % (n.op, ' '.join(show(a, depth - 1) if isinstance(a, (Node, int)) else str(a) for a in n.args))


def topo(roots):
    """post-order list of all nodes below roots"""
    out = []
    seen = set()
    st = [(r, False) for r in roots if isinstance(r, Node)]
    while st:
        n, done = st.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        st.append((n, True))
        for a in n.args:
            if isinstance(a, Node) and a.id not in seen:
                st.append((a, False))
    return out
