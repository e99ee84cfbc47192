"""Verifier meaning of the contract vocabulary (contracts/vc.hpp)."""
from . import sym as S
from . import ir
from .exec import VCError, Alts, DEAD, Ptr, Park
from .sym import isc


def _nm(ex, st, p):
    return ex.cstr(st, p)


def _uniq(st, nm):
    k = st.counters.get(nm, 0)
    st.counters[nm] = k + 1
    return nm if k == 0 else '%s.%d' % (nm, k)


def vc_double(ex, st, a, ins):
    n = _uniq(st, _nm(ex, st, a[0]))
    s = S.sym(n, 'd')
    ex.inputs.setdefault(n, 'd')
    return s


def vc_int(ex, st, a, ins):
    n = _uniq(st, _nm(ex, st, a[0]))
    ex.inputs.setdefault(n, 32)
    return S.sym(n, 32)


def vc_bool(ex, st, a, ins):
    n = _uniq(st, _nm(ex, st, a[0]))
    ex.inputs.setdefault(n, (0, 1))
    s = S.sym(n, 32)
    return Alts([(S.icmp('eq', s, 0, 32), 0, None), (S.icmp('eq', s, 1, 32), 1, None)])


def vc_range(ex, st, a, ins):
    n = _uniq(st, _nm(ex, st, a[0]))
    s = S.sym(n, 32)
    lo, hi = S.sgn(a[1], 32), S.sgn(a[2], 32)
    ex.inputs.setdefault(n, (lo, hi))
    return Alts([(S.icmp('eq', s, S.mask(v, 32), 32), S.mask(v, 32), None) for v in range(lo, hi + 1)])


def vc_havoc(ex, st, a, ins):
    p = a[0]
    nm = _nm(ex, st, a[2])
    n = a[1]
    o = ex.wobj(st, p.obj)
    ex.clear(o, p.off, n)
    ex.cut(o, p.off, p.off + n)
    o.lazy = (o.lazy or []) + [(p.off, p.off + n, nm, -p.off)]
    ex.havocs[nm] = n
    return None


def vc_assume(ex, st, a, ins):
    c = a[0]
    c = S.icmp('ne', c, 0, 32)
    if isc(c):
        return None if c else DEAD
    return Alts([(c, None, None)])


def vc_check(ex, st, a, ins):
    st.checks.append(('bool', _nm(ex, st, a[0]), S.icmp('ne', a[1], 0, 32), None, len(st.pc)))


def vc_same(ex, st, a, ins):
    st.checks.append(('same', _nm(ex, st, a[0]), a[1], a[2], len(st.pc)))


def vc_near(ex, st, a, ins):
    st.checks.append(('near', _nm(ex, st, a[0]), a[1], a[2], len(st.pc)))


def vc_ident(ex, st, a, ins):
    st.checks.append(('ident', _nm(ex, st, a[0]), a[1], a[2], len(st.pc)))


def vc_iident(ex, st, a, ins):
    st.checks.append(('bool', _nm(ex, st, a[0]), S.icmp('eq', a[1], a[2], 64), None, len(st.pc)))


def vc_out(ex, st, a, ins):
    st.outs[_nm(ex, st, a[0])] = a[1]


def vc_mark(ex, st, a, ins):
    ex.marks.add(_nm(ex, st, a[0]))


def vc_frame(ex, st, a, ins):
    lab = _nm(ex, st, a[0])
    p, n, q = a[1], a[2], a[3]
    # compare cell by cell (8 byte granules, falling back to bytes)
    k = 0
    while k < n:
        w = 8 if k + 8 <= n else (4 if k + 4 <= n else 1)
        t = ir.D if w == 8 else ir.I(8 * w)
        po, qo = st.mem[p.obj], st.mem[q.obj]

        def pick(o, off):
            c = o.cells.get(off)
            return c[1] if c is not None and c[0] == w else None
        x, y = pick(po, p.off + k), pick(qo, q.off + k)
        if x is None and y is None:
            def split4(o, off):
                return any(off < j < off + 8 and j in o.cells or (off in o.cells and o.cells[off][0] < 8) for j in range(off, off + 8))
            if w == 8 and (split4(po, p.off + k) or split4(qo, q.off + k)):
                for d in (0, 4):
                    xx = ex.load(st, Ptr(p.obj, p.off + k + d), ir.I(32))
                    yy = ex.load(st, Ptr(q.obj, q.off + k + d), ir.I(32))
                    st.checks.append(('bool', '%s+%d' % (lab, k + d), S.icmp('eq', xx, yy, 32), None, len(st.pc)))
                k += w
                continue
        if x is not None and not (isinstance(x, S.Node) and x.ty == 'd') or y is not None and not (isinstance(y, S.Node) and y.ty == 'd'):
            if isinstance(x, Ptr) or isinstance(y, Ptr):
                if x != y:
                    raise VCError('frame over pointers')
                k += w
                continue
            t = ir.I(8 * w)
        x = ex.load(st, Ptr(p.obj, p.off + k), t)
        y = ex.load(st, Ptr(q.obj, q.off + k), t)
        if t is ir.D or (isinstance(x, S.Node) and x.ty == 'd'):
            st.checks.append(('ident', '%s+%d' % (lab, k), x, y, len(st.pc)))
        else:
            st.checks.append(('bool', '%s+%d' % (lab, k), S.icmp('eq', x, y, 8 * w), None, len(st.pc)))
        k += w


def fn(name):
    def h(ex, st, a, ins):
        return S.call(name, *a)
    return h


def vc_abs(ex, st, a, ins):
    return S.fabs(a[0])


def fnN(ex, st, a, ins):
    return S.call(_nm(ex, st, a[0]), *a[1:])


def idx(st, a):
    for x in a:
        if not isc(x):
            raise VCError('index of a named value is not known')
    return ''.join('[%d]' % S.sgn(x, 32) for x in a)


def vc_sym(ex, st, a, ins):
    n = _nm(ex, st, a[0]) + idx(st, a[1:])
    ex.inputs.setdefault(n, 'd')
    return S.sym(n, 'd')


def vc_flag(ex, st, a, ins):
    n = _nm(ex, st, a[0]) + idx(st, a[1:])
    ex.inputs.setdefault(n, (0, 1))
    s = S.sym(n, 1)
    if s in st.pc:
        return 1
    if S.bnot(s) in st.pc:
        return 0
    return Alts([(S.bnot(s), 0, None), (s, 1, None)])


def vc_cond(ex, st, a, ins):
    """the same value as vc_flag, not split into cases"""
    n = _nm(ex, st, a[0]) + idx(st, a[1:])
    ex.inputs.setdefault(n, (0, 1))
    return S.icast('zext', S.sym(n, 1), 1, 32)


def vc_fnv(ex, st, a, ins):
    n = _nm(ex, st, a[0])
    v = [ex.load(st, Ptr(a[1].obj, a[1].off + 8 * k), ir.D) for k in range(S.sgn(a[2], 32))]
    return S.call(n, *[canon(ex).term(x) for x in v])


def vc_join(ex, st, a, ins):
    k = S.sgn(a[0], 32)
    if st.ghost.get('joined', -1) < k:
        raise Park(k)


def canon(ex):
    return ex.solver.canon


TABLE = dict(vc_sym=vc_sym, vc_sym2=vc_sym, vc_flag=vc_flag, vc_cond=vc_cond, vc_fnv=vc_fnv, vc_join=vc_join, vc_double=vc_double, vc_int=vc_int, vc_bool=vc_bool, vc_range=vc_range, vc_havoc=vc_havoc,
             vc_assume=vc_assume, vc_check=vc_check, vc_same=vc_same, vc_near=vc_near, vc_ident=vc_ident, vc_iident=vc_iident,
             vc_out=vc_out, vc_mark=vc_mark, vc_frame=vc_frame, vc_log=fn('log'), vc_li2=fn('li2'), vc_sqrt=fn('sqrt'),
             vc_abs=vc_abs, vc_fn1=fnN, vc_fn2=fnN, vc_fn3=fnN)
