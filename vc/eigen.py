"""Assumed contracts of the external linear algebra library (Eigen), reached through contracts/shim."""
from . import sym as S
from . import ir
from .exec import Ptr, VCError
from .expr import E, sym, sqrt
from .exec import Alts
from .intrinsics import canon


def rd(ex, st, p, k):
    return ex.load(st, Ptr(p.obj, p.off + 8 * k), ir.D)


def wr(ex, st, p, k, v):
    ex.store(st, Ptr(p.obj, p.off + 8 * k), v, 8)


def eigh2_arbitrary(ex, st, a, ins):
    """symmetric 2x2: real eigenvalues in ascending order, otherwise arbitrary"""
    m, ev, vec = a
    l0, l1 = S.sym('eigenvalue 0', 'd'), S.sym('eigenvalue 1', 'd')
    wr(ex, st, ev, 0, l0)
    wr(ex, st, ev, 1, l1)
    for k in range(4):
        wr(ex, st, vec, k, S.sym('eigenvector %d' % k, 'd'))
    return Alts([(S.fcmp('ole', l0, l1), None, None)])


def svd3(ex, st, a, ins):
    """singular values of a 3x3 matrix: descending and not negative, named after the first entry of the matrix"""
    m, sv = a
    x = rd(ex, st, m, 0)
    nm = S.show(x)
    v = [S.sym('sv %s %d' % (nm, k), 'd') for k in range(3)]
    for k in range(3):
        wr(ex, st, sv, k, v[k])
    return None


def eigh2_rotation(ex, st, a, ins):
    """symmetric 2x2 with known rotation: the harness exports M00, M01, M11 and the decomposition c, s, w1 <= w2
    (obligation: the matrix handed over is that one).  Columns are unit eigenvectors of ascending eigenvalues; the library
    leaves their overall sign open and orients them positively exactly if M00 < M11."""
    m, ev, vec = a
    o = {k: E(v) for k, v in st.outs.items()}
    for k, n in ((0, 'M00'), (1, 'M01'), (2, 'M01'), (3, 'M11')):
        st.checks.append(('same', 'mass matrix ' + n, rd(ex, st, m, k), st.outs[n], len(st.pc)))
    wr(ex, st, ev, 0, o['w1'].n)
    wr(ex, st, ev, 1, o['w2'].n)
    st.counters['eigh2'] = st.counters.get('eigh2', 0) + 1
    vs = [S.sym('eigenvector %d' % k, 'd') for k in range(4)]
    lt = (o['c'] * o['c'] > o['s'] * o['s'])
    al = []
    for pos in (True, False):
        for sg in (1, -1):
            d = 1 if pos else -1
            c, s = o['c'], o['s']
            v = [sg * c, sg * s, -sg * d * s, sg * d * c]
            def fx(st2, v=v):
                for k in range(4):
                    wr(ex, st2, vec, k, v[k].n)
            cond = lt if pos else S.bnot(lt)
            al.append((cond, None, fx))
    return Alts(al)


def eig2_function(ex, st, a, ins):
    """2x2 matrix: the eigenvalues are functions of the matrix (arguments compared as expressions)"""
    m, re, im = a
    v = [canon(ex).term(rd(ex, st, m, k)) for k in range(4)]
    for k in range(2):
        wr(ex, st, re, k, S.call('eigenvalue%d' % k, *v))
        wr(ex, st, im, k, S.call('eigenvalue%d_im' % k, *v))
    return None


def named(n, *ix):
    return S.sym(n + ''.join('[%d]' % i for i in ix), 'd')


def eigh_named(n):
    """symmetric n x n: ascending real eigenvalues and unit eigenvectors, named; the matrix handed over is the one exported by the harness"""
    def f(ex, st, a, ins):
        m, ev, vec = a
        for i in range(n):
            for k in range(n):
                st.checks.append(('same', 'mass matrix handed over', rd(ex, st, m, n * k + i), st.outs['M%d%d' % (i, k)], len(st.pc)))
        w = [named('eigenvalue', i) for i in range(n)]
        c = [S.fcmp('ole', w[i], w[i + 1]) for i in range(n - 1)]
        for i in range(n):
            wr(ex, st, ev, i, w[i])
            for k in range(n):
                v = named('eigenvector', i, k)
                wr(ex, st, vec, n * i + k, v)
                c += [S.fcmp('ole', v, S.dconst(1.0)), S.fcmp('oge', v, S.dconst(-1.0))]
            big = 0      # a unit vector has a component of at least 1/sqrt(n)
            for k in range(n):
                big = S.bor(big, S.fcmp('oge', S.fabs(named('eigenvector', i, k)), S.dconst(0.5)))
            c.append(big)
        q = c[0]
        for x in c[1:]:
            q = S.band(q, x)
        return Alts([(q, None, None)])
    return f


def svd_named(n):
    """n x n: descending singular values, not negative, and unit vectors, named; the matrix handed over is the one exported by the harness"""
    def f(ex, st, a, ins):
        m, sv, u, v = a
        for i in range(n):
            for k in range(n):
                st.checks.append(('same', 'mass matrix handed over', rd(ex, st, m, n * k + i), st.outs['M%d%d' % (i, k)], len(st.pc)))
        s = [named('singular value', i) for i in range(n)]
        q = S.fcmp('oge', s[n - 1], S.dconst(0.0))
        for i in range(n):
            wr(ex, st, sv, i, s[i])
            for k in range(n):
                wr(ex, st, u, n * i + k, named('left vector', i, k))
                wr(ex, st, v, n * i + k, named('right vector', i, k))
            if i:
                q = S.band(q, S.fcmp('oge', s[i - 1], s[i]))
        return Alts([(q, None, None)])
    return f


def eigh2_function(ex, st, a, ins):
    """symmetric 2x2: eigenvalues in ascending order and unit eigenvectors are functions of the matrix (arguments compared as expressions)"""
    m, ev, vec = a
    v = [canon(ex).term(rd(ex, st, m, k)) for k in (0, 1, 3)]
    w = [S.call('hermitian eigenvalue%d' % k, *v) for k in range(2)]
    for k in range(2):
        wr(ex, st, ev, k, w[k])
    for k in range(4):
        wr(ex, st, vec, k, S.call('hermitian eigenvector%d' % k, *v))
    return Alts([(S.fcmp('ole', w[0], w[1]), None, None)])
