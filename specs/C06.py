import os
import re
from vc import check, build
X = ('-fno-access-control',)
SRC = ['HierarchyCalculator.cpp', 'HierarchyObject.cpp']
CUT = ('12calculateMsq2', '8himalaya19HierarchyCalculator14shiftMst[12]ToMDR')
ORDER = ['H3', 'H32q2g', 'H3q22g', 'H4', 'H5', 'H5g1', 'H6', 'H6b', 'H6b2qg2', 'H6bq22g', 'H6bq2g2', 'H6g2', 'H9', 'H9q2']
# meaning of the constructor parameters, by name
PARAM = dict(Al4p='sq(p.g3) / (16 * sq(himalaya_pi))', beta='vc_fn1("atan", p.vu / p.vd)', Dmglst1='p.MG - Mst1', Dmglst2='p.MG - Mst2',
             Dmst12='sq(Mst1) - sq(Mst2)', Dmsqst1='sq(Msq) - sq(Mst1)', Dmsqst2='Msq - Mst2', lmMt='lg(p.scale, Mt)', lmMst1='lg(p.scale, Mst1)',
             lmMst2='lg(p.scale, Mst2)', lmMsq='lg(p.scale, Msq)', lmMgl='lg(p.scale, p.MG)', lmMsusy='lg(p.scale, Msusy)', Msusy='Msusy', Mgl='p.MG',
             Mt='Mt', Mst1='Mst1', Mst2='Mst2', Msq='Msq', MuSUSY='p.mu', s2t='ab ? p.s2b : p.s2t', At='ab ? p.Ad(2,2) : p.Au(2,2)',
             mdrFlag='mdr', oneLoopFlag='l == 1', twoLoopFlag='l == 2', threeLoopFlag='l == 3')

# the same, by position, for constructors whose parameters have other names
POS = {
    'H3': 'Al4p beta Dmglst1 Dmst12 Dmsqst1 lmMt lmMst1 Mgl Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H32q2g': 'Al4p beta Dmglst1 Dmst12 Dmsqst1 lmMt lmMst1 Mt Mst1 Mst2 MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H3q22g': 'Al4p beta Dmglst1 Dmst12 Dmsqst1 lmMt lmMst1 Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H4': 'Al4p At beta lmMt lmMsq lmMsusy Mt Msusy Msq mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H5': 'Al4p beta Dmglst1 lmMt lmMst1 lmMst2 lmMsq Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H5g1': 'Al4p beta Dmglst1 lmMt lmMst1 lmMst2 lmMsq Mgl Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H6': 'Al4p beta Dmglst2 lmMt lmMst1 lmMst2 lmMsq Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H6b': 'Al4p beta Dmglst2 Dmsqst2 lmMt lmMst1 lmMst2 Mt Mst1 Mst2 MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H6b2qg2': 'Al4p beta Dmglst2 Dmsqst2 lmMt lmMst1 lmMst2 Mgl Mt Mst1 Mst2 MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H6bq22g': 'Al4p beta Dmglst2 Dmsqst2 lmMt lmMst1 lmMst2 Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H6bq2g2': 'Al4p beta Dmglst2 Dmsqst2 lmMt lmMst1 lmMst2 Mgl Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H6g2': 'Al4p beta Dmglst2 lmMt lmMst1 lmMst2 lmMsq Mgl Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H9': 'Al4p beta Dmst12 Dmsqst1 lmMt lmMgl lmMst1 Mgl Mt Mst1 Mst2 MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
    'H9q2': 'Al4p beta Dmst12 Dmsqst1 lmMt lmMgl lmMst1 Mgl Mt Mst1 Mst2 Msq MuSUSY s2t mdrFlag oneLoopFlag twoLoopFlag threeLoopFlag',
}


def ctor(cls):
    """constructor parameters of a hierarchy class, from its header"""
    t = open(os.path.join(build.SRC, 'hierarchies', cls + '.hpp')).read()
    t = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    t = re.sub(r'//[^\n]*', '', t)
    m = re.search(r'\b%s\s*\(\s*const ExpansionFlags_t\s*&\s*\w+\s*,([^)]*)\)' % cls, t)
    if not m:
        raise build.BuildError('constructor of %s not found' % cls)
    out = []
    for a in m.group(1).split(','):
        w = a.replace('const', '').split()
        if len(w) != 2 or w[0] not in ('double', 'int'):
            raise build.BuildError('parameter %s of %s' % (a, cls))
        out.append((w[0], w[1]))
    pos = POS[cls].split()
    if any(n not in PARAM for t, n in out) and len(pos) == len(out):
        return [(t, n) for (t, m), n in zip(out, pos)]
    return out


def source():
    s = '#include "himalaya/hierarchies/Hierarchies.hpp"\nnamespace himalaya { namespace hierarchies {\n'
    for c in ORDER:
        ps = ctor(c)
        s += '%s::%s(const ExpansionFlags_t& d, %s)\n{ const double x[] = { %s }; note(this, d, x, %d); }\n' % (
            c, c, ', '.join('%s a%d' % (t, i) for i, (t, n) in enumerate(ps)), ', '.join('double(a%d)' % i for i in range(len(ps))), len(ps))
        for f in ('getS1', 'getS2', 'getS12') + tuple('calc_coef_at_as2_no_sm_logs_log%d' % k for k in range(4)):
            s += 'double %s::%s() const { return value("%s.%s", this); }\n' % (c, f, c, f)
    s += '} }\nstatic const double himalaya_pi = 3.14159265358979323846;\n'
    s += 'static void contribution(Sum& s, int h, const HierarchyCalculator& c, bool ab, int mdr, int l, double Mst1, double Mst2, double Msq)\n{\n'
    s += 'using namespace himalaya::hierarchies;\nconst Parameters& p = c.p;\nconst double Mt = ab ? p.Mb : p.Mt, Msusy = (Mst1 + Mst2 + p.MG) / 3;\n'
    for k, c in enumerate(ORDER):
        names = [n for t, n in ctor(c)]
        for n in names:
            if n not in PARAM:
                raise build.BuildError('parameter %s of %s has no meaning' % (n, c))
        s += 'if (h == %d) add(s, himalaya::hierarchies::%s(c.expansionDepth, %s));\n' % (k, c, ', '.join(PARAM[n] for n in names))
    s += '}\n'
    fns = ''
    for k in range(-1, 15):
        for q in 'tb':
            fns += 'VC c06_%s_%s() { combine(%d, %s); }\n' % (q, 'none' if k < 0 else k, k, 'true' if q == 'b' else 'false')
    t = open(os.path.join(build.VERIF, 'contracts', 'c06.inc')).read().replace('GENERATED', s) + fns
    os.makedirs(build.BUILD, exist_ok=True)
    p = os.path.join(build.BUILD, 'c06_gen.cpp')
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + str(os.getpid())
        open(tmp, 'w').write(t)
        os.replace(tmp, p)
    return p


def mod():
    return check.load_module([source()], SRC, X, None, [r'himalaya'], CUT)


def task(out, fn):
    r = check.Run(mod(), fn, out, mode='real', arith='lin', select_fork=False, timeout_ms=500)
    r.discharge({}, on_throw='forbid', default=('pos', 4), timeout=3000)
    r.finish()


def native(r):
    return check.native_runner([source()], SRC, X, cut=CUT, partial=True)(r)


def run():
    fns = ['c06_%s_%s' % (q, 'none' if k < 0 else k) for k in range(-1, 15) for q in 'tb']
    check.main('C06', 'C06', [(f, 'task', dict(fn=f)) for f in fns], ['c06.inc'], prepare=mod, native=native,
               assumptions=['exact real arithmetic', 'each hierarchy class is a function of its constructor arguments (their meaning is taken from the parameter names and the class documentation)'])
