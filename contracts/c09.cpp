// C09: one-loop integrals
#include "vc.hpp"
#include "himalaya/mh2_fo/PV.hpp"

namespace pv = himalaya::mh2_fo;

VC c09_a0() { const double m = vc_double("m"), q = vc_double("q"); vc_assume(m > 0 && q > 0); vc_near("a0", pv::a0(m, q), m*(1 - vc_log(m/q))); }
VC c09_a0_massless() { const double q = vc_double("q"); vc_assume(q > 0); vc_same("a0", pv::a0(0., q), 0.); }
VC c09_a0_scale()
{
   const double m = vc_double("m"), q = vc_double("q"), r = vc_double("r");
   vc_assume(m > 1e-15 && q > 0 && r > 0);
   vc_same("scale", pv::a0(m, q) - pv::a0(m, r), m*vc_log(q/r));
}
VC c09_a0_sign() { const double m = vc_double("m"), q = vc_double("q"); vc_assume(q > 0); vc_same("sign", pv::a0(m, q), pv::a0(-m, q)); }

VC c09_b0xx() { const double p = vc_double("p"), m = vc_double("m"), q = vc_double("q"); vc_assume(p > 0 && m > 0 && q > 0); vc_out("value", pv::b0xx(p, m, q)); }
VC c09_b0xx_p0() { const double m = vc_double("m"), q = vc_double("q"); vc_assume(q > 0 && m > 1e-14*q); vc_same("b0", pv::b0xx(0, m, q), -vc_log(m/q)); }
VC c09_b0xx_m0() { const double p = vc_double("p"), q = vc_double("q"); vc_assume(q > 0 && p > 1e-14*q); vc_same("b0", pv::b0xx(p, 0, q), 2 - vc_log(p/q)); }
VC c09_b0xx_scale()
{
   const double p = vc_double("p"), m = vc_double("m"), q = vc_double("q"), r = vc_double("r");
   vc_assume(p > 0 && m > 0 && q > 0 && r > 0 && (p > 1e-14*q || m > 1e-14*q) && (p > 1e-14*r || m > 1e-14*r));
   vc_same("scale", pv::b0xx(p, m, q) - pv::b0xx(p, m, r), vc_log(q/r));
}

VC c09_b0()
{
   const double p = vc_double("p"), m = vc_double("m1"), n = vc_double("m2"), q = vc_double("q");
   vc_assume(p > 0 && m > 0 && n > m*(1 + 1e-14) && q > 0);
   vc_out("value", pv::b0(p, m, n, q));
}
VC c09_b0_equal()
{
   const double p = vc_double("p"), m = vc_double("m"), q = vc_double("q");
   vc_assume(p > 0 && m > 0 && q > 0);
   vc_same("equal masses", pv::b0(p, m, m, q), pv::b0xx(p, m, q));
}
VC c09_b0_zero_momentum()
{
   const double m = vc_double("m1"), n = vc_double("m2"), q = vc_double("q");
   vc_assume(m > 0 && n > m*(1 + 1e-14) && m > 1e-14*n && q > 0 && n > 1e-14*q);
   vc_same("zero momentum", pv::b0(0., m, n, q), 1 - vc_log(n/q) + m*vc_log(n/m)/(m - n));
}
VC c09_b0_zero_momentum_massless()
{
   const double n = vc_double("m2"), q = vc_double("q");
   vc_assume(n > 1e-14*q && q > 0);
   vc_same("zero momentum, massless", pv::b0(0., 0., n, q), 1 - vc_log(n/q));
}
VC c09_b0_swapped()
{
   const double p = vc_double("p"), m = vc_double("m1"), n = vc_double("m2"), q = vc_double("q");
   vc_assume(p > 0 && m > 0 && n > m*(1 + 1e-14) && q > 0);
   vc_out("value", pv::b0(p, n, m, q));
}
static void d1b0(double m, double n)
{
   const double d = m - n;
   vc_near("d1b0", pv::d1_b0(m, n), ((m - n)*(m + n) + 2*m*n*vc_log(n/m))/(2*d*d*d));
}
VC c09_d1b0_below() { const double m = vc_double("m1"), n = vc_double("m2"); vc_assume(m > 0 && n > m); d1b0(m, n); }
VC c09_d1b0_above() { const double m = vc_double("m1"), n = vc_double("m2"); vc_assume(n > 0 && m > n); d1b0(m, n); }
VC c09_d1b0_massless()
{
   const double n = vc_double("m2");
   vc_assume(n > 1e-14);
   vc_same("first massless", pv::d1_b0(0., n), 1/(2*n));
   vc_same("second massless", pv::d1_b0(n, 0.), 1/(2*n));
}
VC c09_d1b0_equal()
{
   const double n = vc_double("m2");
   vc_assume(n > 1e-14);
   vc_same("equal", pv::d1_b0(n, n), 1/(6*n));
}
