// C10: threshold loop functions against their closed forms
#include "vc.hpp"
#include "himalaya/mh2_eft/ThresholdLoopFunctions.hpp"
#include <cmath>
#include <limits>

namespace t = himalaya::mh2_eft::threshold_loop_functions;

namespace {
inline double p2(double x) { return x*x; }
inline double p3(double x) { return x*x*x; }
inline double p4(double x) { return x*x*x*x; }
inline double L(double x) { return vc_log(x*x); }

// arXiv:1407.4081 appendix
inline double sF1(double x) { return x*L(x)/(x*x - 1); }
inline double sF2(double x) { return 6*x*x*(2 - 2*x*x + (1 + x*x)*L(x))/p3(x*x - 1); }
inline double sF3(double x) { return 2*x*(5*(1 - x*x) + (1 + 4*x*x)*L(x))/(3*p2(x*x - 1)); }
inline double sF4(double x) { return 2*x*(x*x - 1 - L(x))/p2(x*x - 1); }
inline double sF5(double x) { return 3*x*(1 - p4(x) + 2*x*x*L(x))/p3(1 - x*x); }
inline double sF6(double x) { return (x*x - 3)/(4*(1 - x*x)) + x*x*(x*x - 2)/(2*p2(1 - x*x))*L(x); }
inline double sF7(double x) { return -3*(p4(x) - 6*x*x + 1)/(2*p2(x*x - 1)) + 3*p4(x)*(x*x - 3)/p3(x*x - 1)*L(x); }
inline double sF8(double a, double b) { return -2 + 2/(a*a - b*b)*(p4(a)/(a*a - 1)*L(a) - p4(b)/(b*b - 1)*L(b)); }
inline double sF9(double a, double b) { return 2/(a*a - b*b)*(a*a/(a*a - 1)*L(a) - b*b/(b*b - 1)*L(b)); }
inline double sf1(double r) { return 6*(r*r + 3)*r*r/(7*p2(r*r - 1)) + 6*(r*r - 5)*p4(r)*L(r)/(7*p3(r*r - 1)); }
inline double sf2(double r) { return 2*(r*r + 11)*r*r/(9*p2(r*r - 1)) + 2*(5*r*r - 17)*p4(r)*L(r)/(9*p3(r*r - 1)); }
inline double sf3(double r) { return 2*(p4(r) + 9*r*r + 2)/(3*p2(r*r - 1)) + 2*(p4(r) - 7*r*r - 6)*r*r*L(r)/(3*p3(r*r - 1)); }
inline double sf4(double r) { return 2*(5*p4(r) + 25*r*r + 6)/(7*p2(r*r - 1)) + 2*(p4(r) - 19*r*r - 18)*r*r*L(r)/(7*p3(r*r - 1)); }
inline double sf5(double a, double b)
{
   return 3*((1 + p2(a + b) - a*a*b*b)/((a*a - 1)*(b*b - 1)) + p3(a)*(a*a + 1)*L(a)/(p2(a*a - 1)*(a - b))
             - p3(b)*(b*b + 1)*L(b)/((a - b)*p2(b*b - 1)))/4;
}
inline double sf6(double a, double b)
{
   return 6*((a*a + b*b + a*b - a*a*b*b)/((a*a - 1)*(b*b - 1)) + p4(a)*a*L(a)/(p2(a*a - 1)*(a - b)) - p4(b)*b*L(b)/((a - b)*p2(b*b - 1)))/7;
}
inline double sf7(double a, double b)
{
   return 6*((1 + a*b)/((a*a - 1)*(b*b - 1)) + p3(a)*L(a)/(p2(a*a - 1)*(a - b)) - p3(b)*L(b)/((a - b)*p2(b*b - 1)));
}
inline double sf8(double a, double b)
{
   return 3*((a + b)/((a*a - 1)*(b*b - 1)) + p4(a)*L(a)/(p2(a*a - 1)*(a - b)) - p4(b)*L(b)/((a - b)*p2(b*b - 1)))/2;
}
// vacuum function of Davydychev and Tausk times lambda^2(x,y,z)/(2 z^2) z for z the largest mass
inline double sphi(double u, double v, double z, double lam, double x, double y)
{
   const double pi = 3.141592653589793;
   return z*lam/2*(-vc_log(u)*vc_log(v) + 2*vc_log(x)*vc_log(y) - 2*vc_li2(x) - 2*vc_li2(y) + pi*pi/3);
}
}

#define ONE(F) VC c10_##F() { const double x = vc_double("x"); vc_assume(x > 0); vc_near(#F, t::F(x), s##F(x)); }
#define ONEN(F) VC c10_##F##_neg() { const double x = vc_double("x"); vc_assume(x < 0); vc_near(#F, t::F(x), s##F(x)); }
#define TWO(F) VC c10_##F() { const double a = vc_double("a"), b = vc_double("b"); vc_assume(a > 0 && b > 0 && a != b); vc_near(#F, t::F(a, b), s##F(a, b)); }
ONE(F1) ONE(F2) ONE(F3) ONE(F4) ONE(F5) ONE(F6) ONE(F7) ONE(f1) ONE(f2) ONE(f3) ONE(f4)
ONEN(F5) ONEN(F6) ONEN(F7) ONEN(f1) ONEN(f2) ONEN(f3) ONEN(f4)
TWO(F8) TWO(f5) TWO(f6) TWO(f7) TWO(f8)
VC c10_f() { const double x = vc_double("x"); vc_assume(x > 0); vc_same("f", t::f(x), t::F5(x)); }
VC c10_g() { const double x = vc_double("x"); vc_assume(x > 0); vc_same("g", t::g(x), t::F7(x)); }
#define ZERO(F, v) VC c10_##F##_zero() { vc_same(#F " at zero", t::F(0.), v); }
ZERO(F1, 0.) ZERO(F2, 0.) ZERO(F3, 0.) ZERO(F4, 0.) ZERO(F5, 0.) ZERO(F6, -3/4.) ZERO(F7, -3/2.)
ZERO(f1, 0.) ZERO(f2, 0.) ZERO(f3, 4/3.) ZERO(f4, 12/7.)

// arguments below numerical resolution count as zero
VC c10_F9() { const double a = vc_double("a"), b = vc_double("b"); vc_assume(a > 1e-14 && b > 1e-14 && a != b); vc_near("F9", t::F9(a, b), sF9(a, b)); }
VC c10_F9_first0() { const double b = vc_double("b"); vc_assume(b > 1e-14 && (b < 0.9 || b > 1.1)); vc_same("F9(0,b)", t::F9(0., b), 2*L(b)/(b*b - 1)); }
VC c10_F9_second0() { const double b = vc_double("b"); vc_assume(b > 1e-14 && (b < 0.9 || b > 1.1)); vc_same("F9(b,0)", t::F9(b, 0.), 2*L(b)/(b*b - 1)); }
VC c10_F8_first0() { const double b = vc_double("b"); vc_assume(b > 1e-4 && (b < 0.9 || b > 1.1)); vc_same("F8(0,b)", t::F8(0., b), -2 + 2*b*b*L(b)/(b*b - 1)); }
// F8(b,0) is not resolved for b < 1e-5
VC c10_F8_second0() { const double b = vc_double("b"); vc_assume(b > 1e-4 && (b < 0.9 || b > 1.1)); vc_same("F8(b,0)", t::F8(b, 0.), -2 + 2*b*b*L(b)/(b*b - 1)); }

// vacuum function: all orders of the three masses; u = p(1-q), v = q(1-p), so that lambda = 1-p-q
namespace {
template <int K> double phi_perm(double x, double y, double z)
{
   return K == 0 ? t::phi_xyz(x, y, z) : K == 1 ? t::phi_xyz(x, z, y) : K == 2 ? t::phi_xyz(y, x, z) :
          K == 3 ? t::phi_xyz(y, z, x) : K == 4 ? t::phi_xyz(z, x, y) : t::phi_xyz(z, y, x);
}
template <int K> void phi_pos()
{
   const double p = vc_double("p"), q = vc_double("q"), s = vc_double("s");
   vc_assume(p > 0 && q > 0 && p + q < 1 && s > 0);
   vc_assume(p <= q);
   const double u = p*(1 - q), v = q*(1 - p);
   vc_near("phi", phi_perm<K>(u*s, v*s, s), sphi(u, v, s, (1 - p - q), p, q));
}
template <int K> void phi_neg()
{
   const double u = vc_double("u"), v = vc_double("v"), s = vc_double("s");
   const double l2 = (1 - u - v)*(1 - u - v) - 4*u*v;
   vc_assume(u > 0 && v > 0 && u <= v && v <= 1 && s > 0 && l2 < 0);
   const double lam = vc_sqrt(-l2);
   const double spec = -s*lam*(vc_fn1("clausen_2", 2*vc_fn1("acos", (1 + u - v)/(2*vc_sqrt(u)))) + vc_fn1("clausen_2", 2*vc_fn1("acos", (1 - u + v)/(2*vc_sqrt(v))))
      + vc_fn1("clausen_2", 2*vc_fn1("acos", (-1 + u + v)/(2*vc_sqrt(u)*vc_sqrt(v)))));
   vc_near("phi", phi_perm<K>(u*s, v*s, s), spec);
}
}
VC c10_phi_pos0() { phi_pos<0>(); }
VC c10_phi_pos1() { phi_pos<1>(); }
VC c10_phi_pos2() { phi_pos<2>(); }
VC c10_phi_pos3() { phi_pos<3>(); }
VC c10_phi_pos4() { phi_pos<4>(); }
VC c10_phi_pos5() { phi_pos<5>(); }
VC c10_phi_neg0() { phi_neg<0>(); }
VC c10_phi_neg1() { phi_neg<1>(); }
VC c10_phi_neg2() { phi_neg<2>(); }
VC c10_phi_neg3() { phi_neg<3>(); }
VC c10_phi_neg4() { phi_neg<4>(); }
VC c10_phi_neg5() { phi_neg<5>(); }
VC c10_delta()
{
   const double x = vc_double("x"), y = vc_double("y"), z = vc_double("z");
   vc_same("delta", t::delta_xyz(x, y, z), x*x + y*y + z*z - 2*x*y - 2*y*z - 2*z*x);
}
