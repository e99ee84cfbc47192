// C23: the one-loop Higgs corrections of the fixed-order calculation
#include "vc.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/misc/Constants.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include <algorithm>
#include <cmath>
#include <new>

using himalaya::Parameters;
using himalaya::RM22;
using himalaya::mh2_fo::MSSM_mass_eigenstates;
using himalaya::mh2_fo::MSSM_spectrum;
namespace CO = himalaya::CouplingOrders;

// contracts of the loop integrals (property C09): dependence on the scale, symmetry, first order in the momentum
#ifndef VC_REPLAY
namespace himalaya { namespace mh2_fo {
namespace { double sy(const char* n, double x, double y) { return vc_fn2(n, x, y) + vc_fn2(n, y, x); } bool expand; }
double a0(double m2, double q2) noexcept { return vc_fn1("a0", m2) + m2*vc_log(q2); }
double d1_b0(double m12, double m22) noexcept { return sy("d1b0", m12, m22); }
double b0(double p2, double m12, double m22, double q2) noexcept
{
   if (expand)
      return sy("b0", m12, m22) + p2*d1_b0(m12, m22) + vc_log(q2);
   return vc_fn3("b0p", p2, m12, m22) + vc_fn3("b0p", p2, m22, m12) + vc_log(q2);
}
} }
#define EXPAND(x) himalaya::mh2_fo::expand = x
#else
#define EXPAND(x)
#endif

#define TWO(F) F(Su) F(Sd) F(Sc) F(Ss) F(St) F(Sb) F(Se) F(Sm)
#define MIX2(F) F(Su, ZU) F(Sd, ZD) F(Sc, ZC) F(Ss, ZS) F(St, ZT) F(Sb, ZB) F(Se, ZE) F(Sm, ZM) F(Stau, ZTau) F(hh, ZH) F(Ah, ZA) F(Hpm, ZP)

namespace {

double sq(double x) { return x*x; }

Parameters point(double scale, bool gauge)
{
   Parameters p;
   p.scale = scale;
   p.g1 = gauge ? vc_sym("g1", 0) : 0; p.g2 = gauge ? vc_sym("g2", 0) : 0; p.g3 = vc_sym("g3", 0);
   p.mu = vc_sym("mu", 0); p.vd = vc_sym("vd", 0); p.vu = vc_sym("vu", 0);
   p.Yu(2,2) = vc_sym("yt", 0); p.Yd(2,2) = vc_sym("yb", 0); p.Ye(2,2) = vc_sym("ytau", 0);
   p.Au(2,2) = vc_sym("At", 0); p.Ad(2,2) = vc_sym("Ab", 0); p.Ae(2,2) = vc_sym("Atau", 0);
   p.M1 = vc_sym("M1", 0); p.M2 = vc_sym("M2", 0); p.MG = vc_sym("M3", 0); p.MA = vc_sym("MA", 0);
   for (int i = 0; i < 3; ++i) {
      p.mq2(i,i) = vc_sym("mq2", i); p.mu2(i,i) = vc_sym("mu2", i); p.md2(i,i) = vc_sym("md2", i); p.ml2(i,i) = vc_sym("ml2", i); p.me2(i,i) = vc_sym("me2", i);
   }
   p.Mt = 0; p.Mb = 0; p.Mtau = 0;
   return p;
}

void fill(MSSM_spectrum& m, const Parameters& p)
{
#ifdef VC_REPLAY
   m = MSSM_spectrum(p);
#else
   new (&m.pars) Parameters(p);
   m.calculate_MVWm(); m.calculate_MVZ(); m.calculate_MFt(); m.calculate_MFb(); m.calculate_MFtau(); m.calculate_MSveL(); m.calculate_MSvmL(); m.calculate_MSvtL();
   // masses and mixing matrices: arbitrary, related to the mass matrices by the contract of the diagonalisation (C07)
#define F(n, z) for (int i = 0; i < 2; ++i) { m.M2##n(i) = vc_sym(#n, i); for (int k = 0; k < 2; ++k) m.z(i,k) = vc_sym2(#z, i, k); }
   MIX2(F)
#undef F
   for (int i = 0; i < 4; ++i) { m.MChi(i) = vc_sym("Chi", i); for (int k = 0; k < 4; ++k) m.ZN(i,k) = vc_sym2("ZN", i, k); }
   for (int i = 0; i < 2; ++i) { m.MCha(i) = vc_sym("Cha", i); for (int k = 0; k < 2; ++k) { m.UM(i,k) = vc_sym2("UM", i, k); m.UP(i,k) = vc_sym2("UP", i, k); } }
#define F(n, z) { const RM22 a = m.get_mass_matrix_##n(); vc_out(#n "00", a(0,0)); vc_out(#n "01", a(0,1)); vc_out(#n "10", a(1,0)); vc_out(#n "11", a(1,1)); }
   MIX2(F) F(Cha, UM)
#undef F
   static const char* const cn[] = { "Chi00", "Chi01", "Chi02", "Chi03", "Chi10", "Chi11", "Chi12", "Chi13", "Chi20", "Chi21", "Chi22", "Chi23", "Chi30", "Chi31", "Chi32", "Chi33" };
   const auto c = m.get_mass_matrix_Chi();
   for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) vc_out(cn[4*i + k], c(i,k));
#endif
}

struct Fo {
   alignas(64) char buf[sizeof(MSSM_mass_eigenstates)];
   MSSM_mass_eigenstates& operator*() { return *reinterpret_cast<MSSM_mass_eigenstates*>(buf); }
   MSSM_mass_eigenstates* operator->() { return reinterpret_cast<MSSM_mass_eigenstates*>(buf); }
   Fo(const Parameters& p, int only_at)
   {
      MSSM_mass_eigenstates& o = **this;
#ifdef VC_REPLAY
      new (&o) MSSM_mass_eigenstates(p);
#endif
      new (&o.pars) Parameters(p);
      fill(o.masses, p);
      fill(o.gaugeless, p);
      for (int i = 0; i < CO::NUMBER_OF_COUPLING_ORDERS; ++i) o.orders[i] = 1;
      o.orders[CO::ONLY_AT_AS] = only_at;
   }
};

const char* const n1[] = { "11", "12", "21", "22" };

void running(bool gauge, bool gaugeless_formula)
{
   EXPAND(gaugeless_formula);
   const double Q = vc_sym("Q", 0), Q2 = vc_sym("Q", 1), p2 = gaugeless_formula ? 0 : vc_sym("p2", 0);
   const Parameters p = point(Q, gauge);
   Fo o(p, 0);
   const RM22 a = gaugeless_formula ? o->delta_mh2_1loop_gaugeless() : o->delta_mh2_1loop(p2);
   o->pars.scale = Q2;
   const RM22 b = gaugeless_formula ? o->delta_mh2_1loop_gaugeless() : o->delta_mh2_1loop(p2);
   // one-loop running of the parameters of the tree-level mass matrix, times (4 Pi)^2
   const double g12 = sq(p.g1), g22 = sq(p.g2), yt2 = sq(p.Yu(2,2)), yb2 = sq(p.Yd(2,2)), yl2 = sq(p.Ye(2,2)), vd = p.vd, vu = p.vu;
   const double gd = 3*yb2 + yl2, gu = 3*yt2;                          // anomalous dimensions of the Higgs fields
   const double C = 0.3*g12 + 1.5*g22;                                 // running of the vevs in the Feynman gauge
   const double dvd = vd*(C - gd), dvu = vu*(C - gu);
   const double G = (3*g12 + 5*g22)/20, dG = (3*2*6.6*sq(g12) + 5*2*sq(g22))/20;
   const double B = sq(p.MA)*vu*vd/(sq(vu) + sq(vd));
   const double dB = B*(3*yt2 + 3*yb2 + yl2 - 3*g22 - 0.6*g12)
      + p.mu*(6*p.Au(2,2)*yt2 + 6*p.Ad(2,2)*yb2 + 2*p.Ae(2,2)*yl2 + 6*g22*p.M2 + 1.2*g12*p.M1)
#ifdef SIGN
      *-1
#endif
      ;
   const double M11 = B*vu/vd + G*sq(vd), M12 = -B - G*vd*vu, M22 = B*vd/vu + G*sq(vu);
   const double d11 = dB*vu/vd + B*(dvu/vd - vu*dvd/sq(vd)) + dG*sq(vd) + 2*G*vd*dvd;
   const double d12 = -dB - dG*vd*vu - G*(dvd*vu + vd*dvu);
   const double d22 = dB*vd/vu + B*(dvd/vu - vd*dvu/sq(vu)) + dG*sq(vu) + 2*G*vu*dvu;
   const double e11 = -2*gd*(p2 - M11) - d11, e12 = (gd + gu)*M12 - d12, e22 = -2*gu*(p2 - M22) - d22;
   const double L = himalaya::oneLoop*0.5*(vc_log(sq(Q2)) - vc_log(sq(Q)));
   vc_same("11 element runs", b(0,0), a(0,0) + L*e11);
   vc_same("12 element runs", b(0,1), a(0,1) + L*e12);
   vc_same("21 element runs", b(1,0), a(1,0) + L*e12);
   vc_same("22 element runs", b(1,1), a(1,1) + L*e22);
}

}

VC c23_running() { running(true, false); }
VC c23_running_gaugeless() { running(false, true); }

VC c23_gaugeless_limit()
{
   EXPAND(true);
   const int only_at = vc_range("only_at", 0, 1);
   Parameters p = point(vc_sym("Q", 0), false);
   if (only_at) { p.Yd(2,2) = 0; p.Ye(2,2) = 0; }
#ifdef VC_REPLAY
   if (!only_at) { p.vd = 100; p.Yd(2,2) = std::max(p.Yd(2,2), 0.5); p.Ye(2,2) = std::max(p.Ye(2,2), 0.5); }
#endif
   Fo o(p, only_at);
   const RM22 a = o->delta_mh2_1loop_gaugeless(), b = o->delta_mh2_1loop(0);
   for (int i = 0; i < 4; ++i)
      vc_same("limit without gauge couplings", b(i/2, i%2), a(i/2, i%2));
   // the corrections to first order in the momentum: the dependence is quadratic with b0 to first order
   const double h = vc_sym("h", 0);
   const RM22 d = o->delta_mh2_1loop_gaugeless_deriv();
#ifndef VC_REPLAY
   const RM22 u = o->delta_mh2_1loop(h), l = o->delta_mh2_1loop(-h);
   for (int i = 0; i < 4; ++i)
      vc_same("derivative without gauge couplings", d(i/2, i%2), (u(i/2, i%2) - l(i/2, i%2))/(2*h));
#else
   // the real b0 ignores the sign of the momentum: one-sided difference, small against the fermion masses
   const double s = 0.005*sq(0.5*100/std::sqrt(2.));
   const RM22 f0 = b, f1 = o->delta_mh2_1loop(s), f2 = o->delta_mh2_1loop(2*s), f3 = o->delta_mh2_1loop(3*s);
   for (int i = 0; i < 4; ++i) {
      const double c = (-11*f0(i/2, i%2) + 18*f1(i/2, i%2) - 9*f2(i/2, i%2) + 2*f3(i/2, i%2))/(6*s);
      vc_same("derivative without gauge couplings", std::abs(d(i/2, i%2) - c) < 1e-4*std::abs(c) ? c : d(i/2, i%2), c);
   }
#endif
}

// with only the top Yukawa coupling switched on, the bottom and tau couplings of the point do not enter
VC c23_only_at()
{
   EXPAND(true);
   const Parameters p = point(vc_sym("Q", 0), false);
   Parameters r = p;
   r.Yd(2,2) = 0; r.Ye(2,2) = 0;
   Fo o(p, 1), w(r, 0);
   const RM22 a = o->delta_mh2_1loop_gaugeless(), b = w->delta_mh2_1loop_gaugeless(), c = o->delta_mh2_1loop_gaugeless_deriv(), d = w->delta_mh2_1loop_gaugeless_deriv();
   for (int i = 0; i < 4; ++i) {
      vc_same("only the top coupling", a(i/2, i%2), b(i/2, i%2));
      vc_same("only the top coupling, derivative", c(i/2, i%2), d(i/2, i%2));
   }
}

// The whole one-loop correction follows from the field-dependent masses of the particles in the loop: their couplings to the Higgs
// fields are the derivatives of their mass matrices with respect to the vacuum expectation values.
namespace {

struct Fields {
   alignas(64) char buf[sizeof(MSSM_spectrum)];
   MSSM_spectrum& t;
   double vd, vu;
   explicit Fields(const Parameters& p) : t(*reinterpret_cast<MSSM_spectrum*>(buf)), vd(p.vd), vu(p.vu) {
#ifdef VC_REPLAY
      new (&t) MSSM_spectrum(p);
#endif
      new (&t.pars) Parameters(p);
   }
   void set(double d, double u) { t.pars.vd = vd + d; t.pars.vu = vu + u; }
};

// first and second derivatives of a mass matrix quadratic in the vacuum expectation values
template <int N> struct Dep { double d[2][N][N], dd[2][N][N], mixed[N][N]; };

template <int N, typename F> void derive(Dep<N>& r, Fields& f, F get)
{
#ifdef VC_REPLAY
   const double s = 64;
#else
   const double s = 1;
#endif
   f.set(0, 0); const auto c = get(f.t);
   f.set(s, 0); const auto d1 = get(f.t);
   f.set(-s, 0); const auto d0 = get(f.t);
   f.set(0, s); const auto u1 = get(f.t);
   f.set(0, -s); const auto u0 = get(f.t);
   for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) {
      r.d[0][i][k] = (d1(i,k) - d0(i,k))/(2*s); r.d[1][i][k] = (u1(i,k) - u0(i,k))/(2*s);
      r.dd[0][i][k] = (d1(i,k) + d0(i,k) - 2*c(i,k))/(s*s); r.dd[1][i][k] = (u1(i,k) + u0(i,k) - 2*c(i,k))/(s*s);
      r.mixed[i][k] = 0;
   }
   f.set(0, 0);
}

template <int N, typename A, typename B> double el(const double (&m)[N][N], const A& l, int a, const B& r, int b)
{
   double x = 0;
   for (int i = 0; i < N; ++i) for (int k = 0; k < N; ++k) x += l(a,i)*m[i][k]*r(b,k);
   return x;
}

struct Sum {
   const MSSM_mass_eigenstates& o;
   double p2, v[2], e[3] = {0, 0, 0};
   double A(double m2) const { return o.A0(m2); }
   double B(double x, double y) const { return o.B0(p2, x, y); }
   // n complex scalars (half: real scalars)
   template <int N, typename M, typename Z> void scalars(double n, const M& m2, const Z& z, const Dep<N>& f)
   {
      for (int a = 0; a < N; ++a) {
         const double x = A(m2(a));
         for (int k = 0; k < 2; ++k) e[2*k] -= n*x*(el(f.dd[k], z, a, z, a) - el(f.d[k], z, a, z, a)/v[k]);
         e[1] -= n*x*el(f.mixed, z, a, z, a);
         for (int b = 0; b < N; ++b) {
            const double y = B(m2(a), m2(b)), l0 = el(f.d[0], z, a, z, b), l1 = el(f.d[1], z, a, z, b);
            e[0] -= n*y*l0*l0; e[1] -= n*y*l0*l1; e[2] -= n*y*l1*l1;
         }
      }
   }
   void scalar(double m2, double d0, double d1, double dd)        // one complex field without mixing
   {
      const double y = B(m2, m2), x = A(m2);
      e[0] -= y*d0*d0 + x*(dd - d0/v[0]); e[1] -= y*d0*d1; e[2] -= y*d1*d1 + x*(-dd - d1/v[1]);
   }
   // n Dirac fermions (half: Majorana)
   template <int N, typename M, typename U, typename V> void fermions(double n, const M& m, const U& u, const V& w, const Dep<N>& f)
   {
      for (int a = 0; a < N; ++a) {
         for (int k = 0; k < 2; ++k) e[2*k] -= 4*n*A(sq(m(a)))*m(a)*el(f.d[k], u, a, w, a)/v[k];
         for (int b = 0; b < N; ++b) {
            const double ma = m(a), mb = m(b), x = B(sq(ma), sq(mb)), s = A(sq(ma)) + A(sq(mb)) + (sq(ma) + sq(mb) - p2)*x, t = 2*ma*mb*x;
            for (int i = 0; i < 2; ++i) for (int k = i; k < 2; ++k)
               e[i+k] += n*(s*(el(f.d[i], u, a, w, b)*el(f.d[k], u, a, w, b) + el(f.d[i], u, b, w, a)*el(f.d[k], u, b, w, a))
                         + t*(el(f.d[i], u, a, w, b)*el(f.d[k], u, b, w, a) + el(f.d[i], u, b, w, a)*el(f.d[k], u, a, w, b)));
         }
      }
   }
   void fermion(double n, double m, int i, double y)
   {
      e[2*i] += n*sq(y)*(4*A(sq(m)) + (8*sq(m) - 2*p2)*B(sq(m), sq(m))) - 4*n*A(sq(m))*m*y/v[i];
   }
   // gauge boson of squared mass c (vd^2 + vu^2) with its ghosts, n real fields; loops with the scalars it couples to
   template <typename M, typename Z> void vector(double n, double m2, double c, const M& s2, const Z& z)
   {
      for (int i = 0; i < 2; ++i) {
         e[2*i] -= n*c*A(m2);
         for (int k = i; k < 2; ++k) e[i+k] -= 7./4*n*4*sq(c)*v[i]*v[k]*B(m2, m2);
      }
      for (int a = 0; a < 2; ++a) {
         const double x = 2*A(m2) - A(s2(a)) + (2*p2 + 2*s2(a) - m2)*B(m2, s2(a));
         e[0] += n*c*x*sq(z(a,0)); e[1] -= n*c*x*z(a,0)*z(a,1); e[2] += n*c*x*sq(z(a,1));
      }
   }
};

}

VC c23_from_masses()
{
   EXPAND(false);
   const Parameters p = point(vc_sym("Q", 0), true);
   Fo o(p, 0);
   const double p2 = vc_sym("p2", 0);
   const RM22 r = o->delta_mh2_1loop(p2);
   const MSSM_spectrum& m = o->masses;
   Sum s{*o, p2, {p.vd, p.vu}};
   Fields f(p);
#define F(n, x, z) { Dep<2> d; derive(d, f, [](const MSSM_spectrum& t) { return t.get_mass_matrix_##x(); }); s.scalars(n, m.M2##x, m.z, d); }
   F(3, Su, ZU) F(3, Sd, ZD) F(3, Sc, ZC) F(3, Ss, ZS) F(3, St, ZT) F(3, Sb, ZB) F(1, Se, ZE) F(1, Sm, ZM) F(1, Stau, ZTau)
#undef F
   const double G = (0.6*sq(p.g1) + sq(p.g2))/4, W = sq(p.g2)/4;
   s.scalar(m.M2SveL, G*p.vd, -G*p.vu, G); s.scalar(m.M2SvmL, G*p.vd, -G*p.vu, G); s.scalar(m.M2SvtL, G*p.vd, -G*p.vu, G);
   { Dep<4> d; derive(d, f, [](const MSSM_spectrum& t) { return t.get_mass_matrix_Chi(); }); s.fermions(0.5, m.MChi, m.ZN, m.ZN, d); }
   { Dep<2> d; derive(d, f, [](const MSSM_spectrum& t) { return t.get_mass_matrix_Cha(); }); s.fermions(1, m.MCha, m.UM, m.UP, d); }
   const double r2 = std::sqrt(2.);
   s.fermion(3, m.MFt, 1, p.Yu(2,2)/r2); s.fermion(3, m.MFb, 0, p.Yd(2,2)/r2); s.fermion(1, m.MFtau, 0, p.Ye(2,2)/r2);
   // Higgs potential: G/8 (vd^2 - vu^2)^2 and the charged D-terms
   const double d = p.vd, u = p.vu;
   const Dep<2> hh = { {{{3*G*d, -G*u}, {-G*u, -G*d}}, {{-G*u, -G*d}, {-G*d, 3*G*u}}}, {{{3*G, 0}, {0, -G}}, {{-G, 0}, {0, 3*G}}}, {{0, -G}, {-G, 0}} };
   const Dep<2> ah = { {{{G*d, 0}, {0, -G*d}}, {{-G*u, 0}, {0, G*u}}}, {{{G, 0}, {0, -G}}, {{-G, 0}, {0, G}}}, {{0, 0}, {0, 0}} };
   const Dep<2> hp = { {{{G*d, W*u}, {W*u, -G*d + 2*W*d}}, {{-G*u + 2*W*u, W*d}, {W*d, G*u}}}, {{{G, 0}, {0, -G + 2*W}}, {{-G + 2*W, 0}, {0, G}}}, {{0, W}, {W, 0}} };
   s.scalars(0.5, m.M2hh, m.ZH, hh); s.scalars(0.5, m.M2Ah, m.ZA, ah); s.scalars(1, m.M2Hpm, m.ZP, hp);
   s.vector(1, m.M2VZ, G, m.M2Ah, m.ZA); s.vector(2, m.M2VWm, W, m.M2Hpm, m.ZP);
   const double k = himalaya::oneLoop;
   vc_same("11 element follows from the masses", r(0,0), k*s.e[0]);
   vc_same("12 element follows from the masses", r(0,1), k*s.e[1]);
   vc_same("21 element follows from the masses", r(1,0), k*s.e[1]);
   vc_same("22 element follows from the masses", r(1,1), k*s.e[2]);
}
