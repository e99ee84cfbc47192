// C16, bounded: relations between results of the real two-loop corrections (with the real Fortran code) at random points
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/mh2l/DSZHiggs.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <random>
#include <string>

using namespace himalaya::mh2l;
using M2 = Eigen::Matrix2d;
static int bad, checks;
static std::mt19937_64 g(20240611);
static double U(double a, double b) { return a + (b - a)*std::generate_canonical<double, 53>(g); }
static double Lg(double a, double b) { return std::exp(U(std::log(a), std::log(b))); }

struct P { double t, b, tau, mg, A0, T1, T2, B1, B2, L1, L2, BL, th, thb, thl, q, mu, tb, vv, gs; };
static P point()
{
   P p;
   p.t = std::pow(U(120, 180), 2); p.b = std::pow(U(1.5, 4), 2); p.tau = std::pow(U(1, 2.5), 2);
   p.mg = Lg(300, 4000);
   double* m[] = { &p.A0, &p.T1, &p.T2, &p.B1, &p.B2, &p.L1, &p.L2, &p.BL, &p.q };
   bool ok;
   do {
      for (double* x : m) *x = std::pow(Lg(250, 4000), 2);
      // away from the guards of the external code
      const double y[] = { p.T1, p.T2, p.B1, p.B2, p.L1, p.L2, p.BL };
      ok = true;
      for (int i = 0; i < 7; ++i) for (int j = 0; j < i; ++j) if (std::abs(y[i]/y[j] - 1) < 0.05) ok = false;
   } while (!ok);
   double* a[] = { &p.th, &p.thb, &p.thl };
   for (double* x : a) do *x = U(0, M_PI); while (std::abs(std::sin(2**x)) < 0.05);
   p.mu = U(200, 2000)*(U(-1, 1) < 0 ? -1 : 1); p.tb = Lg(1.5, 50); p.vv = std::pow(U(235, 250), 2); p.gs = U(0.9, 1.3);
   return p;
}
static M2 tas(const P& p, int h) { return delta_mh2_2loop_at_as(p.t, p.mg, p.T1, p.T2, std::sin(p.th), std::cos(p.th), p.q, p.mu, p.tb, p.vv, p.gs, h); }
static M2 bas(const P& p, int h) { return delta_mh2_2loop_ab_as(p.b, p.mg, p.B1, p.B2, std::sin(p.thb), std::cos(p.thb), p.q, p.mu, 1/p.tb, p.vv, p.gs, h); }
static M2 att(const P& p, int h, int k) { return delta_mh2_2loop_at_at(p.t, p.b, p.A0, p.T1, p.T2, p.B1, p.B2, std::sin(p.th), std::cos(p.th), std::sin(p.thb), std::cos(p.thb), p.q, p.mu, p.tb, p.vv, h, k); }
static M2 aaa(const P& p, int h) { return delta_mh2_2loop_atau_atau(p.tau, p.A0, p.BL, p.L1, p.L2, std::sin(p.thl), std::cos(p.thl), p.q, p.mu, p.tb, p.vv, h); }
static M2 aab(const P& p, int h) { return delta_mh2_2loop_ab_atau(p.tau, p.b, p.L1, p.L2, p.B1, p.B2, std::sin(p.thl), std::cos(p.thl), std::sin(p.thb), std::cos(p.thb), p.q, p.mu, p.tb, p.vv, h); }
static M2 call(const P& p, int k, int h)
{
   switch (k) { case 0: return tas(p, h); case 1: return bas(p, h); case 2: return att(p, h, 0); case 3: return att(p, h, 1); case 4: return aaa(p, h); default: return aab(p, h); }
}
static const char* const names[] = { "at_as", "ab_as", "at_at+ab_ab", "at_at", "atau_atau", "ab_atau" };

static void print(const P& p)
{
   const double x[] = { p.t, p.b, p.tau, p.mg, p.A0, p.T1, p.T2, p.B1, p.B2, p.L1, p.L2, p.BL, p.th, p.thb, p.thl, p.q, p.mu, p.tb, p.vv, p.gs };
   for (double v : x) std::printf(" %.17g", v);
   std::printf("\n");
}
static void compare(const std::string& what, const P& p, const M2& a, const M2& b, double tol)
{
   ++checks;
   const double s = std::max(a.cwiseAbs().maxCoeff(), b.cwiseAbs().maxCoeff());
   const double d = (a - b).cwiseAbs().maxCoeff();
   if (!(d <= tol*s)) {
      ++bad;
      if (bad < 12) {
         std::printf("FAIL %s: (%.10g %.10g %.10g %.10g) vs (%.10g %.10g %.10g %.10g) at", what.c_str(), a(0,0), a(0,1), a(1,0), a(1,1), b(0,0), b(0,1), b(1,0), b(1,1));
         print(p);
      }
   }
}

int main(int, char** argv)
{
   for (int i = 0; i < 300; ++i) {
      const P p = point();
      for (int k = 0; k < 6; ++k) for (int h = 0; h < 2; ++h) {
         const std::string n = std::string(names[k]) + (h ? " with heavy Higgs: " : ": ");
         const M2 r = call(p, k, h);
         compare(n + "symmetric", p, r, r.transpose(), 0);
         P o = p; o.th += M_PI; compare(n + "sign of the top-squark mixing matrix", p, r, call(o, k, h), 1e-6);
         o = p; o.thb -= M_PI; compare(n + "sign of the bottom-squark mixing matrix", p, r, call(o, k, h), 1e-6);
         o = p; o.thl += M_PI; compare(n + "sign of the slepton mixing matrix", p, r, call(o, k, h), 1e-6);
         o = p; std::swap(o.T1, o.T2); o.th += M_PI/2; compare(n + "top squarks exchanged", p, r, call(o, k, h), 1e-5);
         o = p; std::swap(o.B1, o.B2); o.thb -= M_PI/2; compare(n + "bottom squarks exchanged", p, r, call(o, k, h), 1e-5);
         o = p; std::swap(o.L1, o.L2); o.thl += M_PI/2; compare(n + "sleptons exchanged", p, r, call(o, k, h), 1e-5);
         if (k != 4) { // scaling: mass dimension
            o = p; double* m[] = { &o.t, &o.b, &o.tau, &o.A0, &o.T1, &o.T2, &o.B1, &o.B2, &o.L1, &o.L2, &o.BL, &o.q, &o.vv };
            for (double* x : m) *x *= 4; o.mg *= 2; o.mu *= 2;
            compare(n + "mass dimension", p, 4*r, call(o, k, h), 1e-5);
         }
      }
      { // top <-> bottom: both doublets exchanged
         P o = p; std::swap(o.t, o.b); std::swap(o.T1, o.B1); std::swap(o.T2, o.B2); std::swap(o.th, o.thb); o.tb = 1/p.tb;
         M2 a = tas(p, 1), b = bas(o, 1); std::swap(b(0,0), b(1,1)); compare("ab_as is at_as with exchanged doublets", p, a, b, 1e-9);
         // heavy quarks only: with a light quark the masses b -> 0 make the exchanged formulas ill-conditioned
         P q = p; q.b = std::pow(U(100, 170), 2); P r = q; std::swap(r.t, r.b); std::swap(r.T1, r.B1); std::swap(r.T2, r.B2); std::swap(r.th, r.thb); r.tb = 1/q.tb;
         a = att(q, 0, 0); b = att(r, 0, 0); std::swap(b(0,0), b(1,1)); compare("at_at with exchanged doublets", q, a, b, 1e-4);
      }
      { // degenerate stops: formulas of the limit against the general ones next to it
         P o = p; o.T1 = o.T2 = p.T1; o.b = std::pow(U(100, 170), 2); // for light quarks the general formulas lose too many digits close to the limit
         for (int h = 0; h < 2; ++h) {
            M2 s = M2::Zero();
            const double d[] = { -2e-3, -1e-3, 1e-3, 2e-3 }, w[] = { -1./6, 4./6, 4./6, -1./6 };
            for (int j = 0; j < 4; ++j) { P n = o; n.T1 *= 1 + d[j]; n.T2 *= 1 - d[j]; s += w[j]*tas(n, h); }
            compare(h ? "degenerate stops, heavy Higgs" : "degenerate stops", o, tas(o, h), s, 1e-4);
            s.setZero();
            P c = o; c.B1 = c.B2 = p.B1;
            for (int j = 0; j < 4; ++j) { P n = c; n.B1 *= 1 + d[j]; n.B2 *= 1 - d[j]; s += w[j]*bas(n, h); }
            compare(h ? "degenerate sbottoms, heavy Higgs" : "degenerate sbottoms", c, bas(c, h), s, 1e-4);
         }
      }
      // roughly degenerate stops: the general formulas
      for (double d : { 2e-7, 1e-6, 1e-5, 1e-4, 1e-3, -2e-7, -1e-6, -1e-5, -1e-4, -1e-3 }) {
         P o = p; o.T2 = o.T1*(1 + d);
         double t = o.t, mg = o.mg, T1 = o.T1, T2 = o.T2, st = std::sin(o.th), ct = std::cos(o.th), q = o.q, mu = o.mu, tb = o.tb, vv = o.vv, gs = o.gs, dma = 0, s11 = 0, s12 = 0, s22 = 0;
         int os = 0;
         dszhiggs_(&t, &mg, &T1, &T2, &st, &ct, &q, &mu, &tb, &vv, &gs, &os, &s11, &s22, &s12);
         M2 w; w << s11, s12, s12, s22;
         compare("roughly degenerate stops", o, tas(o, 0), w, 1e-9);
         dszodd_(&t, &mg, &T1, &T2, &st, &ct, &q, &mu, &tb, &vv, &gs, &dma);
         M2 rot; const double n = 1 + tb*tb;
         rot << dma*tb*tb/n, -dma*tb/n, -dma*tb/n, dma/n;
         compare("roughly degenerate stops, heavy Higgs", o, tas(o, 1), w + rot, 1e-9);
      }
      // guards of the external code: the pseudoscalar part gets the same arguments
      for (int m = 0; m < 6; ++m) for (int k = 0; k < 2; ++k) {
         P o = p;
         if (m == 0 || m == 4) o.th = 0;
         if (m == 1 || m == 4) o.T2 = o.T1;
         if (m == 2) o.thb = 0;
         if (m == 3) o.B2 = o.B1;
         if (m == 5) o.B1 = o.T1;
         double dma = 0;
         { P c = o; double st = std::sin(c.th), ct = std::cos(c.th), sb = std::sin(c.thb), cb = std::cos(c.thb); int kk = k;
           ddsodd_(&c.t, &c.b, &c.A0, &c.T1, &c.T2, &c.B1, &c.B2, &st, &ct, &sb, &cb, &c.q, &c.mu, &c.tb, &c.vv, &dma, &kk); }
         M2 rot; const double n = 1 + o.tb*o.tb;
         rot << dma*o.tb*o.tb/n, -dma*o.tb/n, -dma*o.tb/n, dma/n;
         const M2 a = att(o, 1, k) - att(o, 0, k);
         compare("pseudoscalar part for degenerate or unmixed squarks", o, a, rot, 1e-5);
      }
   }
   std::printf("%d comparisons, %d failed\n", checks, bad);
   return bad != 0;
}
