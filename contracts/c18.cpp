// C18: structure of the contributions of every hierarchy
#include "vc.hpp"
#ifndef VC_REPLAY
// the hierarchy itself, with the transcendental constants of misc/Constants.hpp left arbitrary (see specs/C18.py)
#include SOURCE
#endif
#include "himalaya/hierarchies/Hierarchies.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
#include <cmath>
#include <tuple>

using namespace himalaya::hierarchies;

namespace c18 { namespace {

/// constructor arguments by meaning
struct In {
   ExpansionFlags_t depth;
   double Al4p, At, beta, Dmglst1, Dmglst2, Dmst12, Dmsqst1, Dmsqst2, lmMt, lmMst1, lmMst2, lmMsq, lmMgl, lmMsusy, Msusy, Mgl, Mt, Mst1, Mst2, Msq,
      MuSUSY, s2t;
   int mdrFlag, oneLoopFlag, twoLoopFlag, threeLoopFlag;
};

double positive(const char* n) { const double x = vc_double(n); vc_assume(x > 0); return x; }

In input()
{
   In v;
   v.depth.fill(1);
   v.Al4p = positive("Al4p"); v.At = vc_double("At"); v.beta = vc_double("beta");
   v.Dmglst1 = vc_double("Dmglst1"); v.Dmglst2 = vc_double("Dmglst2"); v.Dmst12 = vc_double("Dmst12");
   v.Dmsqst1 = vc_double("Dmsqst1"); v.Dmsqst2 = vc_double("Dmsqst2");
   v.Msusy = positive("Msusy"); v.Mgl = positive("Mgl"); v.Mt = positive("Mt"); v.Mst1 = positive("Mst1"); v.Mst2 = positive("Mst2");
   v.Msq = positive("Msq"); v.MuSUSY = vc_double("MuSUSY"); v.s2t = vc_double("s2t");
   v.lmMt = vc_double("lmMt"); v.lmMst1 = vc_double("lmMst1"); v.lmMst2 = vc_double("lmMst2"); v.lmMsq = vc_double("lmMsq");
   v.lmMgl = vc_double("lmMgl"); v.lmMsusy = vc_double("lmMsusy");
   v.mdrFlag = 0;
   v.oneLoopFlag = v.twoLoopFlag = v.threeLoopFlag = 0;
   return v;
}

/// logarithms at a scale with log(scale^2/m^2) = L
void logs(In& v, double m, double L)
{
   v.lmMst1 = L + vc_log(m*m/(v.Mst1*v.Mst1)); v.lmMst2 = L + vc_log(m*m/(v.Mst2*v.Mst2)); v.lmMsq = L + vc_log(m*m/(v.Msq*v.Msq));
   v.lmMgl = L + vc_log(m*m/(v.Mgl*v.Mgl)); v.lmMsusy = L + vc_log(m*m/(v.Msusy*v.Msusy));
}

template <class H> H make(const In& v);
template <class H> double mass(const In& v) { return v.Mst1; }
template <> double mass<H4>(const In& v) { return v.Msusy; }

/// the loop orders add up, with the power of the strong coupling of their order
template <class H> void loops()
{
   In v = input();
   v.mdrFlag = vc_range("mdrFlag", 0, 1);
   static const char* const flag[] = { "depth0", "depth1", "depth2", "depth3", "depth4", "depth5", "depth6", "depth7", "depth8", "depth9", "depth10", "depth11" };
   static_assert(std::tuple_size<ExpansionFlags_t>::value <= 12, "names of the expansion flags");
   for (unsigned i = 0; i < v.depth.size(); ++i) v.depth[i] = vc_int(flag[i]);
   double s[3][3];
   const double a = v.Al4p;
   for (int l = 0; l < 3; ++l) {
      In w = v;
      w.oneLoopFlag = l == 0; w.twoLoopFlag = l == 1; w.threeLoopFlag = l == 2;
      w.Al4p = 1;
      const H h = make<H>(w);
      s[l][0] = h.getS1(); s[l][1] = h.getS2(); s[l][2] = h.getS12();
   }
   for (int f = 0; f < 8; ++f) {
      v.oneLoopFlag = f & 1; v.twoLoopFlag = f >> 1 & 1; v.threeLoopFlag = f >> 2;
      const H h = make<H>(v);
      const double S[] = { h.getS1(), h.getS2(), h.getS12() };
      static const char* const label[] = { "S1", "S2", "S12" };
      for (int k = 0; k < 3; ++k)
         vc_same(label[k], S[k], (f & 1 ? s[0][k] : 0) + (f & 2 ? a*s[1][k] : 0) + (f & 4 ? a*a*s[2][k] : 0));
   }
}

/// the coefficients of the logarithms do not depend on the scale, the leading one is universal
template <class H> void coefs()
{
   In v = input(), w = v;
   logs(w, mass<H>(w), vc_double("L"));
   logs(v, mass<H>(v), 0);
   w.lmMt = vc_double("lmMt2");
   w.mdrFlag = 1;
   w.oneLoopFlag = w.twoLoopFlag = 1;
   w.Al4p = positive("Al4p2");
   w.threeLoopFlag = 1;
   const H g = make<H>(v), h = make<H>(w);
   vc_same("log0", h.calc_coef_at_as2_no_sm_logs_log0(), g.calc_coef_at_as2_no_sm_logs_log0());
   vc_same("log1", h.calc_coef_at_as2_no_sm_logs_log1(), g.calc_coef_at_as2_no_sm_logs_log1());
   vc_same("log2", h.calc_coef_at_as2_no_sm_logs_log2(), g.calc_coef_at_as2_no_sm_logs_log2());
   vc_same("log3", h.calc_coef_at_as2_no_sm_logs_log3(), -896/3.);
}

/// light Higgs projection of the three-loop contribution without top mass logarithms, normalised
template <class H> double light(const In& v)
{
   const H h = make<H>(v);
   const double s = vc_fn1("sin", v.beta), c = vc_fn1("cos", v.beta), m2 = v.Mt*v.Mt;
   return 12*(c*c*h.getS1() + s*s*h.getS2() + 2*s*c*h.getS12())/(m2*m2*s*s);
}
template <class H> double cubic(const In& v, double L)
{
   const H h = make<H>(v);
   return h.calc_coef_at_as2_no_sm_logs_log0() + L*(h.calc_coef_at_as2_no_sm_logs_log1()
      + L*(h.calc_coef_at_as2_no_sm_logs_log2() + L*h.calc_coef_at_as2_no_sm_logs_log3()));
}
template <class H> void polynomial()
{
   In v = input();
   const double L = vc_double("L");
   logs(v, mass<H>(v), L);
   v.lmMt = 0;
   v.Al4p = 1;
   v.threeLoopFlag = 1;
   vc_same("cubic polynomial", light<H>(v), cubic<H>(v, L));
}

/// the self-energies contain incomplete terms of fourth order in Dmsqst2
template <class H> void polynomial_dmsq()
{
   In v = input();
   const double L = vc_double("L");
   logs(v, mass<H>(v), L);
   v.lmMt = 0;
   v.Al4p = 1;
   v.threeLoopFlag = 1;
   vc_near("cubic polynomial", light<H>(v), cubic<H>(v, L));
}

/// H5 keeps fewer orders of mst1/mst2 in the coefficients: exact without mu and cos(beta), beyond to leading order
void polynomial_h5()
{
   In v = input();
   const double L = vc_double("L");
   logs(v, mass<H5>(v), L);
   v.lmMt = 0;
   v.Al4p = 1;
   v.threeLoopFlag = 1;
   vc_near("cubic polynomial", light<H5>(v), cubic<H5>(v, L));
   v.MuSUSY = 0;
   v.beta = 1.5707963267948966;
   vc_same("cubic polynomial, mu = 0, large tan(beta)", light<H5>(v), cubic<H5>(v, L));
}

GENERATED
