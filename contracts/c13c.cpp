// C13: choice of the formula by the masses
#include "vc.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/misc/Constants.hpp"
#include <cmath>
#include <cstring>
#include <stdexcept>

using himalaya::Parameters;
using himalaya::mh2_eft::ThresholdCalculator;
using himalaya::mh2_eft::Limits;

static bool diverging;

// ---- contracts: validated parameters are left as they are, the correction is an arbitrary function of limit and masses
namespace himalaya {
void Parameters::validate(bool) {}
double Parameters::calculateMsq2() const { const double s = vc_sym("s", 0); return s*s; }
namespace mh2_eft {
double ThresholdCalculator::getDeltaYtAlphas2(Limits l, int o) const
{
   const double x[] = { double(int(l)), double(o), p.mq2(2,2), p.mu2(2,2), p.MG, msq2 };
   const double v = vc_fnv("DeltaYtAlphas2", x, 6);
   if (diverging && l == Limits::GENERAL) vc_assume(twoLoop*sqrt2*v > 1);
   return v;
}
}
}

namespace {

struct In {
   double q, u, g, s;
   Parameters p;
   In(int equal_u, int equal_g, int equal_s)
   {
      q = vc_double("q");
      u = equal_u ? q : vc_double("u");
      g = equal_g == 1 ? q : equal_g == 2 ? u : vc_double("g");
      s = vc_sym("s", 0);
      vc_assume(q > 0 && u > 0 && g > 0 && s > 0);
      if (equal_s) vc_assume(s == q);
      p.mq2(2,2) = q*q; p.mu2(2,2) = u*u; p.MG = g;
      // prefactor of the correction in the test of its stability: two-loop factor times 2^(1/2)
      p.Mt = 1; p.g3 = 1; p.vu = 1; p.vd = 0;
   }
};

bool near(double a, double b) { return std::abs(a - b) <= 0.02*a; }

void untouched(const ThresholdCalculator& t, const In& in)
{
   vc_same("left stop mass", t.p.mq2(2,2), in.q*in.q);
   vc_same("right stop mass", t.p.mu2(2,2), in.u*in.u);
   vc_same("gluino mass", t.p.MG, in.g);
   vc_same("squark mass", t.msq2, in.s*in.s);
}

void exact(int eu, int eg, int es, Limits expect)
{
   In in(eu, eg, es);
   if (!es) vc_assume(!near(in.q, in.s));
   if (!eu && !eg) vc_assume(!near(in.q, in.u));
   if (!eg) vc_assume(!near(in.q, in.g) && !near(in.u, in.g));
   if (!eu) vc_assume(!near(in.q, in.u));
   diverging = true;      // general formula out of control at equal masses, shifted or not
   const ThresholdCalculator t(in.p, false, false);
   vc_check("formula for coinciding masses", t.getLimit() == expect);
}

} // namespace

/// a formula for coinciding masses is used only where they are close
VC c13c_close()
{
   In in(0, 0, 0);
   const ThresholdCalculator t(in.p, false, false);
   const Limits l = t.getLimit();
   const double q = in.q, u = in.u, g = in.g, s = in.s;
   vc_check("known limit", l == Limits::GENERAL || l == Limits::MQ3_EQ_MU3 || l == Limits::MQ3_EQ_M3 || l == Limits::MU3_EQ_M3 || l == Limits::MQ3_EQ_MU3_EQ_M3 || l == Limits::DEGENERATE);
   if (l == Limits::MQ3_EQ_MU3) vc_check("mQ3 = mU3", near(q, u));
   if (l == Limits::MQ3_EQ_M3) vc_check("mQ3 = m3", near(q, g));
   if (l == Limits::MU3_EQ_M3) vc_check("mU3 = m3", near(u, g));
   if (l == Limits::MQ3_EQ_MU3_EQ_M3) vc_check("mQ3 = mU3 = m3", near(q, u) && near(u, g));
   if (l == Limits::DEGENERATE) vc_check("mQ3 = mU3 = m3 = msq", near(q, u) && near(u, g) && near(g, s));
   untouched(t, in);
}

/// coinciding masses, where the general formula diverges
VC c13c_equal_qu() { exact(1, 0, 0, Limits::MQ3_EQ_MU3); }
VC c13c_equal_qg() { exact(0, 1, 0, Limits::MQ3_EQ_M3); }
VC c13c_equal_ug() { exact(0, 2, 0, Limits::MU3_EQ_M3); }
VC c13c_equal_qug() { exact(1, 1, 0, Limits::MQ3_EQ_MU3_EQ_M3); }
VC c13c_equal_all() { exact(1, 1, 1, Limits::DEGENERATE); }

/// a limit given explicitly is kept when the choice is left out
VC c13c_no_choice()
{
   In in(0, 0, 0);
   in.p.massLimit3LThreshold = vc_int("limit");
   const ThresholdCalculator t(in.p, false, true);
   vc_iident("limit", int(t.getLimit()), in.p.massLimit3LThreshold);
   untouched(t, in);
}
