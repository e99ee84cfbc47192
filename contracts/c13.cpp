// C13: threshold corrections for coinciding masses
#include "vc.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/misc/Li2.hpp"
#include <new>
#include <stdexcept>

using himalaya::Parameters;
using himalaya::mh2_eft::ThresholdCalculator;
using himalaya::mh2_eft::Limits;

// ---- contract of the dilogarithm (C11)
namespace himalaya { double dilog(double x) noexcept { return vc_li2(x); } }

namespace {

struct Tc {
   alignas(64) char buf[sizeof(ThresholdCalculator)];
   int omit;
   ThresholdCalculator* operator->() { return reinterpret_cast<ThresholdCalculator*>(buf); }
   Tc()
   {
      vc_havoc(buf, sizeof buf, "object");
      Parameters& p = *new (&(*this)->p) Parameters();
      const double q = vc_double("q"), u = vc_double("u"), g = vc_double("g"), s = vc_double("s"), t = vc_double("t"), r = vc_double("scale");
      vc_assume(q > 0 && u > 0 && g > 0 && s > 0 && t > 0 && r > 0);
      p.mq2(2,2) = q*q; p.mu2(2,2) = u*u; p.MG = g; p.MSt(0) = t; p.scale = r;
      p.Au(2,2) = vc_double("At"); p.mu = vc_double("mu"); p.vu = vc_double("vu"); p.vd = vc_double("vd");
      vc_assume(p.vu > 0 && p.vd > 0);
      (*this)->msq2 = s*s;
      (*this)->xtOrderLambdaAtAs2 = 6;
      omit = vc_int("log switch");
   }
};

const char* const name[] = { "", "mQ3 = mU3", "mQ3 = m3", "mU3 = m3", "mQ3 = mU3 = m3", "mQ3 = mU3 = m3 = msq" };

template <class F> void limits(int n, F f)
{
   const double general = f(Limits::GENERAL);
   vc_out("general", general);
   for (int i = 1; i <= n; ++i) vc_near(name[i], general, f(Limits(i)));
}

} // namespace

VC c13_yt_as()    { Tc t; limits(5, [&] (Limits l) { return t->getDeltaYtAlphas(l, t.omit); }); }
VC c13_yt_as2()   { Tc t; limits(5, [&] (Limits l) { return t->getDeltaYtAlphas2(l, t.omit); }); }
VC c13_lambda_at() { Tc t; limits(5, [&] (Limits l) { return t->getDeltaLambdaAlphat(l, t.omit); }); }
VC c13_lambda_at_as() { Tc t; limits(5, [&] (Limits l) { return t->getDeltaLambdaAlphatAlphas(l, t.omit); }); }
VC c13_lambda_at_as2() { Tc t; limits(5, [&] (Limits l) { return t->getDeltaLambdaAlphatAlphas2(l, t.omit); }); }
VC c13_lambda_at_as2_xt3() { Tc t; t->setXtOrderOfDeltaLambdaAtAs2(3); limits(5, [&] (Limits l) { return t->getDeltaLambdaAlphatAlphas2(l, t.omit); }); }
VC c13_lambda_at_as2_xt4() { Tc t; t->setXtOrderOfDeltaLambdaAtAs2(4); limits(5, [&] (Limits l) { return t->getDeltaLambdaAlphatAlphas2(l, t.omit); }); }
VC c13_lambda_at_as2_xt5() { Tc t; t->setXtOrderOfDeltaLambdaAtAs2(5); limits(5, [&] (Limits l) { return t->getDeltaLambdaAlphatAlphas2(l, t.omit); }); }
VC c13_shift_xt4() { Tc t; limits(5, [&] (Limits l) { return t->getDRbarPrimeToMSbarXtTerms(l, 4, t.omit); }); }
VC c13_shift_xt5() { Tc t; limits(5, [&] (Limits l) { return t->getDRbarPrimeToMSbarXtTerms(l, 5, t.omit); }); }
VC c13_shift_xt6() { Tc t; limits(5, [&] (Limits l) { return t->getDRbarPrimeToMSbarXtTerms(l, 6, t.omit); }); }
VC c13_vev_yt2()  { Tc t; limits(5, [&] (Limits l) { return t->getDeltaVevYt2(l); }); }

// ---- corrections which choose the formula by the masses: the value at given masses, each branch a path of its own
namespace {
struct Tb : Tc {
   Tb()
   {
      Parameters& p = (*this)->p;
      const double d = vc_double("d"), l = vc_double("l"), e = vc_double("e");
      vc_assume(d > 0 && l > 0 && e > 0);
      p.md2(2,2) = d*d; p.ml2(2,2) = l*l; p.me2(2,2) = e*e;
      p.Ad(2,2) = vc_double("Ab"); p.Ae(2,2) = vc_double("Atau");
      omit = 1;
   }
};
}
VC c13b_vev_yb2()    { Tb t; vc_out("value", t->getDeltaVevYb2()); }
VC c13b_vev_ytau2()  { Tb t; vc_out("value", t->getDeltaVevYtau2()); }
VC c13b_lambda_yb4_g32() { Tb t; vc_out("value", t->getDeltaLambdaYb4G32(t.omit)); }
VC c13b_lambda_ytau4_yb2() { Tb t; vc_out("value", t->getDeltaLambdaYtau4Yb2(t.omit)); }
VC c13b_lambda_ytau2_yb4() { Tb t; vc_out("value", t->getDeltaLambdaYtau2Yb4(t.omit)); }
