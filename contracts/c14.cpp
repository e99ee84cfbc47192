// C14: scheme conversion of the threshold corrections
#include "vc.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include <new>
#include <stdexcept>

using himalaya::Parameters;
using himalaya::mh2_eft::ThresholdCalculator;
using himalaya::mh2_eft::RenSchemes;
using himalaya::mh2_eft::Limits;
using O = himalaya::mh2_eft::ThresholdCouplingOrders;

// ---- contracts of the individual corrections: arbitrary functions
namespace himalaya {
namespace mh2_eft {
#define F1(f) double ThresholdCalculator::get##f(int o) const { const double x[] = { double(o) }; return vc_fnv(#f, x, 1); }
#define F0(f) double ThresholdCalculator::get##f() const { return vc_sym(#f, 0); }
#define FL(f) double ThresholdCalculator::get##f(Limits l, int o) const { const double x[] = { double(int(l)), double(o) }; return vc_fnv(#f, x, 2); }
F1(DeltaG3Alphas) FL(DeltaYtAlphas) FL(DeltaYtAlphas2) FL(DeltaLambdaAlphat) FL(DeltaLambdaAlphatAlphas) FL(DeltaLambdaAlphatAlphas2)
F1(DeltaLambdaYb2G12) F1(DeltaLambdaG14) F0(DeltaLambdaRegG14) F1(DeltaLambdaChiG14) F1(DeltaLambdaChiG24) F1(DeltaLambdaG24)
F0(DeltaLambdaRegG24) F1(DeltaLambdaG12G22) F0(DeltaLambdaRegG12G22) F1(DeltaLambdaChiG12G22) F1(DeltaLambdaYb2G22) F1(DeltaLambdaYb4)
F1(DeltaLambdaYt2G12) F1(DeltaLambdaYt2G22) F1(DeltaLambdaYtau2G12) F1(DeltaLambdaYtau2G22) F1(DeltaLambdaYtau4) F1(DeltaG1G1) F1(DeltaG2G2)
F0(DeltaVevYb2) F0(DeltaVevYtau2) F1(DeltaVevG12) F1(DeltaVevG22) F0(DeltaYtauYb) F1(DeltaYtYt) F1(DeltaYtauYtau) F1(DeltaYtYb) F1(DeltaYbYt)
F1(DeltaYbAs) F1(DeltaYbYb) F1(DeltaLambdaYb4G32) F1(DeltaLambdaYb6) F1(DeltaLambdaYt6) F1(DeltaLambdaYt6_SUSYHD) F1(DeltaLambdaYtau6)
F1(DeltaLambdaYt2Yb4) F1(DeltaLambdaYt4Yb2) F1(DeltaLambdaYtau4Yb2) F1(DeltaLambdaYtau2Yb4)
double ThresholdCalculator::getDeltaVevYt2(Limits l) const { const double x[] = { double(int(l)) }; return vc_fnv("DeltaVevYt2", x, 1); }
double ThresholdCalculator::getDRbarPrimeToMSbarXtTerms(Limits l, int xt, int o) const
{
   const double x[] = { double(int(l)), double(xt), double(o) };
   return vc_fnv("DRbarPrimeToMSbarXtTerms", x, 3);
}
}
}

namespace {

struct Tc {
   alignas(64) char buf[sizeof(ThresholdCalculator)];
   int limit, omit;
   ThresholdCalculator* operator->() { return reinterpret_cast<ThresholdCalculator*>(buf); }
   Tc()
   {
      vc_havoc(buf, sizeof buf, "object");
      Parameters& p = *new (&(*this)->p) Parameters();
      limit = vc_int("mass limit");
      omit = vc_int("log switch");
      p.massLimit3LThreshold = limit;
   }
   double raw(O o) { return (*this)->getThresholdCorrection(o, RenSchemes::TEST, omit); }
   double drp(O o) { return (*this)->getThresholdCorrection(o, RenSchemes::DRBARPRIME, omit); }
};

/// series in the squared strong coupling
struct S {
   double c[3];
};
S operator*(const S& a, const S& b)
{
   return { { a.c[0]*b.c[0], a.c[0]*b.c[1] + a.c[1]*b.c[0], a.c[0]*b.c[2] + a.c[1]*b.c[1] + a.c[2]*b.c[0] } };
}
S operator+(const S& a, const S& b) { return { { a.c[0] + b.c[0], a.c[1] + b.c[1], a.c[2] + b.c[2] } }; }
S operator*(double a, const S& b) { return { { a*b.c[0], a*b.c[1], a*b.c[2] } }; }

} // namespace

/// the couplings of the effective theory in terms of those of the full theory, and back
VC c14_back_and_forth()
{
   Tc t;
   const S one = { { 1, 0, 0 } };
   // effective theory = full theory times ...
   const double dg = t.raw(O::G3_AS);
   const S y = { { 1, t.raw(O::YT_AS), t.raw(O::YT_AS2) } };            // in g^2 of the full theory
   const S g = { { 0, 1, 2*dg } };                                      // g^2 of the effective theory
   // full theory = effective theory times ...
   const double dgi = t.drp(O::G3_AS);
   const S yi = one + t.drp(O::YT_AS)*g + t.drp(O::YT_AS2)*(g*g);       // in terms of the full theory
   const S gi = g*(one + 2*dgi*g);
   vc_same("strong coupling", gi.c[1], 1);
   vc_same("strong coupling, next order", gi.c[2], 0);
   const S id = y*yi;
   vc_same("top Yukawa coupling", id.c[0], 1);
   vc_same("top Yukawa coupling, order 1", id.c[1], 0);
   vc_same("top Yukawa coupling, order 2", id.c[2], 0);
   // the quartic coupling is the same in either set of couplings
   const S lam = { { t.raw(O::LAMBDA_AT), t.raw(O::LAMBDA_AT_AS), t.raw(O::LAMBDA_AT_AS2) } };
   const S lami = t.drp(O::LAMBDA_AT)*one + t.drp(O::LAMBDA_AT_AS)*g + t.drp(O::LAMBDA_AT_AS2)*(g*g);
   const S y2 = y*y, y4 = y2*y2, other = y4*lami;
   vc_same("quartic coupling, order 0", other.c[0], lam.c[0]);
   vc_same("quartic coupling, order 1", other.c[1], lam.c[1]);
   vc_same("quartic coupling, order 2", other.c[2], lam.c[2]);
}

/// the shift of the quartic coupling is the difference of the two definitions; the terms of high order in Xt are kept apart
template <int XT>
void shift()
{
   Tc t;
   const int omitXt = vc_int("log switch of the Xt terms");
   const double s = t->getDRbarPrimeToMSbarShift(XT, t.omit, omitXt);
   double xt = 0;
   for (int i = XT <= 3 ? 4 : 5; i <= 6; ++i) xt += t->getDRbarPrimeToMSbarXtTerms(t->getLimit(), i, omitXt);
   vc_same("shift", s, t.raw(O::LAMBDA_AT_AS2) - t.drp(O::LAMBDA_AT_AS2) + xt);
}
VC c14_shift_0() { shift<0>(); }
VC c14_shift_1() { shift<1>(); }
VC c14_shift_2() { shift<2>(); }
VC c14_shift_3() { shift<3>(); }
VC c14_shift_4() { shift<4>(); }

#define RAW(o, e) { const double x = t->getThresholdCorrection(O::o, RenSchemes(s), t.omit); vc_same(#o, x, e); }
/// corrections which are not converted
VC c14_dispatch()
{
   Tc t;
   const int s = vc_range("scheme", 0, 4), o = t.omit;
   const Limits l = Limits(t.limit);
   RAW(LAMBDA_AT, t->getDeltaLambdaAlphat(l, o));
   RAW(LAMBDA_YB2_G12, t->getDeltaLambdaYb2G12(o));
   RAW(LAMBDA_G14, t->getDeltaLambdaG14(o));
   RAW(LAMBDA_REG_G14, t->getDeltaLambdaRegG14());
   RAW(LAMBDA_CHI_G14, t->getDeltaLambdaChiG14(o));
   RAW(LAMBDA_CHI_G24, t->getDeltaLambdaChiG24(o));
   RAW(LAMBDA_G24, t->getDeltaLambdaG24(o));
   RAW(LAMBDA_REG_G24, t->getDeltaLambdaRegG24());
   RAW(LAMBDA_G12_G22, t->getDeltaLambdaG12G22(o));
   RAW(LAMBDA_REG_G12_G22, t->getDeltaLambdaRegG12G22());
   RAW(LAMBDA_CHI_G12_G22, t->getDeltaLambdaChiG12G22(o));
   RAW(LAMBDA_YB2_G22, t->getDeltaLambdaYb2G22(o));
   RAW(LAMBDA_YB4, t->getDeltaLambdaYb4(o));
   RAW(LAMBDA_YT2_G12, t->getDeltaLambdaYt2G12(o));
   RAW(LAMBDA_YT2_G22, t->getDeltaLambdaYt2G22(o));
   RAW(LAMBDA_YTAU2_G12, t->getDeltaLambdaYtau2G12(o));
   RAW(LAMBDA_YTAU2_G22, t->getDeltaLambdaYtau2G22(o));
   RAW(LAMBDA_YTAU4, t->getDeltaLambdaYtau4(o));
   RAW(G1_G1, t->getDeltaG1G1(o));
   RAW(G2_G2, t->getDeltaG2G2(o));
   RAW(VEV_YT2, t->getDeltaVevYt2(l));
   RAW(YT_YB, t->getDeltaYtYb(o));
   RAW(YT_YT, t->getDeltaYtYt(o));
   RAW(YTAU_YTAU, t->getDeltaYtauYtau(o));
   RAW(LAMBDA_YB4_G32, t->getDeltaLambdaYb4G32(o));
   RAW(LAMBDA_YB6, t->getDeltaLambdaYb6(o));
   RAW(LAMBDA_YT6, t->getDeltaLambdaYt6(o));
   RAW(LAMBDA_YTAU6, t->getDeltaLambdaYtau6(o));
   RAW(LAMBDA_YT2_YB4, t->getDeltaLambdaYt2Yb4(o));
   RAW(LAMBDA_YT4_YB2, t->getDeltaLambdaYt4Yb2(o));
   RAW(VEV_YB2, t->getDeltaVevYb2());
   RAW(VEV_YTAU2, t->getDeltaVevYtau2());
   RAW(VEV_G12, t->getDeltaVevG12(o));
   RAW(VEV_G22, t->getDeltaVevG22(o));
   RAW(YTAU_YB, t->getDeltaYtauYb());
   RAW(LAMBDA_YTAU4_YB2, t->getDeltaLambdaYtau4Yb2(o));
   RAW(LAMBDA_YTAU2_YB4, t->getDeltaLambdaYtau2Yb4(o));
   RAW(YB_YT, t->getDeltaYbYt(o));
   RAW(YB_AS, t->getDeltaYbAs(o));
   RAW(YB_YB, t->getDeltaYbYb(o));
}

/// effective-theory scheme: the corrections themselves
VC c14_unconverted()
{
   Tc t;
   const int s = int(RenSchemes::TEST), o = t.omit;
   const Limits l = Limits(t.limit);
   RAW(G3_AS, t->getDeltaG3Alphas(o));
   RAW(YT_AS, t->getDeltaYtAlphas(l, o));
   RAW(YT_AS2, t->getDeltaYtAlphas2(l, o));
   RAW(LAMBDA_AT_AS, t->getDeltaLambdaAlphatAlphas(l, o));
   RAW(LAMBDA_AT_AS2, t->getDeltaLambdaAlphatAlphas2(l, o));
}

/// an unknown coupling order is refused or gives zero
VC c14_unknown()
{
   Tc t;
   const int s = vc_range("scheme", 0, 4), i = vc_int("order");
   vc_assume(i < 0 || i >= int(O::NUMBER_OF_THRESHOLD_VARIALES));
   double x = 0;
   try { x = t->getThresholdCorrection(O(i), RenSchemes(s), t.omit); } catch (...) {}
   vc_same("zero", x, 0);
}

/// the mass limit requested is the one used
VC c14_limit()
{
   Tc t;
   const int l = vc_int("limit");
   t->setLimit(Limits(l));
   vc_iident("limit", int(t->getLimit()), l);
   vc_same("corrections use it", t.raw(O::YT_AS), t->getDeltaYtAlphas(Limits(l), t.omit));
}
