// C22: the full calculation, with its parts replaced by contracts;  C05: any part may end in an error
#include "hc.hpp"
#include "himalaya/misc/Constants.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include <tuple>

using himalaya::mh2_eft::Mh2EFTCalculator;
using himalaya::mh2_eft::ThresholdCalculator;
using himalaya::mh2_fo::MSSM_mass_eigenstates;
namespace TO = himalaya::mh2_eft;

#include <cstddef>
static int selected;
template <class... T> static double fn(const char* n, T... t)
{
   const double x[] = { double(t)... };
   return vc_fnv(n, x, sizeof...(T));
}
template <class... T> static M2 fm(const char* n1, const char* n2, const char* n3, T... t)
{
   M2 m;
   m(0,0) = fn(n1, t...); m(0,1) = m(1,0) = fn(n2, t...); m(1,1) = fn(n3, t...);
   return m;
}
#define FM(n, ...) fm(n "11", n "12", n "22", __VA_ARGS__)

// ---- contracts of the parts: arbitrary functions of everything the real ones read
int HierarchyCalculator::compareHierarchies(HierarchyObject& ho)
{
   part();
   const double ab = ho.isAlphab, m = ho.mdrFlag;
   ho.hierarchy = selected;
   ho.dMhMap[0] = FM("tree", ab, m);
   ho.absDiff2L = fn("absDiff", ab, m); ho.relDiff2L = fn("relDiff", ab, m);
   ho.expUncertainties[2] = fn("unc2", ab, m); ho.expUncertainties[3] = fn("unc3 at selection", ab, m);
   ho.dLambdaH3m = vc_double("left1"); ho.dLambdaEFT = vc_double("left2"); ho.dLambdaNonLog = vc_double("left3");
   ho.dLambdaXtUncertainty = vc_double("left4"); ho.dLambdaDRbarPrimeToMSbarShiftMap[3] = vc_double("left5");
   return ho.hierarchy;
}
static M2 hier(const HierarchyObject& o, int a, int b, int c) { return FM("hierarchy", double(o.isAlphab), o.mdrFlag, o.hierarchy, a, b, c); }
M2 HierarchyCalculator::calculateHierarchy(HierarchyObject& ho, int a, int b, int c) const
{
   part();
   if (a == 0 && b == 0 && c == 1) {
      const double x = ho.isAlphab, y = ho.mdrFlag, z = ho.hierarchy;
      ho.dLambdaH3m = fn("raw H3m", x, y, z); ho.dLambdaNonLog = fn("raw NonLog", x, y, z);
      ho.mdrMasses(0) = fn("mdr mass 0", x, y, z); ho.mdrMasses(1) = fn("mdr mass 1", x, y, z);
   }
   return hier(ho, a, b, c);
}
static M2 sh3m(const HierarchyObject& o) { return FM("shiftH3m", double(o.isAlphab), o.mdrFlag, o.hierarchy); }
M2 HierarchyCalculator::shiftH3mToDRbarPrime(const HierarchyObject& ho) const { part(); return sh3m(ho); }
M2 HierarchyCalculator::getMt41L(const HierarchyObject& o, unsigned a, unsigned b) const { part(); return FM("Mt41L", double(o.isAlphab), o.hierarchy, a, b); }
M2 HierarchyCalculator::getMt42L(const HierarchyObject& o, unsigned a, unsigned b) const { part(); return FM("Mt42L", double(o.isAlphab), o.hierarchy, a, b); }
M2 HierarchyCalculator::calcDRbarToMDRbarShift(const HierarchyObject& o, bool a, bool b) const { part(); return FM("to MDR", double(o.isAlphab), o.hierarchy, a, b); }
static double uncert(const HierarchyObject& o, const M2& m, int a, int b, int c)
{
   return fn("uncertainty", double(o.isAlphab), double(o.mdrFlag), double(o.hierarchy), m(0,0), m(0,1), m(1,0), m(1,1), double(a), double(b), double(c));
}
double HierarchyCalculator::getExpansionUncertainty(const HierarchyObject& o, const M2& m, int a, int b, int c) { part(); return uncert(o, m, a, b, c); }
struct DL { double h3m, eft, nonlog, xt, shift; };
static DL dl(const HierarchyObject& o, bool omit)
{
   const auto f = [&](const char* n) { return fn(n, o.isAlphab, o.hierarchy, o.dLambdaH3m, o.dLambdaNonLog, omit); };
   return { f("dl h3m"), f("dl eft"), f("dl nonlog"), f("dl xt"), f("dl shift") };
}
void HierarchyCalculator::calcDeltaLambda3L(HierarchyObject& o, bool omit) const
{
   part();
   const DL d = dl(o, omit);
   o.dLambdaH3m = d.h3m; o.dLambdaEFT = d.eft; o.dLambdaNonLog = d.nonlog; o.dLambdaXtUncertainty = d.xt; o.dLambdaDRbarPrimeToMSbarShiftMap[3] = d.shift;
}

// calculators of other modules: which parameters were they given?
static const Parameters* given;    // parameters of the calculation
struct Ghost { double mu2, mq2, off[himalaya::CouplingOrders::NUMBER_OF_COUPLING_ORDERS]; };
static void ctor(Ghost* g, const Parameters& p)
{
   part();
   g->mu2 = p.mu2(2,2); g->mq2 = p.mq2(2,2);
   for (double& x : g->off) x = 1;
   alignas(64) char buf[sizeof(Parameters)];
   std::memcpy(buf, &p, sizeof buf);
   reinterpret_cast<Parameters*>(buf)->mu2(2,2) = given->mu2(2,2); reinterpret_cast<Parameters*>(buf)->mq2(2,2) = given->mq2(2,2);
   vc_frame("other calculators are given the same parameters", buf, offsetof(Parameters, massLimit3LThreshold) + sizeof(int), given);
}
extern "C" void c_eft(Mh2EFTCalculator* t, const Parameters& p, bool) asm("_ZN8himalaya7mh2_eft16Mh2EFTCalculatorC1ERKNS_10ParametersEb");
extern "C" void c_eft(Mh2EFTCalculator* t, const Parameters& p, bool) { ctor(reinterpret_cast<Ghost*>(t), p); }
extern "C" void c_thr(ThresholdCalculator* t, const Parameters& p, bool, bool) asm("_ZN8himalaya7mh2_eft19ThresholdCalculatorC1ERKNS_10ParametersEbb");
extern "C" void c_thr(ThresholdCalculator* t, const Parameters& p, bool, bool) { ctor(reinterpret_cast<Ghost*>(t), p); }
extern "C" void c_fo(MSSM_mass_eigenstates* t, const Parameters& p, bool at) asm("_ZN8himalaya6mh2_fo21MSSM_mass_eigenstatesC1ERKNS_10ParametersEb");
extern "C" void c_fo(MSSM_mass_eigenstates* t, const Parameters& p, bool at) { ctor(reinterpret_cast<Ghost*>(t), p); reinterpret_cast<Ghost*>(t)->off[0] = at; }
static const Ghost& G(const void* t) { return *static_cast<const Ghost*>(t); }
static double eft(const char* n, const Ghost& g, int a, int b, int c)
{
   double x[32] = { g.mu2, g.mq2, double(a), double(b), double(c) };
   int k = 5;
   for (double v : g.off) x[k++] = v;
   return vc_fnv(n, x, k);
}
namespace himalaya { namespace mh2_eft {
void Mh2EFTCalculator::setCorrectionFlag(himalaya::CouplingOrders::CouplingOrders o, int f) { part(); reinterpret_cast<Ghost*>(this)->off[o] = f; }
// the tree-level part depends on no switch
double Mh2EFTCalculator::getDeltaMh2EFT0Loop() const { part(); return fn("eft0", G(this).mu2, G(this).mq2); }
double Mh2EFTCalculator::getDeltaMh2EFT1Loop(int a, int b) const { part(); return eft("eft1", G(this), a, b, 0); }
double Mh2EFTCalculator::getDeltaMh2EFT2Loop(int a, int b) const { part(); return eft("eft2", G(this), a, b, 0); }
double Mh2EFTCalculator::getDeltaMh2EFT3Loop(int a, int b, int c) const { part(); return eft("eft3", G(this), a, b, c); }
static double thr(double mu2, double mq2, ThresholdCouplingOrders o, RenSchemes s, int l) { return fn("threshold", mu2, mq2, double(int(o)), double(int(s)), double(l)); }
double ThresholdCalculator::getThresholdCorrection(ThresholdCouplingOrders o, RenSchemes s, int l) const { part(); return thr(G(this).mu2, G(this).mq2, o, s, l); }
} namespace mh2_fo {
std::tuple<double,double,double> MSSM_mass_eigenstates::calculate_Mh2() const
{
   part();
   const double m = G(this).mu2, q = G(this).mq2, at = G(this).off[0];
   return std::make_tuple(fn("fo0", m, q, at), fn("fo1", m, q, at), fn("fo2", m, q, at));
}
} }
// eigenvalues order by order (C08)
using V2 = himalaya::V2;
static V2 perturb(const char* n1, const char* n2, const M2& a, const M2& b, const M2& c, const M2& d)
{
   double x[16]; int k = 0;
   for (const M2* m : { &a, &b, &c, &d }) { x[k++] = (*m)(0,0); x[k++] = (*m)(0,1); x[k++] = (*m)(1,0); x[k++] = (*m)(1,1); }
   V2 v; v << vc_fnv(n1, x, 16), vc_fnv(n2, x, 16);
   return v;
}
namespace himalaya {
std::tuple<V2,V2,V2,V2> fs_diagonalize_hermitian_perturbatively(const M2& a, const M2& b, const M2& c, const M2& d)
{
   part();
   const M2 z = M2::Zero();
   return std::make_tuple(perturb("ev00", "ev01", a, z, z, z), perturb("ev10", "ev11", a, b, z, z), perturb("ev20", "ev21", a, b, c, z), perturb("ev30", "ev31", a, b, c, d));
}
}

static void full(bool alphab, bool throws)
{
   Calc c(true);
   may_throw = throws;
   Calc before(c);
   const Parameters& p = before->p;
   given = &p;
   selected = vc_int("selected");
   vc_assume((p.vu > 0) & (p.vd > 0) & (p.Mt > 0));
   alignas(64) char rb[sizeof(HierarchyObject)];
   bool thrown = false;
   try { new (rb) HierarchyObject(c->calculateDMh3L(alphab)); } catch (const std::runtime_error&) { thrown = true; }
   left_as_found(*c, *before);
   vc_check("ends in an error exactly if a part does", thrown == failed);
   if (thrown) return;
   const HierarchyObject& r = *reinterpret_cast<HierarchyObject*>(rb);

   const double PI = 3.14159265358979323846;
   const double one = 1 / sq(4 * PI), two = sq(one);
   const int h = selected;
   const double ab = alphab;
   HierarchyObject o(alphab);  // what the parts are told
   o.hierarchy = h;
   vc_check("flags", r.isAlphab == alphab && r.mdrFlag == 0 && r.renormalizationScheme == HierarchyObject(alphab).renormalizationScheme && r.hierarchy == h);
   const M2 m0 = FM("tree", ab, 0), m1 = FM("Mt41L", ab, h, 0, 0), m2 = FM("Mt42L", ab, h, 0, 0), s = sh3m(o), m3 = hier(o, 0, 0, 1) + s;
   same("tree-level matrix", r.dMhMap[0], m0);
   same("one-loop matrix", r.dMhMap[1], m1);
   same("two-loop matrix", r.dMhMap[2], m2);
   same("three-loop matrix", r.dMhMap[3], m3);
   same("scheme shift", r.h3mShift, -s);
   vc_same("recorded absolute deviation", r.absDiff2L, fn("absDiff", ab, 0));
   vc_same("recorded relative deviation", r.relDiff2L, fn("relDiff", ab, 0));
   vc_same("one-loop uncertainty", r.expUncertainties[1], 0);
   vc_same("two-loop uncertainty", r.expUncertainties[2], fn("unc2", ab, 0));
   vc_same("three-loop uncertainty", r.expUncertainties[3], uncert(o, m0 + m1 + m2, 0, 0, 1));
   // quartic coupling
   o.dLambdaH3m = fn("raw H3m", ab, 0, double(h)); o.dLambdaNonLog = fn("raw NonLog", ab, 0, double(h));
   const DL d = dl(o, false);
   const double v2 = sq(p.vu) + sq(p.vd), mu2 = sq(p.MSt(0)), mq2 = sq(p.MSt(1));
   const double gt2 = 2 * sq(p.Mt) / v2, k1 = one * sq(p.Mt) * gt2 / v2, k2 = two * sq(p.Mt) * gt2 * sq(p.g3) / v2;
   const double l1 = k1 * thr(mu2, mq2, TO::ThresholdCouplingOrders::LAMBDA_AT, TO::RenSchemes::DRBARPRIME, 1);
   vc_same("quartic coupling, tree level", r.dLambdaMap[0] * v2, fn("eft0", mu2, mq2));
   vc_same("quartic coupling, one loop", r.dLambdaMap[1], l1);
   vc_same("quartic coupling, two loops", r.dLambdaMap[2], k2 * thr(mu2, mq2, TO::ThresholdCouplingOrders::LAMBDA_AT_AS, TO::RenSchemes::DRBARPRIME, 1));
   vc_same("scheme shift of the quartic coupling, tree level", r.dLambdaDRbarPrimeToMSbarShiftMap[0], 0);
   vc_same("scheme shift of the quartic coupling, one loop", r.dLambdaDRbarPrimeToMSbarShiftMap[1], 0);
   vc_same("scheme shift of the quartic coupling, two loops", r.dLambdaDRbarPrimeToMSbarShiftMap[2],
           alphab ? 0 : k2 * -4 * l1 * thr(mu2, mq2, TO::ThresholdCouplingOrders::YT_AS, TO::RenSchemes::DRBARPRIME, 1));
   vc_same("scheme shift of the quartic coupling, three loops", r.dLambdaDRbarPrimeToMSbarShiftMap[3], alphab ? 0 : d.shift);
   vc_same("quartic coupling, three loops", r.dLambdaMap[3], alphab ? 0 : d.eft);
   vc_same("quartic coupling, EFT logarithms", r.dLambdaEFT, alphab ? 0 : d.eft);
   vc_same("quartic coupling, H3m logarithms", r.dLambdaH3m, alphab ? 0 : d.h3m);
   vc_same("quartic coupling, without logarithms", r.dLambdaNonLog, alphab ? 0 : d.nonlog);
   vc_same("quartic coupling, missing mixing terms", r.dLambdaXtUncertainty, alphab ? 0 : d.xt);
   // diagonalisation
   const M2 z = M2::Zero();
   const double e3 = perturb("ev30", "ev31", m0, m1, m2, m3)(0);
   vc_same("diagonalised, tree level", r.dMh2Map[0], perturb("ev00", "ev01", m0, z, z, z)(0));
   vc_same("diagonalised, one loop", r.dMh2Map[1], perturb("ev10", "ev11", m0, m1, z, z)(0));
   vc_same("diagonalised, two loops", r.dMh2Map[2], perturb("ev20", "ev21", m0, m1, m2, z)(0));
   vc_same("diagonalised, three loops", r.dMh2Map[3], e3);
   // fixed order
   const double q = p.mq2(2,2), u = p.mu2(2,2);
   vc_same("fixed order, tree level", r.dMh2FOMap[0], fn("fo0", u, q, 0));
   vc_same("fixed order, one loop", r.dMh2FOMap[1], fn("fo1", u, q, 0));
   vc_same("fixed order, two loops", r.dMh2FOMap[2], fn("fo2", u, q, 0));
   vc_same("fixed order, three loops", r.dMh2FOMap[3], e3);
   vc_same("fixed order, top only, tree level", r.dMh2FOAtMap[0], 0);
   vc_same("fixed order, top only, one loop", r.dMh2FOAtMap[1], fn("fo1", u, q, 1));
   vc_same("fixed order, top only, two loops", r.dMh2FOAtMap[2], fn("fo2", u, q, 1));
   vc_same("fixed order, top only, three loops", r.dMh2FOAtMap[3], e3);
   // effective theory, all corrections
   Ghost g; g.mu2 = u; g.mq2 = q;
   for (double& x : g.off) x = 1;
   vc_same("effective theory, tree level", r.dMh2EFTMap[0], fn("eft0", u, q));
   vc_same("effective theory, one loop", r.dMh2EFTMap[1], eft("eft1", g, 1, 1, 0));
   vc_same("effective theory, two loops", r.dMh2EFTMap[2], eft("eft2", g, 1, 1, 0));
   vc_same("effective theory, three loops", r.dMh2EFTMap[3], eft("eft3", g, 1, 1, 0) + (alphab ? 0 : d.eft * v2));
   // shifted masses and shift to the modified scheme
   HierarchyObject om(alphab);
   om.hierarchy = h; om.mdrFlag = 1;
   const double w0 = fn("mdr mass 0", ab, 1, double(h)), w1 = fn("mdr mass 1", ab, 1, double(h));
   vc_same("sum of the shifted masses", r.mdrMasses(0) + r.mdrMasses(1), w0 + w1);
   vc_same("product of the shifted masses", r.mdrMasses(0) * r.mdrMasses(1), w0 * w1);
   same("shift to the modified scheme", r.mdrShift, FM("to MDR", ab, h, 1, 1) + hier(om, 0, 0, 1) + sh3m(om) - m3);
}
VC c22_top() { full(false, false); }
VC c22_bottom() { full(true, false); }
VC c05_full_top() { full(false, true); }
VC c05_full_bottom() { full(true, true); }
