// C06: the expanded mass matrix is put together from the requested loop orders (the classes of the individual
// hierarchies are replaced by their contracts: functions of their constructor arguments)
#include "hc.hpp"
#include "himalaya/hierarchies/Hierarchies.hpp"
#include <cstring>

double himalaya::Parameters::calculateMsq2() const { return vc_sym("Msq2", 0); }
static bool ab;
double HierarchyCalculator::shiftMst1ToMDR(const HierarchyObject& ho, unsigned a, unsigned b) const
{
   vc_check("shift for the same quark", ho.isAlphab == ab);
   return vc_sym2("Mst1", a, b);
}
double HierarchyCalculator::shiftMst2ToMDR(const HierarchyObject& ho, unsigned a, unsigned b) const
{
   vc_check("shift for the same quark", ho.isAlphab == ab);
   return vc_sym2("Mst2", a, b);
}

namespace {

// constructor arguments of the objects made so far, numbered
struct Args { double x[40]; int n; };
Args args[32];
int made;

void note(void* self, const himalaya::hierarchies::ExpansionFlags_t& d, const double* x, int n)
{
   Args& a = args[made];
   a.n = 0;
   for (int i = 0; i < 12; ++i) a.x[a.n++] = d[i];
   for (int i = 0; i < n; ++i) a.x[a.n++] = x[i];
   std::memcpy(self, &made, sizeof made);
   ++made;
}
double value(const char* fn, const void* self)
{
   int k;
   std::memcpy(&k, self, sizeof k);
   return vc_fnv(fn, args[k].x, args[k].n);
}

struct Sum { double s11, s22, s12, l0, l1, l2, l3; };
template <class T> void add(Sum& s, const T& h)
{
   s.s11 += h.getS1(); s.s22 += h.getS2(); s.s12 += h.getS12();
   s.l0 = h.calc_coef_at_as2_no_sm_logs_log0(); s.l1 = h.calc_coef_at_as2_no_sm_logs_log1();
   s.l2 = h.calc_coef_at_as2_no_sm_logs_log2(); s.l3 = h.calc_coef_at_as2_no_sm_logs_log3();
}
double lg(double scale, double m) { return vc_log(sq(scale / m)); }

}

GENERATED

static void combine(int h, bool alphab)
{
   Calc c(true);
   const Parameters& p = c->p;
   ab = alphab;
   vc_assume((p.scale > 0) & (p.vu > 0) & (p.vd > 0) & (p.MG > 0) & (p.Mt > 0) & (p.Mb > 0) & (vc_sym("Msq2", 0) > 0));
   for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) vc_assume((vc_sym2("Mst1", i, j) > 0) & (vc_sym2("Mst2", i, j) > 0));
   Result res(alphab);
   HierarchyObject& ho = res.o;
   ho.hierarchy = h;
   const int mdr = ho.mdrFlag = vc_range("mdr", 0, 1);
   const int f1 = vc_range("one loop", 0, 1), f2 = vc_range("two loop", 0, 1), f3 = vc_range("three loop", 0, 1);
   ho.dLambdaH3m = vc_double("dLambdaH3m"); ho.dLambdaNonLog = vc_double("dLambdaNonLog");
   ho.mdrMasses(0) = vc_double("mdr mass 0"); ho.mdrMasses(1) = vc_double("mdr mass 1");
   Result old(res);
   HierarchyObject& before = old.o;
   M2 m;
   bool thrown = false;
   try { m = c->calculateHierarchy(ho, f1, f2, f3); } catch (const std::runtime_error&) { thrown = true; }
   const bool exists = h >= 0 && h < 14;
   vc_check("refused exactly if it does not exist", thrown == (!exists && (f1 || f2 || f3)));
   if (thrown) return;
   Sum s{};
   const double pref = 3 / (2 * sq(himalaya_pi * p.vu));
   const double Msq = vc_sqrt(vc_abs(vc_sym("Msq2", 0)));
   double lm1 = 0;
   for (int l = 1; l <= 3; ++l) {
      if (!(l == 1 ? f1 : l == 2 ? f2 : f3)) continue;
      const double Mst1 = vc_sym2("Mst1", l >= 2 ? mdr : 0, l >= 3 ? mdr : 0), Mst2 = vc_sym2("Mst2", l >= 2 ? mdr : 0, l >= 3 ? mdr : 0);
      lm1 = lg(p.scale, Mst1);
      contribution(s, h, *c, alphab, mdr, l, Mst1, Mst2, Msq);
   }
   vc_same("matrix element 11", m(0,0), pref * s.s11);
   vc_same("matrix element 22", m(1,1), pref * s.s22);
   vc_same("matrix element 12", m(0,1), pref * s.s12);
   vc_same("matrix element 21", m(1,0), pref * s.s12);
   if (!f1 && !f2 && f3) {
      vc_same("quartic coupling piece", ho.dLambdaH3m, s.l0 + lm1 * s.l1 + lm1 * lm1 * s.l2 + lm1 * lm1 * lm1 * s.l3);
      vc_same("quartic coupling without logarithms", ho.dLambdaNonLog, s.l0);
      const double a = vc_sym2("Mst1", mdr, mdr), b = vc_sym2("Mst2", mdr, mdr);
      // (the object keeps the two masses in ascending order)
      vc_same("lighter shifted mass", ho.mdrMasses(0), a <= b ? a : b);
      vc_same("heavier shifted mass", ho.mdrMasses(1), a <= b ? b : a);
      before.dLambdaH3m = ho.dLambdaH3m; before.dLambdaNonLog = ho.dLambdaNonLog; before.mdrMasses = ho.mdrMasses;
   }
   vc_frame("nothing else changed", &ho, sizeof ho, &before);
}
