// C04: the selection loop, with its callees replaced by their contracts
#include "hc.hpp"
#include "himalaya/misc/Constants.hpp"

// contracts of the callees ---------------------------------------------------
bool HierarchyCalculator::isHierarchySuitable(const HierarchyObject& ho) const
{
   const int h = ho.getSuitableHierarchy();
   vc_join(h);
   return vc_flag("suitable", h);
}
static bool ab;
M2 HierarchyCalculator::getMt41L(const HierarchyObject& ho, unsigned s1, unsigned s2) const
{
   part();
   vc_check("one-loop shift flags", (int) s1 == ho.mdrFlag && s2 == 0 && ho.isAlphab == ab);
   return sym_matrix("Mt41L", ho.getSuitableHierarchy());
}
M2 HierarchyCalculator::getMt42L(const HierarchyObject& ho, unsigned s1, unsigned s2) const
{
   part();
   vc_check("two-loop shift flags", (int) s1 == ho.mdrFlag && s2 == 0 && ho.isAlphab == ab);
   return sym_matrix("Mt42L", ho.getSuitableHierarchy());
}
M2 HierarchyCalculator::calculateHierarchy(HierarchyObject& ho, int a, int b, int c) const
{
   part();
   vc_check("expanded two-loop terms requested", a == 0 && b == 1 && c == 0 && ho.isAlphab == ab);
   // the comparison takes the two-loop expansion at the depth of the three-loop one
   vc_check("expansion depth", expansionDepth[X::threeLoop] == 0 && expansionDepth[X::Mst] == 0);
   for (int i = 2; i < 12; ++i) vc_check("expansion depth of the other variables", expansionDepth[i] == 1);
   return sym_matrix("expanded", ho.getSuitableHierarchy());
}
static M2 tree(const Parameters& p)
{
   // Goldstone boson with mass MZ and pseudoscalar with mass MA
   const double tb = p.vu / p.vd, s2 = 2 * tb / (1 + tb * tb) / 2;
   M2 m;
   m(0,0) = s2 * (sq(p.MZ) / tb + sq(p.MA) * tb);
   m(0,1) = m(1,0) = -s2 * (sq(p.MZ) + sq(p.MA));
   m(1,1) = s2 * (sq(p.MZ) * tb + sq(p.MA) / tb);
   return m;
}
double HierarchyCalculator::getExpansionUncertainty(const HierarchyObject& ho, const M2& m, int a, int b, int c)
{
   part();
   const int h = ho.getSuitableHierarchy();
   const M2 base = tree(p) + sym_matrix("Mt41L", h);
   vc_check("uncertainty of one loop order", a == 0 && b + c == 1 && b * c == 0);
   if (b) same("matrix below two loops", m, base);
   else same("matrix below three loops", m, base + sym_matrix("Mt42L", h));
   return vc_sym(b ? "unc2" : "unc3", h);
}
void HierarchyCalculator::calcDeltaLambda3L(HierarchyObject& ho, bool) const
{
   part();
   ho.setDLambdaH3m(vc_sym("dLambdaH3m", 0)); ho.setDLambdaEFT(vc_sym("dLambdaEFT", 0)); ho.setDLambdaNonLog(vc_sym("dLambdaNonLog", 0));
   ho.setDLambdaDRbarPrimeToMSbarShift(3, vc_sym("dLambdaShift", 0)); ho.setDLambdaXtUncertainty(vc_sym("dLambdaXt", 0));
}

struct Est { double abs, rel, err; };
static Est estimate(const M2& t, int h)
{
   const M2 base = t + sym_matrix("Mt41L", h);
   const double full = smallest(base + sym_matrix("Mt42L", h)), ex = smallest(base + sym_matrix("expanded", h));
   Est e;
   e.abs = vc_abs(full - ex);
   e.rel = e.abs / full;
   e.err = vc_sqrt(sq(e.rel) + sq(vc_sym("unc2", h) / ex));
   return e;
}

static void selection(bool alphab, int mdr)
{
   Calc c;
   ab = alphab;
   HierarchyObject ho(alphab);
   ho.mdrFlag = mdr;
   const Parameters& p = c->p;
   vc_assume((p.vu > 0) & (p.vd > 0));
   const M2 t = tree(p);
   for (int h = 0; h < 14; ++h) vc_assume(estimate(t, h).err >= 0);
   const int sel = c->compareHierarchies(ho);
   vc_join(100);
   vc_check("selected hierarchy recorded", ho.getSuitableHierarchy() == sel);
   same("tree-level matrix", ho.getDMh(0), t);
   vc_check("flags kept", ho.mdrFlag == mdr && ho.isAlphab == alphab);
   for (int i = 0; i < 12; ++i) vc_check("expansion depths restored", c->expansionDepth[i] == 1);
   if (sel == -1) {
      for (int h = 0; h < 14; ++h) vc_check("none compatible", !vc_cond("suitable", h));
      return;
   }
   vc_check("an existing hierarchy", sel >= 0 && sel < 14);
   const Est s = estimate(t, sel);
   vc_check("selected one compatible", vc_cond("suitable", sel));
   for (int h = 0; h < 14; ++h) {
      if (h == sel) continue;
      const Est e = estimate(t, h);
      vc_check("least estimate", !vc_cond("suitable", h) | (h < sel ? s.err < e.err : s.err <= e.err));
   }
   vc_same("recorded absolute deviation", ho.getAbsDiff2L(), s.abs);
   vc_same("recorded relative deviation", ho.getRelDiff2L(), s.rel);
   vc_same("recorded two-loop uncertainty", ho.getDMhExpUncertainty(2), vc_sym("unc2", sel));
   vc_same("recorded three-loop uncertainty", ho.getDMhExpUncertainty(3), vc_sym("unc3", sel));
}
VC c04_selection_t0() { selection(false, 0); }
VC c04_selection_t1() { selection(false, 1); }
VC c04_selection_b0() { selection(true, 0); }
VC c04_selection_b1() { selection(true, 1); }

// C05: any part may end in an error
static void history(bool alphab)
{
   Calc c(true);
   for (int i = 2; i < 12; ++i) vc_assume(c->expansionDepth[i] == 1);
   Calc before(c);
   ab = alphab;
   may_throw = true;
   Result r(alphab);
   vc_assume((c->p.vu > 0) & (c->p.vd > 0));
   bool thrown = false;
   try { c->compareHierarchies(r.o); } catch (const std::runtime_error&) { thrown = true; }
   left_as_found(*c, *before);
   vc_check("ends in an error exactly if a part does", thrown == failed);
   vc_check("flags kept", r.o.mdrFlag == 0 && r.o.isAlphab == alphab);
}
VC c05_compare_top() { history(false); }
VC c05_compare_bottom() { history(true); }
