// C21: uncertainty of a hierarchy expansion (the expanded matrix is an arbitrary function of the expansion depths)
// C05: the depths are restored, also if the expansion is refused
#include "hc.hpp"
#include "himalaya/misc/Constants.hpp"

static bool ab;
static double part(const char* n, const int* d, int a, int b, int c, int h)
{
   double x[16];
   for (int i = 0; i < 12; ++i) x[i] = d[i];
   x[12] = a; x[13] = b; x[14] = c; x[15] = h;
   return vc_fnv(n, x, 16);
}
static M2 expanded(const int* d, int a, int b, int c, int h)
{
   M2 m;
   m(0,0) = part("E11", d, a, b, c, h); m(0,1) = m(1,0) = part("E12", d, a, b, c, h); m(1,1) = part("E22", d, a, b, c, h);
   return m;
}
M2 HierarchyCalculator::calculateHierarchy(HierarchyObject& ho, int a, int b, int c) const
{
   vc_check("expansion for the same quark and mass scheme", ho.isAlphab == ab && ho.mdrFlag == 1);
   part();
   return expanded(expansionDepth.data(), a, b, c, ho.getSuitableHierarchy());
}

namespace {

// the expansion variables of each family
const int H3V[] = { X::Dmglst1, X::Dmsqst1, X::Dmst12, -1 }, H4V[] = { X::At, X::lmMsusy, X::Msq, X::Msusy, -1 }, H5V[] = { X::Dmglst1, X::Msq, -1 },
          H6V[] = { X::Dmglst2, X::Msq, -1 }, H6BV[] = { X::Dmglst2, X::Dmsqst2, -1 }, H9V[] = { X::Dmsqst1, X::Dmst12, X::Mgl, -1 };

const int* variables(int h)
{
   switch (h) {
   case H::h3: case H::h32q2g: case H::h3q22g: return H3V;
   case H::h4: return H4V;
   case H::h5: case H::h5g1: return H5V;
   case H::h6: case H::h6g2: return H6V;
   case H::h6b: case H::h6b2qg2: case H::h6bq22g: case H::h6bq2g2: return H6BV;
   case H::h9: case H::h9q2: return H9V;
   }
   return nullptr;
}

void uncertainty(int h, bool alphab, bool throws)
{
   Calc c(true);
   ab = alphab;
   may_throw = throws;
   Result r(alphab);
   r.o.mdrFlag = 1;
   r.o.hierarchy = h;
   Result old(r);
   int d[12], full[12];
   for (int i = 0; i < 12; ++i) full[i] = d[i] = c->expansionDepth[i];
   full[X::Mst] = full[X::threeLoop] = 1;
   const M2 base = sym_matrix("base", 0);
   const int f1 = vc_range("one loop", 0, 1), f2 = vc_range("two loop", 0, 1), f3 = vc_range("three loop", 0, 1);
   Calc before(c);
   bool thrown = false;
   double u = 0;
   try { u = c->getExpansionUncertainty(r.o, base, f1, f2, f3); } catch (const std::runtime_error&) { thrown = true; }
   vc_check("ends in an error exactly if there is no such expansion", thrown == (h < 0 || h >= 14 || failed));
   left_as_found(*c, *before);
   vc_frame("argument unchanged", &r.o, sizeof r.o, &old.o);
   if (thrown) return;
   const double m0 = smallest(base + expanded(full, f1, f2, f3, h));
   double s = 0;
   for (const int* v = variables(h); *v >= 0; ++v) {
      int t[12];
      for (int i = 0; i < 12; ++i) t[i] = i == *v ? 0 : full[i];
      s += sq(m0 - smallest(base + expanded(t, f1, f2, f3, h)));
   }
   vc_same("root of the summed squared changes", u, vc_sqrt(s));
}

}
GENERATED
