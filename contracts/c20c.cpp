// C20: difference between shifted and unshifted corrections
#include "hc.hpp"

static M2 part(const char* n, const char* n1, const char* n2, const HierarchyObject& o, unsigned a, unsigned b)
{
   const double x[] = { double(o.getIsAlphab()), double(o.getSuitableHierarchy()), double(o.getMDRFlag()), double(a), double(b) };
   M2 m;
   m(0,0) = vc_fnv(n, x, 5); m(0,1) = m(1,0) = vc_fnv(n1, x, 5); m(1,1) = vc_fnv(n2, x, 5);
   return m;
}
M2 HierarchyCalculator::getMt41L(const HierarchyObject& o, unsigned a, unsigned b) const { return part("one loop 11", "one loop 12", "one loop 22", o, a, b); }
M2 HierarchyCalculator::getMt42L(const HierarchyObject& o, unsigned a, unsigned b) const { return part("two loops 11", "two loops 12", "two loops 22", o, a, b); }

static void difference(bool ab)
{
   Calc c;
   Result r(ab);
   r.o.mdrFlag = vc_range("mdr", 0, 1);
   r.o.hierarchy = vc_range("hierarchy", 0, H::NUMBER_OF_HIERARCHIES - 1);
   const M2 d1 = c->getMt41L(r.o, 1, 1) - c->getMt41L(r.o, 0, 0), d2 = c->getMt42L(r.o, 1, 1) - c->getMt42L(r.o, 0, 0), none = M2::Zero();
   same("nothing without any order", c->calcDRbarToMDRbarShift(r.o, false, false), none);
   same("one-loop difference", c->calcDRbarToMDRbarShift(r.o, true, false), d1);
   same("two-loop difference", c->calcDRbarToMDRbarShift(r.o, false, true), d2);
   same("sum of the differences", c->calcDRbarToMDRbarShift(r.o, true, true), d1 + d2);
}
VC c20_difference_top() { difference(false); }
VC c20_difference_bottom() { difference(true); }
