// C20: masses in the MDR scheme
#include "hc.hpp"
#include "himalaya/misc/Constants.hpp"

static double msq2;
double himalaya::Parameters::calculateMsq2() const { return msq2; }

namespace {

const double pi = 3.14159265358979323846;

struct S { double g3, m[2]; };

/// squared shifted mass
double mass2(HierarchyCalculator& c, const HierarchyObject& o, int i, unsigned a, unsigned b)
{
   const double m = i ? c.shiftMst2ToMDR(o, a, b) : c.shiftMst1ToMDR(o, a, b);
   return m*m;
}

void masses(int h, bool ab)
{
   Calc c;
   Parameters& p = c->p;
   msq2 = vc_double("msq2");
   double* m[2] = { ab ? &p.MSb(0) : &p.MSt(0), ab ? &p.MSb(1) : &p.MSt(1) };
   vc_assume(msq2 > 0 && *m[0] > 0 && *m[1] > 0 && p.MG > 0 && p.scale > 0 && p.g3 > 0);
   Result r(ab);
   r.o.hierarchy = h;
   const double al = sq(p.g3)/(16*sq(pi)), g3 = p.g3;
   const bool gluino = h == H::h6 || h == H::h6g2 || h == H::h6b || h == H::h6b2qg2 || h == H::h6bq22g || h == H::h6bq2g2;
   const double one = gluino ? 16*al*sq(p.MG)*(1 + vc_log(sq(p.scale/p.MG)))/3 : 0;
   const double z2 = sq(pi)/6;
   double two[2];
   for (int i = 0; i < 2; ++i) {
      vc_same("without shift the masses are the input masses", i ? c->shiftMst2ToMDR(r.o, 0, 0) : c->shiftMst1ToMDR(r.o, 0, 0), *m[i]);
      vc_same("one-loop shift: gluino only, order of the strong coupling squared", mass2(*c, r.o, i, 1, 0) - sq(*m[i]), one);
      two[i] = mass2(*c, r.o, i, 0, 1) - sq(*m[i]);
      vc_same("one-loop shift does not depend on the two-loop switch", mass2(*c, r.o, i, 1, 1), sq(*m[i]) + one + two[i]);
      p.g3 = 2*g3;
      vc_same("two-loop shift is of fourth order in the strong coupling", mass2(*c, r.o, i, 0, 1) - sq(*m[i]), 16*two[i]);
      p.g3 = g3;
   }
   vc_same("the heavier squark is removed for the lighter one only", two[0] - two[1], -8*sq(al)*sq(*m[1])*(2*vc_log(sq(p.scale)/sq(*m[1])) - 1 + 2*z2)/3);
   // the shift of the squared heavier mass comes from the other particles: it depends on its own mass through the expansion in MG - M only
   if (!gluino) vc_same("light squarks", two[1], -80*sq(al)*msq2*(2*vc_log(sq(p.scale)/msq2) - 1 + 2*z2)/3);
   const double M2 = *m[1];
   *m[0] = vc_double("another mass");
   vc_assume(*m[0] > 0);
   vc_same("the shift of the heavier squark does not depend on the lighter one", mass2(*c, r.o, 1, 0, 1), sq(M2) + two[1]);
   vc_same("the shift of the squared lighter mass does not depend on that mass", mass2(*c, r.o, 0, 0, 1) - sq(*m[0]), two[0]);
   // top and bottom
   const double a = *m[0], b = *m[1];
   Result s(!ab);
   s.o.hierarchy = h;
   if (ab) { p.MSt(0) = a; p.MSt(1) = b; } else { p.MSb(0) = a; p.MSb(1) = b; }
   for (int i = 0; i < 2; ++i) vc_same("same for bottom and top squarks", mass2(*c, s.o, i, 1, 1), mass2(*c, r.o, i, 1, 1));
}

void undefined_hierarchies()
{
   Calc c;
   msq2 = vc_double("msq2");
   Result r(false);
   const int h = vc_int("h");
   vc_assume(h < 0 || h >= H::NUMBER_OF_HIERARCHIES);
   r.o.hierarchy = h;
   for (int i = 0; i < 2; ++i) {
      bool refused = false;
      try { mass2(*c, r.o, i, 1, 1); } catch (const std::exception&) { refused = true; }
      vc_check("hierarchies that do not exist are refused", refused);
   }
}

}
VC c20_undefined() { undefined_hierarchies(); }
#define BOTH(h) VC c20_top_##h() { masses(H::h, false); } VC c20_bottom_##h() { masses(H::h, true); }
BOTH(h3) BOTH(h32q2g) BOTH(h3q22g) BOTH(h4) BOTH(h5) BOTH(h5g1) BOTH(h6) BOTH(h6b) BOTH(h6b2qg2) BOTH(h6bq22g) BOTH(h6bq2g2) BOTH(h6g2) BOTH(h9) BOTH(h9q2)
