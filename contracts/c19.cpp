// C19: shift from the H3m to the DR'-bar scheme
#include "hc.hpp"
#include "himalaya/misc/Constants.hpp"

static double sx, sy;
double HierarchyCalculator::shiftMst1ToMDR(const HierarchyObject& ho, unsigned a, unsigned b) const
{
   vc_check("stop masses shifted as required by the scheme of the result", a == unsigned(ho.getMDRFlag()) && b == unsigned(ho.getMDRFlag()));
   return sx;
}
double HierarchyCalculator::shiftMst2ToMDR(const HierarchyObject& ho, unsigned a, unsigned b) const
{
   vc_check("stop masses shifted as required by the scheme of the result", a == unsigned(ho.getMDRFlag()) && b == unsigned(ho.getMDRFlag()));
   return sy;
}
static double msq;
double HierarchyCalculator::calcMeanMsq() const { return msq; }

namespace {

enum Order { none, no_fourth, full };

Order order(int h)
{
   switch (h) {
   case H::h3: case H::h32q2g: case H::h3q22g: case H::h9: case H::h9q2: return no_fourth;
   case H::h4: return none;
   default: return full;
   }
}

void positive(const Parameters& p)
{
   vc_assume(p.scale > 0 && p.MG > 0 && msq > 0 && sx > 0 && sy > 0 && p.vu > 0 && p.vd > 0 && p.Mt > 0);
}

/// two-loop shift of the squared stop masses by the squark and gluino masses
double Delta(double s, double g, double q, double x, double y)
{
   const double L = 2*vc_log(s);
   return -6*(1 + L - 2*vc_log(g))*g*g + 10*(1 + L - 2*vc_log(q))*q*q + (1 + L - 2*vc_log(x))*x*x + (1 + L - 2*vc_log(y))*y*y;
}

/// derivative of the loop function g(x^2,y^2)/(x^2-y^2)^2 of the one-loop correction with respect to a common shift of x^2 and y^2
double G(double x, double y)
{
   const double a = x*x, b = y*y;
   return (a*a - b*b - 4*(vc_log(x) - vc_log(y))*a*b)/(a*b*(a - b)*(a - b)*(a - b));
}

}

/// element (i,j): variation of the one-loop correction under the common shift of both squared stop masses
static void element(int i, int j)
{
   Calc c;
   const Parameters& p = c->p;
   Result r(vc_bool("bottom"));
   r.o.mdrFlag = vc_range("mdr", 0, 1);
   const int h = vc_range("hierarchy", 0, H::NUMBER_OF_HIERARCHIES - 1);
   r.o.hierarchy = h;
   sx = vc_double("x"); sy = vc_double("y"); msq = vc_double("msq");
   positive(p);
   const HierarchyCalculator before(*c);
   const M2 s = c->shiftH3mToDRbarPrime(r.o);
   const double X = order(h) == none ? 0 : p.Au(2,2) - p.mu*p.vd/p.vu;
   const double cot = p.vd/p.vu, A = X + p.mu*cot, a = sx*sx, b = sy*sy, g = G(sx, sy);
   double w;
   if (i == 0 && j == 0) w = sq(p.mu*X)*g;
   else if (i != j) w = p.mu*(X/(a*b) - X*X*A*g);
   else w = (a + b - 2*A*X)/(a*b) + sq(A*X)*g - (order(h) == full ? 0 : sq(X*X)*g);
   const double yt2 = 2*sq(p.Mt/p.vu), K = himalaya::threeLoop*sq(sq(p.g3))*sq(p.Mt)*yt2*16;
   vc_near("variation of the one-loop correction", s(i,j), K*Delta(p.scale, p.MG, msq, sx, sy)*w);
   vc_frame("parameters left as found", &c->p, offsetof(Parameters, massLimit3LThreshold) + sizeof(int), &before.p);
}
VC c19_element00() { element(0, 0); }
VC c19_element01() { element(0, 1); }
VC c19_element10() { element(1, 0); }
VC c19_element11() { element(1, 1); }

/// scalar form
VC c19_scalar()
{
   Calc c;
   Parameters& p = c->p;
   Result r(false);
   const int h = vc_range("hierarchy", 0, H::NUMBER_OF_HIERARCHIES - 1), logs = vc_range("logarithms", 0, 1);
   r.o.hierarchy = h;
   p.MSt(0) = sx = vc_double("x"); p.MSt(1) = sy = vc_double("y"); msq = vc_double("msq");
   positive(p);
   const double s = c->shiftH3mToDRbarPrimeMh2(r.o, logs);
   const double X = order(h) == none ? 0 : p.Au(2,2) - p.mu*p.vd/p.vu, a = sx*sx, b = sy*sy, g = G(sx, sy);
   const double w = (a + b - 2*X*X)/(a*b) + (order(h) == full ? sq(X*X)*g : 0);
   vc_near("scalar form", s, 16*Delta(logs ? p.scale : sx, p.MG, msq, sx, sy)*w);
}

/// projection
VC c19_projection()
{
   Calc c;
   Parameters& p = c->p;
   Result r(false);
   r.o.hierarchy = vc_range("hierarchy", 0, H::NUMBER_OF_HIERARCHIES - 1);
   r.o.mdrFlag = 0;
   p.MSt(0) = sx = vc_double("x"); p.MSt(1) = sy = vc_double("y"); msq = vc_double("msq");
   positive(p);
   const M2 s = c->shiftH3mToDRbarPrime(r.o);
   const double z = c->shiftH3mToDRbarPrimeMh2(r.o, 1), v2 = sq(p.vu) + sq(p.vd);
   vc_same("light Higgs direction", (sq(p.vd)*s(0,0) + p.vd*p.vu*(s(0,1) + s(1,0)) + sq(p.vu)*s(1,1))/v2,
           himalaya::threeLoop*sq(sq(p.g3)*p.Mt)*2*sq(p.Mt)/v2*z);
   vc_same("symmetric", s(0,1), s(1,0));
}
