// C20: corrections with shifted masses
#include "hc.hpp"

static double S[4][2];
double HierarchyCalculator::shiftMst1ToMDR(const HierarchyObject&, unsigned a, unsigned b) const { return S[a + 2*b][0]; }
double HierarchyCalculator::shiftMst2ToMDR(const HierarchyObject&, unsigned a, unsigned b) const { return S[a + 2*b][1]; }

static void one_loop(bool ab)
{
   Calc c;
   const Parameters& p = c->p;
   Result r(ab);
   r.o.mdrFlag = vc_range("mdr", 0, 1);
   for (int k = 0; k < 4; ++k) { S[k][0] = vc_sym2("shifted mass", k, 0); S[k][1] = vc_sym2("shifted mass", k, 1); }
   const double m = ab ? p.Mb : p.Mt, s = ab ? p.s2b : p.s2t, cot = p.vd/p.vu;
   vc_assume(p.vu > 0 && p.vd > 0 && m > 0);
   for (int k = 0; k < 4; ++k) {
      vc_assume(S[k][0] > 0 && S[k][1] > S[k][0]);
      // effective potential of the top (bottom) quark and its partners
      const double a = sq(S[k][0]), b = sq(S[k][1]), X = (a - b)*s/(2*m), A = X + p.mu*cot, L = 2*vc_log(S[k][0]) - 2*vc_log(S[k][1]);
      const double g = 2 - (a + b)/(a - b)*L, K = 3*sq(sq(m))/(4*sq(3.14159265358979323846*p.vu));
      M2 w;
      w(0,0) = K*sq(p.mu*X/(a - b))*g;
      w(0,1) = w(1,0) = -K*p.mu*X/(a - b)*(L + A*X/(a - b)*g);
      w(1,1) = K*(2*vc_log(S[k][0]) + 2*vc_log(S[k][1]) - 4*vc_log(m) + 2*A*X/(a - b)*L + sq(A*X/(a - b))*g);
      const M2 x = c->getMt41L(r.o, k & 1, k >> 1);
      same("one-loop correction of the effective potential with the shifted masses", x, w);
   }
}
VC c20_one_loop_top() { one_loop(false); }
VC c20_one_loop_bottom() { one_loop(true); }
