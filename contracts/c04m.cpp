// C04: mean light squark mass
#include "hc.hpp"
VC c04_mean_mass()
{
   Calc c;
   const Parameters& p = c->p;
   vc_assume((p.vu > 0) & (p.vd > 0) & (p.MZ > 0) & (p.MW > 0) & (p.MZ > p.MW));
   const double t2 = sq(p.vu / p.vd), c2b = (1 - t2) / (1 + t2), sw2 = 1 - sq(p.MW / p.MZ);
   const double sbl = p.mq2(2,2) + sq(p.Mb) - (0.5 - sw2 / 3) * sq(p.MZ) * c2b, sbr = p.md2(2,2) + sq(p.Mb) - sw2 / 3 * sq(p.MZ) * c2b;
   const double prod = sq(p.mq2(0,0)) * sq(p.mq2(1,1)) * p.mu2(0,0) * p.mu2(1,1) * p.md2(0,0) * p.md2(1,1) * sbl * sbr;
   vc_same("geometric mean of the light squark masses", p.calculateMsq2(), vc_fn2("pow", prod, 0.1));
   vc_same("its root", c->calcMeanMsq(), vc_sqrt(vc_abs(p.calculateMsq2())));
}
