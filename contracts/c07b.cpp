// C07: the spectrum is complete after construction and belongs to the point handed over
#include "vc.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include <new>

using himalaya::Parameters;
using himalaya::mh2_fo::MSSM_spectrum;

#define SINGLE(F) F(MVWm, M2VWm) F(MVZ, M2VZ) F(MFt, MFt) F(MFb, MFb) F(MFtau, MFtau) F(MSveL, M2SveL) F(MSvmL, M2SvmL) F(MSvtL, M2SvtL)
#define MULTI(F) F(MSu, M2Su, ZU) F(MSd, M2Sd, ZD) F(MSc, M2Sc, ZC) F(MSs, M2Ss, ZS) F(MSt, M2St, ZT) F(MSb, M2Sb, ZB) F(MSe, M2Se, ZE) \
   F(MSm, M2Sm, ZM) F(MStau, M2Stau, ZTau) F(Mhh, M2hh, ZH) F(MAh, M2Ah, ZA) F(MHpm, M2Hpm, ZP) F(MChi, MChi, ZN) F(MCha, MCha, UM)

// the calculation of each mass stands for an arbitrary function of the parameters it can see
#ifndef VC_REPLAY
namespace himalaya { namespace mh2_fo {
namespace { double of(const char* n, const Parameters& p) { return vc_fn2(n, p.MA, p.mq2(2,2)); } }
#define F(n, m) void MSSM_spectrum::calculate_##n() { m = of(#n, pars); }
SINGLE(F)
#undef F
#define F(n, m, z) void MSSM_spectrum::calculate_##n() { m(0) = of(#n, pars); m(m.size()-1) = of(#n "2", pars); z(0,0) = of(#z, pars); }
MULTI(F)
#undef F
}}
#endif

namespace {
struct Point : Parameters {
   Point()
   {
      scale = 1000; mu = 1500; g1 = 0.46; g2 = 0.65; g3 = 1.1; vd = 25; vu = 240;
      mq2 << 1e6,0,0, 0,2e6,0, 0,0,3e6; md2 = 2*mq2; mu2 = 3*mq2; ml2 = 4*mq2; me2 = 5*mq2;
      Au(2,2) = 1000; Yu(2,2) = 0.8; Yd(2,2) = 0.1; Ye(2,2) = 0.1; M1 = 100; M2 = 200; MG = 2000; MA = 500;
#ifndef VC_REPLAY
      MA = vc_double("MA"); mq2(2,2) = vc_double("mq2");
#endif
   }
};
}

VC c07_complete()
{
   const Point p;
   const MSSM_spectrum s(p);
#ifdef VC_REPLAY
   MSSM_spectrum t(p);
#define F(n, m) t.m = -1e99; t.calculate_##n(); vc_same("calculated mass", s.m, t.m);
   SINGLE(F)
#undef F
#define F(n, m, z) t.m.setConstant(-1e99); t.z.setConstant(-1e99); t.calculate_##n(); for (int i = 0; i < t.m.size(); ++i) vc_same("calculated masses", s.m(i), t.m(i)); \
   for (int i = 0; i < t.z.size(); ++i) vc_same("calculated mixing", s.z.data()[i], t.z.data()[i]);
   MULTI(F)
#undef F
#else
   using himalaya::mh2_fo::of;
#define F(n, m) vc_same("calculated mass", s.m, of(#n, p));
   SINGLE(F)
#undef F
#define F(n, m, z) vc_same("calculated masses", s.m(0), of(#n, p)); vc_same("calculated masses", s.m(s.m.size()-1), of(#n "2", p)); vc_same("calculated mixing", s.z(0,0), of(#z, p));
   MULTI(F)
#undef F
#endif
   vc_same("parameters of the point", s.pars.MA, p.MA);
   vc_same("parameters of the point", s.pars.mq2(2,2), p.mq2(2,2));
}
