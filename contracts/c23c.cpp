// C23: the points that a fixed-order calculation is built from
#include "hc.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include <cstddef>
#include <limits>

using himalaya::mh2_fo::MSSM_mass_eigenstates;
using himalaya::mh2_fo::MSSM_spectrum;
namespace CO = himalaya::CouplingOrders;

#ifndef VC_REPLAY
extern "C" void c_spec(MSSM_spectrum* t, const Parameters& p) asm("_ZN8himalaya6mh2_fo13MSSM_spectrumC1ERKNS_10ParametersE");
extern "C" void c_spec(MSSM_spectrum* t, const Parameters& p) { new (&t->pars) Parameters(p); t->M2hh(0) = vc_fn1("Mh2", p.Yd(2,2)); t->M2hh(1) = vc_fn1("MH2", p.Yd(2,2)); }
extern "C" void c_spec2(MSSM_spectrum* t, const Parameters& p) asm("_ZN8himalaya6mh2_fo13MSSM_spectrumC2ERKNS_10ParametersE");
extern "C" void c_spec2(MSSM_spectrum* t, const Parameters& p) { c_spec(t, p); }
// validation completes what is missing (C02)
static double completed(const char* n, const Parameters& p, double x) { return std::isnan(x) ? vc_fn3(n, p.Yd(2,2), p.Ye(2,2), p.vd) : x; }
void himalaya::Parameters::validate(bool)
{
   Mb = completed("Mb", *this, Mb); Mtau = completed("Mtau", *this, Mtau);
   MSb(0) = completed("MSb0", *this, MSb(0)); MSb(1) = completed("MSb1", *this, MSb(1)); MStau(0) = completed("MStau0", *this, MStau(0)); MStau(1) = completed("MStau1", *this, MStau(1));
   s2b = completed("s2b", *this, s2b); s2tau = completed("s2tau", *this, s2tau); theta_b = completed("theta_b", *this, theta_b); theta_tau = completed("theta_tau", *this, theta_tau);
}
#endif

static const unsigned long SIZE = offsetof(Parameters, massLimit3LThreshold);

VC c23_point()
{
   Calc c;
   const Parameters& p = c->p;
   const int at = vc_range("only_at", 0, 1);
   vc_assume(p.MSt(0) > 0);
#ifdef VC_REPLAY
   c->p = Parameters();
   { Parameters& p = c->p;
   p.scale = 1000; p.mu = 1500; p.g1 = 0.46; p.g2 = 0.65; p.g3 = 1.1; p.vd = 60; p.vu = 230;
   for (int i = 0; i < 3; ++i) { p.mq2(i,i) = 1e6*(i+1); p.md2(i,i) = 2e6; p.mu2(i,i) = 3e6; p.ml2(i,i) = 4e6; p.me2(i,i) = 5e6; }
   p.Au(2,2) = 1000; p.Yu(2,2) = 0.8; p.Yd(2,2) = 0.1; p.Ye(2,2) = 0.1; p.M1 = 100; p.M2 = 200; p.MG = 2000; p.MA = 500;
   p.validate(false); }
#endif
   const MSSM_mass_eigenstates o(p, at);
   Parameters gl = p;
   gl.g1 = 0; gl.g2 = 0;
   vc_frame("gaugeless spectrum belongs to the point without gauge couplings", &o.gaugeless.pars, SIZE, &gl);
   vc_frame("parameters of the calculation", &o.pars, SIZE, at ? &gl : &p);
   if (!at) {
      vc_frame("spectrum belongs to the point", &o.masses.pars, SIZE, &p);
   } else {
      Parameters g3 = gl;
      const double n = std::numeric_limits<double>::quiet_NaN(), yt = p.Yu(2,2), eps = o.masses.pars.Yd(2,2);
      vc_check("small bottom and tau Yukawa couplings", eps > 0 && eps < 1e-4 && o.masses.pars.Ye(2,2) == eps);
      g3.Yu.setZero(); g3.Yd.setZero(); g3.Ye.setZero();
      g3.Yu(2,2) = yt; g3.Yd(2,2) = eps; g3.Ye(2,2) = eps;
      g3.Mb = g3.Mtau = g3.s2b = g3.s2tau = g3.theta_b = g3.theta_tau = n;
      g3.MSb.setConstant(n); g3.MStau.setConstant(n);
      g3.validate(false);
      vc_frame("spectrum belongs to the point with the top Yukawa coupling only", &o.masses.pars, SIZE, &g3);
      vc_ident("light Higgs is massless without gauge couplings", o.masses.M2hh(0), 0);
   }
   // corrections
   const double tiny = 1e-10;
   const bool mt = std::abs(p.Mt) < tiny, mb = std::abs(p.Mb) < tiny, ml = std::abs(p.Mtau) < tiny;
   const auto on = [&](int k, bool want) { vc_check("corrections switched on", o.orders[k] == want); };
   on(CO::ONLY_AT_AS, at);
   on(CO::G32YT4, !mt);
   on(CO::G32YB4, !mb && !at);
   on(CO::YT6, !mt && !mb);
   on(CO::YTAU6, !ml && !at);
   on(CO::YTAU2YB4, !mb && !ml && !at);
   on(CO::YTAU4YB2, !mb && !ml && !at);
}
