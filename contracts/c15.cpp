// C15: dependence of the threshold corrections on the renormalisation scale
#include "vc.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/misc/Li2.hpp"
#include <cmath>
#include <new>
#include <stdexcept>

using himalaya::Parameters;
using himalaya::mh2_eft::ThresholdCalculator;
using himalaya::mh2_eft::Limits;
using himalaya::mh2_eft::RenSchemes;
using O = himalaya::mh2_eft::ThresholdCouplingOrders;

// ---- contract of the dilogarithm (C11)
namespace himalaya { double dilog(double x) noexcept { return vc_li2(x); } }

namespace {

struct Tc {
   alignas(64) char buf[sizeof(ThresholdCalculator)];
   ThresholdCalculator* operator->() { return reinterpret_cast<ThresholdCalculator*>(buf); }
   Tc()
   {
      vc_havoc(buf, sizeof buf, "object");
      Parameters& p = *new (&(*this)->p) Parameters();
      const double q = vc_double("q"), u = vc_double("u"), g = vc_double("g"), s = vc_double("s"), t = vc_double("t");
      vc_assume(q > 0 && u > 0 && g > 0 && s > 0 && t > 0);
      p.mq2(2,2) = q*q; p.mu2(2,2) = u*u; p.MG = g; p.MSt(0) = t;
      p.Au(2,2) = vc_double("At"); p.mu = vc_double("mu"); p.vu = vc_double("vu"); p.vd = vc_double("vd");
      vc_assume(p.vu > 0 && p.vd > 0);
      p.massLimit3LThreshold = int(Limits::GENERAL);
      (*this)->msq2 = s*s;
      (*this)->xtOrderLambdaAtAs2 = 6;
   }
   double at(double scale, O o, RenSchemes s = RenSchemes::TEST, int logs = 1)
   {
      (*this)->p.scale = scale;
      return (*this)->getThresholdCorrection(o, s, logs);
   }
};

double scale(const char* n)
{
   const double r = vc_double(n);
   vc_assume(r > 0);
   return r;
}

const O order[] = { O::G3_AS, O::YT_AS, O::YT_AS2, O::LAMBDA_AT, O::LAMBDA_AT_AS, O::LAMBDA_AT_AS2 };
const char* const name[] = { "g3_as", "yt_as", "yt_as2", "lambda_at", "lambda_at_as", "lambda_at_as2" };
const char* const equal[] = { "", "mQ3 = mU3", "mQ3 = m3", "mU3 = m3", "mQ3 = mU3 = m3", "mQ3 = mU3 = m3 = msq" };

template <int I> void limit()
{
   const double r1 = scale("scale"), r2 = scale("scale2");
   Tc t;
   const double g = t.at(r1, order[I]) - t.at(r2, order[I]);
   for (int l = 1; l < 6; ++l) {
      t->setLimit(Limits(l));
      vc_near(equal[l], g, t.at(r1, order[I]) - t.at(r2, order[I]));
   }
}

template <int I> void logs()
{
   const double r = scale("scale");
   Tc t;
   for (int l = 0; l < 6; ++l) {
      t->setLimit(Limits(l));
      for (int s = 0; s < 2; ++s) {
         const RenSchemes sc = s ? RenSchemes::TEST : RenSchemes::DRBARPRIME;
         vc_same(equal[l][0] ? equal[l] : "general", t.at(r, order[I], sc, 0), t.at(t->p.MSt(0), order[I], sc, 1));
      }
   }
}

#ifdef VC_REPLAY
/// the equations of specs/C15.py with numerical derivatives
struct Num {
   Tc& t;
   double r;
   /// along the logarithm of the squared scale
   double d(int i)
   {
      const double h = 0.25;
      const auto f = [&] (double x) { return t.at(r*std::exp(0.5*x), order[i]); };
      return (8*(f(h) - f(-h)) - (f(2*h) - f(-2*h)))/(12*h);
   }
   /// along the running of the masses
   double D(int i, double bm2, double bg, double bA)
   {
      const Parameters p = t->p;
      const double s = t->msq2;
      const auto f = [&] (double x) {
         t->p.mq2(2,2) = p.mq2(2,2) + x*bm2; t->p.mu2(2,2) = p.mu2(2,2) + x*bm2; t->msq2 = s + x*bm2;
         t->p.MG = p.MG + x*bg; t->p.Au(2,2) = p.Au(2,2) + x*bA;
         const double y = t.at(r, order[i]);
         t->p.mq2(2,2) = p.mq2(2,2); t->p.mu2(2,2) = p.mu2(2,2); t->msq2 = s; t->p.MG = p.MG; t->p.Au(2,2) = p.Au(2,2);
         return y;
      };
      const double h = 1e-4;
      return (8*(f(h) - f(-h)) - (f(2*h) - f(-2*h)))/(12*h);
   }
   void check(const char* l, double x, double y) { vc_check(l, std::abs(x - y) <= 1e-5*(1 + std::abs(x) + std::abs(y))); }
};

void replay(Tc& t, double r)
{
   Num n { t, r };
   double c[6], d[6], D[6];
   const double g = t->p.MG, g2 = g*g, tr = t->p.mq2(2,2) + t->p.mu2(2,2) + 10*t->msq2;
   for (int i = 0; i < 6; ++i) { c[i] = t.at(r, order[i]); d[i] = n.d(i); D[i] = n.D(i, -16./3*g2, -3*g, 16./3*g); }
   n.check("g3_as", d[0], 2);
   n.check("yt_as", d[1], 4./3);
   n.check("yt_as2", d[2], -16./3*c[0] - 8./9 + 54 + 7*c[1] - D[1] + c[1]*d[1]);
   n.check("lambda_at", d[3], -12);
   n.check("lambda_at_as", d[4], -64 - D[3] + 16*c[3]);
   n.check("lambda_at_as2", d[5], -1064./3 + 128*1.2020569031595942 - D[4] - 2*c[0]*D[3] - n.D(3, -64./3*g2 + 8./3*tr, 0, 32./9*g) + 23*c[4] + 216*c[3]);
}
#endif

} // namespace

/// the corrections at an arbitrary scale
VC c15_running()
{
   const double r = scale("scale");
   Tc t;
   for (int i = 0; i < 6; ++i) vc_out(name[i], t.at(r, order[i]));
#ifdef VC_REPLAY
   replay(t, r);
#endif
}

VC c15_limit_yt_as() { limit<1>(); }
VC c15_limit_yt_as2() { limit<2>(); }
VC c15_limit_lambda_at() { limit<3>(); }
VC c15_limit_lambda_at_as() { limit<4>(); }
VC c15_limit_lambda_at_as2() { limit<5>(); }

VC c15_logs_g3_as() { logs<0>(); }
VC c15_logs_yt_as() { logs<1>(); }
VC c15_logs_yt_as2() { logs<2>(); }
VC c15_logs_lambda_at() { logs<3>(); }
VC c15_logs_lambda_at_as() { logs<4>(); }
VC c15_logs_lambda_at_as2() { logs<5>(); }
