// C12: switches of the effective-theory corrections
#include "vc.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_eft/EFTFlags.hpp"
#include "himalaya/mh2_fo/PV.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include <new>
#include <stdexcept>

using himalaya::Parameters;
using himalaya::mh2_eft::Mh2EFTCalculator;
namespace CO = himalaya::CouplingOrders;
static const int N = CO::NUMBER_OF_COUPLING_ORDERS;

static bool massless_b0;

// ---- contracts of the parts: arbitrary functions
namespace himalaya {
namespace mh2_eft {
ThresholdCalculator::ThresholdCalculator(const Parameters&, bool, bool) {}
double ThresholdCalculator::getThresholdCorrection(ThresholdCouplingOrders o, RenSchemes s, int omit) const
{
   const double x[] = { double(int(o)), double(int(s)), double(omit) };
   return vc_fnv("threshold", x, 3);
}
}
namespace mh2_fo {
double b0xx(double s, double x, double q2) noexcept { return massless_b0 ? vc_fn2("B0", s, x) : vc_fn3("B0 at scale", s, x, q2); }
}
}

namespace {

const int one_loop[] = { CO::G12G22, CO::G14, CO::G24, CO::G12YB2, CO::G22YB2, CO::YB4, CO::G12YTAU2, CO::G22YTAU2, CO::YTAU4, CO::G12YT2, CO::G22YT2, CO::YT4 };
const int two_loop[] = { CO::G32YT4, CO::G32YB4, CO::YB6, CO::YT6, CO::YTAU2YB4, CO::YTAU4YB2, CO::YTAU6, CO::YT2YB4, CO::YB2YT4 };

struct Mhc {
   alignas(64) char buf[sizeof(Mh2EFTCalculator)];
   Mh2EFTCalculator* operator->() { return reinterpret_cast<Mh2EFTCalculator*>(buf); }
   Mhc()
   {
      vc_havoc(buf, sizeof buf, "object");
      Parameters& p = *new (&(*this)->p) Parameters();
      p.scale = vc_double("scale"); p.g1 = vc_double("g1"); p.g2 = vc_double("g2"); p.g3 = vc_double("g3");
      p.vd = vc_double("vd"); p.vu = vc_double("vu"); p.MW = vc_double("MW"); p.MZ = vc_double("MZ");
      p.Mt = vc_double("Mt"); p.Mb = vc_double("Mb"); p.Mtau = vc_double("Mtau");
      vc_assume(p.vd > 0 && p.vu > 0 && p.scale > 0 && p.Mt > 0 && p.Mb > 0 && p.Mtau > 0 && p.MZ > 0 && p.MW > 0);
      // switches of other contributions are arbitrary
      for (int i = 0; i < N; ++i) (*this)->orders[i] = vc_int("other switch");
   }
   void off(int loops) { for (int o : one_loop) if (loops == 1) (*this)->orders[o] = 0; for (int o : two_loop) if (loops == 2) (*this)->orders[o] = 0; }
   double value(int loops, int a, int b) { return loops == 1 ? (*this)->getDeltaMh2EFT1Loop(a, b) : (*this)->getDeltaMh2EFT2Loop(a, b); }
};

template <int LOOPS, int K>
void switches(const int (&o)[K], int fixed, int nfixed)
{
   Mhc m;
   const int a = vc_bool("SM logs"), b = vc_bool("MSSM logs");
   double part[K];
   m.off(LOOPS);
   const double nothing = m.value(LOOPS, a, b);
   vc_same("nothing remains", nothing, 0);
   for (int k = 0; k < K; ++k) {
      m->orders[o[k]] = 1;
      part[k] = m.value(LOOPS, a, b);
      m->orders[o[k]] = 0;
   }
   double sum = 0;
   for (int k = 0; k < K; ++k) {
      const int on = k < nfixed ? fixed >> k & 1 : vc_flag("switch", k);
      m->orders[o[k]] = on;
      if (on) sum += part[k];
   }
   vc_same("sum of the contributions switched on", m.value(LOOPS, a, b), sum);
}

double ipow(double x, int n) { double r = 1; while (n-- > 0) r *= x; return r; }

/// power of each coupling in a contribution
template <int LOOPS>
void power(int order, int g1, int g2, int g3, int yt, int yb, int ytau)
{
   massless_b0 = true;
   Mhc m;
   m.off(LOOPS);
   m->orders[order] = 1;
   const int a = vc_bool("SM logs"), b = vc_bool("MSSM logs");
   const double x = m.value(LOOPS, a, b), s = vc_double("factor");
   vc_assume(s > 0);
   Parameters& p = m->p;
   const Parameters q = p;
#define SCALE(v, n, label) p.v = s*q.v; vc_same(label, m.value(LOOPS, a, b), ipow(s, n)*x); p.v = q.v;
   SCALE(g1, g1, "power of g1") SCALE(g2, g2, "power of g2") SCALE(g3, g3, "power of g3")
   SCALE(Mt, yt, "power of the top Yukawa coupling") SCALE(Mb, yb, "power of the bottom Yukawa coupling") SCALE(Mtau, ytau, "power of the tau Yukawa coupling")
#undef SCALE
}

}

#define SW1(i) VC c12_switches_1L_##i() { switches<1>(one_loop, i, 3); }
SW1(0) SW1(1) SW1(2) SW1(3) SW1(4) SW1(5) SW1(6) SW1(7)
#define SW2(i) VC c12_switches_2L_##i() { switches<2>(two_loop, i, 1); }
SW2(0) SW2(1)

#define PW(L, o, ...) VC c12_power_##o() { power<L>(CO::o, __VA_ARGS__); }
PW(1, G12G22, 2, 2, 0, 0, 0, 0)
PW(1, G14, 4, 0, 0, 0, 0, 0)
PW(1, G24, 0, 4, 0, 0, 0, 0)
PW(1, G12YB2, 2, 0, 0, 0, 2, 0)
PW(1, G22YB2, 0, 2, 0, 0, 2, 0)
PW(1, YB4, 0, 0, 0, 0, 4, 0)
PW(1, G12YTAU2, 2, 0, 0, 0, 0, 2)
PW(1, G22YTAU2, 0, 2, 0, 0, 0, 2)
PW(1, YTAU4, 0, 0, 0, 0, 0, 4)
PW(1, G12YT2, 2, 0, 0, 2, 0, 0)
PW(1, G22YT2, 0, 2, 0, 2, 0, 0)
PW(1, YT4, 0, 0, 0, 4, 0, 0)
PW(2, G32YT4, 0, 0, 2, 4, 0, 0)
PW(2, G32YB4, 0, 0, 2, 0, 4, 0)
PW(2, YB6, 0, 0, 0, 0, 6, 0)
PW(2, YT6, 0, 0, 0, 6, 0, 0)
PW(2, YTAU2YB4, 0, 0, 0, 0, 4, 2)
PW(2, YTAU4YB2, 0, 0, 0, 0, 2, 4)
PW(2, YTAU6, 0, 0, 0, 0, 0, 6)
PW(2, YT2YB4, 0, 0, 0, 2, 4, 0)
PW(2, YB2YT4, 0, 0, 0, 4, 2, 0)

/// setting a switch changes that switch only, whatever the state
VC c12_set()
{
   Mhc m;
   int before[N];
   for (int i = 0; i < N; ++i) before[i] = m->orders[i] = vc_int("state");
   const int k = vc_range("switch", 0, N - 1), f = vc_int("value");
   bool refused = false;
   try { m->setCorrectionFlag(static_cast<CO::CouplingOrders>(k), f); } catch (const std::exception&) { refused = true; }
   vc_check("refused exactly if the value is undefined", refused == !(f == 0 || f == 1));
   for (int i = 0; i < N; ++i) vc_iident("state of the switches", m->orders[i], i == k && !refused ? f : before[i]);
}

VC c12_set_undefined()
{
   Mhc m;
   const int k = vc_int("switch"), f = vc_range("value", 0, 1);
   vc_assume(k < 0 || k >= N);
   bool refused = false;
   int before[N];
   for (int i = 0; i < N; ++i) before[i] = m->orders[i] = vc_int("state");
   try { m->setCorrectionFlag(static_cast<CO::CouplingOrders>(k), f); } catch (const std::exception&) { refused = true; }
   vc_check("undefined switch refused", refused);
   for (int i = 0; i < N; ++i) vc_iident("state of the switches", m->orders[i], before[i]);
}
