// C16: the arguments that the fixed-order calculation and the hierarchy calculator hand to the two-loop corrections
#include "hc.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"

using himalaya::mh2_fo::MSSM_mass_eigenstates;
namespace CO = himalaya::CouplingOrders;

template <class... T> static M2 fm(const char* n, const char* n1, const char* n2, T... t)
{
   const double x[] = { double(t)... };
   M2 m;
   m(0,0) = vc_fnv(n, x, sizeof...(T)); m(0,1) = m(1,0) = vc_fnv(n1, x, sizeof...(T)); m(1,1) = vc_fnv(n2, x, sizeof...(T));
   return m;
}
#define FM(n, ...) fm(n "11", n "12", n "22", __VA_ARGS__)
#define D(n) double n
namespace himalaya { namespace mh2l {
M2 delta_mh2_2loop_at_as(D(a), D(b), D(c), D(d), D(e), D(f), D(g), D(h), D(i), D(j), D(k), int l) { return FM("at_as", a, b, c, d, e, f, g, h, i, j, k, l); }
M2 delta_mh2_2loop_ab_as(D(a), D(b), D(c), D(d), D(e), D(f), D(g), D(h), D(i), D(j), D(k), int l) { return FM("ab_as", a, b, c, d, e, f, g, h, i, j, k, l); }
M2 delta_mh2_2loop_at_at(D(a), D(b), D(c), D(d), D(e), D(f), D(g), D(h), D(i), D(j), D(k), D(l), D(m), D(n), D(o), int p, int q)
{ return FM("at_at", a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q); }
M2 delta_mh2_2loop_atau_atau(D(a), D(b), D(c), D(d), D(e), D(f), D(g), D(h), D(i), D(j), D(k), int l) { return FM("atau_atau", a, b, c, d, e, f, g, h, i, j, k, l); }
M2 delta_mh2_2loop_ab_atau(D(a), D(b), D(c), D(d), D(e), D(f), D(g), D(h), D(i), D(j), D(k), D(l), D(m), D(n), int p)
{ return FM("ab_atau", a, b, c, d, e, f, g, h, i, j, k, l, m, n, p); }
} }

// momentum iteration: arbitrary symmetric matrices
himalaya::RM22 MSSM_mass_eigenstates::delta_mh2_2loop_mom_it_pert() const { return sym_matrix("momentum iteration, perturbative", 0); }
himalaya::RM22 MSSM_mass_eigenstates::delta_mh2_2loop_mom_it_num(double a, int n) const { return FM("momentum iteration, numerical", a, n); }

static void fixed_order(int k)
{
   Calc c;
   const Parameters& p = c->p;
   static char buf[sizeof(MSSM_mass_eigenstates)];
   MSSM_mass_eigenstates& o = *reinterpret_cast<MSSM_mass_eigenstates*>(buf);
   new (&o.pars) Parameters(p);
   new (&o.masses.pars) Parameters(p);
   new (&o.gaugeless.pars) Parameters(p);
   o.gaugeless.pars.g1 = 0; o.gaugeless.pars.g2 = 0;
   const double mt = o.masses.MFt = o.gaugeless.MFt = vc_double("mt"), mb = o.masses.MFb = o.gaugeless.MFb = vc_double("mb"),
      mtau = o.masses.MFtau = o.gaugeless.MFtau = vc_double("mtau");
   o.masses.M2SvtL = vc_double("msv2 with gauge couplings");
   const double msv2 = o.gaugeless.M2SvtL = vc_double("msv2");
   o.mom_it_precision_goal = vc_double("precision goal"); o.mom_it_max_iterations = vc_int("max iterations");
   const int mom = vc_range("momentum iteration", 0, 2);
   o.mom_it = static_cast<himalaya::mh2_fo::Momentum_iteration>(mom);
   for (int i = 0; i < CO::NUMBER_OF_COUPLING_ORDERS; ++i) o.orders[i] = 0;
   const auto on = [&](int x) { return o.orders[x] = vc_flag("order", x); };
   vc_assume(p.vu > 0 && p.vd > 0);
   const double Q = sq(p.scale), T1 = sq(p.MSt(0)), T2 = sq(p.MSt(1)), B1 = sq(p.MSb(0)), B2 = sq(p.MSb(1)), L1 = sq(p.MStau(0)), L2 = sq(p.MStau(1));
   const double st = std::sin(p.theta_t), ct = std::cos(p.theta_t), sb = std::sin(p.theta_b), cb = std::cos(p.theta_b), sl = std::sin(p.theta_tau), cl = std::cos(p.theta_tau);
   const double v2 = sq(p.vu) + sq(p.vd), tb = p.vu/p.vd, mA2 = sq(p.MA);
   const M2 none = M2::Zero();
   M2 mi = none;
   if (mom == 1) mi = o.delta_mh2_2loop_mom_it_pert();
   if (mom == 2) mi = o.delta_mh2_2loop_mom_it_num(o.mom_it_precision_goal, o.mom_it_max_iterations);
   using namespace himalaya::mh2l;
   M2 s = none;
   const char* l = "";
   if (k == 0) {
      if (on(CO::G32YT4)) s = delta_mh2_2loop_at_as(sq(mt), p.MG, T1, T2, st, ct, Q, -p.mu, tb, v2, p.g3, 1);
   } else if (k == 1) {
      if (on(CO::G32YB4)) s = delta_mh2_2loop_ab_as(sq(mb), p.MG, B1, B2, sb, cb, Q, -p.mu, 1/tb, v2, p.g3, 1);
   } else if (k == 2) {
      const int only = on(CO::ONLY_AT_AS);
      if (on(CO::YT6)) s = delta_mh2_2loop_at_at(sq(mt), sq(mb), mA2, T1, T2, B1, B2, st, ct, sb, cb, Q, -p.mu, tb, v2, 1, only);
   } else if (k == 3) {
      if (on(CO::YTAU6)) s = delta_mh2_2loop_atau_atau(sq(mtau), mA2, msv2, L1, L2, sl, cl, Q, -p.mu, tb, v2, 1);
   } else {
      const int a = on(CO::YTAU2YB4), b = on(CO::YTAU4YB2);
      if (a || b) s = delta_mh2_2loop_ab_atau(sq(mtau), sq(mb), L1, L2, B1, B2, sl, cl, sb, cb, Q, -p.mu, tb, v2, 1);
   }
   const M2 r = o.delta_mh2_2loop();
   same("two-loop part of the fixed-order calculation", r, mi + s);
   vc_same("symmetric", r(0,1), r(1,0));
}
VC c16_fo_at_as() { fixed_order(0); }
VC c16_fo_ab_as() { fixed_order(1); }
VC c16_fo_at_at() { fixed_order(2); }
VC c16_fo_atau() { fixed_order(3); }
VC c16_fo_ab_atau() { fixed_order(4); }
VC c16_fo_all()
{
   // several switches: the sum of the single ones
   Calc c;
   const Parameters& p = c->p;
   static char buf[sizeof(MSSM_mass_eigenstates)];
   MSSM_mass_eigenstates& o = *reinterpret_cast<MSSM_mass_eigenstates*>(buf);
   new (&o.pars) Parameters(p); new (&o.masses.pars) Parameters(p); new (&o.gaugeless.pars) Parameters(p);
   o.gaugeless.pars.g1 = 0; o.gaugeless.pars.g2 = 0;
   o.masses.MFt = o.gaugeless.MFt = vc_double("mt"); o.masses.MFb = o.gaugeless.MFb = vc_double("mb"); o.masses.MFtau = o.gaugeless.MFtau = vc_double("mtau");
   o.masses.M2SvtL = vc_double("msv2 with gauge couplings"); o.gaugeless.M2SvtL = vc_double("msv2");
   o.mom_it = himalaya::mh2_fo::Momentum_iteration::off;
   vc_assume(p.vu > 0 && p.vd > 0);
   M2 s = M2::Zero();
   const int k[] = { CO::G32YT4, CO::G32YB4, CO::YT6, CO::YTAU6, CO::YTAU2YB4 };
   int on[5];
   for (int i = 0; i < 5; ++i) on[i] = vc_flag("order", i);
   for (int j = 0; j < 6; ++j) {
      for (int i = 0; i < CO::NUMBER_OF_COUPLING_ORDERS; ++i) o.orders[i] = 0;
      for (int i = 0; i < 5; ++i) if (j == 5 || j == i) o.orders[k[i]] = on[i];
      const M2 r = o.delta_mh2_2loop();
      if (j == 5) same("sum of the parts that are switched on", r, s); else s += r;
   }
}

// ---------------------------------------------------------------- hierarchy calculator
static double shifted(const char* n, const HierarchyObject& o, unsigned a, unsigned b)
{
   const double x[] = { double(o.getIsAlphab()), double(a), double(b) };
   return vc_fnv(n, x, 3);
}
double HierarchyCalculator::shiftMst1ToMDR(const HierarchyObject& o, unsigned a, unsigned b) const { return shifted("lighter squark", o, a, b); }
double HierarchyCalculator::shiftMst2ToMDR(const HierarchyObject& o, unsigned a, unsigned b) const { return shifted("heavier squark", o, a, b); }
static void hierarchy(bool ab)
{
   Calc c;
   const Parameters& p = c->p;
   vc_assume(p.vu > 0 && p.vd > 0);
   Result r(ab);
   for (unsigned s = 0; s < 4; ++s) {
      const unsigned a = s & 1, b = s >> 1;
      const double th = ab ? p.theta_b : p.theta_t;
      same("two-loop correction of the hierarchy calculator", c->getMt42L(r.o, a, b),
           himalaya::mh2l::delta_mh2_2loop_at_as(sq(ab ? p.Mb : p.Mt), p.MG, sq(shifted("lighter squark", r.o, a, b)), sq(shifted("heavier squark", r.o, a, b)),
              std::sin(th), std::cos(th), sq(p.scale), -p.mu, p.vu/p.vd, sq(p.vu) + sq(p.vd), p.g3, 0));
   }
}
VC c16_hierarchy_top() { hierarchy(false); }
VC c16_hierarchy_bottom() { hierarchy(true); }
