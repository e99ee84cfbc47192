// C24: contracts of the calculations called by the Mathematica interface: arbitrary (linear) functions of the input point and the options
#include "vc.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <tuple>

using himalaya::HierarchyObject;
using himalaya::Parameters;

void c24_fill(HierarchyObject&);

/// what an object was made of
struct Made { double scale, mu; int option; };
int c24_bottom, c24_verbose, c24_calls;
double c24_point[2];

static void make(Made* o, const Parameters* p, int option) { o->scale = p->scale; o->mu = p->mu; o->option = option; }
double c24_value(const char* n, double scale, double mu, int option) { return vc_sym(n, option) + scale*vc_sym(n, 100) + mu*vc_sym(n, 101); }
static double value(const char* n, const Made* o, int k) { return c24_value(n, o->scale, o->mu, 10*o->option + k); }

void hc(Made* o, const Parameters* p, bool verbose) asm("_ZN8himalaya19HierarchyCalculatorC1ERKNS_10ParametersEb");
void hc(Made* o, const Parameters* p, bool verbose) { make(o, p, 0); c24_verbose = verbose; }
HierarchyObject calc(Made* o, bool b) asm("_ZN8himalaya19HierarchyCalculator14calculateDMh3LEb");
HierarchyObject calc(Made* o, bool b)
{
   ++c24_calls; c24_bottom = b; c24_point[0] = o->scale; c24_point[1] = o->mu;
   HierarchyObject h(b);
   c24_fill(h);
   return h;
}

void eft(Made* o, const Parameters* p, bool verbose) asm("_ZN8himalaya7mh2_eft16Mh2EFTCalculatorC1ERKNS_10ParametersEb");
void eft(Made* o, const Parameters* p, bool verbose) { make(o, p, 0); }
double eft0(const Made* o) asm("_ZNK8himalaya7mh2_eft16Mh2EFTCalculator19getDeltaMh2EFT0LoopEv");
double eft0(const Made* o) { return value("eft 0", o, 11); }
double eft1(const Made* o, int a, int b) asm("_ZNK8himalaya7mh2_eft16Mh2EFTCalculator19getDeltaMh2EFT1LoopEii");
double eft1(const Made* o, int a, int b) { return value("eft 1", o, 10*a + b); }
double eft2(const Made* o, int a, int b) asm("_ZNK8himalaya7mh2_eft16Mh2EFTCalculator19getDeltaMh2EFT2LoopEii");
double eft2(const Made* o, int a, int b) { return value("eft 2", o, 10*a + b); }

void fo(Made* o, const Parameters* p, bool only_at) asm("_ZN8himalaya6mh2_fo21MSSM_mass_eigenstatesC1ERKNS_10ParametersEb");
void fo(Made* o, const Parameters* p, bool only_at) { make(o, p, only_at); }
std::tuple<double,double,double> mh2(const Made* o) asm("_ZNK8himalaya6mh2_fo21MSSM_mass_eigenstates13calculate_Mh2Ev");
std::tuple<double,double,double> mh2(const Made* o) { return std::make_tuple(value("fo 0", o, 0), value("fo 1", o, 0), value("fo 2", o, 0)); }
