// C16, C17: wrappers of the external two-loop routines.  The Fortran routines are replaced by arbitrary functions of all
// their inputs; those that use static memory (found in the Fortran code, see vc/fortran.py) need the lock.
#include "vc.hpp"
#include "himalaya/mh2l/DSZHiggs.hpp"
#include "himalaya/mh2l/DSZHiggs.h"
#include "himalaya/mh2l/Li2f.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include <pthread.h>
#include <cmath>
#include <complex>

using namespace himalaya;
using namespace himalaya::mh2l;
using M2 = Eigen::Matrix2d;

// ---------------------------------------------------------------- lock
static int held;
static const void* mutex_held;
static const void* mutex_seen;
static int external_calls;

extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
   vc_check("lock not taken twice", !held);
   held = 1; mutex_held = m;
   return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
   vc_check("only a lock that is held is released", held && mutex_held == m);
   held = 0; mutex_held = nullptr;
   return 0;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
   if (held || vc_flag("lock busy", 0)) return 16;
   held = 1; mutex_held = m;
   return 0;
}
static void external(bool reentrant)
{
   ++external_calls;
   if (reentrant) return;
   vc_check("lock held during the call of a routine that is not reentrant", held);
   if (!mutex_seen) mutex_seen = mutex_held;
   vc_check("one common lock", mutex_seen == mutex_held);
}

// ---------------------------------------------------------------- external routines
template <class... T> static double fn(const char* n, T... t) { const double x[] = { double(t)... }; return vc_fnv(n, x, sizeof...(T)); }
#define IN12 t, g, T1, T2, st, ct, q, mu, tanb, vv, gs
#define INDD t, b, A0, T1, T2, B1, B2, st, ct, sb, cb, q, mu, tanb, vv
#define INTT t, A0, BL, T1, T2, st, ct, q, mu, tanb, vv
#define INTB t, b, T1, T2, B1, B2, st, ct, sb, cb, q, mu, tanb, vv
GENERATED

double himalaya::li2(double x) { return vc_li2(x); }
std::complex<double> himalaya::li2(const std::complex<double>& z) { return { vc_fn2("li2 re", z.real(), z.imag()), vc_fn2("li2 im", z.real(), z.imag()) }; }

// ---------------------------------------------------------------- inputs
#define D(n) const double n = vc_double(#n);
#define INPUTS D(t) D(b) D(tau) D(g) D(A0) D(BL) D(T1) D(T2) D(B1) D(B2) D(L1) D(L2) D(st) D(ct) D(sb) D(cb) D(sl) D(cl) D(q) D(mu) D(tanb) D(vv) D(gs)
static M2 rotation(double dma, double tanb)
{
   M2 m;
   const double n = 1 + tanb*tanb;
   m << dma*tanb*tanb/n, -dma*tanb/n, -dma*tanb/n, dma/n;
   return m;
}
static M2 sym(double a, double b, double c) { M2 m; m << a, b, b, c; return m; }
static void equal(const char* l, const M2& a, const M2& b)
{
   vc_same(l, a(0,0), b(0,0)); vc_same(l, a(0,1), b(0,1)); vc_same(l, a(1,0), b(1,0)); vc_same(l, a(1,1), b(1,1));
}
static void same_entries(const M2& a) { vc_same("symmetric", a(0,1), a(1,0)); }
static bool distinct(double T1, double T2) { return std::abs(T1 - T2) >= 1e-7*T1; }

// ---------------------------------------------------------------- C16
VC c16_at_as()
{
   INPUTS
   vc_assume(T1 > 0 && T2 > 0 && distinct(T1, T2));
   const M2 s = sym(fn("dszhiggs s11", IN12, 0), fn("dszhiggs s12", IN12, 0), fn("dszhiggs s22", IN12, 0));
   equal("without heavy Higgs", delta_mh2_2loop_at_as(IN12, 0), s);
   equal("with heavy Higgs", delta_mh2_2loop_at_as(IN12, 1), s + rotation(fn("dszodd dma", IN12), tanb));
}
VC c16_at_as_equal()
{
   D(t) D(g) D(T1) D(st) D(ct) D(q) D(mu) D(tanb) D(vv) D(gs)
   vc_assume(T1 > 0 && t > 0 && tanb > 0);
   const double T2 = T1;
   external_calls = 0;
   const M2 r = delta_mh2_2loop_at_as(IN12, 0);
   const M2 h = delta_mh2_2loop_at_as(IN12, 1);
   const double o = h(0,0) - r(0,0) + h(1,1) - r(1,1);
   vc_check("routines that are singular for equal masses are not used", external_calls == 0);
   same_entries(r);
   equal("heavy Higgs", h, r + rotation(o, tanb));
}
VC c16_at_as_equal_unmixed()
{
   D(t) D(g) D(T1) D(st) D(ct) D(q) D(tanb) D(vv) D(gs)
   vc_assume(T1 > 0 && t > 0 && tanb > 0);
   const double T2 = T1, mu = 0.;
   equal("no mixing, no mu", delta_mh2_2loop_at_as(IN12, 1), delta_mh2_2loop_at_as(IN12, 0));
}
VC c16_at_as_equal_angle()
{
   D(t) D(g) D(T1) D(st) D(ct) D(q) D(mu) D(tanb) D(vv) D(gs)
   vc_assume(T1 > 0 && t > 0 && tanb > 0);
   const double T2 = T1, st2 = vc_double("st2"), ct2 = vc_double("ct2");
   equal("the angle between equal masses has no meaning", delta_mh2_2loop_at_as(t, g, T1, T2, st, ct, q, mu, tanb, vv, gs, 1), delta_mh2_2loop_at_as(t, g, T1, T2, st2, ct2, q, mu, tanb, vv, gs, 1));
}
VC c16_ab_as()
{
   D(t) D(g) D(T1) D(T2) D(st) D(ct) D(q) D(mu) D(tanb) D(vv) D(gs)
   vc_assume(T1 > 0 && T2 > 0 && (distinct(T1, T2) || T1 == T2));
   for (int h = 0; h < 2; ++h) {
      const M2 a = delta_mh2_2loop_at_as(IN12, h), b = delta_mh2_2loop_ab_as(IN12, h);
      equal("doublets exchanged", b, sym(a(1,1), a(0,1), a(0,0)));
   }
}
VC c16_at_at()
{
   INPUTS
   for (int k = 0; k < 2; ++k) {
      const M2 s = sym(fn("ddshiggs s11", INDD, k), fn("ddshiggs s12", INDD, k), fn("ddshiggs s22", INDD, k));
      equal("without heavy Higgs", delta_mh2_2loop_at_at(INDD, 0, k), s);
      equal("with heavy Higgs", delta_mh2_2loop_at_at(INDD, 1, k), s + rotation(fn("ddsodd dma", INDD, k), tanb));
   }
}
VC c16_atau_atau()
{
   INPUTS
   const M2 s = sym(fn("tausqhiggs s11", INTT, 0), fn("tausqhiggs s12", INTT, 0), fn("tausqhiggs s22", INTT, 0));
   equal("without heavy Higgs", delta_mh2_2loop_atau_atau(INTT, 0), s);
   equal("with heavy Higgs", delta_mh2_2loop_atau_atau(INTT, 1), s + rotation(fn("tausqodd dma", INTT), tanb));
}
VC c16_ab_atau()
{
   INPUTS
   const M2 s = sym(fn("taubot s11", INTB), fn("taubot s12", INTB), fn("taubot s22", INTB));
   equal("without heavy Higgs", delta_mh2_2loop_ab_atau(INTB, 0), s);
   equal("with heavy Higgs", delta_mh2_2loop_ab_atau(INTB, 1), s + rotation(fn("taubotodd dma", INTB), tanb));
}

// ---------------------------------------------------------------- C17
VC c17_calls()
{
   INPUTS
   vc_assume(T1 > 0 && T2 > 0 && distinct(T1, T2));
   const int h = vc_flag("include heavy Higgs", 0), k = vc_flag("only top", 0);
   const auto done = [] { vc_check("lock released", !held); };
   delta_mh2_2loop_at_as(IN12, h); done();
   delta_mh2_2loop_at_at(INDD, h, k); done();
   delta_mh2_2loop_ab_as(IN12, h); done();
   delta_mh2_2loop_atau_atau(INTT, h); done();
   delta_mh2_2loop_ab_atau(INTB, h); done();
}
VC c17_calls_equal()
{
   D(t) D(g) D(T1) D(st) D(ct) D(q) D(mu) D(tanb) D(vv) D(gs)
   vc_assume(T1 > 0 && t > 0 && tanb > 0);
   const double T2 = T1;
   const int h = vc_flag("include heavy Higgs", 0);
   delta_mh2_2loop_at_as(IN12, h);
   delta_mh2_2loop_ab_as(IN12, h);
   vc_check("lock released", !held);
}
