// A hierarchy calculator in an arbitrary state (private members are reached with -fno-access-control)
#ifndef VC_HC
#define VC_HC
#include "vc.hpp"
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
#include <cmath>
#include <cstring>
#include <new>
#include <stdexcept>

extern "C" void vc_eig2(const double* m, double* re, double* im);

namespace {

using himalaya::HierarchyCalculator;
using himalaya::HierarchyObject;
using himalaya::Parameters;
using M2 = Eigen::Matrix2d;
namespace H = himalaya::hierarchies::Hierarchies;
namespace X = himalaya::hierarchies::ExpansionDepth;

const char* const dn[12] = { "depth0", "depth1", "depth2", "depth3", "depth4", "depth5", "depth6", "depth7", "depth8", "depth9", "depth10", "depth11" };

struct Calc {
   alignas(64) char buf[sizeof(HierarchyCalculator)];
   HierarchyCalculator& operator*() { return *reinterpret_cast<HierarchyCalculator*>(buf); }
   HierarchyCalculator* operator->() { return reinterpret_cast<HierarchyCalculator*>(buf); }
   Calc(bool depths = false)
   {
      HierarchyCalculator& c = **this;
      new (&c.p) Parameters();
      c.verbose = false;
      Parameters& p = c.p;
      p.scale = vc_double("scale"); p.mu = vc_double("mu"); p.g1 = vc_double("g1"); p.g2 = vc_double("g2"); p.g3 = vc_double("g3");
      p.vd = vc_double("vd"); p.vu = vc_double("vu");
      p.Au(2,2) = vc_double("Au22"); p.Ad(2,2) = vc_double("Ad22"); p.Ae(2,2) = vc_double("Ae22");
      p.Yu(2,2) = vc_double("Yu22"); p.Yd(2,2) = vc_double("Yd22"); p.Ye(2,2) = vc_double("Ye22");
      p.mq2(2,2) = vc_double("mq222"); p.mu2(2,2) = vc_double("mu222"); p.md2(2,2) = vc_double("md222");
      p.ml2(2,2) = vc_double("ml222"); p.me2(2,2) = vc_double("me222");
      p.mq2(0,0) = vc_double("mq200"); p.mu2(0,0) = vc_double("mu200"); p.md2(0,0) = vc_double("md200");
      p.mq2(1,1) = vc_double("mq211"); p.mu2(1,1) = vc_double("mu211"); p.md2(1,1) = vc_double("md211");
      p.M1 = vc_double("M1"); p.M2 = vc_double("M2"); p.MG = vc_double("MG"); p.MA = vc_double("MA");
      p.MW = vc_double("MW"); p.MZ = vc_double("MZ"); p.Mt = vc_double("Mt"); p.Mb = vc_double("Mb"); p.Mtau = vc_double("Mtau");
      p.MSt(0) = vc_double("MSt0"); p.MSt(1) = vc_double("MSt1"); p.MSb(0) = vc_double("MSb0"); p.MSb(1) = vc_double("MSb1");
      p.MStau(0) = vc_double("MStau0"); p.MStau(1) = vc_double("MStau1");
      p.s2t = vc_double("s2t"); p.s2b = vc_double("s2b"); p.s2tau = vc_double("s2tau");
      p.theta_t = vc_double("theta_t"); p.theta_b = vc_double("theta_b"); p.theta_tau = vc_double("theta_tau");
      for (int i = 0; i < 12; ++i) c.expansionDepth[i] = depths ? vc_int(dn[i]) : 1;
   }
};

inline void left_as_found(const HierarchyCalculator& c, const HierarchyCalculator& before)
{
   vc_frame("parameters left as found", &c.p, sizeof c.p, &before.p);
   vc_frame("expansion depths left as found", &c.expansionDepth, sizeof c.expansionDepth, &before.expansionDepth);
   vc_check("print-out switch left as found", c.verbose == before.verbose);
}

/// a result object whose padding is defined
struct Result {
   alignas(64) char buf[sizeof(HierarchyObject)];
   HierarchyObject& o;
   Result(bool ab) : o(*reinterpret_cast<HierarchyObject*>(buf)) { vc_havoc(buf, 4, "padding"); new (buf) HierarchyObject(ab); }
   Result(const Result& r) : o(*reinterpret_cast<HierarchyObject*>(buf)) { std::memcpy(buf, r.buf, sizeof buf); }
};

inline M2 sym_matrix(const char* n, int k)
{
   M2 m;
   m(0,0) = vc_sym2(n, k, 0); m(0,1) = m(1,0) = vc_sym2(n, k, 1); m(1,1) = vc_sym2(n, k, 2);
   return m;
}

// the k-th call of a part may end in an error
bool may_throw, failed;
int calls;
void part() { if (may_throw && vc_flag("fails", calls++)) { failed = true; throw std::runtime_error(""); } }

inline double sq(double x) { return x * x; }

/// smaller of the square roots of the eigenvalues
inline double smallest(const M2& m)
{
   double re[2], im[2];
   vc_eig2(m.data(), re, im);
   const double a = vc_sqrt(re[0]), b = vc_sqrt(re[1]);
   return a < b ? a : b;
}

inline void same(const char* l, const M2& a, const M2& b)
{
   vc_same(l, a(0,0), b(0,0)); vc_same(l, a(0,1), b(0,1)); vc_same(l, a(1,0), b(1,0)); vc_same(l, a(1,1), b(1,1));
}

}
#endif
