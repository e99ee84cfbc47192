// Histories of calculations on real objects, compared with the same calculations on fresh objects.
// Used to look for a failing history when a frame obligation is not discharged; with threads: for interference.
#include "himalaya/HierarchyCalculator.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/mh2_eft/Mh2EFTCalculator.hpp"
#include "himalaya/mh2_eft/ThresholdCalculator.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/hierarchies/HierarchyFlags.hpp"
#include <atomic>
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <thread>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

using namespace himalaya;
using V = std::vector<double>;

static Parameters base(int k)
{
   const double f = 1. + 0.13*k;
   Parameters p;
   p.scale = 1973.75*f; p.mu = 1999.82 - 170.*k; p.g1 = 0.46; p.g2 = 0.63; p.g3 = 1.02 + 0.01*k;
   p.vd = 49.5 - 3.*k; p.vu = 236. + k;
   p.mq2 << 4.00428e+06*f*f, 0, 0, 0, 4.00428e+06*f*f, 0, 0, 0, 3.99786e+06;
   p.md2 << 4.00361e+06*f*f, 0, 0, 0, 4.00361e+06*f*f, 0, 0, 0, 4.00346e+06;
   p.mu2 << 4.00363e+06*f*f, 0, 0, 0, 4.00363e+06*f*f, 0, 0, 0, 3.99067e+06 - 4e5*k;
   p.ml2 << 4e6, 0, 0, 0, 4e6, 0, 0, 0, 4e6;
   p.me2 << 4e6, 0, 0, 0, 4e6, 0, 0, 0, 4e6;
   p.Au(2,2) = 3996.81 - 1000*k; p.Ad(2,2) = 101. + 500*k; p.Ae(2,2) = 50.;
   p.Yu(2,2) = 0.862; p.Yd(2,2) = 0.133; p.Ye(2,2) = 0.101;
   p.MA = 1992.14 - 100.*k; p.MG = 2000.96 - 150*k; p.MW = 74.597; p.MZ = 85.7704; p.Mt = 144.337; p.Mb = 2.37054; p.Mtau = 1.2;
   p.M1 = 1000.; p.M2 = 2000.;
   return p;
}

// points 0-2; then variations of one input each
const int NP = 3 + 20;
static Parameters point(int k)
{
   if (k < 3) return base(k);
   Parameters p = base(0);
   switch (k - 3) {
   case 0: p.scale *= 1.1; break;
   case 1: p.mu *= 1.1; break;
   case 2: p.g3 *= 1.05; break;
   case 3: p.vd *= 1.2; break;
   case 4: p.vu *= 1.02; break;
   case 5: p.mq2(0,0) *= 1.2; break;
   case 6: p.mq2(1,1) *= 1.2; break;
   case 7: p.mu2(0,0) *= 1.2; break;
   case 8: p.md2(1,1) *= 1.2; break;
   case 9: p.mq2(2,2) *= .8; break;
   case 10: p.mu2(2,2) *= .8; break;
   case 11: p.md2(2,2) *= .8; break;
   case 12: p.Au(2,2) *= -1; break;
   case 13: p.Ad(2,2) *= 3; break;
   case 14: p.MA *= 1.2; break;
   case 15: p.MG *= .8; break;
   case 16: p.Mt *= 1.02; break;
   case 17: p.Mb *= 1.1; break;
   case 18: p.mu *= -1; break;
   case 19: p.MSt << 1700., 2100.; p.s2t = .4; break;
   }
   return p;
}

static Parameters valid(int k) { Parameters p = point(k); p.validate(false); return p; }

static void put(V& v, const Eigen::Matrix2d& m) { for (int i = 0; i < 4; ++i) v.push_back(m.data()[i]); }
static void put(V& v, double x) { v.push_back(x); }

static V read(const HierarchyObject& o)
{
   V v;
   v.push_back(o.getSuitableHierarchy());
   put(v, o.getDMh(0)); put(v, o.getDMh(1)); put(v, o.getDMh(2)); put(v, o.getDMh(3));
   for (int i = 1; i <= 3; ++i) put(v, o.getDMhExpUncertainty(i));
   for (int i = 0; i <= 3; ++i) { put(v, o.getDLambda(i)); put(v, o.getDMh2EFTAt(i)); put(v, o.getDMh2FO(i)); put(v, o.getDMh2FOAt(i)); }
   put(v, o.getDLambdaUncertainty(3)); put(v, o.getRelDiff2L()); put(v, o.getAbsDiff2L());
   return v;
}

using Op = std::function<V(HierarchyCalculator&)>;

static std::vector<Op> operations()
{
   std::vector<Op> r;
   for (bool ab : { false, true }) {
      r.push_back([ab] (HierarchyCalculator& c) { return read(c.calculateDMh3L(ab)); });
      r.push_back([ab] (HierarchyCalculator& c) { HierarchyObject o(ab); V v; v.push_back(c.compareHierarchies(o)); put(v, o.getRelDiff2L()); put(v, o.getDMhExpUncertainty(3)); return v; });
      for (int h : { 0, 3, 6, 9, 12 }) r.push_back([ab, h] (HierarchyCalculator& c) {
         HierarchyObject o(ab); o.setSuitableHierarchy(h); V v;
         put(v, c.calculateHierarchy(o, 1, 1, 1)); put(v, c.calculateHierarchy(o, 0, 0, 1)); put(v, c.calcDRbarToMDRbarShift(o, true, true));
         put(v, c.getMt41L(o, 1, 1)); put(v, c.getMt42L(o, 1, 0)); put(v, c.shiftMst1ToMDR(o, 1, 1)); put(v, c.shiftMst2ToMDR(o, 1, 1));
         put(v, c.getExpansionUncertainty(o, c.getMt41L(o, 0, 0), 1, 1, 1));
         return v; });
   }
   return r;
}

static V others(int k)
{
   V v;
   const Parameters p = valid(k);
   mh2_fo::MSSM_mass_eigenstates m(p);
   const auto a = m.calculate_Mh2(); put(v, std::get<0>(a)); put(v, std::get<1>(a)); put(v, std::get<2>(a));
   mh2_eft::Mh2EFTCalculator e(p);
   put(v, e.getDeltaMh2EFT0Loop()); put(v, e.getDeltaMh2EFT1Loop(1, 1)); put(v, e.getDeltaMh2EFT2Loop(1, 1)); put(v, e.getDeltaMh2EFT3Loop(1, 1, 0));
   return v;
}

static bool same(const V& a, const V& b) { return a.size() == b.size() && !std::memcmp(a.data(), b.data(), a.size()*sizeof(double)); }

// result of a calculation in a process of its own
static V alone(const std::function<V()>& f)
{
   int fd[2];
   if (pipe(fd)) std::abort();
   const pid_t c = fork();
   if (c == 0) {
      const V v = f();
      const size_t n = v.size()*sizeof(double);
      const bool ok = write(fd[1], v.data(), n) == ssize_t(n);
      _exit(!ok);
   }
   close(fd[1]);
   V v;
   double x;
   while (read(fd[0], &x, sizeof x) == sizeof x) v.push_back(x);
   close(fd[0]);
   int st = 0;
   waitpid(c, &st, 0);
   return v;
}

static int histories()
{
   const auto used = offsetof(Parameters, massLimit3LThreshold) + sizeof(int);   // no padding
   const auto ops = operations();
   const int no = ops.size();
   std::vector<std::vector<V>> fresh(NP);
   std::vector<V> oth;
   for (int k = 0; k < NP; ++k) {
      for (const auto& f : ops) fresh[k].push_back(alone([&] { HierarchyCalculator c(point(k), false); return f(c); }));
      oth.push_back(alone([&] { return others(k); }));
   }
   std::vector<HierarchyCalculator> cs;
   for (int k = 0; k < NP; ++k) cs.emplace_back(point(k), false);
   unsigned x = 12345;
   for (int n = 0; n < 1500; ++n) {
      x = 1103515245u*x + 12345u;
      const int k = (x >> 16) % NP, i = (x >> 8) % (no + 1);
      HierarchyCalculator& c = cs[k];
      if (i == no) {
         if (!same(others(k), oth[k])) { std::printf("step %d: fixed-order or EFT calculation of point %d differs from the same calculation alone\n", n, k); return 1; }
         continue;
      }
      const Parameters p = c.p;
      const auto e = c.expansionDepth;
      const V r = ops[i](c);
      if (std::memcmp(&p, &c.p, used)) { std::printf("step %d: operation %d changes the parameters of calculator %d\n", n, i, k); return 1; }
      if (e != c.expansionDepth) { std::printf("step %d: operation %d changes the expansion settings of calculator %d\n", n, i, k); return 1; }
      if (!same(r, fresh[k][i])) { std::printf("step %d: operation %d on calculator %d differs from the same operation alone\n", n, i, k); return 1; }
   }
   return 0;
}

static int threads(int n, int rep)
{
   const auto ops = operations();
   std::vector<V> fresh, oth;
   for (int k = 0; k < n; ++k) { HierarchyCalculator c(point(k % 3), false); fresh.push_back(ops[0](c)); oth.push_back(others(k % 3)); }
   std::atomic<int> bad(0), ready(0);
   std::vector<std::thread> t;
   for (int k = 0; k < n; ++k) t.emplace_back([&, k] {
      ++ready; while (ready < n) {}
      for (int i = 0; i < rep; ++i) {
         if (k % 2) { if (!same(others(k % 3), oth[k])) ++bad; }
         else { HierarchyCalculator c(point(k % 3), false); if (!same(ops[0](c), fresh[k])) ++bad; }
      }
   });
   for (auto& i : t) i.join();
   if (bad) std::printf("%d calculations in threads differ from the same calculation alone\n", int(bad));
   return bad != 0;
}

int main(int argc, char** argv)
{
   return argc > 1 ? threads(8, std::atoi(argv[1])) : histories();
}
