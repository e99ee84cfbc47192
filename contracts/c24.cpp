// C24: the print-out
#include "vc.hpp"
#include "c24_rec.hpp"
#include "himalaya/HierarchyObject.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <iostream>

using himalaya::HierarchyObject;
using himalaya::Parameters;

namespace {

void begin() { written.n = written.m = written.lines = 0; written.line[0] = written.first[0] = 0; }

/// numbers in the k-th line which begins with the label; -1 without such a line
int find(const char* label, int k)
{
   for (int l = 0; l < written.lines; ++l) {
      const char* t = written.text + written.line[l];
      int i = 0;
      while (label[i] && t[i] == label[i]) ++i;
      if (label[i]) continue;
      while (t[i] == ' ') ++i;
      if (t[i] != '=') continue;
      if (k--) continue;
      return l;
   }
   return -1;
}

void line(const char* label, int n, const double* x, int k = 0)
{
   const int l = find(label, k);
   vc_check("every quantity has its line", l >= 0);
   if (l < 0) return;
   vc_check("number of values in the line", written.first[l + 1] - written.first[l] == n);
   if (written.first[l + 1] - written.first[l] != n) return;
   for (int i = 0; i < n; ++i) vc_same(label, written.num[written.first[l] + i], x[i]);
}

void one(const char* label, double x, int k = 0) { line(label, 1, &x, k); }

template <class M> void many(const char* label, const M& m)
{
   double x[9];
   int n = 0;
   for (int i = 0; i < m.rows(); ++i)
      for (int j = 0; j < m.cols(); ++j) x[n++] = m(i, j);
   line(label, n, x);
}

Eigen::Matrix2d anym(const char* a, const char* b, const char* c, const char* d)
{
   Eigen::Matrix2d m;
   m << vc_sym(a, 0), vc_sym(b, 0), vc_sym(c, 0), vc_sym(d, 0);
   return m;
}

/// a result with arbitrary entries (the setters fulfil the contracts of C03)
void fill(HierarchyObject& o)
{
   o.setAbsDiff2L(vc_sym("abs", 0)); o.setRelDiff2L(vc_sym("rel", 0));
   o.setMDRMasses(Eigen::Vector2d(vc_sym("m1", 0), vc_sym("m2", 0)));
   o.setDMhDRbarPrimeToMDRbarPrimeShift(anym("sa", "sb", "sc", "sd"));
   o.setDMhDRbarPrimeToH3mShift(anym("ha", "hb", "hc", "hd"));
   o.setDMh(0, anym("aa", "ab", "ac", "ad")); o.setDMh(1, anym("ba", "bb", "bc", "bd"));
   o.setDMh(2, anym("ca", "cb", "cc", "cd")); o.setDMh(3, anym("da", "db", "dc", "dd"));
   for (int l = 0; l <= 3; ++l) {
      if (l) o.setDMhExpUncertainty(l, vc_sym("exp", l));
      o.setDMh2(l, vc_sym("mh2", l));
      o.setDLambda(l, vc_sym("lambda", l));
      o.setDLambdaDRbarPrimeToMSbarShift(l, vc_sym("shift", l));
      o.setDMh2EFT(l, vc_sym("eft", l));
      o.setDMh2FO(l, vc_sym("fo", l));
      o.setDMh2FOAt(l, vc_sym("foat", l));
   }
   o.setDLambdaH3m(vc_sym("h3m", 0)); o.setDLambdaEFT(vc_sym("left", 0)); o.setDLambdaNonLog(vc_sym("nonlog", 0));
   o.setDLambdaXtUncertainty(vc_sym("xt", 0));
}

struct AnyP {
   alignas(Parameters) char raw[sizeof(Parameters)];
   Parameters& o() { return *reinterpret_cast<Parameters*>(raw); }
   AnyP() { vc_havoc(raw, sizeof raw, "par"); }
};

} // namespace

/// every input parameter is printed with its value
VC c24_print_parameters()
{
   AnyP a;
   const Parameters& p = a.o();
   begin();
   std::cout << p;
   one("scale", p.scale); one("mu", p.mu); one("g1", p.g1); one("g2", p.g2); one("g3", p.g3); one("vd", p.vd); one("vu", p.vu);
   many("mq2", p.mq2); many("md2", p.md2); many("mu2", p.mu2); many("ml2", p.ml2); many("me2", p.me2);
   many("Au", p.Au); many("Ad", p.Ad); many("Ae", p.Ae); many("Yu", p.Yu); many("Yd", p.Yd); many("Ye", p.Ye);
   one("M1", p.M1); one("M2", p.M2); one("MG", p.MG); one("MW", p.MW); one("MZ", p.MZ); one("Mt", p.Mt); one("Mb", p.Mb);
   one("Mtau", p.Mtau); one("MA", p.MA); many("MSt", p.MSt); many("MSb", p.MSb); many("MStau", p.MStau);
   one("s2t", p.s2t); one("s2b", p.s2b); one("s2tau", p.s2tau);
}

/// every result is printed with the value its getter reports
VC c24_print_results()
{
   const bool b = vc_bool("alphab");
   HierarchyObject o(b);
   fill(o);
   const int h = vc_range("hierarchy", 0, 13);
   o.setSuitableHierarchy(h);
   o.setRenormalizationScheme(h % 4);
   vc_iident("alphab", o.getIsAlphab(), b);
   begin();
   std::cout << o;
   const auto m = o.getMDRMasses();
   if (b) { one("Msbottom_1", m(0)); one("Msbottom_2", m(1)); }
   else { one("Mstop_1", m(0)); one("Mstop_2", m(1)); }
   one("Hierarchy", h);
   one("Abs. diff 2L", o.getAbsDiff2L());
   one("Rel. diff 2L", o.getRelDiff2L()*100);
   many("Mh^2_0L", o.getDMh(0)); many("ΔMh^2_1L", o.getDMh(1)); many("ΔMh^2_2L", o.getDMh(2)); many("ΔMh^2_3L", o.getDMh(3));
   one("Exp. uncert. 1L", o.getDMhExpUncertainty(1)); one("Exp. uncert. 2L", o.getDMhExpUncertainty(2)); one("Exp. uncert. 3L", o.getDMhExpUncertainty(3));
   many("DR' -> MDR' shift", o.getDMhDRbarPrimeToMDRbarPrimeShift());
   many("DR' -> H3m shift", o.getDMhDRbarPrimeToH3mShift());
   one("Δλ_0L", o.getDLambda(0)); one("Δλ_1L", o.getDLambda(1)); one("Δλ_2L", o.getDLambda(2));
   const double l3[] = { o.getDLambda(3), o.getDLambdaUncertainty(3) };
   line("Δλ_3L", 2, l3);
   one("Δλ_0L DR' -> MS shift", o.getDLambdaDRbarPrimeToMSbarShift(0)); one("Δλ_1L DR' -> MS shift", o.getDLambdaDRbarPrimeToMSbarShift(1));
   one("Δλ_2L DR' -> MS shift", o.getDLambdaDRbarPrimeToMSbarShift(2)); one("Δλ_3L DR' -> MS shift", o.getDLambdaDRbarPrimeToMSbarShift(3));
   one("Mh^2_EFT_0L", o.getDMh2EFTAt(0)); one("ΔMh^2_EFT_1L", o.getDMh2EFTAt(1)); one("ΔMh^2_EFT_2L", o.getDMh2EFTAt(2)); one("ΔMh^2_EFT_3L", o.getDMh2EFTAt(3));
   // first the part enhanced by the top Yukawa coupling, then the complete one
   one("Mh^2_FO_0L", o.getDMh2FO(0));
   one("ΔMh^2_FO_1L", o.getDMh2FOAt(1)); one("ΔMh^2_FO_2L", o.getDMh2FOAt(2)); one("ΔMh^2_FO_3L", o.getDMh2FOAt(3));
   one("ΔMh^2_FO_1L", o.getDMh2FO(1), 1); one("ΔMh^2_FO_2L", o.getDMh2FO(2), 1); one("ΔMh^2_FO_3L", o.getDMh2FO(3), 1);
}
