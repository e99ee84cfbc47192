// C03: result object
#include "vc.hpp"
#include "himalaya/HierarchyObject.hpp"
#include <stdexcept>
#include <string>

using himalaya::HierarchyObject;

namespace {

// everything a user can observe
struct Obs {
   double d[64];
   long i[4];
};

// observation slots
enum Slot { ABS = 0, REL, EXPU = 2 /*1..3*/, DMH = 6 /*4 matrices*/, DMH2 = 22, MDRSHIFT = 26, MDRM = 30, H3M = 32, EFT = 33, NONLOG = 34,
            UNC = 35 /*0..3*/, DL = 39, DLSH = 43, EFTM = 47, FO = 51, FOAT = 55, H3MSHIFT = 59, NSLOT = 63 };
enum ISlot { ALPHAB = 0, HIER, MDRFLAG, RS, NISLOT };

__attribute__((noinline)) void observe(const HierarchyObject& o, Obs& r)
{
   r.d[ABS] = o.getAbsDiff2L();
   r.d[REL] = o.getRelDiff2L();
   r.d[EXPU] = 0;
   for (int l = 1; l <= 3; ++l) r.d[EXPU + l] = o.getDMhExpUncertainty(l);
   for (int l = 0; l <= 3; ++l) {
      const Eigen::Matrix2d m = o.getDMh(l);
      for (int k = 0; k < 4; ++k) r.d[DMH + 4*l + k] = m(k / 2, k % 2);
      r.d[DMH2 + l] = o.getDMh2(l);
      r.d[UNC + l] = o.getDLambdaUncertainty(l);
      r.d[DL + l] = o.getDLambda(l);
      r.d[DLSH + l] = o.getDLambdaDRbarPrimeToMSbarShift(l);
      r.d[EFTM + l] = o.getDMh2EFTAt(l);
      r.d[FO + l] = o.getDMh2FO(l);
      r.d[FOAT + l] = o.getDMh2FOAt(l);
   }
   const Eigen::Matrix2d a = o.getDMhDRbarPrimeToMDRbarPrimeShift(), b = o.getDMhDRbarPrimeToH3mShift();
   for (int k = 0; k < 4; ++k) { r.d[MDRSHIFT + k] = a(k / 2, k % 2); r.d[H3MSHIFT + k] = b(k / 2, k % 2); }
   const Eigen::Vector2d m = o.getMDRMasses();
   r.d[MDRM] = m(0);
   r.d[MDRM + 1] = m(1);
   r.d[H3M] = o.getDLambdaH3m();
   r.d[EFT] = o.getDLambdaEFT();
   r.d[NONLOG] = o.getDLambdaNonLog();
   r.i[ALPHAB] = o.getIsAlphab();
   r.i[HIER] = o.getSuitableHierarchy();
   r.i[MDRFLAG] = o.getMDRFlag();
   r.i[RS] = o.getRenormalizationScheme();
}

// everything outside [a,b) unchanged
void unchanged(const Obs& x, const Obs& y, int a, int b, int ia = -1, int a2 = -1, int b2 = -1)
{
   for (int k = 0; k < NSLOT; ++k)
      if (!(k >= a && k < b) && !(k >= a2 && k < b2)) vc_ident("nothing else changes", x.d[k], y.d[k]);
   for (int k = 0; k < NISLOT; ++k)
      if (k != ia) vc_iident("nothing else changes", x.i[k], y.i[k]);
}

Eigen::Matrix2d anym(const char* a, const char* b, const char* c, const char* d)
{
   Eigen::Matrix2d m;
   m << vc_double(a), vc_double(b), vc_double(c), vc_double(d);
   return m;
}

struct Any {
   alignas(HierarchyObject) char raw[sizeof(HierarchyObject)];
   HierarchyObject& o() { return *reinterpret_cast<HierarchyObject*>(raw); }
   Any() { vc_havoc(raw, sizeof raw, "obj"); }
};

// loop-order indexed scalar quantity
template <class Set>
void indexed(Set set, int slot, int lo)
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const int l = vc_int("loops");
   const double v = vc_double("value");
   bool threw = false;
   try { set(a.o(), l, v); } catch (const std::runtime_error&) { threw = true; }
   observe(a.o(), y);
   if (l >= lo && l <= 3) {
      vc_check("accepted", !threw);
      vc_ident("value returned", y.d[slot + l], v);
      unchanged(x, y, slot + l, slot + l + 1);
   } else {
      vc_check("refused", threw);
      unchanged(x, y, -1, -1);
   }
}

template <class Get>
void refused(Get get, int lo)
{
   Any a;
   const int l = vc_int("loops");
   bool threw = false;
   try { get(a.o(), l); } catch (const std::runtime_error&) { threw = true; }
   vc_check("getter refuses exactly the invalid orders", threw == !(l >= lo && l <= 3));
}

template <class Set>
void scalar(Set set, int slot, int a2 = -1, int b2 = -1)
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const double v = vc_double("value");
   set(a.o(), v);
   observe(a.o(), y);
   vc_ident("value returned", y.d[slot], v);
   unchanged(x, y, slot, slot + 1, -1, a2, b2);
}

} // namespace

#define O HierarchyObject
VC c03_set_expuncertainty() { indexed([](O& o, int l, double v) { o.setDMhExpUncertainty(l, v); }, EXPU, 1); }
VC c03_set_dmh2() { indexed([](O& o, int l, double v) { o.setDMh2(l, v); }, DMH2, 0); }
VC c03_set_dlambda() { indexed([](O& o, int l, double v) { o.setDLambda(l, v); }, DL, 0); }
VC c03_set_dlambdashift() { indexed([](O& o, int l, double v) { o.setDLambdaDRbarPrimeToMSbarShift(l, v); }, DLSH, 0); }
VC c03_set_eft() { indexed([](O& o, int l, double v) { o.setDMh2EFT(l, v); }, EFTM, 0); }
VC c03_set_fo() { indexed([](O& o, int l, double v) { o.setDMh2FO(l, v); }, FO, 0); }
VC c03_set_foat() { indexed([](O& o, int l, double v) { o.setDMh2FOAt(l, v); }, FOAT, 0); }

VC c03_set_dmh()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const int l = vc_int("loops");
   const Eigen::Matrix2d m = anym("m00", "m01", "m10", "m11");
   bool threw = false;
   try { a.o().setDMh(l, m); } catch (const std::runtime_error&) { threw = true; }
   observe(a.o(), y);
   if (l >= 0 && l <= 3) {
      vc_check("accepted", !threw);
      for (int k = 0; k < 4; ++k) vc_ident("value returned", y.d[DMH + 4*l + k], m(k / 2, k % 2));
      unchanged(x, y, DMH + 4*l, DMH + 4*l + 4);
   } else {
      vc_check("refused", threw);
      unchanged(x, y, -1, -1);
   }
}

VC c03_get_expuncertainty() { refused([](O& o, int l) { o.getDMhExpUncertainty(l); }, 1); }
VC c03_get_dmh() { refused([](O& o, int l) { o.getDMh(l); }, 0); }
VC c03_get_dmh2() { refused([](O& o, int l) { o.getDMh2(l); }, 0); }
VC c03_get_dlambda() { refused([](O& o, int l) { o.getDLambda(l); }, 0); }
VC c03_get_dlambdaunc() { refused([](O& o, int l) { o.getDLambdaUncertainty(l); }, 0); }
VC c03_get_dlambdashift() { refused([](O& o, int l) { o.getDLambdaDRbarPrimeToMSbarShift(l); }, 0); }
VC c03_get_eft() { refused([](O& o, int l) { o.getDMh2EFTAt(l); }, 0); }
VC c03_get_fo() { refused([](O& o, int l) { o.getDMh2FO(l); }, 0); }
VC c03_get_foat() { refused([](O& o, int l) { o.getDMh2FOAt(l); }, 0); }

VC c03_set_absdiff() { scalar([](O& o, double v) { o.setAbsDiff2L(v); }, ABS); }
VC c03_set_reldiff() { scalar([](O& o, double v) { o.setRelDiff2L(v); }, REL); }
VC c03_set_h3m() { scalar([](O& o, double v) { o.setDLambdaH3m(v); }, H3M, UNC + 3, UNC + 4); }
VC c03_set_lambdaeft() { scalar([](O& o, double v) { o.setDLambdaEFT(v); }, EFT, UNC + 3, UNC + 4); }
VC c03_set_nonlog() { scalar([](O& o, double v) { o.setDLambdaNonLog(v); }, NONLOG); }

VC c03_uncertainty()
{
   Any a;
   const double u = vc_double("uncertainty"), e = vc_double("eft"), h = vc_double("h3m");
   Obs x, y;
   observe(a.o(), x);
   a.o().setDLambdaXtUncertainty(u);
   observe(a.o(), y);
   unchanged(x, y, UNC + 3, UNC + 4);
   a.o().setDLambdaEFT(e);
   a.o().setDLambdaH3m(h);
   for (int l = 0; l <= 2; ++l) vc_ident("no uncertainty below three loops", a.o().getDLambdaUncertainty(l), 0.0);
   vc_same("three-loop uncertainty", a.o().getDLambdaUncertainty(3), vc_abs(u) + vc_abs(e - h));
}

VC c03_set_mdrshift()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const Eigen::Matrix2d m = anym("m00", "m01", "m10", "m11");
   a.o().setDMhDRbarPrimeToMDRbarPrimeShift(m);
   observe(a.o(), y);
   for (int k = 0; k < 4; ++k) vc_ident("value returned", y.d[MDRSHIFT + k], m(k / 2, k % 2));
   unchanged(x, y, MDRSHIFT, MDRSHIFT + 4);
}

VC c03_set_h3mshift()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const Eigen::Matrix2d m = anym("m00", "m01", "m10", "m11");
   a.o().setDMhDRbarPrimeToH3mShift(m);
   observe(a.o(), y);
   for (int k = 0; k < 4; ++k) vc_ident("value returned", y.d[H3MSHIFT + k], m(k / 2, k % 2));
   unchanged(x, y, H3MSHIFT, H3MSHIFT + 4);
}

VC c03_set_mdrmasses()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const double p = vc_double("m1"), q = vc_double("m2");
   vc_assume(p == p && q == q);
   a.o().setMDRMasses(Eigen::Vector2d(p, q));
   observe(a.o(), y);
   vc_check("ascending", y.d[MDRM] <= y.d[MDRM + 1]);
   vc_check("same pair", (y.d[MDRM] == p && y.d[MDRM + 1] == q) || (y.d[MDRM] == q && y.d[MDRM + 1] == p));
   unchanged(x, y, MDRM, MDRM + 2);
}

VC c03_set_hierarchy()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const int h = vc_int("hierarchy");
   a.o().setSuitableHierarchy(h);
   observe(a.o(), y);
   vc_iident("value returned", y.i[HIER], h);
   unchanged(x, y, -1, -1, HIER);
}

VC c03_set_mdrflag()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const int h = vc_int("flag");
   bool threw = false;
   try { a.o().setMDRFlag(h); } catch (const std::runtime_error&) { threw = true; }
   observe(a.o(), y);
   vc_check("refused exactly when not 0 or 1", threw == !(h == 0 || h == 1));
   vc_iident("value", y.i[MDRFLAG], threw ? x.i[MDRFLAG] : h);
   unchanged(x, y, -1, -1, MDRFLAG);
}

VC c03_set_scheme()
{
   Any a;
   Obs x, y;
   observe(a.o(), x);
   const int h = vc_int("scheme");
   bool threw = false;
   try { a.o().setRenormalizationScheme(h); } catch (const std::runtime_error&) { threw = true; }
   observe(a.o(), y);
   vc_check("refused exactly when outside 0 to 3", threw == !(h >= 0 && h <= 3));
   vc_iident("value", y.i[RS], threw ? x.i[RS] : h);
   unchanged(x, y, -1, -1, RS);
}

VC c03_construct()
{
   const int b = vc_bool("alphab");
   HierarchyObject o(b != 0);
   Obs x;
   observe(o, x);
   for (int k = 0; k < NSLOT; ++k) vc_check("starts at zero", x.d[k] == 0.0);
   vc_iident("alpha_b flag", x.i[ALPHAB], b);
   vc_iident("scheme DRbar'", x.i[RS], 1);
}
