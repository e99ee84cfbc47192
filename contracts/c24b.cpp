// C24: the Mathematica interface.  MathLink is replaced by assumed contracts which record what is sent.
#include "vc.hpp"
#include "himalaya/LibraryLink/Himalaya_LibraryLink.cpp"
#include <new>

using namespace himalaya;

// ---- MathLink: expressions arrive in the order of the calls
namespace {
struct Sent {
   int kind;              ///< f: head with number of arguments, y: symbol, t: string, i: integer, r: real
   int n;
   double x;
   char s[40];
};
Sent sent[400];
int ns;

Sent& put(int kind, const char* s = "", int len = -1)
{
   Sent& t = sent[ns++];
   t.kind = kind; t.n = 0; t.x = 0;
   int i = 0;
   for (; i < 39 && (len < 0 ? s[i] != 0 : i < len); ++i) t.s[i] = s[i];
   t.s[i] = 0;
   return t;
}

void list(const double* x, const long* dims, long depth)
{
   put('f', "List").n = int(dims[0]);
   long stride = 1;
   for (int k = 1; k < depth; ++k) stride *= dims[k];
   for (long i = 0; i < dims[0]; ++i) {
      if (depth > 1) list(x + i*stride, dims + 1, depth - 1);
      else put('r').x = x[i];
   }
}
}

extern "C" {
int MLPutSymbol(MLINK, const char* s) { put('y', s); return 1; }
int MLPutUTF8Symbol(MLINK, const unsigned char* s, int n) { put('y', (const char*)s, n); return 1; }
int MLPutString(MLINK, const char* s) { put('t', s); return 1; }
int MLPutUTF8String(MLINK, const unsigned char* s, int n) { put('t', (const char*)s, n); return 1; }
int MLPutInteger(MLINK, int x) { put('i').x = x; return 1; }
int MLPutInteger32(MLINK, int x) { put('i').x = x; return 1; }
int MLPutInteger64(MLINK, long x) { put('i').x = x; return 1; }
int MLPutReal(MLINK, double x) { put('r').x = x; return 1; }
int MLPutReal64(MLINK, double x) { put('r').x = x; return 1; }
int MLPutRealList(MLINK, const double* x, int n) { const long d[] = { n }; list(x, d, 1); return 1; }
int MLPutReal64List(MLINK, const double* x, int n) { const long d[] = { n }; list(x, d, 1); return 1; }
int MLPutDoubleArray(MLINK, const double* x, const long* d, char**, long k) { list(x, d, k); return 1; }
int MLPutReal64Array(MLINK, const double* x, const int* d, const char**, int k)
{
   long e[4];
   for (int i = 0; i < k; ++i) e[i] = d[i];
   list(x, e, k);
   return 1;
}
int MLPutFunction(MLINK, const char* s, int n) { put('f', s).n = n; return 1; }
int MLEndPacket(MLINK) { return 1; }
int MLNewPacket(MLINK) { return 1; }

// what is received: a list with the given numbers
static double* given;
static int ngiven, taken;
int MLCheckFunction(MLINK, const char*, long* n) { *n = 1; return 1; }
int MLTestHead(MLINK, const char*, int* n) { *n = ngiven; taken = 0; return 1; }
int MLGetReal64(MLINK, double* x) { *x = given[taken++]; return 1; }
int MLGetReal(MLINK, double* x) { *x = given[taken++]; return 1; }
}

// ---- contracts of the calculation: the input is recorded, the results are arbitrary
static int nvalidate, verbose_given;
extern int c24_bottom, c24_verbose, c24_calls;
extern double c24_point[2];
double c24_value(const char* n, double scale, double mu, int option);
void c24_fill(HierarchyObject&);
namespace himalaya {
void Parameters::validate(bool verbose) { ++nvalidate; verbose_given = verbose; }
}

namespace {

bool same(const char* a, const char* b) { int i = 0; while (a[i] && a[i] == b[i]) ++i; return a[i] == b[i]; }

/// position of the value of the rule with this name
int rule(const char* name)
{
   int at = -1, n = 0;
   for (int i = 0; i + 2 < ns; ++i)
      if (sent[i].kind == 'f' && sent[i].n == 2 && same(sent[i].s, "Rule") && sent[i + 1].kind == 'y' && same(sent[i + 1].s, name)) { at = i + 2; ++n; }
   vc_check("every result is sent once under its name", n == 1);
   return n == 1 ? at : -1;
}

int total;    ///< expressions accounted for

bool head(int& i, int n)
{
   const bool ok = i < ns && sent[i].kind == 'f' && same(sent[i].s, "List") && sent[i].n == n;
   vc_check("shape of the lists", ok);
   ++i;
   return ok;
}

void value(const char* name, int& i, double x)
{
   vc_check("numbers in the lists", i < ns && (sent[i].kind == 'r' || sent[i].kind == 'i'));
   vc_same(name, sent[i++].x, x);
}

template <class V> void vec(const char* name, const V& v)
{
   int i = rule(name);
   if (i < 0) return;
   const int b = i;
   if (!head(i, v.size())) return;
   for (int k = 0; k < v.size(); ++k) value(name, i, v(k));
   total += 2 + i - b;
}

void four(const char* name, const Eigen::Matrix2d* m)
{
   int i = rule(name);
   if (i < 0) return;
   const int b = i;
   if (!head(i, 4)) return;
   for (int l = 0; l < 4; ++l) {
      if (!head(i, 2)) return;
      for (int r = 0; r < 2; ++r) {
         if (!head(i, 2)) return;
         for (int c = 0; c < 2; ++c) value(name, i, m[l](r, c));
      }
   }
   total += 2 + i - b;
}

Eigen::Matrix2d anym(const char* a, const char* b, const char* c, const char* d)
{
   Eigen::Matrix2d m;
   m << vc_sym(a, 0), vc_sym(b, 0), vc_sym(c, 0), vc_sym(d, 0);
   return m;
}

void fill(HierarchyObject& o)
{
   o.setAbsDiff2L(vc_sym("abs", 0)); o.setRelDiff2L(vc_sym("rel", 0));
   o.setMDRMasses(Eigen::Vector2d(vc_sym("m1", 0), vc_sym("m2", 0)));
   o.setDMhDRbarPrimeToMDRbarPrimeShift(anym("sa", "sb", "sc", "sd"));
   o.setDMhDRbarPrimeToH3mShift(anym("ha", "hb", "hc", "hd"));
   o.setDMh(0, anym("aa", "ab", "ac", "ad")); o.setDMh(1, anym("ba", "bb", "bc", "bd"));
   o.setDMh(2, anym("ca", "cb", "cc", "cd")); o.setDMh(3, anym("da", "db", "dc", "dd"));
   for (int l = 0; l <= 3; ++l) {
      if (l) o.setDMhExpUncertainty(l, vc_sym("exp", l));
      o.setDMh2(l, vc_sym("mh2", l));
      o.setDLambda(l, vc_sym("lambda", l));
      o.setDLambdaDRbarPrimeToMSbarShift(l, vc_sym("shift", l));
      o.setDMh2EFT(l, vc_sym("eft", l));
      o.setDMh2FO(l, vc_sym("fo", l));
      o.setDMh2FOAt(l, vc_sym("foat", l));
   }
   o.setDLambdaH3m(vc_sym("h3m", 0)); o.setDLambdaEFT(vc_sym("left", 0)); o.setDLambdaNonLog(vc_sym("nonlog", 0));
   o.setDLambdaXtUncertainty(vc_sym("xt", 0));
}

} // namespace

void c24_fill(HierarchyObject& o) { fill(o); }

namespace {

Results::Loop_corrections corrections(const char* n) { return Results::Loop_corrections(vc_sym(n, 0), vc_sym(n, 1), vc_sym(n, 2), vc_sym(n, 3)); }

Eigen::Vector4d list4(const Results::Loop_corrections& t) { return Eigen::Vector4d(std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)); }

} // namespace

/// all results are sent, each under its documented name
VC c24_send()
{
   const bool b = vc_bool("alphab");
   Results r;
   r.ho = HierarchyObject(b);
   HierarchyObject& o = r.ho;
   fill(o);
   const int h = vc_range("hierarchy", 0, 13);
   o.setSuitableHierarchy(h);
   r.eft = corrections("tuple eft"); r.fo = corrections("tuple fo"); r.fo_dom = corrections("tuple fo at");
   ns = total = 0;
   put_result(r, nullptr);
   vc_check("one list of rules", ns > 0 && sent[0].kind == 'f' && same(sent[0].s, "List") && sent[0].n == 13);
   total = 1;
   int i = rule("hierarchyID");
   if (i >= 0) { vc_check("the hierarchy is an integer", sent[i].kind == 'i'); vc_same("hierarchyID", sent[i].x, h); total += 3; }
   i = rule("hierarchyName");
   const char* names[] = { "h3", "h32q2g", "h3q22g", "h4", "h5", "h5g1", "h6", "h6b", "h6b2qg2", "h6bq22g", "h6bq2g2", "h6g2", "h9", "h9q2" };
   if (i >= 0) { vc_check("hierarchyName", sent[i].kind == 'y' && same(sent[i].s, o.getH3mHierarchyNotation(h).c_str())); total += 3; }
   vec(b ? "MsbottomMDRPrime" : "MstopMDRPrime", o.getMDRMasses());
   const Eigen::Matrix2d z = Eigen::Matrix2d::Zero();
   const Eigen::Matrix2d mh[] = { o.getDMh(0), o.getDMh(1), o.getDMh(2), o.getDMh(3) };
   const Eigen::Matrix2d s1[] = { z, z, z, o.getDMhDRbarPrimeToMDRbarPrimeShift() };
   const Eigen::Matrix2d s2[] = { z, z, z, o.getDMhDRbarPrimeToH3mShift() };
   four("Mh2", mh); four("Mh2ShiftDRbarPrimeToMDRPrime", s1); four("Mh2ShiftDRbarPrimeToH3m", s2);
   vec("expansionUncertainty", Eigen::Vector4d(0, o.getDMhExpUncertainty(1), o.getDMhExpUncertainty(2), o.getDMhExpUncertainty(3)));
   vec("Mh2EFTAt", list4(r.eft)); vec("Mh2FO", list4(r.fo)); vec("Mh2FOAt", list4(r.fo_dom));
   vec("lambda", Eigen::Vector4d(o.getDLambda(0), o.getDLambda(1), o.getDLambda(2), o.getDLambda(3)));
   vec("lambdaUncertainty", Eigen::Vector4d(0, 0, 0, o.getDLambdaUncertainty(3)));
   vec("lambdaShiftDRbarPrimeToMSbar", Eigen::Vector4d(o.getDLambdaDRbarPrimeToMSbarShift(0), o.getDLambdaDRbarPrimeToMSbarShift(1),
      o.getDLambdaDRbarPrimeToMSbarShift(2), o.getDLambdaDRbarPrimeToMSbarShift(3)));
   vc_check("nothing else is sent", total == ns);
}

/// the numbers received are the settings and parameters in the order of Himalaya_LibraryLink.m
VC c24_receive()
{
   const int N = ORDER_N;
   std::vector<double> x(N);
   for (int i = 0; i < N; ++i) x[i] = vc_sym("input", i);
   // settings: truth values and a loop order
   const int order = vc_range("loop order", 0, 3), bottom = vc_bool("bottom"), verbose = vc_bool("verbose");
   x[AT_loopOrder] = order; x[AT_bottom] = bottom; x[AT_verbose] = verbose;
   const int optional = vc_range("optional", 0, 9);
   // optional parameters: at most one of them is given here (they are independent of each other)
   const int flag[] = { AT_MW, AT_MZ, AT_Mt, AT_Mb, AT_Mtau };
   for (int i = 0; i < 5; ++i) vc_assume(optional == i ? x[flag[i]] > 0 : !(x[flag[i]] > 0));
   const int pair[][3] = { { AT_MSt_0, AT_MSt_1, AT_s2t }, { AT_MSb_0, AT_MSb_1, AT_s2b }, { AT_MStau_0, AT_MStau_1, AT_s2tau } };
   for (int i = 0; i < 3; ++i)
      if (optional == 5 + i) vc_assume(x[pair[i][0]] > 0 && x[pair[i][1]] > 0 && vc_abs(x[pair[i][2]]) <= 1);
      else if (optional == 8) vc_assume(x[pair[i][0]] > 0 && x[pair[i][1]] > 0 && vc_abs(x[pair[i][2]]) > 1);
      else vc_assume(x[pair[i][0]] > 0 && x[pair[i][1]] <= 0);
   nvalidate = 0;
   const Data d = make_data(x);
   const Parameters& p = d.pars;
   const Parameters def{};
   vc_check("validated once", nvalidate == 1);
   vc_iident("verbosity of the validation", verbose_given, verbose);
   vc_iident("bottom", d.bottom, bottom); vc_iident("verbose", d.verbose, verbose); vc_iident("loopOrder", d.loopOrder, order);
   GENERATED
}

/// a list of another length is refused
VC c24_receive_length()
{
   const int n = vc_range("length", 0, 2);
   std::vector<double> x(n == 0 ? 0 : n == 1 ? ORDER_N - 1 : ORDER_N + 1);
   bool refused = false;
   try { make_data(x); } catch (const std::runtime_error&) { refused = true; }
   vc_check("refused", refused);
}

/// a list is read completely and in order
VC c24_read()
{
   double x[5];
   for (int i = 0; i < 5; ++i) x[i] = vc_sym("x", i);
   given = x;
   ngiven = vc_range("length", 0, 5);
   const auto v = read_list(nullptr);
   vc_check("length of the list", int(v.size()) == ngiven);
   for (int i = 0; i < ngiven && i < int(v.size()); ++i) vc_same("number in the list", v[i], x[i]);
}

namespace {
double c(const Results::Loop_corrections& t, int l) { return list4(t)(l); }
}

/// the complete calculation is made with the given point and options
VC c24_results_3l()
{
   Data d;
   d.pars.scale = vc_double("scale"); d.pars.mu = vc_double("mu");
   const int bottom = vc_bool("bottom"), verbose = vc_bool("verbose");
   d.bottom = bottom; d.verbose = verbose; d.loopOrder = vc_range("loop order", 3, 4);
   c24_calls = 0;
   const Results r = calculate_results(d);
   vc_check("calculated once", c24_calls == 1);
   vc_iident("bottom", c24_bottom, bottom); vc_iident("verbose", c24_verbose, verbose);
   vc_same("input point", c24_point[0], d.pars.scale); vc_same("input point", c24_point[1], d.pars.mu);
   const HierarchyObject& o = r.ho;
   HierarchyObject h(bottom);
   fill(h);
   vc_iident("bottom of the result", o.getIsAlphab(), bottom);
   for (int l = 0; l < 4; ++l) {
      for (int k = 0; k < 4; ++k) vc_same("mass matrix", o.getDMh(l)(k/2, k%2), h.getDMh(l)(k/2, k%2));
      vc_same("lambda", o.getDLambda(l), h.getDLambda(l));
      vc_same("EFT", c(r.eft, l), h.getDMh2EFTAt(l));
      vc_same("FO", c(r.fo, l), h.getDMh2FO(l));
      vc_same("FO at", c(r.fo_dom, l), h.getDMh2FOAt(l));
   }
}

/// below three loops only the effective-theory and fixed-order masses are calculated
VC c24_results_2l()
{
   Data d;
   const double s = vc_double("scale"), m = vc_double("mu");
   d.pars.scale = s; d.pars.mu = m;
   d.bottom = vc_bool("bottom"); d.verbose = vc_bool("verbose"); d.loopOrder = vc_range("loop order", 0, 2);
   c24_calls = 0;
   const Results r = calculate_results(d);
   vc_check("no three-loop calculation", c24_calls == 0);
   const char* f[] = { "fo 0", "fo 1", "fo 2" };
   const char* e[] = { "eft 0", "eft 1", "eft 2" };
   for (int l = 0; l < 3; ++l) {
      vc_same("EFT", c(r.eft, l), c24_value(e[l], s, m, 11));
      vc_same("FO", c(r.fo, l), c24_value(f[l], s, m, 0));
      vc_same("FO at", c(r.fo_dom, l), c24_value(f[l], s, m, 10));
   }
   vc_same("EFT at three loops", c(r.eft, 3), 0);
   vc_same("FO at three loops", c(r.fo, 3), 0);
   vc_same("FO at three loops", c(r.fo_dom, 3), 0);
}
