// Concrete meaning of the contract vocabulary: replays one counterexample on the real code.
#include "vc.hpp"
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <dlfcn.h>
#define VC_NATIVE
#include <Eigen/Eigenvalues>

struct Val { char t; double d; long i; };
struct Discard {};
static std::map<std::string, Val> vals;
static std::map<std::string, int> used;

static std::string uniq(const char* n)
{
   const int k = used[n]++;
   std::string s(n);
   for (char& c : s) if (c == ' ') c = '_';
   return k == 0 ? s : s + "." + std::to_string(k);
}
static void lab(const char* l) { for (; *l; ++l) putchar(*l == ' ' ? '_' : *l); }

extern "C" {
void vc_eigh2(const double* m, double* val, double* vec)
{
   const Eigen::MatrixXd a = Eigen::Map<const Eigen::Matrix2d>(m);
   const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s(a);
   for (int i = 0; i < 2; ++i) { val[i] = s.eigenvalues()(i); for (int k = 0; k < 2; ++k) vec[2*i + k] = s.eigenvectors()(k, i); }
}
void vc_eigh4(const double* m, double* val, double* vec)
{
   const Eigen::MatrixXd a = Eigen::Map<const Eigen::Matrix4d>(m);
   const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> s(a);
   for (int i = 0; i < 4; ++i) { val[i] = s.eigenvalues()(i); for (int k = 0; k < 4; ++k) vec[4*i + k] = s.eigenvectors()(k, i); }
}
void vc_svd2(const double* m, double* val, double* u, double* v)
{
   const Eigen::MatrixXd a = Eigen::Map<const Eigen::Matrix2d>(m);
   const Eigen::JacobiSVD<Eigen::MatrixXd> s(a, Eigen::ComputeFullU | Eigen::ComputeFullV);
   for (int i = 0; i < 2; ++i) {
      val[i] = s.singularValues()(i);
      for (int k = 0; k < 2; ++k) { u[2*i + k] = s.matrixU()(k, i); v[2*i + k] = s.matrixV()(k, i); }
   }
}
void vc_eig2(const double* m, double* re, double* im)
{
   const Eigen::MatrixXd a = Eigen::Map<const Eigen::Matrix2d>(m);
   const Eigen::EigenSolver<Eigen::MatrixXd> s(a, false);
   for (int i = 0; i < 2; ++i) { re[i] = s.eigenvalues()(i).real(); im[i] = s.eigenvalues()(i).imag(); }
}
void vc_svd3(const double* m, double* val)
{
   const Eigen::MatrixXd a = Eigen::Map<const Eigen::Matrix3d>(m);
   const Eigen::JacobiSVD<Eigen::MatrixXd> s(a);
   for (int i = 0; i < 3; ++i) val[i] = s.singularValues()(i);
}
double vc_double(const char* n) { auto it = vals.find(uniq(n)); return it == vals.end() ? 1.0 : it->second.d; }
int vc_int(const char* n) { auto it = vals.find(uniq(n)); return it == vals.end() ? 0 : (int) it->second.i; }
int vc_bool(const char* n) { return vc_int(n); }
int vc_range(const char* n, int lo, int) { auto it = vals.find(uniq(n)); return it == vals.end() ? lo : (int) it->second.i; }
static std::string named(const char* n, int i)
{
   std::string s = std::string(n) + "[" + std::to_string(i) + "]";
   for (char& c : s) if (c == ' ') c = '_';
   return s;
}
double vc_sym(const char* n, int i) { auto it = vals.find(named(n, i)); return it == vals.end() ? 1.0 : it->second.d; }
double vc_sym2(const char* n, int i, int j) { return vc_sym(named(n, i).c_str(), j); }
int vc_flag(const char* n, int i) { auto it = vals.find(named(n, i)); return it == vals.end() ? 0 : (int) it->second.i; }
int vc_cond(const char* n, int i) { return vc_flag(n, i); }
double vc_fnv(const char* n, const double* x, int k)
{
   double s = 0.3; int j = 1;
   for (; *n; ++n) s += std::sin(*n * j++);
   for (int i = 0; i < k; ++i) s += std::sin(x[i] + j++);
   return 1.5 + std::sin(s);
}
void vc_join(int) {}
void vc_havoc(void* p, unsigned long size, const char* n)
{
   const std::string pre = std::string(n) + "+";
   std::memset(p, 0, size);
   for (const auto& kv : vals) {
      if (kv.first.compare(0, pre.size(), pre) != 0) continue;
      char* e = nullptr;
      const unsigned long off = std::strtoul(kv.first.c_str() + pre.size(), &e, 10);
      if (kv.second.t == 'd' && off + 8 <= size) std::memcpy((char*) p + off, &kv.second.d, 8);
      else if (kv.second.t == 'i') { const unsigned long w = off + 4 <= size ? 4 : 1; std::memcpy((char*) p + off, &kv.second.i, w); }
   }
}
void vc_assume(int c) { if (!c) throw Discard(); }
void vc_check(const char* l, int c) { fputs(c ? "ok " : "FAIL ", stdout); lab(l); putchar('\n'); }
void vc_same(const char* l, double a, double b)
{
   const double s = std::fmax(std::fabs(a), std::fabs(b));
   const bool ok = (std::fabs(a - b) <= 1e-6 * s) || (std::isnan(a) && std::isnan(b)) || a == b;
   fputs(ok ? "ok " : "FAIL ", stdout); lab(l); printf(" code %.17g specification %.17g\n", a, b);
}
void vc_near(const char* l, double a, double b) { fputs("near ", stdout); lab(l); printf(" %.17g %.17g\n", a, b); }
void vc_ident(const char* l, double a, double b)
{
   const bool ok = a == b || (std::isnan(a) && std::isnan(b));
   fputs(ok ? "ok " : "FAIL ", stdout); lab(l); printf(" %.17g %.17g\n", a, b);
}
void vc_iident(const char* l, long a, long b) { fputs(a == b ? "ok " : "FAIL ", stdout); lab(l); printf(" %ld %ld\n", a, b); }
void vc_out(const char* l, double x) { fputs("out ", stdout); lab(l); printf(" %.17g\n", x); }
void vc_mark(const char*) {}
void vc_frame(const char* l, const void* p, unsigned long n, const void* q)
{
   for (unsigned long k = 0; k < n; ++k)
      if (((const char*) p)[k] != ((const char*) q)[k]) {
         fputs("FAIL ", stdout); lab(l); printf("+%lu\n", k < n ? k / 8 * 8 : 0); fputs("FAIL ", stdout); lab(l); printf("+%lu\n", k / 4 * 4);
      }
}
double vc_log(double x) { return std::log(x); }
double vc_sqrt(double x) { return std::sqrt(x); }
double vc_abs(double x) { return std::fabs(x); }
static double li2s(double x) { double s = 0, t = x; for (int n = 1; n < 200; ++n) { s += t / n / n; t *= x; } return s; }
double vc_li2(double x)
{
   const double z2 = 1.6449340668482264;
   if (x == 1) return z2;
   if (x > 1) return 2 * z2 - 0.5 * std::log(x) * std::log(x) - vc_li2(1 / x);
   if (x < 0) return -vc_li2(x / (x - 1)) - 0.5 * std::log1p(-x) * std::log1p(-x);
   if (x > 0.5) return z2 - std::log(x) * std::log1p(-x) - vc_li2(1 - x);
   return li2s(x);
}
double vc_fn1(const char* n, double x)
{
   const std::string s(n);
   return s == "sin" ? std::sin(x) : s == "cos" ? std::cos(x) : s == "asin" ? std::asin(x) : s == "acos" ? std::acos(x) :
          s == "atan" ? std::atan(x) : s == "exp" ? std::exp(x) : std::numeric_limits<double>::quiet_NaN();
}
double vc_fn2(const char*, double, double) { return std::numeric_limits<double>::quiet_NaN(); }
double vc_fn3(const char*, double, double, double) { return std::numeric_limits<double>::quiet_NaN(); }
}

int main(int argc, char** argv)
{
   if (argc < 3) return 2;
   using F = void (*)();
   F h = (F) dlsym(RTLD_DEFAULT, argv[1]);
   if (!h) { puts("no such contract"); return 2; }
   std::ifstream f(argv[2]);
   std::string n, t, v;
   bool any = false;
   const auto go = [&] {
      if (!any) return;
      used.clear();
      puts("POINT");
      try { h(); } catch (const std::exception& e) { printf("THROWN %s\n", e.what()); } catch (const Discard&) { puts("ASSUMPTION VIOLATED"); }
      fflush(stdout);
      vals.clear();
   };
   while (f >> n >> t >> v) {
      if (n == "point") { go(); any = true; continue; }
      Val x{t[0], 0, 0};
      if (t[0] == 'd') x.d = std::strtod(v.c_str(), nullptr); else x.i = std::strtol(v.c_str(), nullptr, 10);
      vals[n] = x;
   }
   go();
   return 0;
}
