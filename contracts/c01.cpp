// C01, C02: validation of the input point
#include "vc.hpp"
#include "himalaya/Himalaya_interface.hpp"
#include <cmath>
#include <stdexcept>
#include <cstring>

using himalaya::Parameters;
using himalaya::RM33;

namespace {

const double nan_ = std::numeric_limits<double>::quiet_NaN();

// a point with all masses and angles given
void given(Parameters& p)
{
   p.MSt << vc_double("MSt0"), vc_double("MSt1");
   p.MSb << vc_double("MSb0"), vc_double("MSb1");
   p.MStau << vc_double("MStau0"), vc_double("MStau1");
   p.s2t = vc_double("s2t"); p.s2b = vc_double("s2b"); p.s2tau = vc_double("s2tau");
   p.theta_t = vc_double("theta_t"); p.theta_b = vc_double("theta_b"); p.theta_tau = vc_double("theta_tau");
   p.MW = vc_double("MW"); p.MZ = vc_double("MZ"); p.Mt = vc_double("Mt"); p.Mb = vc_double("Mb"); p.Mtau = vc_double("Mtau");
}

void fill(RM33& m, const char* const n[9]) { for (int i = 0; i < 9; ++i) m(i / 3, i % 3) = vc_double(n[i]); }

#define NAMES(x) const char* const x[9] = { #x "00", #x "01", #x "02", #x "10", #x "11", #x "12", #x "20", #x "21", #x "22" };
NAMES(mq2) NAMES(md2) NAMES(mu2) NAMES(ml2) NAMES(me2) NAMES(Au) NAMES(Ad) NAMES(Ae) NAMES(Yu) NAMES(Yd) NAMES(Ye)

void point(Parameters& p)
{
   p.scale = vc_double("scale"); p.mu = vc_double("mu"); p.g1 = vc_double("g1"); p.g2 = vc_double("g2"); p.g3 = vc_double("g3");
   p.vd = vc_double("vd"); p.vu = vc_double("vu");
   fill(p.mq2, mq2); fill(p.md2, md2); fill(p.mu2, mu2); fill(p.ml2, ml2); fill(p.me2, me2);
   fill(p.Au, Au); fill(p.Ad, Ad); fill(p.Ae, Ae); fill(p.Yu, Yu); fill(p.Yd, Yd); fill(p.Ye, Ye);
   p.M1 = vc_double("M1"); p.M2 = vc_double("M2"); p.MG = vc_double("MG"); p.MA = vc_double("MA");
   given(p);
   p.massLimit3LThreshold = vc_int("limit");
}

bool negative(const RM33& m) { bool r = false; for (int i = 0; i < 9; ++i) r |= m.data()[i] < 0; return r; }
bool ordinary(const RM33& m) { bool r = true; for (int i = 0; i < 9; ++i) r &= m.data()[i] - m.data()[i] == 0; return r; }
bool soft_nan(const Parameters& p)
{
   bool r = false;
   for (const RM33* m : { &p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2 }) for (int i = 0; i < 9; ++i) r |= m->data()[i] != m->data()[i];
   return r;
}

bool validate(Parameters& p)
{
   try { p.validate(false); } catch (const std::runtime_error&) { return false; }
   return true;
}

bool unphysical(const Parameters& p)
{
   return negative(p.mq2) | negative(p.md2) | negative(p.mu2) | negative(p.ml2) | negative(p.me2) | (p.MG < 0) |
          !(p.vu > 0) | !(p.vd > 0);
}

} // anonymous namespace

// C01 -------------------------------------------------------------
// all masses and angles given, every other value arbitrary
VC c01_given()
{
   Parameters p;
   point(p);
   vc_assume(!soft_nan(p));
   vc_assume(p.MG == p.MG);
   for (double x : { p.MSt(0), p.MSt(1), p.MSb(0), p.MSb(1), p.MStau(0), p.MStau(1), p.s2t, p.s2b, p.s2tau, p.theta_t, p.theta_b, p.theta_tau }) vc_assume(x == x);
   const bool bad = unphysical(p);
   vc_check("refused exactly if unphysical", validate(p) == !bad);
}

// the masses of one kind of sfermion missing or incomplete: refused exactly if the computed squared masses are not both positive or zero
static void missing(int sector, int what)
{
   Parameters p;
   point(p);
   vc_assume(!soft_nan(p));
   vc_assume(p.MG == p.MG);
   for (double x : { p.MSt(0), p.MSt(1), p.MSb(0), p.MSb(1), p.MStau(0), p.MStau(1), p.s2t, p.s2b, p.s2tau, p.theta_t, p.theta_b, p.theta_tau }) vc_assume(x == x);
   vc_assume(!unphysical(p));
   himalaya::V2& m = sector == 0 ? p.MSt : sector == 1 ? p.MSb : p.MStau;
   double& s = sector == 0 ? p.s2t : sector == 1 ? p.s2b : p.s2tau;
   double& t = sector == 0 ? p.theta_t : sector == 1 ? p.theta_b : p.theta_tau;
   for (double x : { p.MW, p.MZ, p.Mt, p.Mb, p.Mtau }) vc_assume(x == x);
   // the two forms of the angle are ordinary numbers, and so are the ones completed from them
   const double sc = vc_fn1("sin", 2*t), tc = 0.5*vc_fn1("asin", s);
   vc_assume(sc == sc && tc == tc);
   if (what & 1) m(0) = nan_;
   if (what & 2) m(1) = nan_;
   if (what & 4) s = nan_;
   if (what & 8) t = nan_;
   const double low = vc_double("eigenvalue 0"), high = vc_double("eigenvalue 1");
   vc_assume(low == low && high == high);
   // an angle alone is completed by the other form of it, so that nothing has to be computed
   const bool computed = (what & 3) || what == 12;
   vc_check("refused exactly if tachyonic", validate(p) == !(computed && low < 0));
}
#define MISSING(n) \
   VC c01_stop_##n() { missing(0, n); } \
   VC c01_sbottom_##n() { missing(1, n); } \
   VC c01_stau_##n() { missing(2, n); }
MISSING(1) MISSING(2) MISSING(3) MISSING(4) MISSING(5) MISSING(6) MISSING(7) MISSING(8) MISSING(9) MISSING(10) MISSING(11) MISSING(12) MISSING(13) MISSING(14) MISSING(15)

// C02 -------------------------------------------------------------
namespace {

// everything except the named doubles and matrices is bytewise the same; q receives the permitted changes
void frame(const char* label, Parameters p, const Parameters& q)
{
   p.MSt = q.MSt; p.MSb = q.MSb; p.MStau = q.MStau;
   p.s2t = q.s2t; p.s2b = q.s2b; p.s2tau = q.s2tau;
   p.theta_t = q.theta_t; p.theta_b = q.theta_b; p.theta_tau = q.theta_tau;
   p.Yu = q.Yu; p.Yd = q.Yd; p.Ye = q.Ye;
   p.MW = q.MW; p.MZ = q.MZ; p.Mt = q.Mt; p.Mb = q.Mb; p.Mtau = q.Mtau;
   p.mq2(2,2) = q.mq2(2,2);
   vc_frame(label, &p, (unsigned long) ((const char*) (&p.massLimit3LThreshold + 1) - (const char*) &p), &q);
}

void physical(const Parameters& p)
{
   for (const RM33* m : { &p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2 }) for (int i = 0; i < 9; ++i) vc_assume(m->data()[i] >= 0);
   vc_assume(p.vu > 0 && p.vd > 0 && p.MG >= 0);
}

// sorted and non-degenerate, so that nothing happens to them
void regular(const himalaya::V2& m) { vc_assume(0 < m(0) && m(0) + 1 <= m(1)); }

}

VC c02_masses()
{
   Parameters p;
   point(p);
   physical(p);
   regular(p.MSt); regular(p.MSb); regular(p.MStau);
   vc_assume(p.mq2(2,2) >= 1 + p.mu2(2,2));
   const bool w = vc_bool("MW given"), z = vc_bool("MZ given"), t = vc_bool("Mt given"), b = vc_bool("Mb given"), l = vc_bool("Mtau given");
   if (!w) p.MW = nan_;
   if (!z) p.MZ = nan_;
   if (!t) p.Mt = nan_;
   if (!b) p.Mb = nan_;
   if (!l) p.Mtau = nan_;
   Parameters r = p;
   vc_check("accepted", validate(r));
   const double v2 = p.vu*p.vu + p.vd*p.vd;
   if (w) vc_ident("MW kept", r.MW, p.MW); else { vc_same("MW", r.MW*r.MW, p.g2*p.g2*v2/4); vc_same("MW sign", r.MW, p.g2*vc_sqrt(v2)/2); }
   if (z) vc_ident("MZ kept", r.MZ, p.MZ); else vc_same("MZ", r.MZ, vc_sqrt((3*p.g1*p.g1/5 + p.g2*p.g2)*v2)/2);
   if (t) vc_ident("Mt kept", r.Mt, p.Mt); else vc_same("Mt", r.Mt, vc_double("sv Yu00 0")*p.vu/vc_sqrt(2));
   if (b) vc_ident("Mb kept", r.Mb, p.Mb); else vc_same("Mb", r.Mb, vc_double("sv Yd00 0")*p.vd/vc_sqrt(2));
   if (l) vc_ident("Mtau kept", r.Mtau, p.Mtau); else vc_same("Mtau", r.Mtau, vc_double("sv Ye00 0")*p.vd/vc_sqrt(2));
}

VC c02_untouched()
{
   Parameters p;
   point(p);
   physical(p);
   regular(p.MSt); regular(p.MSb); regular(p.MStau);
   vc_assume(p.mq2(2,2) >= 1 + p.mu2(2,2));
   Parameters r = p;
   vc_check("accepted", validate(r));
   frame("rest unchanged", p, r);
   for (int i = 0; i < 2; ++i) {
      vc_ident("stop masses kept", r.MSt(i), p.MSt(i));
      vc_ident("sbottom masses kept", r.MSb(i), p.MSb(i));
      vc_ident("stau masses kept", r.MStau(i), p.MStau(i));
   }
   vc_ident("angle kept", r.s2t, p.s2t); vc_ident("angle kept", r.s2b, p.s2b); vc_ident("angle kept", r.s2tau, p.s2tau);
   vc_ident("angle kept", r.theta_t, p.theta_t); vc_ident("angle kept", r.theta_b, p.theta_b); vc_ident("angle kept", r.theta_tau, p.theta_tau);
   vc_ident("soft mass kept", r.mq2(2,2), p.mq2(2,2));
   const char* const u[3] = { "sv Yu00 0", "sv Yu00 1", "sv Yu00 2" };
   const char* const d[3] = { "sv Yd00 0", "sv Yd00 1", "sv Yd00 2" };
   const char* const e[3] = { "sv Ye00 0", "sv Ye00 1", "sv Ye00 2" };
   for (int i = 0; i < 3; ++i)
      for (int k = 0; k < 3; ++k) {
         vc_ident("up Yukawa", r.Yu(i,k), i == k ? vc_double(u[2 - i]) : 0.);
         vc_ident("down Yukawa", r.Yd(i,k), i == k ? vc_double(d[2 - i]) : 0.);
         vc_ident("lepton Yukawa", r.Ye(i,k), i == k ? vc_double(e[2 - i]) : 0.);
      }
}

// a sfermion pair with squared mass matrix rotated by an arbitrary angle; t is the tangent of half the angle
static void pair(int sector, int what)
{
   Parameters p;
   point(p);
   vc_assume(p.vu > 0 && p.vd > 0 && p.MG >= 0);
   vc_assume(p.MW > 0 && p.MZ > 0);
   if (sector != 0) { regular(p.MSt); }
   if (sector != 1) { regular(p.MSb); }
   if (sector != 2) { regular(p.MStau); }
   // squared masses, tangent of half the angle
   const double w1 = vc_double("w1"), w2 = vc_double("w2"), t = vc_double("t");
   const double m1 = vc_sqrt(w1), m2 = vc_sqrt(w2);
   vc_assume(1 < w1 && w1 < w2 && 0 < m1 && m1 + 1 <= m2 && -1 <= t && t <= 1);
   const double c = (1 - t*t)/(1 + t*t), s = 2*t/(1 + t*t);
   const double M00 = w1*c*c + w2*s*s, M01 = (w1 - w2)*s*c, M11 = w1*s*s + w2*c*c;
   vc_out("M00", M00); vc_out("M01", M01); vc_out("M11", M11); vc_out("c", c); vc_out("s", s); vc_out("w1", w1); vc_out("w2", w2);
   const double cos2b = (p.vd*p.vd - p.vu*p.vu)/(p.vd*p.vd + p.vu*p.vu), sw2 = 1 - (p.MW/p.MZ)*(p.MW/p.MZ), mz2 = p.MZ*p.MZ;
   // third component of the weak isospin, charge, fermion mass, ratio of the vacuum expectation values
   const double T3 = sector == 0 ? 0.5 : -0.5, Q = sector == 0 ? 2./3 : sector == 1 ? -1./3 : -1.;
   const double mf = sector == 0 ? p.Mt : sector == 1 ? p.Mb : p.Mtau, x = sector == 0 ? p.vd/p.vu : p.vu/p.vd;
   RM33& L = sector == 2 ? p.ml2 : p.mq2;
   RM33& R = sector == 0 ? p.mu2 : sector == 1 ? p.md2 : p.me2;
   RM33& A = sector == 0 ? p.Au : sector == 1 ? p.Ad : p.Ae;
   L(2,2) = M00 - mf*mf - (T3 - Q*sw2)*mz2*cos2b;
   R(2,2) = M11 - mf*mf - Q*sw2*mz2*cos2b;
   A(2,2) = M01/mf + p.mu*x;
   vc_assume(mf > 0);
   if (sector != 0) vc_assume(p.mq2(2,2) >= 1 + p.mu2(2,2));
   else if (what & 1) vc_assume(p.mq2(2,2) - p.mu2(2,2) >= 1);
   else vc_assume(p.mu2(2,2) - p.mq2(2,2) >= 1);
   for (const RM33* m : { &p.mq2, &p.md2, &p.mu2, &p.ml2, &p.me2 }) for (int i = 0; i < 9; ++i) vc_assume(m->data()[i] >= 0);
   himalaya::V2 Parameters::* const pm = sector == 0 ? &Parameters::MSt : sector == 1 ? &Parameters::MSb : &Parameters::MStau;
   double Parameters::* const ps = sector == 0 ? &Parameters::s2t : sector == 1 ? &Parameters::s2b : &Parameters::s2tau;
   double Parameters::* const pt = sector == 0 ? &Parameters::theta_t : sector == 1 ? &Parameters::theta_b : &Parameters::theta_tau;
   if (what & 1) (p.*pm)(0) = nan_;
   if (what & 2) (p.*pm)(1) = nan_;
   if (what & 4) p.*ps = nan_;
   if (what & 8) p.*pt = nan_;
   Parameters r = p;
   vc_check("accepted", validate(r));
   const double a = r.*pt, C = vc_fn1("cos", a), S = vc_fn1("sin", a);
   const double x1 = (r.*pm)(0)*(r.*pm)(0), x2 = (r.*pm)(1)*(r.*pm)(1);
   vc_same("light mass", (r.*pm)(0), m1);
   vc_same("heavy mass", (r.*pm)(1), m2);
   vc_same("angle (11)", x1*C*C + x2*S*S, M00);
   vc_same("angle (12)", (x1 - x2)*S*C, M01);
   vc_same("angle (22)", x1*S*S + x2*C*C, M11);
   vc_same("sine of twice the angle", r.*ps, 2*S*C);
   frame("rest unchanged", p, r);
   if (sector != 0) for (int i = 0; i < 2; ++i) vc_ident("stop masses kept", r.MSt(i), p.MSt(i));
   if (sector != 1) for (int i = 0; i < 2; ++i) vc_ident("sbottom masses kept", r.MSb(i), p.MSb(i));
   if (sector != 2) for (int i = 0; i < 2; ++i) vc_ident("stau masses kept", r.MStau(i), p.MStau(i));
}
#define PAIR(n) \
   VC c02_stop_##n() { pair(0, n); } \
   VC c02_sbottom_##n() { pair(1, n); } \
   VC c02_stau_##n() { pair(2, n); }
PAIR(1) PAIR(2) PAIR(3) PAIR(5) PAIR(6) PAIR(7) PAIR(9) PAIR(10) PAIR(11) PAIR(12) PAIR(13) PAIR(14) PAIR(15)

// masses given in any order, angle given in one or both forms
static void angle(int sector, int what)
{
   Parameters p;
   point(p);
   physical(p);
   if (sector != 0) { regular(p.MSt); }
   if (sector != 1) { regular(p.MSb); }
   if (sector != 2) { regular(p.MStau); }
   vc_assume(p.mq2(2,2) >= 1 + p.mu2(2,2));
   himalaya::V2 Parameters::* const pm = sector == 0 ? &Parameters::MSt : sector == 1 ? &Parameters::MSb : &Parameters::MStau;
   double Parameters::* const ps = sector == 0 ? &Parameters::s2t : sector == 1 ? &Parameters::s2b : &Parameters::s2tau;
   double Parameters::* const pt = sector == 0 ? &Parameters::theta_t : sector == 1 ? &Parameters::theta_b : &Parameters::theta_tau;
   const double ma = (p.*pm)(0), mb = (p.*pm)(1);
   vc_assume(0 < ma && 0 < mb && (ma + 1 <= mb || mb + 1 <= ma));
   if (what == 0) p.*ps = vc_fn1("sin", 2*(p.*pt));
   else if (what == 1) p.*ps = nan_;
   else { p.*pt = nan_; vc_assume(-1 <= p.*ps && p.*ps <= 1); }
   const double a = what == 2 ? 0.5*vc_fn1("asin", p.*ps) : p.*pt, C = vc_fn1("cos", a), S = vc_fn1("sin", a);
   Parameters r = p;
   vc_check("accepted", validate(r));
   const double b = r.*pt, D = vc_fn1("cos", b), T = vc_fn1("sin", b), x = (r.*pm)(0), y = (r.*pm)(1);
   vc_check("ascending", x <= y);
   vc_same("product of masses", x*y, ma*mb);
   vc_same("sum of masses", x + y, ma + mb);
   vc_same("sine of twice the angle", r.*ps, 2*T*D);
   vc_same("matrix (11)", x*x*D*D + y*y*T*T, ma*ma*C*C + mb*mb*S*S);
   vc_same("matrix (12)", (x*x - y*y)*T*D, (ma*ma - mb*mb)*S*C);
   vc_same("matrix (22)", x*x*T*T + y*y*D*D, ma*ma*S*S + mb*mb*C*C);
   frame("rest unchanged", p, r);
}
#define ANGLE(n) \
   VC c02_stop_angle_##n() { angle(0, n); } \
   VC c02_sbottom_angle_##n() { angle(1, n); } \
   VC c02_stau_angle_##n() { angle(2, n); }
ANGLE(0) ANGLE(1) ANGLE(2)

// degenerate pairs are separated by a relative amount of 1e-8 at most
VC c02_degenerate()
{
   Parameters p;
   point(p);
   physical(p);
   vc_assume(p.MSt(0) > 0 && p.MSt(1) > 0 && p.MSb(0) > 0 && p.MSb(1) > 0 && p.mq2(2,2) > 0 && p.mu2(2,2) > 0);
   regular(p.MStau);
   Parameters r = p;
   vc_check("accepted", validate(r));
   if (p.MSt(0) == p.MSt(1)) vc_check("stops differ", r.MSt(0) != r.MSt(1));
   if (p.MSb(0) == p.MSb(1)) vc_check("sbottoms differ", r.MSb(0) != r.MSb(1));
   if (p.mq2(2,2) == p.mu2(2,2)) vc_check("soft masses differ", r.mq2(2,2) != r.mu2(2,2));
   vc_check("stops ascending", r.MSt(0) <= r.MSt(1));
   vc_check("sbottoms ascending", r.MSb(0) <= r.MSb(1));
   vc_check("staus ascending", r.MStau(0) <= r.MStau(1));
   const double lo = p.MSt(0) < p.MSt(1) ? p.MSt(0) : p.MSt(1), hi = p.MSt(0) < p.MSt(1) ? p.MSt(1) : p.MSt(0);
   vc_check("heavy stop kept", r.MSt(1) == hi);
   vc_check("light stop shifted little", r.MSt(0) - lo <= 1.1e-8*(1 + lo) && lo - r.MSt(0) <= 1.1e-8*(1 + lo));
   const double bl = p.MSb(0) < p.MSb(1) ? p.MSb(0) : p.MSb(1), bh = p.MSb(0) < p.MSb(1) ? p.MSb(1) : p.MSb(0);
   vc_check("heavy sbottom kept", r.MSb(1) == bh);
   vc_check("light sbottom shifted little", r.MSb(0) - bl <= 1.1e-8*(1 + bl) && bl - r.MSb(0) <= 1.1e-8*(1 + bl));
   vc_check("right soft mass kept", r.mu2(2,2) == p.mu2(2,2));
   const double d = r.mq2(2,2) - p.mq2(2,2);
   vc_check("left soft mass shifted little", d <= 1.1e-8*(1 + p.mq2(2,2)) && -d <= 1.1e-8*(1 + p.mq2(2,2)));
   if (p.mq2(2,2) >= p.mu2(2,2) + 1e-6 || p.mu2(2,2) >= p.mq2(2,2) + 1e-6) vc_check("left soft mass kept", d == 0);
   if (hi >= lo + 1e-6) vc_check("light stop kept", r.MSt(0) == lo);
   if (bh >= bl + 1e-6) vc_check("light sbottom kept", r.MSb(0) == bl);
}
