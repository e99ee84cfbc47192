// C07: tree-level masses
#include "vc.hpp"
#include "himalaya/mh2_fo/MSSM_spectrum.hpp"
#include <new>
#ifdef VC_REPLAY
#include <cmath>
#endif

namespace {

using himalaya::Parameters;
using himalaya::mh2_fo::MSSM_spectrum;
using himalaya::RM22;
using himalaya::RM44;

double sq(double x) { return x*x; }

/// spectrum object for arbitrary parameters, masses not calculated yet
struct Spec {
   alignas(64) char buf[sizeof(MSSM_spectrum)];
   MSSM_spectrum* operator->() { return reinterpret_cast<MSSM_spectrum*>(buf); }
   double g2, gY, vd, vu, mu, d, MZ, MW, MA;
   Spec()
   {
      vc_havoc(buf, sizeof buf, "object");
      Parameters& p = *new (&(*this)->pars) Parameters();
      p.scale = vc_double("scale"); p.mu = vc_double("mu"); p.g1 = vc_double("g1"); p.g2 = vc_double("g2"); p.g3 = vc_double("g3");
      p.vd = vc_double("vd"); p.vu = vc_double("vu");
      for (int k = 0; k < 3; ++k) {
         p.Au(k,k) = vc_sym("Au", k); p.Ad(k,k) = vc_sym("Ad", k); p.Ae(k,k) = vc_sym("Ae", k);
         p.Yu(k,k) = vc_sym("Yu", k); p.Yd(k,k) = vc_sym("Yd", k); p.Ye(k,k) = vc_sym("Ye", k);
         p.mq2(k,k) = vc_sym("mq2", k); p.mu2(k,k) = vc_sym("mu2", k); p.md2(k,k) = vc_sym("md2", k);
         p.ml2(k,k) = vc_sym("ml2", k); p.me2(k,k) = vc_sym("me2", k);
      }
      p.M1 = vc_double("M1"); p.M2 = vc_double("M2"); p.MG = vc_double("MG"); p.MA = vc_double("MA");
      p.MW = vc_double("MW"); p.MZ = vc_double("MZ"); p.Mt = vc_double("Mt"); p.Mb = vc_double("Mb"); p.Mtau = vc_double("Mtau");
      p.MSt(0) = vc_double("MSt0"); p.MSt(1) = vc_double("MSt1"); p.MSb(0) = vc_double("MSb0"); p.MSb(1) = vc_double("MSb1");
      p.MStau(0) = vc_double("MStau0"); p.MStau(1) = vc_double("MStau1");
      p.s2t = vc_double("s2t"); p.s2b = vc_double("s2b"); p.s2tau = vc_double("s2tau");
      p.theta_t = vc_double("theta_t"); p.theta_b = vc_double("theta_b"); p.theta_tau = vc_double("theta_tau");
      vc_assume(p.vd > 0 && p.vu > 0);
      g2 = sq(p.g2); gY = 3*sq(p.g1)/5; vd = p.vd; vu = p.vu; mu = p.mu;
      d = (sq(vd) - sq(vu))/4;
      MZ = (gY + g2)*(sq(vd) + sq(vu))/4; MW = g2*(sq(vd) + sq(vu))/4; MA = sq(p.MA);
   }
};

/// squared mass matrix of the superpartners of a fermion: weak isospin, hypercharges of the two fields (times 6)
void sfermion(Spec& s, const RM22& m, double L, double R, double y, double A, double v, double w, int T3, int YL, int YR)
{
   vc_same("left-left entry", m(0,0), L + sq(y*v)/2 + (T3*s.g2/2 - YL*s.gY/6)*s.d);
   vc_same("right-right entry", m(1,1), R + sq(y*v)/2 - YR*s.gY/6*s.d);
   vc_same("mixing", m(0,1)*m(0,1)*2, sq(y*(A*v - s.mu*w)));
   vc_same("mixing", m(0,1)*vc_sqrt(2), y*(A*v - s.mu*w));
   vc_same("symmetric", m(0,1), m(1,0));
}

}

#define SF(n, k, F, y, a, R, v, w, T3, YL, YR) VC c07_matrix_##n() { Spec s; const Parameters& p = s->pars; sfermion(s, s->get_mass_matrix_##n(), p.F(k,k), p.R(k,k), k == 2 ? p.y(k,k) : 0, p.a(k,k), p.v, p.w, T3, YL, YR); }
SF(Su, 0, mq2, Yu, Au, mu2, vu, vd, 1, 1, -4)
SF(Sc, 1, mq2, Yu, Au, mu2, vu, vd, 1, 1, -4)
SF(St, 2, mq2, Yu, Au, mu2, vu, vd, 1, 1, -4)
SF(Sd, 0, mq2, Yd, Ad, md2, vd, vu, -1, 1, 2)
SF(Ss, 1, mq2, Yd, Ad, md2, vd, vu, -1, 1, 2)
SF(Sb, 2, mq2, Yd, Ad, md2, vd, vu, -1, 1, 2)
SF(Se, 0, ml2, Ye, Ae, me2, vd, vu, -1, -3, 6)
SF(Sm, 1, ml2, Ye, Ae, me2, vd, vu, -1, -3, 6)
SF(Stau, 2, ml2, Ye, Ae, me2, vd, vu, -1, -3, 6)

VC c07_masses()
{
   Spec s;
   const Parameters& p = s->pars;
   s->calculate_MVWm(); s->calculate_MVZ(); s->calculate_MFt(); s->calculate_MFb(); s->calculate_MFtau();
   s->calculate_MSveL(); s->calculate_MSvmL(); s->calculate_MSvtL();
   vc_same("W mass", s->M2VWm, s.MW);
   vc_same("Z mass", s->M2VZ, s.MZ);
   vc_same("top mass", s->MFt*vc_sqrt(2), p.Yu(2,2)*p.vu);
   vc_same("bottom mass", s->MFb*vc_sqrt(2), p.Yd(2,2)*p.vd);
   vc_same("tau mass", s->MFtau*vc_sqrt(2), p.Ye(2,2)*p.vd);
   const double D = (s.g2/2 + s.gY/2)*s.d;
   vc_same("sneutrino mass", s->M2SveL, p.ml2(0,0) + D);
   vc_same("sneutrino mass", s->M2SvmL, p.ml2(1,1) + D);
   vc_same("sneutrino mass", s->M2SvtL, p.ml2(2,2) + D);
}

static void higgs(const RM22& m, double v2, double a, double b, double ss, double sc, double cc, double sum, double det)
{
   // a, b: squared mass of the states along (vu, vd) and (vd, -vu)
   vc_same("symmetric", m(0,1), m(1,0));
   vc_same("trace", m(0,0) + m(1,1), sum);
   vc_same("determinant", m(0,0)*m(1,1) - m(0,1)*m(1,0), det);
   (void)v2; (void)a; (void)b; (void)ss; (void)sc; (void)cc;
}

VC c07_matrix_hh()
{
   Spec s;
   const RM22 m = s->get_mass_matrix_hh();
   const double v2 = sq(s.vu) + sq(s.vd), ss = sq(s.vu)/v2, cc = sq(s.vd)/v2, sc = s.vu*s.vd/v2;
   vc_same("down-down entry", m(0,0), s.MA*ss + s.MZ*cc);
   vc_same("down-up entry", m(0,1), -(s.MA + s.MZ)*sc);
   vc_same("up-up entry", m(1,1), s.MA*cc + s.MZ*ss);
   higgs(m, v2, 0, 0, ss, sc, cc, s.MA + s.MZ, s.MA*s.MZ*sq(cc - ss));
}

VC c07_matrix_Ah()
{
   Spec s;
   const RM22 m = s->get_mass_matrix_Ah();
   vc_same("pseudoscalar", m(0,0)*s.vu + m(0,1)*s.vd, s.MA*s.vu);
   vc_same("pseudoscalar", m(1,0)*s.vu + m(1,1)*s.vd, s.MA*s.vd);
   vc_same("Goldstone boson", m(0,0)*s.vd - m(0,1)*s.vu, s.MZ*s.vd);
   vc_same("Goldstone boson", m(1,0)*s.vd - m(1,1)*s.vu, -s.MZ*s.vu);
   higgs(m, 0, 0, 0, 0, 0, 0, s.MA + s.MZ, s.MA*s.MZ);
}

VC c07_matrix_Hpm()
{
   Spec s;
   const RM22 m = s->get_mass_matrix_Hpm();
   vc_same("charged Higgs boson", m(0,0)*s.vu + m(0,1)*s.vd, (s.MA + s.MW)*s.vu);
   vc_same("charged Higgs boson", m(1,0)*s.vu + m(1,1)*s.vd, (s.MA + s.MW)*s.vd);
   vc_same("Goldstone boson", m(0,0)*s.vd - m(0,1)*s.vu, s.MW*s.vd);
   vc_same("Goldstone boson", m(1,0)*s.vd - m(1,1)*s.vu, -s.MW*s.vu);
   higgs(m, 0, 0, 0, 0, 0, 0, s.MA + 2*s.MW, (s.MA + s.MW)*s.MW);
}

/// neutralinos: bino, wino, down and up higgsino
VC c07_matrix_Chi()
{
   Spec s;
   const Parameters& p = s->pars;
   const RM44 m = s->get_mass_matrix_Chi();
   const double v[2] = { -p.vd, p.vu };
   vc_same("bino mass", m(0,0), p.M1);
   vc_same("wino mass", m(1,1), p.M2);
   vc_same("no bino-wino mixing", m(0,1), 0);
   vc_same("higgsino mass", m(2,3), -p.mu);
   vc_same("higgsino mass", m(2,2), 0);
   vc_same("higgsino mass", m(3,3), 0);
   for (int k = 0; k < 2; ++k) {
      vc_same("bino-higgsino mixing", m(0,2+k)*2, vc_sqrt(0.6)*p.g1*v[k]);
      vc_same("wino-higgsino mixing", m(1,2+k)*2, -p.g2*v[k]);
   }
   for (int i = 0; i < 4; ++i) for (int k = 0; k < i; ++k) vc_same("symmetric", m(i,k), m(k,i));
}

VC c07_matrix_Cha()
{
   Spec s;
   const Parameters& p = s->pars;
   const RM22 m = s->get_mass_matrix_Cha();
   vc_same("wino mass", m(0,0), p.M2);
   vc_same("higgsino mass", m(1,1), p.mu);
   vc_same("wino-higgsino mixing", m(0,1)*vc_sqrt(2), p.g2*p.vu);
   vc_same("wino-higgsino mixing", m(1,0)*vc_sqrt(2), p.g2*p.vd);
}

#ifdef VC_REPLAY
static void eigenpair(bool c) { vc_check("mass", c); vc_check("mixing of the mass", c); }
#endif

/// decomposition of a mass matrix as handed back by the library
template <class M, class W>
static void decomposed(const M& m, const W& w, const RM22& z)
{
   vc_check("ascending magnitude", vc_abs(w(0)) <= vc_abs(w(1)));
#ifdef VC_REPLAY
   const double n = std::abs(m(0,0)) + std::abs(m(1,1)) + std::abs(m(0,1));
   for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k)
      eigenpair(std::abs(m(k,0)*z(i,0) + m(k,1)*z(i,1) - w(i)*z(i,k)) <= 1e-9*n && std::abs(z(i,0)*z(k,0) + z(i,1)*z(k,1) - (i == k)) < 1e-9);
#else
   const bool swapped = !(vc_abs(vc_sym("eigenvalue", 0)) <= vc_abs(vc_sym("eigenvalue", 1)));
   const double e[2] = { vc_sym("eigenvalue", 0), vc_sym("eigenvalue", 1) };
   const double v[2][2] = { { vc_sym2("eigenvector", 0, 0), vc_sym2("eigenvector", 0, 1) }, { vc_sym2("eigenvector", 1, 0), vc_sym2("eigenvector", 1, 1) } };
   for (int i = 0; i < 2; ++i) {
      vc_same("mass", w(i), swapped ? e[1-i] : e[i]);
      const double* const x = swapped ? v[1-i] : v[i];   // defined up to its sign
      for (int k = 0; k < 2; ++k) for (int l = 0; l <= k; ++l) vc_same("mixing of the mass", z(i,k)*z(i,l), x[k]*x[l]);
   }
#endif
}

#define DIAG(n, w, z) VC c07_diag_##n() { Spec s; const RM22 m = s->get_mass_matrix_##n(); \
   vc_out("M00", m(0,0)); vc_out("M01", m(0,1)); vc_out("M10", m(1,0)); vc_out("M11", m(1,1)); \
   s->calculate_M##n(); decomposed(m, s->w, s->z); }
DIAG(Su, M2Su, ZU)
DIAG(Sc, M2Sc, ZC)
DIAG(St, M2St, ZT)
DIAG(Sd, M2Sd, ZD)
DIAG(Ss, M2Ss, ZS)
DIAG(Sb, M2Sb, ZB)
DIAG(Se, M2Se, ZE)
DIAG(Sm, M2Sm, ZM)
DIAG(Stau, M2Stau, ZTau)
DIAG(hh, M2hh, ZH)
DIAG(Ah, M2Ah, ZA)
DIAG(Hpm, M2Hpm, ZP)

/// charginos: m = U^T diag(masses) V
VC c07_charginos()
{
   Spec s;
   const RM22 m = s->get_mass_matrix_Cha();
   vc_out("M00", m(0,0)); vc_out("M01", m(0,1)); vc_out("M10", m(1,0)); vc_out("M11", m(1,1));
   s->calculate_MCha();
#ifdef VC_REPLAY
   const double n = std::abs(m(0,0)) + std::abs(m(1,1)) + std::abs(m(0,1)) + std::abs(m(1,0));
   vc_check("ascending masses", 0 <= s->MCha(0) && s->MCha(0) <= s->MCha(1));
   for (int i = 0; i < 2; ++i) for (int k = 0; k < 2; ++k)
      vc_check("mixing matrices", std::abs(m(i,k) - s->UM(0,i)*s->MCha(0)*s->UP(0,k) - s->UM(1,i)*s->MCha(1)*s->UP(1,k)) < 1e-9*n);
#else
   for (int i = 0; i < 2; ++i) {
      vc_same("ascending masses", s->MCha(i), vc_sym("singular value", 1 - i));
      // both rows of a mass are defined up to a common sign
      for (int k = 0; k < 2; ++k) for (int l = 0; l < 2; ++l) {
         vc_same("mixing matrices", s->UM(i,k)*s->UM(i,l), vc_sym2("left vector", 1 - i, k)*vc_sym2("left vector", 1 - i, l));
         vc_same("mixing matrices", s->UP(i,k)*s->UP(i,l), vc_sym2("right vector", 1 - i, k)*vc_sym2("right vector", 1 - i, l));
         vc_same("mixing matrices", s->UM(i,k)*s->UP(i,l), vc_sym2("left vector", 1 - i, k)*vc_sym2("right vector", 1 - i, l));
      }
   }
#endif
}

/// every order of the magnitudes of four ascending eigenvalues
struct Order {
   bool neg[4];     // sign of the mass with i-th smallest magnitude
   int at[4];       // its position among the ascending eigenvalues
   double w[4], v[4][4];
   Order()
   {
      const int b = vc_range("signs", 0, 15);
      int k = 0, n = 0, p = 0;
      for (int i = 0; i < 4; ++i) { neg[i] = b >> i & 1; k += neg[i]; }
      for (int i = 0; i < 4; ++i) at[i] = neg[i] ? k - 1 - n++ : k + p++;
      for (int i = 0; i < 4; ++i) { w[i] = vc_sym("eigenvalue", i); for (int j = 0; j < 4; ++j) v[i][j] = vc_sym2("eigenvector", i, j); }
      for (int i = 0; i < 4; ++i) {
         vc_assume(neg[i] ? w[at[i]] < 0 : w[at[i]] >= 0);
         if (i) vc_assume(vc_abs(w[at[i-1]]) < vc_abs(w[at[i]]));
      }
   }
};

/// neutralinos: Z m Z^T = diag(masses with sign)
VC c07_neutralinos()
{
   Spec s;
   const RM44 m = s->get_mass_matrix_Chi();
#ifndef VC_REPLAY
   const char* const n[4][4] = { { "M00", "M01", "M02", "M03" }, { "M10", "M11", "M12", "M13" }, { "M20", "M21", "M22", "M23" }, { "M30", "M31", "M32", "M33" } };
   for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) vc_out(n[i][k], m(i,k));
   const Order e;
#endif
   s->calculate_MChi();
   for (int i = 0; i < 3; ++i) vc_check("ascending magnitude", vc_abs(s->MChi(i)) <= vc_abs(s->MChi(i+1)));
#ifdef VC_REPLAY
   const double n = m.cwiseAbs().sum();
   for (int i = 0; i < 4; ++i) for (int k = 0; k < 4; ++k) {
      double x = 0, o = 0;
      for (int j = 0; j < 4; ++j) { x += m(k,j)*s->ZN(i,j); o += s->ZN(i,j)*s->ZN(k,j); }
      eigenpair(std::abs(x - s->MChi(i)*s->ZN(i,k)) < 1e-9*n && std::abs(o - (i == k)) < 1e-9);
   }
#else
   for (int i = 0; i < 4; ++i) {
      vc_same("mass", s->MChi(i), e.w[e.at[i]]);
      // rows are defined up to their sign
      for (int k = 0; k < 4; ++k) for (int l = 0; l <= k; ++l) vc_same("mixing of the mass", s->ZN(i,k)*s->ZN(i,l), e.v[e.at[i]][k]*e.v[e.at[i]][l]);
   }
#endif
}
