// C23: assembly of the fixed-order result from the tree-level matrix and its corrections
#include "hc.hpp"
#include "himalaya/mh2_fo/MSSM_mass_eigenstates.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include "himalaya/misc/CouplingOrders.hpp"
#include "himalaya/misc/Numerics.hpp"
#include <cstddef>
#include <tuple>

using himalaya::RM22;
using himalaya::V2;
using himalaya::mh2_fo::MSSM_mass_eigenstates;
using himalaya::mh2_fo::MSSM_spectrum;
namespace CO = himalaya::CouplingOrders;

namespace {
template <class... T> M2 fm(const char* n, const char* n1, const char* n2, T... t)
{
   const double x[] = { 1., double(t)... };
   M2 m;
   m(0,0) = vc_fnv(n, x, sizeof...(T) + 1); m(0,1) = m(1,0) = vc_fnv(n1, x, sizeof...(T) + 1); m(1,1) = vc_fnv(n2, x, sizeof...(T) + 1);
   return m;
}
#define FM(n, ...) fm(n "11", n "12", n "22", ##__VA_ARGS__)
V2 fv(const char* n, const char* n1, const RM22* const* m, int k)
{
   double x[12]; int j = 0;
   for (int i = 0; i < k; ++i) { x[j++] = (*m[i])(0,0); x[j++] = (*m[i])(0,1); x[j++] = (*m[i])(1,1); }
   return V2(vc_fnv(n, x, j), vc_fnv(n1, x, j));
}
}

// contracts of the parts: arbitrary symmetric matrices; perturbative diagonalisation: order k depends on the matrices up to order k (C08)
#ifndef VC_REPLAY
himalaya::RM22 MSSM_mass_eigenstates::delta_mh2_1loop(double p2) const { return FM("one-loop", p2); }
himalaya::RM22 MSSM_mass_eigenstates::delta_mh2_1loop_gaugeless() const { return FM("gaugeless one-loop"); }
himalaya::RM22 MSSM_mass_eigenstates::delta_mh2_1loop_gaugeless_deriv() const { return FM("derivative"); }
himalaya::RM22 MSSM_mass_eigenstates::delta_mh2_2loop() const { return FM("two-loop"); }
himalaya::RM22 MSSM_spectrum::get_mass_matrix_hh() const { return FM("tree", pars.g1); }
namespace himalaya {
std::tuple<V2,V2,V2,V2> fs_diagonalize_hermitian_perturbatively(const RM22& m0, const RM22& m1, const RM22& m2, const RM22& m3)
{
   const RM22* const m[] = { &m0, &m1, &m2, &m3 };
   return std::make_tuple(fv("ev0", "ev0'", m, 1), fv("ev1", "ev1'", m, 2), fv("ev2", "ev2'", m, 3), fv("ev3", "ev3'", m, 4));
}
}
#endif

namespace {
struct Fo {
   alignas(64) char buf[sizeof(MSSM_mass_eigenstates)];
   MSSM_mass_eigenstates& operator*() { return *reinterpret_cast<MSSM_mass_eigenstates*>(buf); }
   MSSM_mass_eigenstates* operator->() { return reinterpret_cast<MSSM_mass_eigenstates*>(buf); }
   Fo()
   {
      MSSM_mass_eigenstates& o = **this;
#ifdef VC_REPLAY
      Parameters p;
      p.scale = 1000; p.mu = 1500; p.g1 = 0.46; p.g2 = 0.65; p.g3 = 1.1; p.vd = 60; p.vu = 230;
      for (int i = 0; i < 3; ++i) { p.mq2(i,i) = 1e6*(i+1); p.md2(i,i) = 2e6; p.mu2(i,i) = 3e6; p.ml2(i,i) = 4e6; p.me2(i,i) = 5e6; }
      p.Au(2,2) = 1000; p.Yu(2,2) = 0.8; p.Yd(2,2) = 0.1; p.Ye(2,2) = 0.1; p.M1 = 100; p.M2 = 200; p.MG = 2000; p.MA = 500;
      p.validate(false);
      new (&o) MSSM_mass_eigenstates(p);
#else
      new (&o.pars) Parameters();
      new (&o.masses.pars) Parameters();
      new (&o.gaugeless.pars) Parameters();
      o.masses.pars.g1 = vc_double("g1"); o.gaugeless.pars.g1 = 0;
      o.masses.M2hh(0) = vc_double("Mh2 at tree level");
#endif
   }
};
}

VC c23_assembly()
{
   Fo o;
   o->diagonalization = static_cast<himalaya::mh2_fo::Diagonalization>(vc_range("diagonalization", 0, 1));
   const bool num = o->diagonalization == himalaya::mh2_fo::Diagonalization::num;
   const RM22 m0 = o->masses.get_mass_matrix_hh(), g0 = o->gaugeless.get_mass_matrix_hh(), g1 = o->delta_mh2_1loop_gaugeless(), m2 = o->delta_mh2_2loop();
   const double p2 = std::get<0>(himalaya::fs_diagonalize_hermitian_perturbatively(m0))(0);
   const RM22 m1 = o->delta_mh2_1loop(p2);
   const auto r = o->calculate_Mh2();
   if (!num) {
      vc_same("tree level", std::get<0>(r), p2);
      vc_same("one-loop", std::get<1>(r), std::get<1>(himalaya::fs_diagonalize_hermitian_perturbatively(m0, m1))(0));
      vc_same("two-loop", std::get<2>(r), std::get<2>(himalaya::fs_diagonalize_hermitian_perturbatively(g0, g1, m2))(0));
   } else {
      MSSM_spectrum::A2 w0, w1, w2; RM22 z;
      himalaya::fs_diagonalize_hermitian(m0, w0, z);
      himalaya::fs_diagonalize_hermitian(RM22(m0 + m1), w1, z);
      himalaya::fs_diagonalize_hermitian(RM22(m0 + m1 + m2), w2, z);
      vc_same("tree level, numerical", std::get<0>(r), w0(0));
      vc_same("one-loop, numerical", std::get<1>(r), w1(0) - w0(0));
      vc_same("two-loop, numerical", std::get<2>(r), w2(0) - w1(0));
   }
}

VC c23_momentum_iteration()
{
   Fo o;
   const RM22 g0 = o->gaugeless.get_mass_matrix_hh(), g1 = o->delta_mh2_1loop_gaugeless(), d = o->delta_mh2_1loop_gaugeless_deriv();
   const double e = std::get<1>(himalaya::fs_diagonalize_hermitian_perturbatively(g0, g1))(0);
   const RM22 r = o->delta_mh2_2loop_mom_it_pert();
   for (int i = 0; i < 4; ++i) vc_same("perturbative momentum iteration", r(i/2, i%2), d(i/2, i%2)*e);
}

// numerical momentum iteration: the pole of the last iterate, the first one that agrees with its predecessor
VC c23_momentum_iteration_numerical()
{
   Fo o;
   const double goal = vc_double("goal");
   const int max = vc_range("max iterations", 1, 3);
   vc_assume(goal > 0 && goal < 1);
   const RM22 m0 = o->masses.get_mass_matrix_hh();
   const double p0 = o->masses.M2hh(0);
   RM22 d;
   double p = p0;
   for (int n = 0; n < max; ++n) {
      d = o->delta_mh2_1loop(p);
      MSSM_spectrum::A2 w; RM22 z;
      himalaya::fs_diagonalize_hermitian(RM22(m0 + d), w, z);
      const bool same = himalaya::is_equal_rel(w(0), p, goal);
      p = w(0);
      if (same) break;
   }
   const RM22 s = o->delta_mh2_1loop(p0), r = o->delta_mh2_2loop_mom_it_num(goal, max);
   for (int i = 0; i < 4; ++i) vc_same("numerical momentum iteration", r(i/2, i%2), d(i/2, i%2) - s(i/2, i%2));
}
