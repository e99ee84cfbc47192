// C08: perturbative diagonalisation
#include "vc.hpp"
#include "himalaya/mh2_fo/Linalg.hpp"
#include <tuple>

using himalaya::V2;
using himalaya::RM22;

namespace {
struct Sym { double a, b, c; };   // [[a, b], [b, c]]
Sym arb(const char* a, const char* b, const char* c) { return { vc_double(a), vc_double(b), vc_double(c) }; }
RM22 mat(const Sym& s) { RM22 m; m << s.a, s.b, s.b, s.c; return m; }
}

// coefficients of det(M - x) in the loop-counting parameter vanish through third order
VC c08_characteristic()
{
   const Sym A = arb("a11", "a12", "a22"), B = arb("b11", "b12", "b22"), D = arb("d11", "d12", "d22"), E = arb("e11", "e12", "e22");
   vc_assume((A.a - A.c)*(A.a - A.c) + 4*A.b*A.b > 0);
   const auto r = himalaya::fs_diagonalize_hermitian_perturbatively(mat(A), mat(B), mat(D), mat(E));
   const V2 l0 = std::get<0>(r), l1 = std::get<1>(r), l2 = std::get<2>(r), l3 = std::get<3>(r);
   for (int k = 0; k < 2; ++k) {
      const double p[4] = { A.a - l0(k), B.a - l1(k), D.a - l2(k), E.a - l3(k) };
      const double q[4] = { A.c - l0(k), B.c - l1(k), D.c - l2(k), E.c - l3(k) };
      const double o[4] = { A.b, B.b, D.b, E.b };
      vc_same("zeroth order", p[0]*q[0], o[0]*o[0]);
      vc_same("first order", p[0]*q[1] + p[1]*q[0], 2*o[0]*o[1]);
      vc_same("second order", p[0]*q[2] + p[1]*q[1] + p[2]*q[0], 2*o[0]*o[2] + o[1]*o[1]);
      vc_same("third order", p[0]*q[3] + p[1]*q[2] + p[2]*q[1] + p[3]*q[0], 2*o[0]*o[3] + 2*o[1]*o[2]);
   }
   vc_same("sum at zeroth order", l0(0) + l0(1), A.a + A.c);
   vc_same("sum at first order", l1(0) + l1(1), B.a + B.c);
   vc_same("sum at second order", l2(0) + l2(1), D.a + D.c);
   vc_same("sum at third order", l3(0) + l3(1), E.a + E.c);
   vc_check("the light state comes first", l0(0) <= l0(1));
}

// omitted orders count as zero
VC c08_defaults()
{
   const Sym A = arb("a11", "a12", "a22"), B = arb("b11", "b12", "b22"), D = arb("d11", "d12", "d22");
   vc_assume((A.a - A.c)*(A.a - A.c) + 4*A.b*A.b > 0);
   const RM22 Z = RM22::Zero();
   const auto r = himalaya::fs_diagonalize_hermitian_perturbatively(mat(A), mat(B), mat(D)), s = himalaya::fs_diagonalize_hermitian_perturbatively(mat(A), mat(B), mat(D), Z);
   const auto t = himalaya::fs_diagonalize_hermitian_perturbatively(mat(A));
   for (int k = 0; k < 2; ++k) {
      vc_same("default 0", std::get<0>(r)(k), std::get<0>(s)(k));
      vc_same("default 1", std::get<1>(r)(k), std::get<1>(s)(k));
      vc_same("default 2", std::get<2>(r)(k), std::get<2>(s)(k));
      vc_same("default 3", std::get<3>(r)(k), std::get<3>(s)(k));
      vc_same("tree 0", std::get<0>(t)(k), std::get<0>(s)(k));
      vc_same("tree 1", std::get<1>(t)(k), 0.);
      vc_same("tree 2", std::get<2>(t)(k), 0.);
      vc_same("tree 3", std::get<3>(t)(k), 0.);
   }
}

// multiples of the unit matrix shift their own order only
VC c08_unit_shift()
{
   const Sym A = arb("a11", "a12", "a22"), B = arb("b11", "b12", "b22"), D = arb("d11", "d12", "d22"), E = arb("e11", "e12", "e22");
   vc_assume((A.a - A.c)*(A.a - A.c) + 4*A.b*A.b > 0);
   const double x[4] = { vc_double("x0"), vc_double("x1"), vc_double("x2"), vc_double("x3") };
   const RM22 I = RM22::Identity();
   const auto r = himalaya::fs_diagonalize_hermitian_perturbatively(mat(A), mat(B), mat(D), mat(E));
   const auto s = himalaya::fs_diagonalize_hermitian_perturbatively(mat(A) + x[0]*I, mat(B) + x[1]*I, mat(D) + x[2]*I, mat(E) + x[3]*I);
   for (int k = 0; k < 2; ++k) {
      vc_same("shift 0", std::get<0>(s)(k) - std::get<0>(r)(k), x[0]);
      vc_same("shift 1", std::get<1>(s)(k) - std::get<1>(r)(k), x[1]);
      vc_same("shift 2", std::get<2>(s)(k) - std::get<2>(r)(k), x[2]);
      vc_same("shift 3", std::get<3>(s)(k) - std::get<3>(r)(k), x[3]);
   }
}
