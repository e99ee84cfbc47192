From f68cb7b5a7543daf38c09289661af492ab543148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 01/13] fix: F9 for small arguments

F9(x1,x2) dropped the smaller-argument contribution for |x| < 1e-4 even if the
other argument is as small or smaller, e.g. F9(9.9e-5, 1e-9) = 82.9 instead
of 36.9.  Use the limit x -> 0 only at numerical zero and compare the
arguments relatively.
---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index e53cc78..6ed632f 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -411,6 +411,7 @@ static double F9_x1_x2(double x1, double x2) noexcept
 
 double F9(double x1, double x2) noexcept
 {
+   const double eps = 10.*std::numeric_limits<double>::epsilon();
    const double ax1 = std::fabs(x1);
    const double ax2 = std::fabs(x2);
 
@@ -426,15 +427,15 @@ double F9(double x1, double x2) noexcept
       return F9_1_x2(x2, x1);
    }
 
-   if (is_zero(x1, 0.0001)) {
+   if (is_zero(x1, eps)) {
       return F9_0_x2(x1, x2);
    }
 
-   if (is_zero(x2, 0.0001)) {
+   if (is_zero(x2, eps)) {
       return F9_0_x2(x2, x1);
    }
 
-   if (is_equal(ax1, ax2, 0.00001)) {
+   if (is_equal_rel(ax1, ax2, 0.00001)) {
       return F9_x1_x2(x1, x2);
    }
 
-- 
2.43.0


From 6358d54ef6f34251d76bacf5d859051b1b6af599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 02/13] fix: sign of the expansion of F9 around x1 = 1 for
 small x2

The expansion for x1 -> 1 with |x2| < 0.01 had the wrong sign of the term
linear in x1^2 - 1 and no x2-dependence, so that F9 jumped by up to 4 percent
at the boundary of this region.
---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 6ed632f..4a69bd4 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -368,8 +368,8 @@ static double F9_1_x2(double x1, double x2) noexcept
    const double y6 = sqr(y3);
    const double lx22 = std::log(x22);
 
-   if (is_zero(x2, 0.01)) {
-      return 2 + d;
+   if (is_zero(x2, 10.*std::numeric_limits<double>::epsilon())) {
+      return 2 + d*(-1 + d*(2/3. + d*(-1/2. + 2/5.*d)));
    }
 
    return
-- 
2.43.0


From 0413a206850798e089497ce6b174a71c7121d195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 03/13] fix: two-loop vacuum function for one small and two
 nearly equal masses

---
 .../mh2_eft/ThresholdLoopFunctions.cpp        | 22 +++----------------
 1 file changed, 3 insertions(+), 19 deletions(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index 4a69bd4..a456318 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -1254,31 +1254,15 @@ namespace {
       return v*(1 + u*(1 + u*(1 + u)) + v*(u*(1 + u*(3 + 6*u)) + u*(1 + u*(6 + 20*u))*v));
    }
 
-   /// expansion of (1 - lambda + u - v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double l0v(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return u*(0.5*(1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
-   /// expansion of (1 - lambda - u + v)/2 for u ~ 0 and v < 1 up to including O(u^3 v^3)
-   double lv0(double u, double v) noexcept
-   {
-      const double a = 1 - v;
-      const double a2 = a*a;
-      const double a3 = a2*a;
-      return v + u*(0.5*(-1 + (1 + v)/a) + u*(v + u*v*(1 + v)/a2)/a3);
-   }
-
    /// returns tuple (0.5*(1 - lambda + u - v), 0.5*(1 - lambda - u + v))
    std::tuple<double,double> luv(double lambda, double u, double v) noexcept
    {
       if (v < qdrt_eps) {
          return std::make_tuple(l00(u, v), l00(v, u));
       } else if (u < qdrt_eps) {
-         return std::make_tuple(l0v(u, v), lv0(u, v));
+         // rationalized, because an expansion in u does not converge for v ~ 1
+         return std::make_tuple(2*u/(1 + lambda + u - v),
+                                2*v/(1 + lambda - u + v));
       }
       return std::make_tuple(0.5*(1 - lambda + u - v),
                              0.5*(1 - lambda - u + v));
-- 
2.43.0


From 22809c8dd20cdc87c4730a891858a079168f90ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:06 +0000
Subject: [PATCH 04/13] fix: complex dilogarithm wrongly declared as not
 reading its argument

---
 source/himalaya/misc/Li2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/misc/Li2.hpp b/source/himalaya/misc/Li2.hpp
index 030a170..e0fccf4 100644
--- a/source/himalaya/misc/Li2.hpp
+++ b/source/himalaya/misc/Li2.hpp
@@ -38,7 +38,7 @@ namespace himalaya {
 double dilog(double) noexcept ATTR(const);
 
 /// complex dilogarithm
-std::complex<double> dilog(const std::complex<double>&) noexcept ATTR(const);
+std::complex<double> dilog(const std::complex<double>&) noexcept;
 
 /// Clausen function Cl_2(x)
 double clausen_2(double) noexcept ATTR(const);
-- 
2.43.0


From 2c0504f5da7b02d5d1f4240258736ec8a7dd0e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 05/13] fix: one-loop bubble with one massless particle

---
 source/himalaya/mh2_fo/PV.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_fo/PV.cpp b/source/himalaya/mh2_fo/PV.cpp
index 2174a38..5e113e7 100644
--- a/source/himalaya/mh2_fo/PV.cpp
+++ b/source/himalaya/mh2_fo/PV.cpp
@@ -166,7 +166,7 @@ double b0(double p2, double m12, double m22, double q2) noexcept
 
    if (m12 < EPSTOL * EPSTOL * m22) {
       const double del = std::hypot(m22 - p2, EPSTOL * m22);
-      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / p2);
+      return 2 - std::log(m22 / q2) + (m22 - p2) / p2 * std::log(del / m22);
    }
 
    const double s = p2 - m22 + m12;
-- 
2.43.0


From 15141efcb75d450a71b15862d2f859dc5ce3764f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 06/13] fix: truncate the expansion in the squark mass
 difference with its own depth flag

---
 source/himalaya/hierarchies/H3.cpp     | 2 +-
 source/himalaya/hierarchies/H32q2g.cpp | 2 +-
 source/himalaya/hierarchies/H3q22g.cpp | 2 +-
 source/himalaya/hierarchies/H9.cpp     | 2 +-
 source/himalaya/hierarchies/H9q2.cpp   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/himalaya/hierarchies/H3.cpp b/source/himalaya/hierarchies/H3.cpp
index 2c7bfec..602a23e 100644
--- a/source/himalaya/hierarchies/H3.cpp
+++ b/source/himalaya/hierarchies/H3.cpp
@@ -65,7 +65,7 @@ H3::H3 (const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H32q2g.cpp b/source/himalaya/hierarchies/H32q2g.cpp
index fc5bf95..2c32daf 100644
--- a/source/himalaya/hierarchies/H32q2g.cpp
+++ b/source/himalaya/hierarchies/H32q2g.cpp
@@ -62,7 +62,7 @@ H32q2g::H32q2g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H3q22g.cpp b/source/himalaya/hierarchies/H3q22g.cpp
index 66c8f1f..6e2ca59 100644
--- a/source/himalaya/hierarchies/H3q22g.cpp
+++ b/source/himalaya/hierarchies/H3q22g.cpp
@@ -64,7 +64,7 @@ H3q22g::H3q22g(const ExpansionFlags_t& expansionDepth, double Al4p, double beta,
    shiftst3 = mdrFlag;
    // expansion flags
    xDmglst1 = expansionDepth.at(ExpansionDepth::Dmglst1);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
 }
 
diff --git a/source/himalaya/hierarchies/H9.cpp b/source/himalaya/hierarchies/H9.cpp
index 0a6719f..524496f 100644
--- a/source/himalaya/hierarchies/H9.cpp
+++ b/source/himalaya/hierarchies/H9.cpp
@@ -64,7 +64,7 @@ H9::H9(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, double
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
diff --git a/source/himalaya/hierarchies/H9q2.cpp b/source/himalaya/hierarchies/H9q2.cpp
index 748610e..43e78f3 100644
--- a/source/himalaya/hierarchies/H9q2.cpp
+++ b/source/himalaya/hierarchies/H9q2.cpp
@@ -66,7 +66,7 @@ H9q2::H9q2(const ExpansionFlags_t& expansionDepth, double Al4p, double beta, dou
    shiftst3 = mdrFlag;
    // expansion flags
    x = expansionDepth.at(ExpansionDepth::threeLoop);
-   xDmst12 = expansionDepth.at(ExpansionDepth::Dmglst1);
+   xDmst12 = expansionDepth.at(ExpansionDepth::Dmst12);
    xDmsqst1 = expansionDepth.at(ExpansionDepth::Dmsqst1);
    xMgl = expansionDepth.at(ExpansionDepth::Mgl);
 }
-- 
2.43.0


From f992da5f60083665670bb149cd2bd1bf121f3d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 07/13] fix: compare the stop mass splitting in the h9q2
 selection like in h9

---
 source/himalaya/HierarchyCalculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index 20d0ff0..a5f839a 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -433,7 +433,7 @@ bool HierarchyCalculator::isHierarchySuitable(const himalaya::HierarchyObject& h
       case Hierarchies::h9:
          return (Mst2 >= Msq) && ((Mst2 - Mst1) < (Mst1 - Mgl));
       case Hierarchies::h9q2:
-         return (Msq > Mst2) && ((Mst1 - Mst1) < (Mst1 - Mgl));
+         return (Msq > Mst2) && ((Mst2 - Mst1) < (Mst1 - Mgl));
    }
    return false;
 }
-- 
2.43.0


From 148a2767b8ae2c5f71716ccb8c982a7cae3eb62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:41 +0000
Subject: [PATCH 08/13] fix: sign of the fourth-order term of F6 around x = 1

---
 source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
index a456318..8179a4d 100644
--- a/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
+++ b/source/himalaya/mh2_eft/ThresholdLoopFunctions.cpp
@@ -184,7 +184,7 @@ double F6(double x) noexcept
 
    if (is_equal(x2, 1., 0.01)) {
       const double d = (x - 1)*(x + 1);
-      return d*(1/3. + d*(-1/8. + d*(1/15. + d/24.)));
+      return d*(1/3. + d*(-1/8. + d*(1/15. - d/24.)));
    }
 
    return (x2 - 3)/(4*(1 - x2)) + x2*(x2 - 2)/(2*sqr(1 - x2))*std::log(x2);
-- 
2.43.0


From be6837063251f0084c40ae65a3a3236419be19a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 09/13] fix: keep the sign of the cosines of the mixing angles
 in ddshiggs and ddsodd

For mixing angles between pi/2 and pi the cosine is negative, and
cos = sqrt(1 - sin^2) lost its sign (and with it the sign of Xt).
---
 source/himalaya/mh2l/DSZHiggs.f | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.f b/source/himalaya/mh2l/DSZHiggs.f
index 937522d..1d9790e 100644
--- a/source/himalaya/mh2l/DSZHiggs.f
+++ b/source/himalaya/mh2l/DSZHiggs.f
@@ -62,7 +62,7 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+      ct = sign(sqrt(1.d0-st*st),ct)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -83,7 +83,7 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+      cb = sign(sqrt(1.d0-sb*sb),cb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
@@ -221,7 +221,7 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             st = -eps_st
          endif
       endif
-      ct = sqrt(1.d0-st*st)
+      ct = sign(sqrt(1.d0-st*st),ct)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when T1 == T2
@@ -242,7 +242,7 @@ c     ADDED by ALEX: guards against NANs when sin theta is zero!
             sb = -eps_sb
          endif
       endif
-      cb = sqrt(1.d0-sb*sb)
+      cb = sign(sqrt(1.d0-sb*sb),cb)
 c     end of addition by ALEX
 
 c     ADDED by ALEX: guards against NANs when B1 == B2
-- 
2.43.0


From e23146d7c735ded2b9b4fc9aed144f5ca3142a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 10/13] fix: order of the matrix elements returned by taubot

taubot returns S11, S12, S22; the wrapper exchanged the 22 and 12 elements.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 2 +-
 source/himalaya/mh2l/DSZHiggs.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index c36674d..1530e3d 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -399,7 +399,7 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_ab_atau(
            &mstau12, &mstau22, &msb12, &msb22,
            &sintau, &costau, &sxb, &cxb,
            &scale2, &mu, &tanb, &vev2,
-           &result(0,0), &result(1,1), &result(0,1));
+           &result(0,0), &result(0,1), &result(1,1));
 
    result(1,0) = result(0,1);
 
diff --git a/source/himalaya/mh2l/DSZHiggs.h b/source/himalaya/mh2l/DSZHiggs.h
index 6f4b677..cc62d7d 100644
--- a/source/himalaya/mh2l/DSZHiggs.h
+++ b/source/himalaya/mh2l/DSZHiggs.h
@@ -102,7 +102,7 @@ int taubot_(double * t, double * b,
             double * T1, double * T2, double * B1, double * B2,
             double * st, double * ct, double * sb, double * cb,
             double * q, double * mu, double * tanb, double * vv,
-            double * S11, double * S22, double * S12);
+            double * S11, double * S12, double * S22);
 
 /**
  * Two-loop O(a_t a_s) corrections to the CP-odd Higgs mass in the
-- 
2.43.0


From f224cfb080b793bc6a11d44ab5897a9e74d612e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:03 +0000
Subject: [PATCH 11/13] fix: O(at*as) corrections for degenerate stops with a
 gluino mass within mt of the stop mass

The Kaellen function of (mt^2, mst^2, mg^2) is negative for
|mg - mt| < mst < mg + mt. The absolute value was used instead, which is
not the limit of the general formulas. Use the function Phi for both
signs, and its derivative expressed by Phi.
---
 source/himalaya/mh2l/DSZHiggs.cpp | 115 +++++++++++-------------------
 1 file changed, 42 insertions(+), 73 deletions(-)

diff --git a/source/himalaya/mh2l/DSZHiggs.cpp b/source/himalaya/mh2l/DSZHiggs.cpp
index 1530e3d..186d2d0 100644
--- a/source/himalaya/mh2l/DSZHiggs.cpp
+++ b/source/himalaya/mh2l/DSZHiggs.cpp
@@ -10,6 +10,7 @@
 #include "himalaya/mh2l/Li2f.hpp"
 #include "himalaya/misc/CouplingOrders.hpp"
 #include <cmath>
+#include <complex>
 #include <iostream>
 #include <limits>
 #include <mutex>
@@ -32,13 +33,49 @@ template <typename T> T constexpr sqr(T a) { return a * a; }
 template <typename T> T sqrtabs(T a) { return std::sqrt(std::abs(a)); }
 template <typename T> T logabs(T x) { return std::log(std::abs(x)); }
 
+/// Clausen function Cl_2(x)
+double cl2(double x)
+{
+   return std::imag(li2(std::polar(1., x)));
+}
+
+/// function Phi[x,y,z] from arXiv:hep-ph/9307263 (real for both signs of the Kaellen function)
+double phi(double x, double y, double z)
+{
+   const double u = x/z, v = y/z;
+   const double lambda2 = sqr(1 - u - v) - 4*u*v;
+
+   if (lambda2 < 0) {
+      return 2./std::sqrt(-lambda2) * (
+         + cl2(2*std::acos((-1 + u + v)/(2*std::sqrt(u*v))))
+         + cl2(2*std::acos((1 + u - v)/(2*std::sqrt(u))))
+         + cl2(2*std::acos((1 - u + v)/(2*std::sqrt(v)))));
+   }
+
+   const double lambda = std::sqrt(lambda2);
+   const double xp = 0.5 * (1 + (u - v) - lambda);
+   const double xm = 0.5 * (1 - (u - v) - lambda);
+
+   return 1./lambda * (2*logabs(xp)*logabs(xm) - logabs(u)*logabs(v) -
+                       2*(li2(xp) + li2(xm)) + M_PI*M_PI/3.);
+}
+
+/// First derivative of phi[t,T,g] w.r.t. T
+double dphi_010(double t, double T, double g)
+{
+   const double u = t/g, v = T/g;
+   const double lambda2 = sqr(1 - u - v) - 4*u*v;
+
+   return ((1 + u - v)*phi(t,T,g) + 2*logabs(v) +
+           (1 - u - v)/v*logabs(u))/(lambda2*g);
+}
+
 /// limit st -> 0 and mst1 -> mst2
 Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    double mt2, double mg, double mst12, double /* mst22 */,
    double /* sxt */, double /* cxt */, double scale2, double mu,
    double tanb, double vev2, double g3, int /* scheme */)
 {
-   constexpr double Pi2 = M_PI * M_PI;
    constexpr double Pi4 = M_PI * M_PI * M_PI * M_PI;
    const double g = sqr(mg);
    const double g2 = sqr(g);
@@ -48,7 +85,6 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
    const double T = mst12;
    const double Tsq = sqr(mst12);
    const double del = g2 + tsq + Tsq - 2*(g*t + g*T + t*T);
-   const double rdel = sqrtabs(del);
    const double sb = std::sin(std::atan(tanb));
    const double ht2 = 2./vev2*mt2/sqr(sb);
 
@@ -56,22 +92,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
 
    result(0,0) = 0.;
 
-   result(0,1) = (sqr(g3)*ht2*mg*mt2*mu* (-1 + logabs(t/q) -
-      (T*((2*del* (-(logabs(t/g)/T) - (2*(g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T - g*sqrtabs(del/g2))/
-      (2.*g)))/ (g*sqrtabs(del/g2)* (t - T + g*(-1 +
-      sqrtabs(del/g2)))) + (2*logabs((g - t + T - g*sqrtabs(del/g2))/
-      (2.*g)))/(g*sqrtabs(del/g2)) - (2*((g + t - T +
-      g*sqrtabs(del/g2))* logabs((g + t - T + g*sqrtabs(del/g2))/
-      (2.*g)) + (g - t + T - g*sqrtabs(del/g2))* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g))))/ (g*sqrtabs(del/g2)* (t - T +
-      g*(-1 + sqrtabs(del/g2))))))/ g2 + (2*(g + t - T)*(Pi2 -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g))*logabs((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g))))/ (3.*g2)))/(2.*std::pow(std::abs(del)/g2,1.5))))/
-      (8.*Pi4*T);
+   result(0,1) = sqr(g3)*ht2*mg*mt2*mu*(-1 + logabs(t/q) -
+      T*dphi_010(t,T,g))/(8.*Pi4*T);
 
    result(1,0) = result(0,1);
 
@@ -81,27 +103,8 @@ Eigen::Matrix<double, 2, 2> delta_mh2_2loop_at_as_st_0_mst1_eq_mst2(
       + T) + 2*g*t*(t + 5*T))*logabs(t/g) +
       4*g2*T*logabs(T/g)))/(del*T) + 2*logabs(T/q) -
       8*sqr(logabs(T/q)) + 5*logabs(Tsq/tsq) + sqr(logabs(Tsq/tsq)) +
-      (4*g2*(g + t - T)*(Pi2 - 6*li2((g + t - T -
-      g*sqrtabs(del/g2))/ (2.*g)) - 6*li2((g - t + T -
-      g*sqrtabs(del/g2))/(2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))* logabs((-rdel + g - t +
-      T)/(2.*g))))/(3.*std::pow(std::abs(del),1.5)) + (4*g*(g + t - T)*(Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((g + t - T - g*sqrtabs(del/g2))/(2.*g))* logabs((g - t
-      + T - g*sqrtabs(del/g2))/(2.*g))))/ (3.*del*sqrtabs(del/g2)) +
-      (8*mg*mu*(1/T - logabs(t/q)/T + (g*(g + t - T)* (Pi2 -
-      6*li2((g + t - T - g*sqrtabs(del/g2))/(2.*g)) - 6*li2((g - t
-      + T - g*sqrtabs(del/g2))/ (2.*g)) - 3*logabs(t/g)*logabs(T/g) +
-      6*logabs((-rdel + g + t - T)/(2.*g))*logabs((-rdel + g - t +
-      T)/(2.*g))))/ (3.*std::pow(std::abs(del),1.5)) + (g*(-(logabs(t/g)/T) -
-      (2*(-(g*logabs(4.)) + (rdel + g + t - T)*logabs((-rdel + g + t -
-      T)/g) + (-rdel + g - t + T)*logabs((-rdel + g - t + T)/g)))/
-      (rdel*(rdel - g + t - T)) - 2*(((rdel + g + t - T)* logabs((g +
-      t - T + g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(t - T + g*(-1 +
-      sqrtabs(del/g2)))) - ((rdel - g - t + T)* logabs((g - t + T +
-      g*sqrtabs(del/g2))/ (2.*g)))/ (rdel*(-t + T + g*(-1 +
-      sqrtabs(del/g2)))))))/ rdel))/tanb))/(32.*Pi4);
+      (8*g*(g + t - T)*phi(t,T,g))/del +
+      (8*mg*mu*(1/T - logabs(t/q)/T + dphi_010(t,T,g)))/tanb))/(32.*Pi4);
 
    return result;
 }
@@ -149,40 +152,6 @@ double calc_At(double mt2, double mst12, double mst22,
    return At;
 }
 
-double phi(double x, double y, double z)
-{
-   const double u = x/z, v = y/z;
-   const double lambda = sqrtabs(sqr(1 - u - v) - 4*u*v);
-   const double xp = 0.5 * (1 + (u - v) - lambda);
-   const double xm = 0.5 * (1 - (u - v) - lambda);
-
-   return 1./lambda * (2*logabs(xp)*logabs(xm) - logabs(u)*logabs(v) -
-                       2*(li2(xp) + li2(xm)) + M_PI*M_PI/3.);
-}
-
-/// First derivative of phi[t,T,g] w.r.t. T
-double dphi_010(double t, double T, double g)
-{
-   constexpr double Pi2 = M_PI * M_PI;
-   const double g2 = sqr(g);
-   const double abbr = (-4*t*T)/g2 + sqr(1 - t/g - T/g);
-   const double rabbr = sqrtabs(abbr);
-
-   return ((g + t - T)*(Pi2 - 6*li2((g - rabbr*g + t - T)/(2.*g)) -
-      6*li2((g - rabbr*g - t + T)/(2.*g)) -
-      3*logabs(t/g)*logabs(T/g) + 6*logabs((g - rabbr*g + t -
-      T)/(2.*g))*logabs((g - rabbr*g - t + T)/(2.*g))) + (3*rabbr*g* (
-      rabbr*g*((-1 + rabbr)*g + t - T)*logabs(t/g) +
-      2*T*(-2*g*logabs(4.) + (g + rabbr*g + t - T)*logabs((g - rabbr*g
-      + t - T)/g) + (g + rabbr*g + t - T)*logabs((g + rabbr*g + t -
-      T)/g) + g*logabs((g - rabbr*g - t + T)/g) - rabbr*g*logabs((g -
-      rabbr*g - t + T)/g) - t*logabs((g - rabbr*g - t + T)/g) +
-      T*logabs((g - rabbr*g - t + T)/g) + g*logabs((g + rabbr*g - t +
-      T)/g) - rabbr*g*logabs((g + rabbr*g - t + T)/g) - t*logabs((g +
-      rabbr*g - t + T)/g) + T*logabs((g + rabbr*g - t + T)/g)) ) ) /
-      (T*(g - rabbr*g - t + T)))/(3.*std::pow(std::abs(abbr),1.5)*g2);
-}
-
 } // anonymous namespace
 
 double delta_ma2_2loop_at_as_mst1_eq_mst2(
-- 
2.43.0


From 2283c9cf9b70c78506df33406ac7dc2c06d1ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:14 +0000
Subject: [PATCH 12/13] fix: shift from H3m to DR'-bar for nearly degenerate
 stops

For stops degenerate to about 1e-8 (in particular exactly degenerate ones,
which the validation separates by that amount) the general formula was
used, which is dominated by cancellation there: the limit was discarded
exactly when the general formula deviated from it.  Use the limit
whenever the stops are degenerate.
---
 source/himalaya/HierarchyCalculator.cpp | 55 +------------------------
 1 file changed, 2 insertions(+), 53 deletions(-)

diff --git a/source/himalaya/HierarchyCalculator.cpp b/source/himalaya/HierarchyCalculator.cpp
index a5f839a..4ec24c4 100644
--- a/source/himalaya/HierarchyCalculator.cpp
+++ b/source/himalaya/HierarchyCalculator.cpp
@@ -963,7 +963,6 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double scale2 = pow2(p.scale);
    const double Xt2 = pow2(Xt);
    const double Mst22 = pow2(Mst2);
-   const double Dmst12 = Mst12 - Mst22;
 
    // logarithms
    const double lmMst1 = std::log(scale2 / Mst12);
@@ -972,29 +971,7 @@ Eigen::Matrix2d HierarchyCalculator::shiftH3mToDRbarPrime(
    const double lmMgl = std::log(scale2 / Mgl2);
 
    // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*Xt2*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1))*pow2(p.mu))/(3.*pow6(Mst1));
-      // exact result
-      const double exact = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2)*pow2(Mst1)*pow2(Mst2) + pow4(Mst1) - pow4(Mst2)))/(pow2(Mst1)*
-        pow2(Mst2)*pow3(pow2(Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted = (16*Xt2*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 +
-        lmMst1)*pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*pow2(p.mu)*(-4*std::log(Mst1/
-        Mst2shift)*pow2(Mst1)*pow2(Mst2shift) + pow4(Mst1) - pow4(Mst2shift)))/(pow2(Mst1)*
-        pow2(Mst2shift)*pow3(pow2(Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   const bool isDegenerate = std::abs(Mst1 - Mst2) < eps;
 
    Eigen::Matrix2d shift;
 
@@ -1080,7 +1057,6 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double scale2 = pow2(p.scale);
    const double Xt2 = pow2(Xt);
    const double Mst22 = pow2(Mst2);
-   const double Dmst12 = Mst12 - Mst22;
 
    // logarithms
    const double lmMst1 = omitLogs * std::log(scale2 / Mst12);
@@ -1089,34 +1065,7 @@ double HierarchyCalculator::shiftH3mToDRbarPrimeMh2(
    const double lmMgl = omitLogs * std::log(scale2 / Mst12) - std::log(Mgl2 / Mst12);
 
    // degenerate mass case flag
-   bool isDegenerate = false;
-
-   // check for degenerate squark masses
-   if (std::abs(Mst1 - Mst2) < eps) {
-      const double Mst2shift = Mst1 + 0.5*std::sqrt(std::abs(Dmst12));
-      const double lmMst2shift = std::log(scale2 / pow2(Mst2shift));
-      // limit
-      const double lim = (32*(-3*(1 + lmMgl)*pow2(Mgl) + 5*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1))*(-6*Xt2*pow2(Mst1) + truncateXt*pow2(Xt2) + 6*pow4(Mst1)))/
-        (3.*pow6(Mst1));
-      // exact result
-      const double exact =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2)*pow2(Mst2))*(4*truncateXt*std::log(Mst2/Mst1)*
-        pow2(Mst1)*pow2(Mst2)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2)) +
-        (pow2(Mst1) + pow2(Mst2))*pow3(pow2(Mst1) - pow2(Mst2)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2))))/(pow2(Mst1)*pow2(Mst2)*pow3(pow2(
-        Mst1) - pow2(Mst2)));
-      // exact result with shifted stop_2 mass
-      const double exactShifted =  (16*(-6*(1 + lmMgl)*pow2(Mgl) + 10*(1 + lmMsq)*Msq2 + (1 + lmMst1)*
-        pow2(Mst1) + (1 + lmMst2shift)*pow2(Mst2shift))*(4*truncateXt*std::log(Mst2shift/Mst1)*
-        pow2(Mst1)*pow2(Mst2shift)*pow2(Xt2) - 2*Xt2*pow3(pow2(Mst1) - pow2(Mst2shift)) +
-        (pow2(Mst1) + pow2(Mst2shift))*pow3(pow2(Mst1) - pow2(Mst2shift)) + truncateXt*
-        pow2(Xt2)*(pow4(Mst1) - pow4(Mst2shift))))/(pow2(Mst1)*pow2(Mst2shift)*pow3(pow2(
-        Mst1) - pow2(Mst2shift)));
-
-      isDegenerate = std::abs(exactShifted - lim) >= std::abs(exact - lim)
-         || !std::isfinite(exact) || !std::isfinite(exactShifted);
-   }
+   const bool isDegenerate = std::abs(Mst1 - Mst2) < eps;
 
    double shift = 0.;
 
-- 
2.43.0


From d82d68ca2faa6a8fd2de368c5cad8b01796d1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:18 +0000
Subject: [PATCH 13/13] fix: refuse undefined values of an EFT correction
 switch

---
 source/himalaya/mh2_eft/Mh2EFTCalculator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
index b966552..ea8d1d8 100644
--- a/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
+++ b/source/himalaya/mh2_eft/Mh2EFTCalculator.cpp
@@ -14,6 +14,7 @@
 #include "himalaya/misc/Powers.hpp"
 #include <cmath>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 /**
@@ -138,7 +139,7 @@ Mh2EFTCalculator::Mh2EFTCalculator(const himalaya::Parameters& p_, bool verbose)
 void Mh2EFTCalculator::setCorrectionFlag(CouplingOrders::CouplingOrders order, int flag)
 {
     if (flag < 0 || flag > 1)
-        ERROR_MSG("You can only enable (1) or disable (0) corrections!");
+        throw std::runtime_error("You can only enable (1) or disable (0) corrections!");
 
     orders.at(order) = flag;
 }
-- 
2.43.0

