From cdc75e6d4b94f1d699e53541c10ee64f4e1b21a1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 01/23] fix: symbolic control points: locate the free points by
 the flags, not by a zero value

A constant control point at the origin was taken for the free variable, and
with several free points all of them mapped to the first variable.
---
 src/waypoints_definition.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..dde7500 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -299,14 +299,26 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_POINT = 3;  // FIXME : always true ??
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
+  // the variable waypoints follow the ones set by the initial constraints and
+  // precede the ones set by the final constraints
+  const ConstraintFlag f = pData.constraints_.flag_;
+  const std::size_t first =
+      bool(f & INIT_POS) + bool(f & INIT_VEL) + bool(f & INIT_ACC) +
+      bool(f & INIT_JERK);
+  const std::size_t numFinal =
+      f & END_POS ? 1 + bool(f & END_VEL) + bool(f & END_ACC) +
+                        bool(f & END_JERK)
+                  : 0;
+  const std::size_t last = pts.size() - numFinal;
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  for (std::size_t i = 0; i < pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+    if (i >= first && i < last) {
+      // the waypoints share the variable when there is only one
+      const std::size_t col = ((i - first) * DIM_POINT) % DIM_VAR;
+      w.first.block(0, col, DIM_POINT, DIM_POINT).setIdentity();
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From ff46a13a9ae957cdff325dcdb93f24b05640fdf9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 02/23] fix: the terminal velocity objective is refused only
 when the terminal velocity is constrained

---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From 3b8bab9106e40457ec84e7e9ecb612fec989162b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 03/23] fix: jerk constrained family: the first control point
 was replaced by the last one in the position, velocity and acceleration forms

---
 .../waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..dd4bb66 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
-- 
2.43.0


From e960eb14c40c56e11e760ebb4d61cc74abbf40cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:21:21 +0000
Subject: [PATCH 04/23] fix: jerk constrained family: wrong control point in
 the acceleration control points

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index dd4bb66..59d504b 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From e403b3103352bb6fc33f0deac3ffb96c835da521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:17 +0000
Subject: [PATCH 05/23] fix: three free points family: misplaced powers in the
 velocity and acceleration forms, wrong acceleration control points

---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 29 +++++++++----------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..921397a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
-- 
2.43.0


From f9d058f4b9df6911c4edc0be89a85c0294e80e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:09 +0000
Subject: [PATCH 06/23] fix: five free points family: velocity, acceleration
 and jerk forms were not implemented, wrong acceleration control points

---
 ...points_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh | 181 ++++--------------
 1 file changed, 42 insertions(+), 139 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..809606d 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -86,152 +86,56 @@ inline waypoint_t evaluateCurveWaypointAtTime(const std::vector<point_t>& pi,
   return wp;
 }
 
-// TODO
+/**
+ * @brief evaluateDerivativeWaypointAtTime compute the expression of a
+ * derivative of the curve at t, from the control points of that derivative
+ * @param pi constant waypoints of the curve (see evaluateCurveWaypointAtTime)
+ * @param order order of the derivative
+ */
+inline waypoint_t evaluateDerivativeWaypointAtTime(
+    const std::vector<point_t>& pi, std::size_t order, double T, double t) {
+  std::vector<waypoint_t> wps;
+  for (std::size_t i = 0; i < pi.size(); ++i) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    if (i >= 4 && i < 9)
+      w.first.block<3, 3>(0, 3 * (i - 4)) = Matrix3::Identity();  // x0 .. x4
+    else
+      w.second = pi[i];
+    wps.push_back(w);
+  }
+  // control points of the derivative
+  for (std::size_t k = 0; k < order; ++k) {
+    const double alpha = double(wps.size() - 1) / T;
+    for (std::size_t i = 0; i + 1 < wps.size(); ++i) {
+      wps[i].first = alpha * (wps[i + 1].first - wps[i].first);
+      wps[i].second = alpha * (wps[i + 1].second - wps[i].second);
+    }
+    wps.pop_back();
+  }
+  // De Casteljau
+  while (wps.size() > 1) {
+    for (std::size_t i = 0; i + 1 < wps.size(); ++i) {
+      wps[i].first = (1. - t) * wps[i].first + t * wps[i + 1].first;
+      wps[i].second = (1. - t) * wps[i].second + t * wps[i + 1].second;
+    }
+    wps.pop_back();
+  }
+  return wps.front();
+}
+
 inline waypoint_t evaluateVelocityCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  const double t9 = t8 * t;
-
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) = Matrix3::Identity() * alpha;   // x0
-  wp.first.block<3, 3>(0, 3) = Matrix3::Identity() * alpha;   // x1
-  wp.first.block<3, 3>(0, 6) = Matrix3::Identity() * alpha;   // x2
-  wp.first.block<3, 3>(0, 9) = Matrix3::Identity() * alpha;   // x3
-  wp.first.block<3, 3>(0, 12) = Matrix3::Identity() * alpha;  // x4
-
-  wp.second =
-      (1.0 * (-10.0 * pi[0] + 10.0 * pi[1]) +
-       t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
-       t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
-                    360.0 * pi[3])) +
-       t3 * (1.0 *
-             (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
-              3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
-                    3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
-                    450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
-                    450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
-                    12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
-                    25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
-                    29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
-                    20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
-      alpha;
-  return wp;
+  return evaluateDerivativeWaypointAtTime(pi, 1, T, t);
 }
 
-// TODO
 inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  const double t8 = t7 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 90720.0 * t7 + 176400.0 * t6 - 176400.0 * t5 +
-              94500.0 * t4 - 25200.0 * t3 + 2520.0 * t2));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-22680.0 * t8 + 90720.0 * t7 - 141120.0 * t6 + 105840.0 * t5 -
-              37800.0 * t4 + 5040.0 * t3));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (18900.0 * t8 - 60480.0 * t7 + 70560.0 * t6 - 35280.0 * t5 +
-              6300.0 * t4));  // x2
-  wp.second =
-      (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2]) +
-       t * (1.0 * (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] +
-                   720.0 * pi[3])) +
-       t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
-                    10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
-                    4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
-                    4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
-                    50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
-                    126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
-                    176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
-                    141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
-                    60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
-                    720.0 * pi[9]))) *
-      alpha;
-  return wp;
+  return evaluateDerivativeWaypointAtTime(pi, 2, T, t);
 }
 
-// TODO
 inline waypoint_t evaluateJerkCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
-  waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
-
-  const double alpha = 1. / (T * T * T);
-  const double t2 = t * t;
-  const double t3 = t2 * t;
-  const double t4 = t3 * t;
-  const double t5 = t4 * t;
-  const double t6 = t5 * t;
-  const double t7 = t6 * t;
-  // equation found with sympy
-  wp.first.block<3, 3>(0, 0) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 635040.0 * t6 + 1058400.0 * t5 - 882000.0 * t4 +
-              378000.0 * t3 - 75600.0 * t2 + 5040.0 * t));  // x0
-  wp.first.block<3, 3>(0, 3) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (-181440.0 * t7 + 635040.0 * t6 - 846720.0 * t5 + 529200.0 * t4 -
-              151200.0 * t3 + 15120.0 * t2));  // x1
-  wp.first.block<3, 3>(0, 6) =
-      Matrix3::Identity() * alpha *
-      (1.0 * (151200.0 * t7 - 423360.0 * t6 + 423360.0 * t5 - 176400.0 * t4 +
-              25200.0 * t3));  // x2
-  wp.second =
-      (1.0 *
-           (-720.0 * pi[0] + 2160.0 * pi[1] - 2160.0 * pi[2] + 720.0 * pi[3]) +
-       t * (1.0 * (5040.0 * pi[0] - 20160.0 * pi[1] + 30240.0 * pi[2] -
-                   20160.0 * pi[3])) +
-       t2 * (1.0 * (-15120.0 * pi[0] + 75600.0 * pi[1] - 151200.0 * pi[2] +
-                    151200.0 * pi[3])) +
-       t3 * (1.0 * (25200.0 * pi[0] - 151200.0 * pi[1] + 378000.0 * pi[2] -
-                    504000.0 * pi[3])) +
-       t4 * (1.0 * (-25200.0 * pi[0] + 176400.0 * pi[1] - 529200.0 * pi[2] +
-                    882000.0 * pi[3] + 25200.0 * pi[7])) +
-       t5 * (1.0 * (15120.0 * pi[0] - 120960.0 * pi[1] + 423360.0 * pi[2] -
-                    846720.0 * pi[3] - 120960.0 * pi[7] + 15120.0 * pi[8])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 45360.0 * pi[1] - 181440.0 * pi[2] +
-                    423360.0 * pi[3] + 181440.0 * pi[7] - 45360.0 * pi[8] +
-                    5040.0 * pi[9])) +
-       t7 * (1.0 * (720.0 * pi[0] + 720.0 * pi[10] - 7200.0 * pi[1] +
-                    32400.0 * pi[2] - 86400.0 * pi[3] - 86400.0 * pi[7] +
-                    32400.0 * pi[8] - 7200.0 * pi[9]))) *
-      alpha;
-  return wp;
+  return evaluateDerivativeWaypointAtTime(pi, 3, T, t);
 }
 
 inline std::vector<point_t> computeConstantWaypoints(const ProblemData& pData,
@@ -371,7 +275,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +305,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +316,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
-- 
2.43.0


From 3b5e9c2e8ef4f618c0baef7f32e0f6de4097a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:24 +0000
Subject: [PATCH 07/23] fix: jerk constrained family: wrench control points and
 result curve ignored the jerk constraints

The wrench table was the one of the degree 6 family and the assembled curve
left out the control points set by the jerk constraints.
---
 include/hpp/bezier-com-traj/utils.hh          |  11 ++
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 175 +++---------------
 2 files changed, 37 insertions(+), 149 deletions(-)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 59d504b..f26d874 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -211,156 +211,33 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  std::vector<Matrix3> Cpi;
-  for (std::size_t i = 0; i < pi.size(); ++i) {
-    Cpi.push_back(skew(pi[i]));
-  }
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
-  const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
-
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  const double alpha = 56. / (T * T);
+  // binomial coefficients of the degrees of c (8), of its second derivative (6)
+  // and of w (14)
+  static const double b8[] = {1, 8, 28, 56, 70, 56, 28, 8, 1};
+  static const double b6[] = {1, 6, 15, 20, 15, 6, 1};
+  static const double b14[] = {1,    14,   91,   364, 1001, 2002, 3003, 3432,
+                               3003, 2002, 1001, 364, 91,   14,   1};
+  const int X = 4;  // index of the free waypoint, where pi is zero
+  for (int k = 0; k <= 14; ++k) wps.push_back(initwp(DIM_POINT, DIM_VAR));
+  for (int j = 0; j <= 6; ++j) {
+    // waypoint of the second derivative: ddx * x + dd
+    const double ddx = alpha * (j == X ? 1. : j + 1 == X ? -2. : j + 2 == X);
+    const Vector3 dd = alpha * (pi[j] - 2. * pi[j + 1] + pi[j + 2]);
+    for (int i = 0; i <= 8; ++i) {
+      const double b = b8[i] * b6[j] / b14[i + j];
+      waypoint_t& w = wps[i + j];
+      w.first.block<3, 3>(0, 0) += b * ddx * Matrix3::Identity();
+      w.second.head<3>() += b * dd;
+      if (i == X)
+        w.first.block<3, 3>(3, 0) -= b * skew(dd - g);
+      else {
+        w.first.block<3, 3>(3, 0) += b * ddx * skew(pi[i]);
+        w.second.tail<3>() += b * skew(pi[i]) * (dd - g);
+      }
+    }
+  }
   return wps;
 }
 
-- 
2.43.0


From 83c90c8f9636dfa5b2e53bc9078a52e6e2e3d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:02 +0000
Subject: [PATCH 08/23] fix: continuous formulation: acceleration bounds
 ignored the duration of the motion

The control points of a derivative are stored for a unit duration.
---
 src/computeCOMTraj.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..b964190 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -453,6 +453,8 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   VectorX h;
   int dimH;
   Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;
+  // the waypoints of a derivate are given for a unit duration
+  const double alpha = 1. / (T * T);
 
   long int cSize = 0;
   long int rowIdx = 0;
@@ -499,10 +501,10 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      A.block(id_rows, 0, 3, 3) = alpha * wpit->first;  // upper
+      b.segment(id_rows, 3) = acc_bounds - alpha * wpit->second;
+      A.block(id_rows + 3, 0, 3, 3) = -alpha * wpit->first;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + alpha * wpit->second;
       id_rows += 6;
     }
   }
-- 
2.43.0


From 3c101789d3c2100a3fdbdd67708744debbba73b6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 09/23] fix: zero step: the angular momentum rows used the
 kinematic constraints

---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From c391de6279bf3f2a2f655fa68ec971b9c5e73c11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 10/23] fix: end effector: the upper bound on the jerk used the
 velocity bound

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..8c95fe4 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -181,7 +181,7 @@ void computeConstraintsMatrix(
        wpcit != wps_jerk.end(); ++wpcit) {
     if (!wpcit->first.isZero(std::numeric_limits<double>::epsilon())) {
       A.block(i * DIM_POINT, 0, DIM_POINT, DIM_VAR) = wpcit->first;
-      b.segment<DIM_POINT>(i * DIM_POINT) = vel_bounds - wpcit->second;
+      b.segment<DIM_POINT>(i * DIM_POINT) = jerk_bounds - wpcit->second;
       ++i;
     }
   }
-- 
2.43.0


From de23e803e077d32ac8ae95db4840f8f55f1159b3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:21 +0000
Subject: [PATCH 11/23] fix: quadratic front end: upper bounds were written
 outside of the inequality matrix

---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From d4ff4b979f590eef0f406a915cd77cd186e1c965 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 12/23] fix: linear front end: large problems overflowed the
 fixed-size element arrays

---
 src/glpk-wrapper.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..527e9a2 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,11 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  // at most one element per coefficient (indices start at 1)
+  const std::size_t maxElements = 1 + (CI.rows() + CE.rows()) * x.size();
+  std::vector<int> ia(maxElements);     // Row indices of each element
+  std::vector<int> ja(maxElements);     // column indices of each element
+  std::vector<double> ar(maxElements);  // values of corresponding elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -96,7 +99,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From e43b01f7b1c7ae89b02d68bfa5cd4a8e49635c82 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 13/23] fix: linear front end: a problem without constraint
 rows aborted the process

---
 src/glpk-wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 527e9a2..c844dba 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -61,7 +61,8 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  // glpk aborts when asked to add no row
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
-- 
2.43.0


From ef7b430d004c0618ebb2056311163fe846be6fea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 14/23] fix: linear front end: a variable with equal bounds was
 refused by glpk

---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index c844dba..6c9cac6 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -29,7 +29,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = mibV == mabV ? GLP_FX : GLP_DB;  // glpk refuses empty intervals
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From 76158ed36b191aedffde87c3d69456b26ae52beb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 15/23] fix: copying a contact description without a contact
 phase dereferenced a null pointer

---
 include/hpp/bezier-com-traj/data.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..e188777 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -33,8 +33,10 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
         ang_(VectorX::Zero(0)) {}
 
   ContactData(const ContactData& other)
-      : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+      : contactPhase_(other.contactPhase_
+                          ? new centroidal_dynamics::Equilibrium(
+                                *(other.contactPhase_))
+                          : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From 153e30e1597b7bbcafe15c1c0759b8f0b4dfc611 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 17:59:49 +0000
Subject: [PATCH 16/23] fix: the initial angular momentum of a default problem
 was uninitialised

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index e188777..a71bdb7 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -101,6 +101,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From 6f79d483472ebfc6bfcd92cc8aba5254ac7cf83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:23 +0000
Subject: [PATCH 17/23] fix: continuous formulation: a phase without kinematic
 constraints mixed matrices of different sizes

---
 src/computeCOMTraj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index b964190..8237e15 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -471,7 +471,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
     for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
-         wpit != cs.waypoints().end(); ++wpit) {
+         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
       A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
       b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
       id_rows += size_kin;
-- 
2.43.0


From f7cdea0961eb0ab408fa4c4951ae5ee74a1d57c1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 18/23] fix: end effector: the discretised velocity objective
 dropped the products of different free points

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 8c95fe4..221bb3e 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -291,14 +291,8 @@ void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   g = VectorX::Zero(dimVar(pData));
   for (std::vector<waypoint_t>::const_iterator ckcit = cks.begin();
        ckcit != cks.end(); ++ckcit) {
-    // H+=(ckcit->first.transpose() * ckcit->first);
-    // g+=ckcit->second.transpose() * ckcit->first;
-    for (int i = 0; i < (dimVar(pData) / 3); ++i) {
-      H.block<3, 3>(i * 3, i * 3) +=
-          Matrix3::Identity() * ckcit->first(0, i * 3) * ckcit->first(0, i * 3);
-      g.segment<3>(i * 3) +=
-          ckcit->second.segment<3>(0) * ckcit->first(0, i * 3);
-    }
+    H += (ckcit->first.transpose() * ckcit->first);
+    g += ckcit->first.transpose() * ckcit->second;
   }
   // TEST : don't consider z axis for minimum acceleration cost
   // H(2,2) = 1e-6;
-- 
2.43.0


From 58a9017044ca96bd54a48ae5683f1c8fd96ca275 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 19/23] fix: the quadratic solver left its arrays when it
 rolled a degenerate constraint back

---
 src/eiquadprog-fast.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..ef5c993 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -174,10 +174,12 @@ void EiquadprogFast::delete_constraint(MatrixXd& R, MatrixXd& J, VectorXi& A,
     R.col(i) = R.col(i + 1);
   }
 
-  A(iq - 1) = A(iq);
-  u(iq - 1) = u(iq);
-  A(iq) = 0;
-  u(iq) = 0.0;
+  if (iq < A.size()) {
+    A(iq - 1) = A(iq);
+    u(iq - 1) = u(iq);
+    A(iq) = 0;
+    u(iq) = 0.0;
+  }
   for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;
   /* constraint has been fully removed */
   iq--;
@@ -613,7 +615,7 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
@@ -1035,7 +1037,7 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;
         u(i) = u_old(i);
       }
       x = x_old;
-- 
2.43.0


From 2827aaf29167f54e2144a15d5cba44279f2b945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:42 +0000
Subject: [PATCH 20/23] fix: the quadratic solver retried a degenerate
 constraint forever

---
 src/eiquadprog-fast.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index ef5c993..35af7bb 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -481,6 +481,8 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    // a violated constraint which could not be added is left
+    if (iaexcl.minCoeff() == 0) return EIQUADPROG_FAST_MAX_ITER_REACHED;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -619,6 +621,7 @@ l2a: /* Step 2a: determine step direction */
         u(i) = u_old(i);
       }
       x = x_old;
+      ss = 0.0;
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
@@ -903,6 +906,8 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    // a violated constraint which could not be added is left
+    if (iaexcl.minCoeff() == 0) return EIQUADPROG_FAST_MAX_ITER_REACHED;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -1041,6 +1046,7 @@ l2a: /* Step 2a: determine step direction */
         u(i) = u_old(i);
       }
       x = x_old;
+      ss = 0.0;
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
-- 
2.43.0


From 3c40502a1fe6dabc458d14177b4b1ea5c52c6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:25 +0000
Subject: [PATCH 21/23] fix: more equalities than variables overflowed the
 quadratic solver's factor

---
 src/eiquadprog-fast.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 35af7bb..745e53c 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -362,7 +362,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
 
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_2);
-    if (!add_constraint(R, m_J, d, iq, R_norm)) {
+    if (iq >= nVars || !add_constraint(R, m_J, d, iq, R_norm)) {
       // Equality constraints are linearly dependent
       return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     }
@@ -787,7 +787,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_1);
 
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_ADD_EQ_CONSTR_2);
-    if (!add_constraint(R, m_J, d, iq, R_norm)) {
+    if (iq >= nVars || !add_constraint(R, m_J, d, iq, R_norm)) {
       // Equality constraints are linearly dependent
       return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
     }
-- 
2.43.0


From 6bd50655436d419df4dccf2d354c95b08cabcaf5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 22/23] fix: sparse quadratic solver: the factor of the Hessian
 was computed and dropped, or permuted

---
 src/eiquadprog-fast.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 745e53c..34c6b69 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -696,7 +696,10 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  // no fill-in reducing permutation: m_J must be the factor of Hess itself
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower,
+                       Eigen::NaturalOrdering<SpMat::StorageIndex> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
@@ -711,7 +714,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
 #ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
+    cholsp_.matrixU().solveInPlace(m_J);
 #else
     m_J = cholsp_.matrixU().solve(m_J);
 #endif
-- 
2.43.0


From 59feeef33344d99e6e1adbdb9d34dc05c22fc085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:55 +0000
Subject: [PATCH 23/23] fix: quadratic solver: with the inverse provided, the
 unconstrained optimum had the wrong sign

---
 src/eiquadprog-fast.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 34c6b69..0319fcf 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -306,16 +306,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = m_J * (m_J.transpose() * -g0);
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     x = -g0;
     chol_.solveInPlace(x);
   }
 #else
-    x = chol_.solve(g0);
+    x = chol_.solve(-g0);
   }
-  x = -x;
 #endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
@@ -734,16 +733,15 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
    */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1_UNCONSTR_MINIM);
   if (is_inverse_provided_) {
-    x = m_J * (m_J.transpose() * g0);
+    x = m_J * (m_J.transpose() * -g0);
   } else {
 #ifdef OPTIMIZE_UNCONSTR_MINIM
     // x = -g0;
     x = cholsp_.solve(-g0);
   }
 #else
-    x = cholsp_.solve(g0);
+    x = cholsp_.solve(-g0);
   }
-  x = -x;
 #endif
   /* and compute the current solution value */
   f_value = 0.5 * g0.dot(x);
-- 
2.43.0

