From 2add966a895d76ee6d205146bd227b0f1de261e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:47 +0000
Subject: [PATCH 01/12] fix: centre the grid vectors when the grid size is not
 a multiple of the cell size

The half lengths are rounded to a whole number of cells but the conversion
vectors started at -grid_size, so they were shifted by a fraction of a cell
from the indices used everywhere else. Body heights then fell between the
terrain heights, body soil was created in fractions of a cell, and fractions
below 0.9 cell were dropped: mass was not conserved.
---
 soil_simulator/types.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index 25c6ed3..aa04e21 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -60,15 +60,15 @@ soil_simulator::Grid::Grid(
     vect_y_.resize(2 * half_length_y_ + 1);
     vect_z_.resize(2 * half_length_z_ + 1);
 
-    vect_x_[0] = -grid_size_x;
+    vect_x_[0] = -half_length_x_ * cell_size_xy;
     for (auto ii = 1 ; ii < vect_x_.size() ; ii++)
         vect_x_[ii] = vect_x_[ii-1] + cell_size_xy;
 
-    vect_y_[0] = -grid_size_y;
+    vect_y_[0] = -half_length_y_ * cell_size_xy;
     for (auto ii = 1 ; ii < vect_y_.size() ; ii++)
         vect_y_[ii] = vect_y_[ii-1] + cell_size_xy;
 
-    vect_z_[0] = -grid_size_z + cell_size_z;
+    vect_z_[0] = -half_length_z_ * cell_size_z + cell_size_z;
     for (auto ii = 1 ; ii < vect_z_.size() ; ii++)
         vect_z_[ii] = vect_z_[ii-1] + cell_size_z;
 }
-- 
2.43.0


From 4667b93fe92523aeaec55c70509f43df13f1d77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 02/12] fix: keep the wall corners close to a cell border

The corners are moved by about the tolerance, so an edge ending on a cell
border was discarded from the column it borders along with the height of
the wall there.
---
 soil_simulator/body_pos.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index 11aefc3..998d450 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -486,8 +486,8 @@ soil_simulator::DecomposeVectorRectangle(
             c_ad[ii_s][jj_s] = (
                 -c_ad_x * (ii - a_ind[0]) + c_ad_y * (jj - a_ind[1]));
 
-            if ((c_ab[ii_s][jj_s] > tol) && (c_ab[ii_s][jj_s] < 1 - tol) &&
-                (c_ad[ii_s][jj_s] > tol) && (c_ad[ii_s][jj_s] < 1 - tol)) {
+            if ((c_ab[ii_s][jj_s] > 0.0) && (c_ab[ii_s][jj_s] < 1.0) &&
+                (c_ad[ii_s][jj_s] > 0.0) && (c_ad[ii_s][jj_s] < 1.0)) {
                 // Cell is inside the rectangle area
                 in_rectangle[ii_s][jj_s] = true;
                 n_cell += 4;
@@ -711,8 +711,8 @@ soil_simulator::DecomposeVectorTriangle(
             c_ac[ii_s][jj_s] = (
                 -c_ac_x * (ii - a_ind[0]) + c_ac_y * (jj - a_ind[1]));
 
-            if ((c_ab[ii_s][jj_s] > tol) && (c_ac[ii_s][jj_s] > tol) &&
-                (c_ab[ii_s][jj_s] + c_ac[ii_s][jj_s] < 1.0 - tol)) {
+            if ((c_ab[ii_s][jj_s] > 0.0) && (c_ac[ii_s][jj_s] > 0.0) &&
+                (c_ab[ii_s][jj_s] + c_ac[ii_s][jj_s] < 1.0)) {
                 // Cell is inside the triangle area
                 in_triangle[ii_s][jj_s] = true;
                 n_cell += 4;
-- 
2.43.0


From 72e5f231bbad8ee00582861a74d8553f51bd0302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 03/12] fix: start a line lying on a cell border in its own
 cell

The crossing of a border the line starts on was postponed by one cell, which
shifted the remainder of the line.
---
 soil_simulator/body_pos.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index 998d450..71323b8 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -785,11 +785,11 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
         dz = 1e-10;
 
     // Avoiding issue when at cell boundary
-    if (t_max_x == 0.0)
+    if ((t_max_x == 0.0) && (x1 == x2))
         t_max_x = 1;
-    if (t_max_y == 0.0)
+    if ((t_max_y == 0.0) && (y1 == y2))
         t_max_y = 1;
-    if (t_max_z == 0.0)
+    if ((t_max_z == 0.0) && (step_z == -1))
         t_max_z = 1;
 
     // Determining how long on the line to cross the cell
-- 
2.43.0


From 2023062fe48ae37466d062e3d78a6fb44a5e3c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:02 +0000
Subject: [PATCH 04/12] fix: step along a line with integer indices

Adding whole cells to a coordinate in single precision may round it across a
cell border, which made the line skip a cell.
---
 soil_simulator/body_pos.cpp | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/soil_simulator/body_pos.cpp b/soil_simulator/body_pos.cpp
index 71323b8..3e8e4c7 100644
--- a/soil_simulator/body_pos.cpp
+++ b/soil_simulator/body_pos.cpp
@@ -806,36 +806,33 @@ std::vector<std::vector<int>> soil_simulator::CalcLinePos(
     float ab_norm = std::sqrt(dx * dx + dy * dy + dz * dz);
 
     // Creating line_pos and adding the starting point
+    int ii = static_cast<int>(round(x1));
+    int jj = static_cast<int>(round(y1));
+    int kk = static_cast<int>(std::ceil(z1));
     std::vector<std::vector<int>> line_pos;
     line_pos.resize(1, std::vector<int>(3, 0));
-    line_pos[0] = std::vector<int> {
-        static_cast<int>(round(x1)),
-        static_cast<int>(round(y1)),
-        static_cast<int>(std::ceil(z1))};
+    line_pos[0] = std::vector<int> {ii, jj, kk};
 
     // Iterating along the line until reaching the end
     while ((t_max_x < ab_norm) || (t_max_y < ab_norm) || (t_max_z < ab_norm)) {
         if (t_max_x < t_max_y) {
             if (t_max_x < t_max_z) {
-                x1 = x1 + step_x;
+                ii += step_x;
                 t_max_x += t_delta_x;
             } else {
-                z1 = z1 + step_z;
+                kk += step_z;
                 t_max_z += t_delta_z;
             }
         } else {
             if (t_max_y < t_max_z) {
-                y1 = y1 + step_y;
+                jj += step_y;
                 t_max_y += t_delta_y;
             } else {
-                z1 = z1 + step_z;
+                kk += step_z;
                 t_max_z += t_delta_z;
             }
         }
-        line_pos.push_back(std::vector<int> {
-            static_cast<int>(round(x1)),
-            static_cast<int>(round(y1)),
-            static_cast<int>(std::ceil(z1))});
+        line_pos.push_back(std::vector<int> {ii, jj, kk});
     }
     return line_pos;
 }
-- 
2.43.0


From ba3a4ee07c03190724653649e6d8d9c3b95c1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:58 +0000
Subject: [PATCH 05/12] fix: consider walls far from the soil when cells are
 large

The initial distance was a number of cells compared to metres, so with cells
larger than a metre, soil was dropped on the terrain although there was a wall
around.
---
 soil_simulator/body_soil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/body_soil.cpp b/soil_simulator/body_soil.cpp
index c617f4a..2042e19 100644
--- a/soil_simulator/body_soil.cpp
+++ b/soil_simulator/body_soil.cpp
@@ -8,6 +8,7 @@ Copyright, 2023, Vilella Kenny.
 #include <algorithm>
 #include <cmath>
 #include <iostream>
+#include <limits>
 #include <vector>
 #include "soil_simulator/body_soil.hpp"
 #include "soil_simulator/types.hpp"
@@ -117,7 +118,7 @@ void soil_simulator::UpdateBodySoil(
         int ii_s;
         int jj_s;
         int ind_s;
-        float dist_s = 2 * grid.half_length_z_;
+        float dist_s = std::numeric_limits<float>::max();
 
         // Starting loop over neighbours
         for (auto xy = 0; xy < directions.size(); xy++) {
@@ -188,7 +189,7 @@ void soil_simulator::UpdateBodySoil(
         }
 
         if (!soil_moved) {
-            if (dist_s != 2 * grid.half_length_z_) {
+            if (dist_s != std::numeric_limits<float>::max()) {
                 // Moving body_soil to closest location, this implementation
                 // works regardless of the presence of body_soil
                 sim_out->body_soil_[ind_s][ii_s][jj_s] += (
-- 
2.43.0


From e81ea7d1c3ae10cff8094e6b76802933c4bf55cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 06/12] fix: reject sizes and angles that are not finite
 numbers

A comparison with NaN is false, so that NaN passed the checks of the
constructors.
---
 soil_simulator/types.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index aa04e21..e52e3b8 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -6,6 +6,7 @@ Checks are conducted to verify the integrity and validity of the data.
 Copyright, 2023, Vilella Kenny.
 */
 #include <math.h>
+#include <cmath>
 #include <vector>
 #include <stdexcept>
 #include <iostream>
@@ -15,19 +16,19 @@ soil_simulator::Grid::Grid(
     float grid_size_x, float grid_size_y, float grid_size_z, float cell_size_xy,
     float cell_size_z
 ) {
-    if (cell_size_z <= 0.0)
+    if (!(cell_size_z > 0.0) || std::isinf(cell_size_z))
         throw std::invalid_argument("cell_size_z should be greater than zero");
 
-    if (cell_size_xy <= 0.0)
+    if (!(cell_size_xy > 0.0) || std::isinf(cell_size_xy))
         throw std::invalid_argument("cell_size_xy should be greater than zero");
 
-    if (grid_size_x <= 0.0)
+    if (!(grid_size_x > 0.0) || std::isinf(grid_size_x))
         throw std::invalid_argument("grid_size_x should be greater than zero");
 
-    if (grid_size_y <= 0.0)
+    if (!(grid_size_y > 0.0) || std::isinf(grid_size_y))
         throw std::invalid_argument("grid_size_y should be greater than zero");
 
-    if (grid_size_z <= 0.0)
+    if (!(grid_size_z > 0.0) || std::isinf(grid_size_z))
         throw std::invalid_argument("grid_size_z should be greater than zero");
 
     if (cell_size_z > cell_size_xy)
@@ -102,7 +103,7 @@ soil_simulator::Body::Body(
         throw std::invalid_argument("b_pos_init should not be equal to"
             " t_pos_init");
 
-    if (width <= 0.0)
+    if (!(width > 0.0) || std::isinf(width))
         throw std::invalid_argument("width should be greater than zero");
 
     width_ = width;
@@ -129,7 +130,7 @@ soil_simulator::Body::Body(
 soil_simulator::SimParam::SimParam(
     float repose_angle, int max_iterations, int cell_buffer
 ) {
-    if ((repose_angle > std::numbers::pi / 2) || (repose_angle < 0.0))
+    if (!((repose_angle <= std::numbers::pi / 2) && (repose_angle >= 0.0)))
         throw std::invalid_argument("repose_angle should be betweem 0.0 and"
             " pi/2");
 
-- 
2.43.0


From 64f47c835d1a822981c07462c108f87c1f3442c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 07/12] fix: reject bodies whose joint, base and teeth are
 aligned

Such a body has no normal, so its corners were NaN, which made the first step
read outside the grid.
---
 soil_simulator/types.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/soil_simulator/types.cpp b/soil_simulator/types.cpp
index e52e3b8..eaf93a9 100644
--- a/soil_simulator/types.cpp
+++ b/soil_simulator/types.cpp
@@ -103,6 +103,27 @@ soil_simulator::Body::Body(
         throw std::invalid_argument("b_pos_init should not be equal to"
             " t_pos_init");
 
+    // Checking that the joint, base and teeth form a triangle, otherwise the
+    // orientation of the body is undefined
+    std::vector<double> jb(3);
+    std::vector<double> jt(3);
+    for (auto ii = 0 ; ii < 3 ; ii++) {
+        jb[ii] = (
+            static_cast<double>(b_pos_init[ii]) - o_pos_init[ii]) - (
+            static_cast<double>(j_pos_init[ii]) - o_pos_init[ii]);
+        jt[ii] = (
+            static_cast<double>(t_pos_init[ii]) - o_pos_init[ii]) - (
+            static_cast<double>(j_pos_init[ii]) - o_pos_init[ii]);
+    }
+    double norm_cross = std::hypot(
+        jb[1] * jt[2] - jb[2] * jt[1], jb[2] * jt[0] - jb[0] * jt[2],
+        jb[0] * jt[1] - jb[1] * jt[0]);
+    double norm_jb = std::hypot(jb[0], jb[1], jb[2]);
+    double norm_jt = std::hypot(jt[0], jt[1], jt[2]);
+    if (!(norm_cross > 1e-6 * norm_jb * norm_jt))
+        throw std::invalid_argument("j_pos_init, b_pos_init and t_pos_init"
+            " should be finite and should not be aligned");
+
     if (!(width > 0.0) || std::isinf(width))
         throw std::invalid_argument("width should be greater than zero");
 
-- 
2.43.0


From 45606ebb52c50355c834286a0accaaf39aaa0c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 08/12] fix: do not overwrite an existing body soil file

Only the terrain file was checked when choosing the file number, so that a body
soil file without its terrain file was overwritten.
---
 soil_simulator/utils.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/soil_simulator/utils.cpp b/soil_simulator/utils.cpp
index 444b0a6..5d18e2a 100644
--- a/soil_simulator/utils.cpp
+++ b/soil_simulator/utils.cpp
@@ -510,10 +510,13 @@ void soil_simulator::WriteSoil(
             path + "terrain_" + std::string(nn, '0').append(file_number)
             + ".csv");
 
-        // Checking if file exists
+        // Checking if file exists, the body soil file uses the same number
         std::ifstream infile(terrain_filename);
-        if (!infile.good()) {
-            // File does not exist
+        std::ifstream infile_body_soil(
+            path + "body_soil_" + std::string(nn, '0').append(file_number)
+            + ".csv");
+        if (!infile.good() && !infile_body_soil.good()) {
+            // Files do not exist
             break;
         }
     }
-- 
2.43.0


From 576fd9c93b995697f2f6b5e819c6309e5fd9e171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:06 +0000
Subject: [PATCH 09/12] fix: allow for the numerical errors of a whole column
 in the volume check

The tolerance was compared to the error accumulated over all the records of a
soil column, so that valid states with tall columns were reported.
---
 soil_simulator/utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/soil_simulator/utils.cpp b/soil_simulator/utils.cpp
index 5d18e2a..e631dfe 100644
--- a/soil_simulator/utils.cpp
+++ b/soil_simulator/utils.cpp
@@ -255,13 +255,16 @@ bool soil_simulator::CheckVolume(
 
     // Checking that volume of soil in body_soil_pos_ corresponds to soil
     // in body_soil
+    // Soil columns are multiple of cell_size_z, 0.1 has been chosen arbitrarily
+    // to account for the numerical errors accumulated over a column
+    float max_dh = std::max(tol, static_cast<float>(0.1 * grid.cell_size_z_));
     for (auto ii = 0; ii < sim_out->terrain_.size(); ii++) {
         for (auto jj = 0; jj < sim_out->terrain_[0].size(); jj++) {
             float dh_1 = std::abs(
                 old_body_soil[0][ii][jj] - old_body_soil[1][ii][jj]);
             float dh_2 = std::abs(
                 old_body_soil[2][ii][jj] - old_body_soil[3][ii][jj]);
-            if ((dh_1 > tol) || (dh_2 > tol)) {
+            if ((dh_1 > max_dh) || (dh_2 > max_dh)) {
                 // Soil in body_soil_pos_ does not correspond to amount of soil
                 // in body_soil
                 LOG(WARNING) << "WARNING\nVolume of soil in body_soil_pos_ " <<
-- 
2.43.0


From ea34ed4608d7edef588fd535e3f848893e78789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:45 +0000
Subject: [PATCH 10/12] fix: stop relaxing a body soil entry once all its soil
 has avalanched

An emptied column has its height reset to zero, so that the remaining
directions were compared with an absolute height of zero.  Below ground it
looked unstable, which added empty body soil layers and entries and prevented
the equilibrium from being reported.
---
 soil_simulator/relax.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index cb6f5a5..0492fdf 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -195,6 +195,12 @@ void soil_simulator::RelaxBodySoil(
 
         // Iterating over the possible directions
         for (auto xy = 0; xy < directions.size(); xy++) {
+            // Checking if soil remains after the previous avalanches
+            if (sim_out->body_soil_pos_[nn].h_soil < tol) {
+                // No soil left to be moved
+                break;
+            }
+
             int ii_c = ii + directions[xy][0];
             int jj_c = jj + directions[xy][1];
 
-- 
2.43.0


From 53e2c956f44d747c4579f7bfeb638cf0232f82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:59 +0000
Subject: [PATCH 11/12] fix: let body soil avalanche above a wall when the
 space below it is full

The soil was sent below the wall although no room was left there, so nothing
moved and the relaxation could never report an equilibrium.
---
 soil_simulator/relax.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 0492fdf..3ce81a0 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -469,7 +469,10 @@ int soil_simulator::CheckUnstableBodyCell(
         status = 20;
 
         if (
-            sim_out->body_[ind+1][ii][jj] + tol < sim_out->body_[2][ii_c][jj_c]
+            (sim_out->body_[ind+1][ii][jj] + tol <
+            sim_out->body_[2][ii_c][jj_c]) &&
+            (sim_out->terrain_[ii_c][jj_c] + tol <
+            sim_out->body_[2][ii_c][jj_c])
         ) {
             // Soil should avalanche to the terrain
             column_top = sim_out->terrain_[ii_c][jj_c];
@@ -494,7 +497,10 @@ int soil_simulator::CheckUnstableBodyCell(
         status = 10;
 
         if (
-            sim_out->body_[ind+1][ii][jj] + tol < sim_out->body_[0][ii_c][jj_c]
+            (sim_out->body_[ind+1][ii][jj] + tol <
+            sim_out->body_[0][ii_c][jj_c]) &&
+            (sim_out->terrain_[ii_c][jj_c] + tol <
+            sim_out->body_[0][ii_c][jj_c])
         ) {
             // Soil should avalanche to the terrain
             column_top = sim_out->terrain_[ii_c][jj_c];
-- 
2.43.0


From 263d0e23eddceac66e48f287fd8e5d2d3a5a4d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:24 +0000
Subject: [PATCH 12/12] fix: keep floating errors from growing when soil
 avalanches on the body

The soil leaving a column was the difference between its height and a
multiple of the cell size, so that it included the floating errors of all
the records of the column, while only one record was reduced. These
errors grew at each avalanche, until soil was lost when the body moved.
---
 soil_simulator/relax.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/soil_simulator/relax.cpp b/soil_simulator/relax.cpp
index 3ce81a0..af556a8 100644
--- a/soil_simulator/relax.cpp
+++ b/soil_simulator/relax.cpp
@@ -819,6 +819,12 @@ void soil_simulator::RelaxUnstableBodyCell(
     float h_new;
     float h_new_c;
     float h_soil;
+
+    // Converting the height of the soil column to a multiple of cell_size_z,
+    // otherwise floating errors would grow at each avalanche
+    sim_out->body_soil_[ind+1][ii][jj] = grid.cell_size_z_ * round(
+        sim_out->body_soil_[ind+1][ii][jj] / grid.cell_size_z_);
+
     if (st[1] == '0') {
         // No body
         // Calculating new height values
-- 
2.43.0

