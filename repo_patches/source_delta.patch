From 0a4ba6a05a32e80b43f93347b2ab23a06294e948 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 01/36] fix: make the enclosing circle of a drawing contain
 every point it was given

---
 lib/nikfemm/src/geometry/circle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index de327e3..fe70ccb 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -87,16 +87,21 @@ namespace nikfemm {
     }
 
     Circle Circle::getEnclosingCircle(std::vector<Vector> points) {
+        if (points.size() == 0) {
+            return Circle();
+        }
         double maxmod = 0;
         Vector center = {0, 0};
         for (auto p : points) {
-            double mod = p.norm();
+            center += p;
+        }
+        center /= points.size();
+        for (auto p : points) {
+            double mod = Vector::distance(center, p);
             if (mod > maxmod) {
                 maxmod = mod;
             }
-            center += p;
         }
-        center /= points.size();
         return Circle(center, maxmod);
     }
 }
\ No newline at end of file
-- 
2.43.0


From 75d60a265f3b361ab5bd5d02254520f3fa550068 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:35:09 +0000
Subject: [PATCH 02/36] fix: distance of a point from a zero-length segment is
 not NaN

---
 lib/nikfemm/src/geometry/segment.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 50ec3de..284f24d 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -84,7 +84,11 @@ namespace nikfemm {
         return Vector::distance(p, projection);
         */
         // return pointSegmentDistance(p, Segment(p1, p2));
-        double param = ((p - p1) * (p2 - p1)) / Vector::distanceSquared(p1, p2);
+        double length_squared = Vector::distanceSquared(p1, p2);
+        if (length_squared == 0) {
+            return Vector::distance(p, p1);  // zero-length segment
+        }
+        double param = ((p - p1) * (p2 - p1)) / length_squared;
         if (param < 0) {
             return Vector::distance(p, p1);
         }
-- 
2.43.0


From 40337f3955802a0ee7e4f14fe42fd76dc8d0c915 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 03/36] fix: segments touching with an end point intersect
 whichever segment comes first

---
 lib/nikfemm/src/geometry/segment.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/geometry/segment.cpp b/lib/nikfemm/src/geometry/segment.cpp
index 284f24d..0657e2e 100644
--- a/lib/nikfemm/src/geometry/segment.cpp
+++ b/lib/nikfemm/src/geometry/segment.cpp
@@ -146,6 +146,9 @@ namespace nikfemm {
         }
         double a_area = area(s2p1, s2p2, s1p1);
         double b_area = area(s2p1, s2p2, s1p2);
+        if (std::abs(a_area) < epsilon || std::abs(b_area) < epsilon) {
+            return true;  // an end point of the first segment lies on the second one
+        }
         return (a_area > 0) != (b_area > 0);
     }
 
-- 
2.43.0


From affe5d2783ade0a4dc874b0340962c0271c7d363 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 04/36] fix: a segment crossing another one far from both its
 end points is refused too

---
 lib/nikfemm/src/drawing/drawing.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index e53bdbc..a373713 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -236,7 +236,10 @@ namespace nikfemm {
                 continue;
             }
             // before checking for intersection, check if the segments have overlapping bounding boxes to avoid unnecessary intersection checks
-            if (!(Segment::pointInSegmentBB(p1, points[s.p1], points[s.p2]) || Segment::pointInSegmentBB(p2, points[s.p1], points[s.p2]))) {
+            Vector q1 = points[s.p1];
+            Vector q2 = points[s.p2];
+            if (std::max(p1.x, p2.x) < std::min(q1.x, q2.x) || std::min(p1.x, p2.x) > std::max(q1.x, q2.x) ||
+                std::max(p1.y, p2.y) < std::min(q1.y, q2.y) || std::min(p1.y, p2.y) > std::max(q1.y, q2.y)) {
                 continue;
             }
             // check for intersection
-- 
2.43.0


From 8f1ba3dd03555d87612d9ae4c974948632f7d2d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:36:06 +0000
Subject: [PATCH 05/36] fix: drawing a polygon without points does not read out
 of bounds

---
 lib/nikfemm/src/drawing/drawing.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index a373713..ac696bd 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -147,6 +147,9 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPolygon(Vector* points, uint32_t n_points) {
+        if (n_points == 0) {
+            nexit("Error: polygon without points");
+        }
         for (uint32_t i = 0; i < n_points - 1; i++) {
             drawSegment(points[i], points[i + 1]);
         }
-- 
2.43.0


From 35c8de1b7e6e90e50d47773288c70802d781fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:30 +0000
Subject: [PATCH 06/36] fix: the curl of A z is (dA/dy, -dA/dx), not its
 opposite

---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index caa133c..0b98c7e 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -405,7 +405,7 @@ namespace nikfemm {
             
             // printf("dx = %.17g dy = %.17g for elem (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g), (%.1f, %.1f, %.17g)\n", dx, dy, x1, y1, z1, x2, y2, z2, x3, y3, z3);
 
-            out[i] = Vector(-dy, dx);
+            out[i] = Vector(dy, -dx);
         }
 
         return out;
-- 
2.43.0


From dec50ceb7133ddf33c89d62313d0eaae58e35afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:30 +0000
Subject: [PATCH 07/36] fix: a surface current edge is shared between its two
 nodes, half each

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index a8b1f06..4a8a836 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -184,8 +184,8 @@ namespace nikfemm {
                     if (dist1 < epsilon * 0.1 && dist2 < epsilon * 0.1) {
                         // this edge is subject to a surface current
                         double length = Vector::distance(p1, p2);
-                        system.b[edge.v1] += length * segment.Jm;
-                        system.b[edge.v2] += length * segment.Jm;
+                        system.b[edge.v1] += length * segment.Jm * 0.5;
+                        system.b[edge.v2] += length * segment.Jm * 0.5;
                     }
                 }
             }
-- 
2.43.0


From cc6e3fa948a1cc2f5713bc4c831d19d2afd38803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:30 +0000
Subject: [PATCH 08/36] fix: the only polygon around a magnetised region is one
 magnet, not one per corner

---
 lib/nikfemm/src/magnetostatic/mesh.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 4a8a836..4b6f6a4 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -98,9 +98,7 @@ namespace nikfemm {
         for (auto region_poly_array : polygons_that_contain_magnet_region) {
             if (region_poly_array.second.size() == 1) {
                 // this is a magnet
-                for (auto point : region_poly_array.second[0].points) {
-                    magnets.push_back({region_poly_array.second[0], drawing.region_map[region_poly_array.first].M, {}});
-                }
+                magnets.push_back({region_poly_array.second[0], drawing.region_map[region_poly_array.first].M, {}});
             } else {
                 // this array contains a magnet and other polygons that contain the polygon that is a magnet
                 // we need to find the polygon that does not contain any other polygon that contains the same region
-- 
2.43.0


From b7800a3bcc29b1a79a32326458a48d4e42476881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:35 +0000
Subject: [PATCH 09/36] fix: nodes and edges may belong to any number of
 triangles, not only 18

---
 lib/nikfemm/src/current_density/mesh.cpp     | 33 +++++++++-----------
 lib/nikfemm/src/magnetostatic/mesh.cpp       | 11 +++----
 lib/nikfemm/src/magnetostatic/simulation.cpp | 12 +++----
 lib/nikfemm/src/magnetostatic/simulation.hpp |  3 +-
 4 files changed, 25 insertions(+), 34 deletions(-)

diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index b9de0d6..f7e0e98 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -11,25 +11,24 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            if (adjelems_count[i] == 0) {
+            if (adjelems_ids[i].size() == 0) {
                 nlogerror("vertex %d has no adjacent elements", i);
                 nexit("error: vertex has no adjacent elements");
             }
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
@@ -96,26 +95,24 @@ namespace nikfemm {
 
         auto start = std::chrono::high_resolution_clock::now();
 
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const CurrentDensityProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const CurrentDensityProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
-        auto adjverts_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjverts_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjverts_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 1) % 3];
-                adjverts_ids[myid][adjverts_count[myid]++] = data.trianglelist[i][(j + 2) % 3];
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 1) % 3]);
+                adjverts_ids[myid].push_back(data.trianglelist[i][(j + 2) % 3]);
             }
         }
 
@@ -125,7 +122,7 @@ namespace nikfemm {
             // to do this we iterate over all adjacent vertices and for each we try to find the two adjacent triangles
             // the two adjacent triangles are the ones that both contain the current vertex and the adjacent vertex
             double sum = 0;
-            for (uint8_t j = 0; j < adjverts_count[i]; j++) {
+            for (uint32_t j = 0; j < adjverts_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 v2 = adjverts_ids[i][j];
@@ -133,7 +130,7 @@ namespace nikfemm {
                 // find the two triangles that contain the current vertex and the adjacent vertex
                 uint32_t t1 = 0, t2 = 0;
                 bool found_t1 = false, found_t2 = false;
-                for (uint8_t k = 0; k < adjelems_count[i]; k++) {
+                for (uint32_t k = 0; k < adjelems_ids[i].size(); k++) {
                     if (data.trianglelist[adjelems_ids[i][k]][0] == v1 || data.trianglelist[adjelems_ids[i][k]][1] == v1 || data.trianglelist[adjelems_ids[i][k]][2] == v1) {
                         if (data.trianglelist[adjelems_ids[i][k]][0] == v2 || data.trianglelist[adjelems_ids[i][k]][1] == v2 || data.trianglelist[adjelems_ids[i][k]][2] == v2) {
                             if (!found_t1) {
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 4b6f6a4..3b35bb9 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -12,21 +12,20 @@ namespace nikfemm {
         auto start = std::chrono::high_resolution_clock::now();
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(data.numberofpoints);
-        auto adjelems_props = std::vector<std::array<const MagnetostaticProp*, 18>>(data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(data.numberofpoints);
+        auto adjelems_props = std::vector<std::vector<const MagnetostaticProp*>>(data.numberofpoints);
 
         for (uint32_t i = 0; i < data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]] = i;
-                adjelems_props[myid][adjelems_count[myid]++] = drawing.getRegionPtrFromId(data.triangleattributelist[i]);
+                adjelems_ids[myid].push_back(i);
+                adjelems_props[myid].push_back(drawing.getRegionPtrFromId(data.triangleattributelist[i]));
             }
         }
 
         // surface integral
         for (uint32_t i = 0; i < data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 4128817..343dbd0 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -223,14 +223,13 @@ namespace nikfemm {
         // EGGSHELL WITH LAPLACE PROBLEM
 
         // COMPUTE FEM WEIGHTS
-        auto adjelems_ids = std::vector<std::array<uint32_t, 18>>(mesh.data.numberofpoints);
-        auto adjelems_count = std::vector<uint8_t>(mesh.data.numberofpoints, 0);
+        auto adjelems_ids = std::vector<std::vector<uint32_t>>(mesh.data.numberofpoints);
 
         nloginfo("computing adjelems_ids");
         for (uint32_t i = 0; i < mesh.data.numberoftriangles; i++) {
             for (uint8_t j = 0; j < 3; j++) {
                 uint32_t myid = mesh.data.trianglelist[i][j];
-                adjelems_ids[myid][adjelems_count[myid]++] = i;
+                adjelems_ids[myid].push_back(i);
             }
         }
 
@@ -315,7 +314,6 @@ namespace nikfemm {
 
         return SurroundingRegionBlockIntegralAssets{
             adjelems_ids,
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -331,7 +329,6 @@ namespace nikfemm {
         
         auto [
             adjelems_ids, 
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -352,7 +349,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
@@ -496,7 +493,6 @@ namespace nikfemm {
         
         auto [
             adjelems_ids, 
-            adjelems_count, 
             elem_field_errors, 
             min_err, 
             max_err, 
@@ -514,7 +510,7 @@ namespace nikfemm {
         nloginfo("building fem matrix");
         // surface integral
         for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
-            for (uint8_t j = 0; j < adjelems_count[i]; j++) {
+            for (uint32_t j = 0; j < adjelems_ids[i].size(); j++) {
                 uint32_t v1, v2, v3;
                 v1 = i;
                 Elem myelem = mesh.data.trianglelist[adjelems_ids[i][j]];
diff --git a/lib/nikfemm/src/magnetostatic/simulation.hpp b/lib/nikfemm/src/magnetostatic/simulation.hpp
index 75243f5..51c7875 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.hpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.hpp
@@ -19,8 +19,7 @@
 
 namespace nikfemm {
     struct SurroundingRegionBlockIntegralAssets {
-        std::vector<std::array<uint32_t, 18>> adjelems_ids;
-        std::vector<uint8_t> adjelems_count;
+        std::vector<std::vector<uint32_t>> adjelems_ids;
         std::vector<double> elem_field_errors;
         double min_err;
         double max_err;
-- 
2.43.0


From 72381d41b4d812c69089a7b2ad62be07ce67fd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:55 +0000
Subject: [PATCH 10/36] fix: the force on a region is integrated in the region
 that immediately surrounds it

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 41 +++++++-------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 343dbd0..ebce316 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -180,36 +180,25 @@ namespace nikfemm {
                 polygons_that_contain_integration_region.push_back(polygon);
             }
         }
-        // if there is more than one polygon that contains the integration region then we have to keep
-        // removing polygons that aren't contained by any other polygon that contains the integration region
-        // until we are left with one polygon
-        int count = 0;
-        while (polygons_that_contain_integration_region.size() > 1) {
-            for (auto polygon : polygons_that_contain_integration_region) {
-                bool is_outermost_polygon = true;
-                for (auto other_polygon : polygons_that_contain_integration_region) {
-                    if (polygon != other_polygon && polygon.contains(other_polygon)) {
-                        is_outermost_polygon = false;
-                        break;
-                    }
-                }
-                if (is_outermost_polygon) {
-                    // remove polygon from polygons_that_contain_integration_region
-                    polygons_that_contain_integration_region.erase(
-                        std::remove(polygons_that_contain_integration_region.begin(),
-                                    polygons_that_contain_integration_region.end(),
-                                    polygon),
-                        polygons_that_contain_integration_region.end());
+        // the boundary region is the innermost of them, i.e. the one that does not contain any of the others
+        bool found_boundary_region = false;
+        for (auto polygon : polygons_that_contain_integration_region) {
+            bool is_innermost_polygon = true;
+            for (auto other_polygon : polygons_that_contain_integration_region) {
+                if (polygon != other_polygon && polygon.contains(other_polygon)) {
+                    is_innermost_polygon = false;
+                    break;
                 }
             }
-            count++;
-            if (count > 100) {
-                nexit("error: could not find outermost polygon");
+            if (is_innermost_polygon) {
+                boundary_region = polygon;
+                found_boundary_region = true;
+                break;
             }
         }
-
-        // the boundary region is the polygon that is left
-        boundary_region = *polygons_that_contain_integration_region.begin();
+        if (!found_boundary_region) {
+            nexit("error: no polygon surrounds the integration region");
+        }
 
         // find the holes in the boundary region (every polygon that is contained by the boundary region but isn't contained by the integration region)
         for (auto polygon : mesh.drawing.polygons) {
-- 
2.43.0


From 8e03eba21073683c18c78930a9e0412bd654a9b8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:19:52 +0000
Subject: [PATCH 11/36] fix: the weighting function of force and torque gets
 its boundary values from both triangles of the matrix

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 90 +++++++++-----------
 1 file changed, 40 insertions(+), 50 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index ebce316..9b6e179 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -394,33 +394,28 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
-        for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
+        auto is_fixed = [&](uint32_t v) -> bool {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] || vertex_inside_integration_region_with_boundary[v];
+        };
+        auto fixed_value = [&](uint32_t v) -> double {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] ? 0 : 1;
+        };
 
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
-                }
+        for (auto& [id, value] : coo.elems) {
+            // only the upper triangle is stored, so each off diagonal element stands for two of them
+            uint32_t row = id >> 32;
+            uint32_t col = id & 0xFFFFFFFF;
+
+            if (row == col) {
+                if (is_fixed(row)) value = 1;
+            } else if (is_fixed(row) || is_fixed(col)) {
+                if (!is_fixed(row)) b[row] -= value * fixed_value(col);
+                if (!is_fixed(col)) b[col] -= value * fixed_value(row);
+                value = 0;
             }
-            val++;
+        }
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            if (is_fixed(i)) b[i] = fixed_value(i);
         }
 
         MatCSRSymmetric Ai(coo);
@@ -558,33 +553,28 @@ namespace nikfemm {
         // std::vector<double> test(mesh.data.numberofpoints, 0);
         // we have to set a 1 dirichlet boundary condition for all the vertices inside the integration region
 
-        uint32_t val = 0;
-        for (auto& [id, value] : coo.elems) {
-            uint32_t col = id >> 32;
-            uint32_t row = id & 0xFFFFFFFF;
-
-            bool col_in_zero_region = !vertex_inside_boundary_region[col] || vertex_inside_boundary_region_hole[col];
-            bool col_in_one_region = vertex_inside_integration_region_with_boundary[col];
-
-            double old_value = value;
+        auto is_fixed = [&](uint32_t v) -> bool {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] || vertex_inside_integration_region_with_boundary[v];
+        };
+        auto fixed_value = [&](uint32_t v) -> double {
+            return !vertex_inside_boundary_region[v] || vertex_inside_boundary_region_hole[v] ? 0 : 1;
+        };
 
-            if (col_in_zero_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 0;
-                } else {
-                    value = 0;
-                }
-            } else if (col_in_one_region) {
-                if (row == col) {
-                    value = 1;
-                    b[row] = 1;
-                } else {
-                    value = 0;
-                    b[row] -= old_value;
-                }
+        for (auto& [id, value] : coo.elems) {
+            // only the upper triangle is stored, so each off diagonal element stands for two of them
+            uint32_t row = id >> 32;
+            uint32_t col = id & 0xFFFFFFFF;
+
+            if (row == col) {
+                if (is_fixed(row)) value = 1;
+            } else if (is_fixed(row) || is_fixed(col)) {
+                if (!is_fixed(row)) b[row] -= value * fixed_value(col);
+                if (!is_fixed(col)) b[col] -= value * fixed_value(row);
+                value = 0;
             }
-            val++;
+        }
+        for (uint32_t i = 0; i < mesh.data.numberofpoints; i++) {
+            if (is_fixed(i)) b[i] = fixed_value(i);
         }
 
         MatCSRSymmetric Ai(coo);
-- 
2.43.0


From eb7402d3d25f5bb7d4cd32eb5fd64a659ee3ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:48 +0000
Subject: [PATCH 12/36] fix: permeability between the last two points of a BH
 curve does not read past its end

---
 lib/nikfemm/src/magnetostatic/properties.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index 05d8734..d9f37f2 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -43,7 +43,10 @@ namespace nikfemm {
             // printf("B is larger than the largest B in the curve, returning mu %.17g\n", m);
             return m;
         } else {
-            // forward difference
+            // forward difference, backward at the last point which has no successor
+            if (std::next(it) == bh_curve.end()) {
+                --it;
+            }
             double B1 = it->B;
             double H1 = it->H;
             double B2 = (++it)->B;
-- 
2.43.0


From 371b0ae90db1b658365e9c0dd0026a5e71861c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:43 +0000
Subject: [PATCH 13/36] fix: barycenter and moment of inertia are in the
 coordinates of the drawing

---
 lib/nikfemm/src/mesh/mesh.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 0b98c7e..b3959ca 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -530,7 +530,8 @@ namespace nikfemm {
             }
         }
 
-        return barycenter / area;
+        // the mesh is translated so that its center is in the origin
+        return barycenter / area + this->center;
     }
 
     template <typename Prop>
@@ -547,7 +548,7 @@ namespace nikfemm {
             if (integration_region.contains(p1) && integration_region.contains(p2) && integration_region.contains(p3)) {
                 double triangle_area = Vector::area(p1, p2, p3);
                 Vector triangle_barycenter = (p1 + p2 + p3) / 3;
-                Vector r = triangle_barycenter - center;
+                Vector r = triangle_barycenter + this->center - center;
                 moment += triangle_area * r.normSquared();
             }
         }
-- 
2.43.0


From 4eb3ab45d707eeb4409988aff2d400c99325c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:12 +0000
Subject: [PATCH 14/36] fix: the torque is about the given point in the
 coordinates of the drawing

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index 9b6e179..d416045 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -529,7 +529,7 @@ namespace nikfemm {
                 double c3 = (mesh.data.pointlist[v2].x - mesh.data.pointlist[v1].x) / area;
 
                 Vector barycenter = (mesh.data.pointlist[v1] + mesh.data.pointlist[v2] + mesh.data.pointlist[v3]) / 3;
-                Vector r = barycenter - center;
+                Vector r = barycenter + mesh.center - center;
 
                 double K1 = - r.y * 0.5 * myB.normSquared() - myB.x * (r ^ myB);
                 double K2 = r.x * 0.5 * myB.normSquared() - myB.y * (r ^ myB);
@@ -621,7 +621,7 @@ namespace nikfemm {
                 double area = Vector::area(p1, p2, p3);
 
                 Vector barycenter = (p1 + p2 + p3) / 3;
-                Vector r = barycenter - center;
+                Vector r = barycenter + mesh.center - center;
 
                 torque += ((r ^ my_nabla_g) * my_B.normSquared() * 0.5 - (r ^ my_B) * (my_B * my_nabla_g)) * area;
                 // force += (my_nabla_g * 0.5 * my_B.normSquared() - my_B * (my_nabla_g * my_B)) * area;
-- 
2.43.0


From 66baf5c7d616d60e1d3d957b87bc94fe054b75a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:56 +0000
Subject: [PATCH 15/36] fix: BH_Point inequality is declared and used to be
 undefined

---
 lib/nikfemm/src/magnetostatic/properties.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/nikfemm/src/magnetostatic/properties.cpp b/lib/nikfemm/src/magnetostatic/properties.cpp
index d9f37f2..5043875 100644
--- a/lib/nikfemm/src/magnetostatic/properties.cpp
+++ b/lib/nikfemm/src/magnetostatic/properties.cpp
@@ -6,6 +6,10 @@ namespace nikfemm {
         return this->B == p.B && this->H == p.H;
     }
 
+    bool BH_Point::operator!=(const BH_Point& p) const {
+        return !(*this == p);
+    }
+
     bool MagnetostaticProp::isLinear() const {
         return bh_curve.size() == 0;
     }
-- 
2.43.0


From a18940d903ccda015dc6c60e0e5e66f0b01b972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:21 +0000
Subject: [PATCH 16/36] fix: an interconnection of resistance R is a resistor
 of R ohms, also when several join the same nodes

---
 .../src/current_density/multilayer_simulation.cpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index f76d258..2d3e504 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -221,15 +221,20 @@ namespace nikfemm {
             uint64_t m2 = interconnection.node2_id + offsets[interconnection.mesh2_id];
             double R = interconnection.R;
 
+            // a resistor between a node and itself carries no current
+            if (m1 == m2) {
+                continue;
+            }
+
             // 1.
-            merged_system.A(m1, m1) += 2/R;
-            merged_system.A(m2, m2) += 2/R;
+            merged_system.A(m1, m1) += 1/R;
+            merged_system.A(m2, m2) += 1/R;
 
             // 2.
             if (m1 >= m2) {
-                merged_system.A(m2, m1) = -2/R;
+                merged_system.A(m2, m1) -= 1/R;
             } else {
-                merged_system.A(m1, m2) = -2/R;
+                merged_system.A(m1, m2) -= 1/R;
             }
         }
 
-- 
2.43.0


From 2a8366a456b3582a793ecd23f7c8099e9aae5b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:05 +0000
Subject: [PATCH 17/36] fix: drawing a point that is in the drawing already
 does not add it again

---
 lib/nikfemm/src/drawing/drawing.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index ac696bd..d892004 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -261,6 +261,12 @@ namespace nikfemm {
 
     template <typename Prop>
     void Drawing<Prop>::drawPoint(Vector p) {
+        // the point may be in the drawing already
+        for (uint32_t i = 0; i < points.size(); i++) {
+            if (points[i] == p) {
+                return;
+            }
+        }
         points.push_back(p);
     }
 
-- 
2.43.0


From 3b6ea79fc2d6261057c4a0296a4f50491f44bcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:09 +0000
Subject: [PATCH 18/36] fix: the switch string of the triangulator fits for any
 maximum triangle area

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index b3959ca..a3ff9e7 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -216,8 +216,8 @@ namespace nikfemm {
             i++;
         }
         // printf("----------------------\n");
-        char switches[42];
-        sprintf(switches, "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        char switches[400];  // %.17f of the largest double takes 327 characters
+        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
-- 
2.43.0


From e931431ea4597ccb422c9c078626778db2c10b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 19/36] fix: the triangulator adds no boundary vertices where
 the Kelvin exterior is attached

---
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 +-
 lib/nikfemm/src/mesh/mesh.hpp                | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index d416045..da79f51 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -73,7 +73,7 @@ namespace nikfemm {
             mesh.drawing.addRefiningPoints();
         }
 
-        mesh.mesh(max_triangle_area, min_angle);
+        mesh.mesh(max_triangle_area, min_angle, true);  // the boundary is shared with the Kelvin exterior
         // mesh.plot();
         mesh.addKelvinBoundaryConditions(boundary_points);
         mesh.computeEpsilon();
diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index a3ff9e7..832246f 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -105,7 +105,7 @@ namespace nikfemm {
 
         ~Mesh();
 
-        void mesh(double max_triangle_area = 1.0, int min_angle = 33);
+        void mesh(double max_triangle_area = 1.0, int min_angle = 33, bool keep_boundary = false);
         void addKelvinBoundaryConditions(uint32_t boundary_points);
         void kelvinTransformCentered();
         void computeEpsilon();
@@ -170,7 +170,7 @@ namespace nikfemm {
     }
 
     template <typename Prop>
-    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle) {
+    void Mesh<Prop>::mesh(double max_triangle_area, int min_angle, bool keep_boundary) {
         triangulateio in;
 
         /* set up the input */
@@ -217,7 +217,7 @@ namespace nikfemm {
         }
         // printf("----------------------\n");
         char switches[400];  // %.17f of the largest double takes 327 characters
-        snprintf(switches, sizeof(switches), "pzq%dAQa%.17f", min_angle, max_triangle_area);
+        snprintf(switches, sizeof(switches), "pzq%dAQ%sa%.17f", min_angle, keep_boundary ? "Y" : "", max_triangle_area);
         
 
         /* Make necessary initializations so that Triangle can return a */
@@ -291,7 +291,8 @@ namespace nikfemm {
         // add region near the edge of the circle
         kelvin_mesh.drawing.drawRegion(Vector(0, 0), default_prop);
 
-        kelvin_mesh.mesh();
+        // both meshes keep the vertices of the circle, and only those, on their boundary: they must match one to one
+        kelvin_mesh.mesh(1.0, 33, true);
         kelvin_mesh.center = Vector(0, 0);
         kelvin_mesh.radius = radius;
 
-- 
2.43.0


From 6403999b913eb452bb576b89afd66b177bea5eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:32 +0000
Subject: [PATCH 20/36] fix: a segment between coincident points recorded its
 point twice and a segment without length

---
 lib/nikfemm/src/drawing/drawing.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/drawing/drawing.hpp b/lib/nikfemm/src/drawing/drawing.hpp
index d892004..15e6bce 100644
--- a/lib/nikfemm/src/drawing/drawing.hpp
+++ b/lib/nikfemm/src/drawing/drawing.hpp
@@ -225,8 +225,16 @@ namespace nikfemm {
             points.push_back(p1);
         }
         if (!p2_found) {
-            p2_id = points.size();
-            points.push_back(p2);
+            if (p1 == p2) {
+                p2_id = p1_id;
+            } else {
+                p2_id = points.size();
+                points.push_back(p2);
+            }
+        }
+        if (p1_id == p2_id) {
+            // a segment without length: there is nothing to draw but its point
+            return;
         }
         
         for (auto s : segments) {
-- 
2.43.0


From 3ec10db424c00efe863cdbd16b8af49511ed0f2e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:37:19 +0000
Subject: [PATCH 21/36] fix: diagnostics pass arguments of the types their
 formats read

---
 lib/nikfemm/src/algebra/solvers.cpp                       | 6 +++---
 lib/nikfemm/src/current_density/mesh.cpp                  | 4 ++--
 lib/nikfemm/src/current_density/multilayer_simulation.cpp | 8 ++++----
 lib/nikfemm/src/magnetostatic/mesh.cpp                    | 4 ++--
 4 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/nikfemm/src/algebra/solvers.cpp b/lib/nikfemm/src/algebra/solvers.cpp
index ecf0bcc..638df0e 100644
--- a/lib/nikfemm/src/algebra/solvers.cpp
+++ b/lib/nikfemm/src/algebra/solvers.cpp
@@ -105,7 +105,7 @@ namespace nikfemm {
                 nloginfo("iteration %u, error: %.17g", i, sqrt(squareError));
             }
             if (rTrNew < maxError * maxError) {
-            nloginfo("converged after %lu iterations", i);
+            nloginfo("converged after %u iterations", i);
                 // nloginfo("x:");
                 // x.print();
                 break;
@@ -146,7 +146,7 @@ namespace nikfemm {
                 nloginfo("iteration %u, error: %.17g", i, sqrt(squareError));
             }
             if (squareError < maxError * maxError) {
-                nloginfo("converged after %lu iterations", i);
+                nloginfo("converged after %u iterations", i);
                 // nloginfo("x:");
                 // x.print();
                 break;
@@ -189,7 +189,7 @@ namespace nikfemm {
                 nloginfo("iteration %u, error: %.17g", i, sqrt(squareError));
             }
             if (squareError < maxError * maxError) {
-                nloginfo("converged after %lu iterations", i);
+                nloginfo("converged after %u iterations", i);
                 // nloginfo("x:");
                 // x.print();
                 return;
diff --git a/lib/nikfemm/src/current_density/mesh.cpp b/lib/nikfemm/src/current_density/mesh.cpp
index f7e0e98..1d9dab3 100644
--- a/lib/nikfemm/src/current_density/mesh.cpp
+++ b/lib/nikfemm/src/current_density/mesh.cpp
@@ -73,7 +73,7 @@ namespace nikfemm {
         }
 
         auto end = std::chrono::high_resolution_clock::now();
-        nloginfo("FEM matrix construction took %d ms", std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
+        nloginfo("FEM matrix construction took %ld ms", std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
 
         return system;
     }
@@ -188,7 +188,7 @@ namespace nikfemm {
         }
 
         auto end = std::chrono::high_resolution_clock::now();
-        nloginfo("FEM matrix construction took %d ms", std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
+        nloginfo("FEM matrix construction took %ld ms", std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
 
         return system;
     }
diff --git a/lib/nikfemm/src/current_density/multilayer_simulation.cpp b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
index 2d3e504..28402f5 100644
--- a/lib/nikfemm/src/current_density/multilayer_simulation.cpp
+++ b/lib/nikfemm/src/current_density/multilayer_simulation.cpp
@@ -109,7 +109,7 @@ namespace nikfemm {
         for (uint64_t i = 0; i < meshes.size(); i++) {
             meshes[i].mesh(max_triangle_area, min_angle);
             meshes[i].computeEpsilon();
-            nloginfo("Meshed layer %d with %d nodes and %d elements", i, meshes[i].data.numberofpoints, meshes[i].data.numberoftriangles);
+            nloginfo("Meshed layer %lu with %d nodes and %d elements", i, meshes[i].data.numberofpoints, meshes[i].data.numberoftriangles);
         }
 
         std::vector<System<double>> systems;
@@ -181,8 +181,8 @@ namespace nikfemm {
 
         System<double> merged_system(merged_system_size);
 
-        nloginfo("merged_system_nnz: %d", merged_system_nnz);
-        nloginfo("merged_system_size: %d", merged_system_size);
+        nloginfo("merged_system_nnz: %lu", merged_system_nnz);
+        nloginfo("merged_system_size: %lu", merged_system_size);
         merged_system.A.elems.reserve(merged_system_nnz);
 
         // merge the systems together like a block matrix
@@ -211,7 +211,7 @@ namespace nikfemm {
             offset += system_size;
         }
 
-        nloginfo("b.size(): %d", merged_system.b.size());
+        nloginfo("b.size(): %lu", merged_system.b.size());
 
         // add the interconnections to the merged system
         // method 1 (couldn't bother to get the math right)
diff --git a/lib/nikfemm/src/magnetostatic/mesh.cpp b/lib/nikfemm/src/magnetostatic/mesh.cpp
index 3b35bb9..d4dcaf3 100644
--- a/lib/nikfemm/src/magnetostatic/mesh.cpp
+++ b/lib/nikfemm/src/magnetostatic/mesh.cpp
@@ -168,7 +168,7 @@ namespace nikfemm {
             edges.insert({(uint32_t)data.trianglelist[i][2], (uint32_t)data.trianglelist[i][0]});
         }
 
-        nloginfo("number of edges: %d, predicted number of edges: %d", edges.size(), (data.numberofpoints - 2) * 3);
+        nloginfo("number of edges: %lu, predicted number of edges: %d", edges.size(), (data.numberofpoints - 2) * 3);
         
 
         for (auto edge : edges) {
@@ -189,7 +189,7 @@ namespace nikfemm {
         }
 
         auto end = std::chrono::high_resolution_clock::now();
-        nloginfo("FEM matrix construction took %d ms", std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
+        nloginfo("FEM matrix construction took %ld ms", std::chrono::duration_cast<std::chrono::milliseconds>(end - start).count());
         
 
         return system;
-- 
2.43.0


From a6f0ca1d76a8975fa7dab16a80d4c3980b041392 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:40:34 +0000
Subject: [PATCH 22/36] fix: the minimum enclosing circle does not depend on
 the global random state

---
 lib/nikfemm/src/geometry/circle.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index fe70ccb..98e96b5 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -57,10 +57,7 @@ namespace nikfemm {
             return trivialCircleFromPoints(R);
         }
 
-        uint32_t k = rand() % n;
-        Vector p = points[k];
-
-        std::swap(points[k], points[n - 1]);
+        Vector p = points[n - 1]; // the points were shuffled by the caller
         Circle c = welzlHelper(points, R, n - 1);
 
         if (c.contains(p)) {
-- 
2.43.0


From aa30d404ccfea8494098a319843ab929dc9a46cf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:41:24 +0000
Subject: [PATCH 23/36] fix: mismatched sizes raise an exception instead of
 aborting the process

---
 lib/nikfemm/src/geometry/circle.cpp          | 5 +++--
 lib/nikfemm/src/magnetostatic/simulation.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/nikfemm/src/geometry/circle.cpp b/lib/nikfemm/src/geometry/circle.cpp
index 98e96b5..b20b39e 100644
--- a/lib/nikfemm/src/geometry/circle.cpp
+++ b/lib/nikfemm/src/geometry/circle.cpp
@@ -1,5 +1,4 @@
 #include <math.h>
-#include <assert.h>
 #include <algorithm>
 #include <random>
 #include <vector>
@@ -7,6 +6,8 @@
 
 #include <constants.hpp>
 
+#include "../utils/utils.hpp"
+
 #include "circle.hpp"
 
 namespace nikfemm {
@@ -29,7 +30,7 @@ namespace nikfemm {
     }
     
     Circle Circle::trivialCircleFromPoints(std::vector<Vector> points) {
-        assert(points.size() <= 3);
+        nassert(points.size() <= 3, "a circle is defined by at most three points");
         if (points.size() == 0) {
             return Circle();
         } else if (points.size() == 1) {
diff --git a/lib/nikfemm/src/magnetostatic/simulation.cpp b/lib/nikfemm/src/magnetostatic/simulation.cpp
index da79f51..9a08678 100644
--- a/lib/nikfemm/src/magnetostatic/simulation.cpp
+++ b/lib/nikfemm/src/magnetostatic/simulation.cpp
@@ -21,7 +21,7 @@
 
 namespace nikfemm {
     void MagnetostaticSimulation::updateMu(std::vector<Vector> B, std::vector<const MagnetostaticProp*>& props, std::vector<double>& mu, double residual, uint32_t iter) {
-        assert(mu.size() == B.size());
+        nassert(mu.size() == B.size(), "one permeability per field value is needed");
         double kalman_scemo = exp(-((double)iter) / 5.);
         // printf("kalman_scemo: %.17g\n", kalman_scemo);
         // printf("exp(-(iter + 1) / 100): %.17g\n", exp(-((double)iter + 1.) / 100.));
-- 
2.43.0


From 48338e8767344d1a1710998e257941c1de70feaa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 24/36] fix: exceptions of the library left the Python methods
 and ended the interpreter

---
 python/nikfemm.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 4c193f2..00feb76 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -74,7 +74,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
         }
     }
 
-    self->simulation = new nikfemm::MultiLayerCurrentDensitySimulation(num_layers);
+    try {
+        self->simulation = new nikfemm::MultiLayerCurrentDensitySimulation(num_layers);
+    } catch (const std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        Py_XDECREF(self);
+        return NULL;
+    }
 
     for (uint32_t i = 0; i < num_layers; i++) {
         PyObject* depth_item = PyList_GetItem(depths, i);
@@ -532,14 +538,25 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
     Py_RETURN_NONE;
 }
 
+// calls a method and turns the exceptions of the library into Python exceptions
+template <PyObject* (*method)(nikfemm_MultiLayerCurrentDensitySimulation*, PyObject*, PyObject*)>
+static PyObject* guarded(PyObject* self, PyObject* args) {
+    try {
+        return method((nikfemm_MultiLayerCurrentDensitySimulation*)self, args, NULL);
+    } catch (const std::exception& e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+        return NULL;
+    }
+}
+
 static PyMethodDef nikfemm_MultiLayerCurrentDensitySimulation_methods[] = {
-    {"generate_system", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_generateSystem, METH_VARARGS, "Generate system of linear equations for current density"},
-    {"solve", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_solve, METH_VARARGS, "Solve system of linear equations for current density"},
-    {"set_voltage", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_setVoltage, METH_VARARGS, "Set voltage on a node"},
-    {"add_interconnection", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
-    {"draw_rectangle", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle, METH_VARARGS, "Draw a rectangle on a layer"},
-    {"draw_region", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawRegion, METH_VARARGS, "Draw a region on a layer"},
-    {"draw_polygon", (PyCFunction)nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon, METH_VARARGS, "Draw a polygon on a layer"},
+    {"generate_system", guarded<nikfemm_MultiLayerCurrentDensitySimulation_generateSystem>, METH_VARARGS, "Generate system of linear equations for current density"},
+    {"solve", guarded<nikfemm_MultiLayerCurrentDensitySimulation_solve>, METH_VARARGS, "Solve system of linear equations for current density"},
+    {"set_voltage", guarded<nikfemm_MultiLayerCurrentDensitySimulation_setVoltage>, METH_VARARGS, "Set voltage on a node"},
+    {"add_interconnection", guarded<nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection>, METH_VARARGS, "Add interconnection between two points in two layers with a resistance"},
+    {"draw_rectangle", guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle>, METH_VARARGS, "Draw a rectangle on a layer"},
+    {"draw_region", guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawRegion>, METH_VARARGS, "Draw a region on a layer"},
+    {"draw_polygon", guarded<nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon>, METH_VARARGS, "Draw a polygon on a layer"},
     {NULL} /* Sentinel */
 };
 
-- 
2.43.0


From 60080c34f69f5ae9a35fc518c1119789de8a2123 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 25/36] fix: Python methods read coordinates beyond the end of
 short lists

---
 python/nikfemm.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 00feb76..68c5b0e 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -275,7 +275,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the first argument of type System");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) < 2) {
             PyErr_SetString(PyExc_TypeError, "setVoltage must have the second argument of type [double, double]");
             return NULL;
         }
@@ -329,11 +329,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
         PyErr_SetString(PyExc_TypeError, "add_interconnection must have 5 arguments: [double, double], [double, double], uint64_t, uint64_t, double");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) < 2) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the first argument of type [double, double] or [int, int]");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) < 2) {
             PyErr_SetString(PyExc_TypeError, "add_interconnection must have the second argument of type [double, double] or [int, int]");
             return NULL;
         }
@@ -397,11 +397,11 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
         PyErr_SetString(PyExc_TypeError, "drawRectangle must have 3 arguments: (double, double), (double, double), uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) < 2) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the first argument of type (double, double)");
             return NULL;
         }
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 1), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 1)) < 2) {
             PyErr_SetString(PyExc_TypeError, "drawRectangle must have the second argument of type (double, double)");
             return NULL;
         }
@@ -445,7 +445,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
         PyErr_SetString(PyExc_TypeError, "drawRegion must have 3 arguments: (double, double), double, uint64_t");
         return NULL;
     } else {
-        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type)) {
+        if (!PyObject_TypeCheck(PyTuple_GetItem(args, 0), &PyList_Type) || PyList_Size(PyTuple_GetItem(args, 0)) < 2) {
             PyErr_SetString(PyExc_TypeError, "drawRegion must have the first argument of type (double, double)");
             return NULL;
         }
-- 
2.43.0


From 6c395d56400d07a0de829a238fc2b1e94f21718f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 26/36] fix: Python methods accepted layer numbers that do not
 exist

---
 python/nikfemm.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 68c5b0e..9dbd48c 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -314,6 +314,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         return NULL;
     }
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    if (layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     self->simulation->setVoltage(*system, p, V, layer_id);
 
@@ -372,6 +376,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
     uint64_t layer1_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
     uint64_t layer2_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 3));
+    if (layer1_id >= self->simulation->meshes.size() || layer2_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
     double R;
     if (PyFloat_Check(PyTuple_GetItem(args, 4))) {
         R = PyFloat_AsDouble(PyTuple_GetItem(args, 4));
@@ -430,6 +438,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
     nikfemm::Vector p1 = nikfemm::Vector(coords[0][0], coords[0][1]);
     nikfemm::Vector p2 = nikfemm::Vector(coords[1][0], coords[1][1]);
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    if (layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
@@ -476,6 +488,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
     nikfemm::Vector p = nikfemm::Vector(coords[0], coords[1]);
     double material = PyFloat_AsDouble(PyTuple_GetItem(args, 1));
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 2));
+    if (layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
@@ -529,6 +545,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         points.push_back(nikfemm::Vector(coords[0], coords[1]));
     }
     uint64_t layer_id = PyLong_AsUnsignedLong(PyTuple_GetItem(args, 1));
+    if (layer_id >= self->simulation->meshes.size()) {
+        PyErr_SetString(PyExc_IndexError, "layer out of range");
+        return NULL;
+    }
 
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
-- 
2.43.0


From d4b5397178171b62414cddbedb5b3913e9b68ed6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 27/36] fix: Python integers too large for a double were used
 after their conversion had failed

---
 python/nikfemm.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index 9dbd48c..ab57118 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -90,6 +90,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
         } else if (PyLong_Check(depth_item)) {
             // convert to double
             self->simulation->meshes[i].depth = PyLong_AsDouble(depth_item);
+            if (PyErr_Occurred()) {
+                Py_XDECREF(self);
+                return NULL;
+            }
         } else {
             PyErr_SetString(PyExc_TypeError, "depth must be a double");
             Py_XDECREF(self);
@@ -139,6 +143,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         default:
             break;
     }
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     auto system = self->simulation->generateSystem(PyLong_AsLong(refine), max_triangle_area, min_angle);
 
     nikfemm_System* py_system = (nikfemm_System*)PyObject_CallObject((PyObject*)&nikfemm_SystemType, NULL);
@@ -319,6 +326,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
         return NULL;
     }
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     self->simulation->setVoltage(*system, p, V, layer_id);
 
     // printf("setVoltage: p = (%f, %f), V = %f, layer_id = %lu\n", p.x, p.y, V, layer_id);
@@ -392,6 +402,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_add_interconnection(
 
     // printf("add_interconnection: p1 = (%f, %f), p2 = (%f, %f), layer1_id = %lu, layer2_id = %lu, R = %f\n", p1.x, p1.y, p2.x, p2.y, layer1_id, layer2_id, R);
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     // add interconnection
     self->simulation->interconnections.push_back({p1, p2, layer1_id, layer2_id, R});
 
@@ -443,6 +456,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRectangle(nikfem
         return NULL;
     }
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     // draw rectangle
     self->simulation->meshes[layer_id].drawing.drawRectangle(p1, p2);
 
@@ -493,6 +509,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawRegion(nikfemm_M
         return NULL;
     }
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     // draw region
     self->simulation->meshes[layer_id].drawing.drawRegion(p, {material});
 
@@ -550,6 +569,9 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_drawPolygon(nikfemm_
         return NULL;
     }
 
+    if (PyErr_Occurred()) {
+        return NULL;
+    }
     // draw polygon
     self->simulation->meshes[layer_id].drawing.drawPolygon(points);
 
-- 
2.43.0


From 3190eaf7e4a14ad36a71786bd81320430512bbcd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 28/36] fix: a System object that holds no system was used

---
 python/nikfemm.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index ab57118..eb61ee7 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -210,6 +210,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     }
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the system was not generated by generate_system");
+        return NULL;
+    }
     std::vector<double> V = self->simulation->solve(*system);
     std::vector<double> P = self->simulation->computePowerDensity(V);
 
@@ -297,6 +301,10 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_setVoltage(nikfemm_M
     }
 
     nikfemm::System<double>* system = ((nikfemm_System*)PyTuple_GetItem(args, 0))->system;
+    if (system == NULL) {
+        PyErr_SetString(PyExc_ValueError, "the system was not generated by generate_system");
+        return NULL;
+    }
     double coords[2];
     for (int i = 0; i < 2; i++) {
         PyObject* item = PyList_GetItem(PyTuple_GetItem(args, 1), i);
-- 
2.43.0


From 7e54786852771e31cbf11aec54a2fa2db67af35d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 29/36] fix: the Python constructor asked a non-list for its
 length and used a failed allocation

---
 python/nikfemm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index eb61ee7..cefd40a 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -57,7 +57,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
 
     if (self != NULL) {
         if (PyTuple_Size(args) == 2) {
-            if (!PyArg_ParseTuple(args, "IO", &num_layers, &depths)) {
+            if (!PyArg_ParseTuple(args, "IO!", &num_layers, &PyList_Type, &depths)) {
                 Py_XDECREF(self);
                 return NULL;
             }
@@ -72,6 +72,8 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_new(PyTypeObject* ty
             Py_XDECREF(self);
             return NULL;
         }
+    } else {
+        return NULL;
     }
 
     try {
-- 
2.43.0


From 1a283a8881fe3d17ca1c0922111648d9c96abfdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 30/36] fix: every object packed into a Python result leaked a
 reference

---
 python/nikfemm.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index cefd40a..ebc70b5 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -161,6 +161,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
         py_system->system = new nikfemm::System(system);
     } catch (std::exception& e) {
         PyErr_SetString(PyExc_RuntimeError, e.what());
+        Py_DECREF(py_system);
         return NULL;
     }
 
@@ -177,7 +178,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         PyObject* mytriangles = PyList_New(self->simulation->meshes[i].data.numberoftriangles);
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(3, PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
+            PyObject* triangle = Py_BuildValue("(NNN)", PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i]));
             PyList_SetItem(mytriangles, j, triangle);
@@ -189,13 +190,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_generateSystem(nikfe
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* vertex = PyTuple_Pack(2, PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
+            PyObject* vertex = Py_BuildValue("(NN)", PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
                                               PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y));
             PyList_SetItem(vertices, j + layer_offsets[i], vertex);
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, (PyObject*)py_system, triangles, vertices);
+    PyObject* result = Py_BuildValue("(NNN)", (PyObject*)py_system, triangles, vertices);
 
     return (PyObject*)result;
 }
@@ -233,7 +234,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberofpoints; j++) {
-            PyObject* voltage = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
+            PyObject* voltage = Py_BuildValue("(NNNN)", PyLong_FromUnsignedLong(i), 
                                                 PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].x),
                                                 PyFloat_FromDouble(self->simulation->meshes[i].data.pointlist[j].y), 
                                                 PyFloat_FromDouble(V[j + layer_offsets[i]]));
@@ -247,7 +248,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
     PyObject* power_densities = PyList_New(P.size());
 
     for (uint64_t i = 0; i < P.size(); i++) {
-        PyObject* power_density = PyTuple_Pack(2, PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
+        PyObject* power_density = Py_BuildValue("(NN)", PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
         PyList_SetItem(power_densities, i, power_density);
     }
 
@@ -265,7 +266,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
         for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
-            PyObject* triangle = PyTuple_Pack(4, PyLong_FromUnsignedLong(i), 
+            PyObject* triangle = Py_BuildValue("(NNNN)", PyLong_FromUnsignedLong(i), 
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][0] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][1] + layer_offsets[i]),
                                                  PyLong_FromUnsignedLong(self->simulation->meshes[i].data.trianglelist[j][2] + layer_offsets[i])
@@ -274,7 +275,7 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
         }
     }
 
-    PyObject* result = PyTuple_Pack(3, voltages, triangles, power_densities);
+    PyObject* result = Py_BuildValue("(NNN)", voltages, triangles, power_densities);
 
     return result;
 }
-- 
2.43.0


From 34d623b32a8490dc26469a7261c8133c04beddd6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:08:43 +0000
Subject: [PATCH 31/36] fix: Python power densities carried the triangle number
 instead of their layer

---
 python/nikfemm.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/nikfemm.cpp b/python/nikfemm.cpp
index ebc70b5..34bf8a6 100644
--- a/python/nikfemm.cpp
+++ b/python/nikfemm.cpp
@@ -247,9 +247,13 @@ static PyObject* nikfemm_MultiLayerCurrentDensitySimulation_solve(nikfemm_MultiL
 
     PyObject* power_densities = PyList_New(P.size());
 
-    for (uint64_t i = 0; i < P.size(); i++) {
-        PyObject* power_density = Py_BuildValue("(NN)", PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[i]));
-        PyList_SetItem(power_densities, i, power_density);
+    uint64_t power_offset = 0;
+    for (uint64_t i = 0; i < self->simulation->meshes.size(); i++) {
+        for (uint64_t j = 0; j < self->simulation->meshes[i].data.numberoftriangles; j++) {
+            PyObject* power_density = Py_BuildValue("(NN)", PyLong_FromUnsignedLong(i), PyFloat_FromDouble(P[power_offset + j]));
+            PyList_SetItem(power_densities, power_offset + j, power_density);
+        }
+        power_offset += self->simulation->meshes[i].data.numberoftriangles;
     }
 
     // create list of tuples like this with the triangles: [(int, int, int, int), ...]
-- 
2.43.0


From 4bc5d540c556d21e95bfc56503d502d7e34ec4a9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:01:16 +0000
Subject: [PATCH 32/36] fix: plotting nodes never ended when more than 255
 triangles meet at a node

The 8-bit loop counter wrapped before reaching the number of points.
---
 lib/nikfemm/src/mesh/mesh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 832246f..a8fb7ac 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -652,7 +652,7 @@ namespace nikfemm {
             
             // find the center of the points
             cv::Point center = {0, 0};
-            for (uint8_t j = 0; j < points.size(); j++) {
+            for (uint32_t j = 0; j < points.size(); j++) {
                 center.x += points[j].x;
                 center.y += points[j].y;
             }
-- 
2.43.0


From 757e683ee94eb50bfe9480ffa0417222558413d3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:10:13 +0000
Subject: [PATCH 33/36] fix: adding or subtracting a permeability expression to
 itself traversed the terms it was appending to

---
 lib/nikfemm/src/algebra/non_linear.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/nikfemm/src/algebra/non_linear.hpp b/lib/nikfemm/src/algebra/non_linear.hpp
index dfaa115..75b1457 100644
--- a/lib/nikfemm/src/algebra/non_linear.hpp
+++ b/lib/nikfemm/src/algebra/non_linear.hpp
@@ -45,8 +45,9 @@ namespace nikfemm {
 
         NonLinearExpression& operator+=(const NonLinearExpression& other) {
             constant += other.constant;
-            for (auto const& term : other.terms) {
-                terms.push_back(term);
+            const size_t n = other.terms.size(); // other may be this very expression
+            for (size_t i = 0; i < n; i++) {
+                terms.push_back(NonLinearTerm(other.terms[i]));
             }
             return *this;
         }
@@ -63,8 +64,9 @@ namespace nikfemm {
 
         NonLinearExpression& operator-=(const NonLinearExpression& other) {
             constant -= other.constant;
-            for (auto const& term : other.terms) {
-                terms.push_back(NonLinearTerm{-term.linear_coefficient, term.nonlinear_coefficient_element_index});
+            const size_t n = other.terms.size(); // other may be this very expression
+            for (size_t i = 0; i < n; i++) {
+                terms.push_back(NonLinearTerm{-other.terms[i].linear_coefficient, other.terms[i].nonlinear_coefficient_element_index});
             }
             return *this;
         }
-- 
2.43.0


From 677605324ca29eb15c5b2e11129d4d4dd48ee1ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:08:50 +0000
Subject: [PATCH 34/36] fix: grow the marker list with the points when the
 Kelvin boundary is added

---
 lib/nikfemm/src/mesh/mesh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index a8fb7ac..b4d4347 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -337,13 +337,13 @@ namespace nikfemm {
         data.pointlist = (Vector *) realloc(data.pointlist, new_point_number * sizeof(Vector));
         // I actually don't need these
         // data.pointattributelist = (TRI_REAL *) realloc(data.pointattributelist, new_point_number * sizeof(TRI_REAL));
-        // data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
+        data.pointmarkerlist = (int *) realloc(data.pointmarkerlist, new_point_number * sizeof(int));
 
         // add kelvin mesh non boundary vertices to this mesh
         for (uint32_t i = 0; i < kelvin_mesh.data.numberofpoints; i++) {
             if (!kelvin_mesh.data.pointmarkerlist[i]) {
                 data.pointlist[data.numberofpoints] = kelvin_mesh.data.pointlist[i];
-                // data.pointmarkerlist[data.numberofpoints] = 0;
+                data.pointmarkerlist[data.numberofpoints] = 0;
                 kelvin_to_this[i] = data.numberofpoints;
                 data.numberofpoints++;
             }
-- 
2.43.0


From b5186fd938b257c1136ab0dfa9356f3647f5de05 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:08:50 +0000
Subject: [PATCH 35/36] fix: release the buffers of the earlier triangulation
 when a mesh is meshed again

---
 lib/nikfemm/src/mesh/mesh.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index b4d4347..1c4caa9 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -104,6 +104,7 @@ namespace nikfemm {
         Drawing<Prop> drawing;
 
         ~Mesh();
+        void releaseData();
 
         void mesh(double max_triangle_area = 1.0, int min_angle = 33, bool keep_boundary = false);
         void addKelvinBoundaryConditions(uint32_t boundary_points);
@@ -134,6 +135,11 @@ namespace nikfemm {
 
     template <typename Prop>
     Mesh<Prop>::~Mesh() {
+        releaseData();
+    }
+
+    template <typename Prop>
+    void Mesh<Prop>::releaseData() {
         // we don't know how triangle allocated the memory
         if (data.pointlist != nullptr) free(data.pointlist);
         if (data.pointattributelist != nullptr) free(data.pointattributelist);
@@ -146,6 +152,7 @@ namespace nikfemm {
         if (data.holelist != nullptr) free(data.holelist);
         if (data.edgelist != nullptr) free(data.edgelist);
         if (data.edgemarkerlist != nullptr) free(data.edgemarkerlist);
+        data = MeshData();
     }
 
     template <typename Prop>
@@ -223,6 +230,9 @@ namespace nikfemm {
         /* Make necessary initializations so that Triangle can return a */
         /*   triangulation in `mid' and a voronoi diagram in `vorout'.  */
 
+        // release the buffers of an earlier triangulation
+        releaseData();
+
         data.pointlist = (Vector *) NULL;            /* Not needed if -N switch used. */
         /* Not needed if -N switch used or number of point attributes is zero: */
         data.pointattributelist = (TRI_REAL *) NULL;
-- 
2.43.0


From fdda3a4f54e0c8b6c5d831de98bb10d036be6cee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 07:08:50 +0000
Subject: [PATCH 36/36] fix: copies of a mesh own their buffers

---
 lib/nikfemm/src/mesh/mesh.hpp | 46 +++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/lib/nikfemm/src/mesh/mesh.hpp b/lib/nikfemm/src/mesh/mesh.hpp
index 1c4caa9..5125e56 100644
--- a/lib/nikfemm/src/mesh/mesh.hpp
+++ b/lib/nikfemm/src/mesh/mesh.hpp
@@ -2,7 +2,10 @@
 #define NIK_VIRTUAL_MESH_HPP
 
 #include <cstdint>
+#include <cstdlib>
+#include <cstring>
 #include <map>
+#include <utility>
 
 #include "../algebra/coo.hpp"
 #include "../algebra/math.hpp"
@@ -103,6 +106,9 @@ namespace nikfemm {
         MeshData data;
         Drawing<Prop> drawing;
 
+        Mesh() = default;
+        Mesh(const Mesh& other);
+        Mesh& operator=(Mesh other);
         ~Mesh();
         void releaseData();
 
@@ -133,6 +139,46 @@ namespace nikfemm {
 #endif
     };
 
+    // a copy of n elements of a buffer
+    template <typename T>
+    T* copyBuffer(const T* buffer, size_t n) {
+        if (buffer == nullptr) return nullptr;
+        T* copy = (T*)malloc(n * sizeof(T));
+        if (n > 0) memcpy(copy, buffer, n * sizeof(T));
+        return copy;
+    }
+
+    template <typename Prop>
+    Mesh<Prop>::Mesh(const Mesh& other) : center(other.center), radius(other.radius), default_prop(other.default_prop), epsilon(other.epsilon), depth(other.depth), data(other.data), drawing(other.drawing) {
+        // each mesh owns its buffers
+        data.pointlist = copyBuffer(other.data.pointlist, other.data.numberofpoints);
+        data.pointattributelist = nullptr;
+        data.pointmarkerlist = copyBuffer(other.data.pointmarkerlist, other.data.numberofpoints);
+        data.trianglelist = copyBuffer(other.data.trianglelist, other.data.numberoftriangles);
+        data.triangleattributelist = copyBuffer(other.data.triangleattributelist, other.data.numberoftriangles);
+        data.trianglearealist = nullptr;
+        data.neighborlist = nullptr;
+        data.segmentlist = copyBuffer(other.data.segmentlist, 2 * other.data.numberofsegments);
+        data.segmentmarkerlist = copyBuffer(other.data.segmentmarkerlist, other.data.numberofsegments);
+        data.holelist = nullptr;
+        data.regionlist = nullptr;
+        data.edgelist = nullptr;
+        data.edgemarkerlist = nullptr;
+        data.normlist = nullptr;
+    }
+
+    template <typename Prop>
+    Mesh<Prop>& Mesh<Prop>::operator=(Mesh other) {
+        center = other.center;
+        radius = other.radius;
+        default_prop = other.default_prop;
+        epsilon = other.epsilon;
+        depth = other.depth;
+        std::swap(data, other.data);
+        drawing = other.drawing;
+        return *this;
+    }
+
     template <typename Prop>
     Mesh<Prop>::~Mesh() {
         releaseData();
-- 
2.43.0

