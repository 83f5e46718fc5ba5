From 4b1662d533a8363a1c606aea7acd553c07cac8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 01/19] fix: BoundingBox::ExpandToInclude(point) lost the
 previous maximum

---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From 918cfda5b0e03f1a59d99a97d2438e11437a0515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 02/19] fix: KnotVector::IsClamped compared a count with an
 index

---
 src/Core/KnotVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..c3a1c8c 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -102,9 +102,9 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count0] != 0.0) break;
     }
-    for (count1 = (int)m_Values.size() - 1; count1 >= 0; --count1)
+    for (count1 = 0; count1 < (int)m_Values.size(); ++count1)
     {
-        if (m_Values[count1] != 1.0) break;
+        if (m_Values[m_Values.size() - 1 - count1] != 1.0) break;
     }
     return count0 == count1;
 }
-- 
2.43.0


From de132e74cd1e7228b6d304d4497f818045e56232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 03/19] fix: KnotVector::GetKnotPairs reported the index of the
 next knot for all but the last pair

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index c3a1c8c..ab39e7a 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From c2ad0d7f19a23b67fbf2ac8cecd3e262459d470d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 04/19] fix: KnotVector accepted NaN knots as valid

---
 src/Core/KnotVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index ab39e7a..5aa3c50 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false;
         last_value = val;
     }
     if (last_value != 1.0) return false;
@@ -90,7 +90,7 @@ bool KnotVector::IsValid() const
     if (m_Values.back() != 1.0) return false;
     for (int i = 1; i < (int)m_Values.size(); ++i)
     {
-        if (m_Values[i] < m_Values[i - 1]) return false;
+        if (!(m_Values[i] >= m_Values[i - 1])) return false;
     }
     return true;
 }
-- 
2.43.0


From 781be506c921be0c52636246c5b2a2b0084b641e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 05/19] fix: KnotRemoval corrupted the curve when fewer knots
 than requested could be removed

---
 src/Algorithm/KnotRemoval.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..6998624 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -1,5 +1,6 @@
 #include "libnurbs/Algorithm/KnotRemoval.hpp"
 #include "libnurbs/Core/KnotVector.hpp"
+#include "libnurbs/Algorithm/MathUtils.hpp"
 
 namespace
 {
@@ -24,6 +25,8 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        double tol = CalcTOL(points, tolerance);
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -31,11 +34,19 @@ namespace libnurbs
         }
 
         auto& knots = knot_vector.Values();
+        // use the stored value of the knot, which may differ from the argument by roundoff
+        for (Numeric knot: knots)
+        {
+            if (Approx(knot, knot_remove))
+            {
+                knot_remove = knot;
+                break;
+            }
+        }
         int s = knot_vector.GetMultiplicity(knot_remove);
+        times = std::min(times, s);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
-        double tol = CalcTOL(points, tolerance);
-
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
         int order = degree + 1;
@@ -96,7 +107,14 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            for (auto& point: points)
+            {
+                point.head<3>() /= point.w();
+            }
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
@@ -110,14 +128,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
-- 
2.43.0


From faa633a33051da2803bf09a1ae15859db75ac31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 06/19] fix: Surface::RemoveKnotU/V sized the control grid by
 the requested, not the achieved, count

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..4c20a3b 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -765,7 +765,6 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
     int t = 0;
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
@@ -773,6 +772,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetV(it_v);
         int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        if (it_v == 0) points_ref = {static_cast<int>(points.size()), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
         t = t_tmp;
@@ -784,7 +784,6 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
     int t = 0;
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
@@ -792,6 +791,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetU(it_u);
         int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        if (it_u == 0) points_ref = {ControlPoints.UCount, static_cast<int>(points.size())};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
         t = t_tmp;
-- 
2.43.0


From efca7cc5eaf7ab856363eb4539302b7c1a934d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 07/19] fix: NurbsDegreeElevation overflowed its buffers on
 curves with many spans

---
 src/Algorithm/DegreeAlgo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..5a296a5 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,10 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        std::vector<Vec4> Qw((n + 1) * (times + 1));
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh(Qw.size() + ph + 1);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From c57ff385333553a5fc30a3ff52abf71c660ac33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 08/19] fix: Surface::ElevateDegreeU/V sized the control grid
 as if there were one span

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 4c20a3b..dd8d5de 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -803,13 +803,13 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
         auto knots = result.KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_v == 0) points_ref = {static_cast<int>(points.size()), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1)
         {
             result.KnotsU = knots;
@@ -824,13 +824,13 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
         auto knots = result.KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_u == 0) points_ref = {ControlPoints.UCount, static_cast<int>(points.size())};
         if (it_u == ControlPoints.UCount - 1)
         {
             result.KnotsV = knots;
-- 
2.43.0


From cb259c96854e5be99c092f1ef7ad689cfb37c691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 09/19] fix: loading a text file appended to the previous
 contents of the object

---
 src/Curve/Curve.cpp     | 1 +
 src/Surface/Surface.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..0081b02 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -88,6 +88,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
     }
 
     // TXT mode
+    *this = Curve{};
     std::string line;
     std::string current_key;
     vector<std::string> content_lines;
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index dd8d5de..53372a6 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -93,6 +93,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
     else
     {
         // Text mode
+        *this = Surface{};
         std::string line;
         std::string current_key;
         std::vector<std::string> content_lines;
-- 
2.43.0


From dcc8ffac81a8a8623a496db2eca3a24b44e78701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 10/19] fix: SaveToFile reported success when the buffered data
 could not be written

---
 src/Curve/Curve.cpp     | 1 +
 src/Surface/Surface.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 0081b02..7d0f76f 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -274,6 +274,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
+    os.flush();
     if (os.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 53372a6..53d6416 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -362,6 +362,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
+    os.flush();
     if (os.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
-- 
2.43.0


From 7b45891bdd48d2571ed750f4fe8449056af0435b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 11/19] fix: text files lost the low digits of small values

---
 src/Curve/Curve.cpp     | 2 +-
 src/Surface/Surface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 7d0f76f..97f31cf 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -254,7 +254,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         // Write textual data
         os << "*Degree: " << Degree << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         os << "*Knots:\n";
         for (size_t i = 0; i < Knots.Values().size(); ++i)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 53d6416..934bfd8 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -323,7 +323,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         os << "*DegreeU: " << DegreeU << "\n";
         os << "*DegreeV: " << DegreeV << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::scientific << std::setprecision(std::numeric_limits<double>::digits10 + 2);
 
         // Write knot vectors
         os << "*KnotsU:\n";
-- 
2.43.0


From 7b3c1ae35b12676bce2a8179f881e01b3b190749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 12/19] fix: Curve::GetBoundingBox subdivided rational curves
 in Cartesian space

---
 src/Curve/Curve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 97f31cf..dd5a923 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -591,7 +591,7 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
 
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return FromHomo(v).head<3>();
     };
 
     // if p <= 5, use static buffer
@@ -603,6 +603,10 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     for (auto& seg : segments)
     {
         stack<vector<Vec4>> stack;
+        for (auto& point : seg.ControlPoints)
+        {
+            point = ToHomo(point);
+        }
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
         {
-- 
2.43.0


From 547f80a5b83db7c84c86f53d3e75f5670f1df37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 13/19] fix: Grid::InsertU moved elements onto themselves and
 misread an aliased value

---
 include/libnurbs/Core/Grid.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..e34dcf7 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -111,6 +111,7 @@ namespace libnurbs
             assert(u_index >= 0 && u_index < UCount);
             int float_idx = UCount * VCount - 1;
             UCount += 1;
+            const T value = default_value; // may refer to an element of this grid
             Values.resize(UCount * VCount);
 
             for (int it_v = VCount - 1; it_v >= 0; --it_v)
@@ -123,11 +124,11 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                for (int i = insertion_idx - 1; i >= start_idx; --i)
+                for (int i = insertion_idx - 1; i >= start_idx; --i, --float_idx)
                 {
-                    Values[i] = std::move(Values[float_idx--]);
+                    if (i != float_idx) Values[i] = std::move(Values[float_idx]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = value;
             }
         }
     };
-- 
2.43.0


From 3e9e6a09bcac5e7f88df5435aabdb01b9aa3f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:42 +0000
Subject: [PATCH 14/19] fix: surface files whose grid dimensions overflow int
 were accepted

---
 src/Surface/Surface.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 934bfd8..d3c653c 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -77,7 +77,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
         // Read control point grid dimensions
         is.read(reinterpret_cast<char*>(&ControlPoints.UCount), sizeof(int));
         is.read(reinterpret_cast<char*>(&ControlPoints.VCount), sizeof(int));
-        if (is.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0)
+        if (is.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0 ||
+            ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
         {
             throw std::runtime_error("Failed to read control point grid dimensions.");
         }
@@ -181,7 +182,8 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
                 std::stringstream ss_dims(lines[0]);
                 ss_dims >> ControlPoints.UCount >> ControlPoints.VCount;
-                if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0)
+                if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0 ||
+                    ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
                 {
                     throw std::runtime_error("Invalid control point grid dimensions.");
                 }
-- 
2.43.0


From bfd9af40385cc67032fa2a68434efb8b1abfcd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:09 +0000
Subject: [PATCH 15/19] fix: Surface::SearchParameter returned NaN when the
 inverse Hessian estimate overflowed

---
 src/Surface/Surface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d3c653c..739c7ef 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -515,6 +515,7 @@ auto Surface::SearchParameter(const Vec3& point, Numeric init_u, Numeric init_v,
     while (!((current_residual < epsilon) || (count++ >= max_iteration_count)))
     {
         auto gk = Ki(u_last, v_last);
+        if (!(Hk * gk).allFinite()) Hk = Mat2x2::Identity();
         Vec2 uv_last = line_search(gk);
 
         Vec2 sk = uv_last - Vec2{u_last, v_last};
-- 
2.43.0


From 39108dc60b96116871282ed6238e7da0c25a5942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:32 +0000
Subject: [PATCH 16/19] fix: Approx ignored NaN components of vectors

---
 include/libnurbs/Algorithm/MathUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Algorithm/MathUtils.hpp b/include/libnurbs/Algorithm/MathUtils.hpp
index d27fa99..c11b009 100644
--- a/include/libnurbs/Algorithm/MathUtils.hpp
+++ b/include/libnurbs/Algorithm/MathUtils.hpp
@@ -21,7 +21,7 @@ namespace libnurbs
                 const Eigen::MatrixBase<Derived>& v2,
                 double epsilon = 1e-6)
     {
-        return (v1 - v2).cwiseAbs().maxCoeff() < epsilon;
+        return ((v1 - v2).cwiseAbs().array() < epsilon).all();
     }
 
     inline int Binomial(int n, int k)
-- 
2.43.0


From cdf342733e8d507957a67303c344bce74ff62acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:19:19 +0000
Subject: [PATCH 17/19] fix: knot removal must not produce control points with
 a non-positive weight

---
 src/Algorithm/KnotRemoval.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 6998624..f3e94ab 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -92,6 +92,18 @@ namespace libnurbs
             }
             if (dist > tol) break;
 
+            // a control point with a non-positive weight has no finite position
+            bool positive = true;
+            i = first;
+            j = last;
+            while (j - i > t)
+            {
+                positive = positive && temp[i - off].w() > 0.0 && temp[j - off].w() > 0.0;
+                i = i + 1;
+                j = j - 1;
+            }
+            if (!positive) break;
+
             i = first;
             j = last;
             while (j - i > t)
-- 
2.43.0


From 0dcec7a974ce6fb49cee5eaae2dcdc354c89700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:51 +0000
Subject: [PATCH 18/19] fix: saved files must not depend on the locale or the
 formatting of the stream

---
 src/Curve/Curve.cpp         | 15 ++++++++++++---
 src/Surface/Surface.cpp     | 18 +++++++++++++++---
 src/Utils/Serialization.cpp |  1 +
 3 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index dd5a923..150ca0a 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <fstream>
 #include <iomanip>
+#include <sstream>
 #include <stack>
 #include <mdspan>
 
@@ -102,6 +103,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
                 throw std::runtime_error("Degree should have exactly one value line.");
             }
             std::stringstream ss(lines[0]);
+            ss.imbue(std::locale::classic());
             ss >> Degree;
             if (ss.fail())
             {
@@ -121,6 +123,7 @@ Curve& Curve::LoadFromFile(std::istream& is)
                     {
                         Numeric knot;
                         std::stringstream num_stream(token);
+                        num_stream.imbue(std::locale::classic());
                         num_stream >> knot;
                         if (num_stream.fail())
                         {
@@ -221,8 +224,12 @@ void Curve::SaveToFile(const std::string& filename, bool binary_mode) const
     SaveToFile(file, binary_mode);
 }
 
-void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
+void Curve::SaveToFile(std::ostream& out, bool binary_mode) const
 {
+    // The content must not depend on the locale or the formatting of the stream
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+
     // Write header
     os << LIBNURBS_MAGIC << " " << (binary_mode ? "BIN" : "TXT") << " CURVE\n";
 
@@ -274,8 +281,10 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
-    os.flush();
-    if (os.fail())
+    const std::string content = os.str();
+    out.write(content.data(), static_cast<std::streamsize>(content.size()));
+    out.flush();
+    if (out.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
     }
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 739c7ef..b56cbbf 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -2,6 +2,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <sstream>
 
 #include "libnurbs/Algorithm/DegreeAlgo.hpp"
 #include "libnurbs/Algorithm/KnotRemoval.hpp"
@@ -108,6 +109,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                     throw std::runtime_error("DegreeU should have exactly one value line.");
                 }
                 std::stringstream ss(lines[0]);
+                ss.imbue(std::locale::classic());
                 ss >> DegreeU;
                 if (ss.fail())
                 {
@@ -121,6 +123,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                     throw std::runtime_error("DegreeV should have exactly one value line.");
                 }
                 std::stringstream ss(lines[0]);
+                ss.imbue(std::locale::classic());
                 ss >> DegreeV;
                 if (ss.fail())
                 {
@@ -140,6 +143,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                         {
                             Numeric knot;
                             std::stringstream num_stream(token);
+                            num_stream.imbue(std::locale::classic());
                             num_stream >> knot;
                             if (num_stream.fail())
                             {
@@ -163,6 +167,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                         {
                             Numeric knot;
                             std::stringstream num_stream(token);
+                            num_stream.imbue(std::locale::classic());
                             num_stream >> knot;
                             if (num_stream.fail())
                             {
@@ -181,6 +186,7 @@ Surface& Surface::LoadFromFile(std::istream& is)
                     throw std::runtime_error("ControlPoints section missing grid dimensions.");
                 }
                 std::stringstream ss_dims(lines[0]);
+                ss_dims.imbue(std::locale::classic());
                 ss_dims >> ControlPoints.UCount >> ControlPoints.VCount;
                 if (ss_dims.fail() || ControlPoints.UCount <= 0 || ControlPoints.VCount <= 0 ||
                     ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
@@ -281,8 +287,12 @@ void Surface::SaveToFile(const std::string& filename, bool binary_mode) const
 }
 
 
-void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
+void Surface::SaveToFile(std::ostream& out, bool binary_mode) const
 {
+    // The content must not depend on the locale or the formatting of the stream
+    std::ostringstream os;
+    os.imbue(std::locale::classic());
+
     // Write header
     os << LIBNURBS_MAGIC << " " << (binary_mode ? "BIN" : "TXT") << " SURFACE\n";
 
@@ -364,8 +374,10 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
-    os.flush();
-    if (os.fail())
+    const std::string content = os.str();
+    out.write(content.data(), static_cast<std::streamsize>(content.size()));
+    out.flush();
+    if (out.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
     }
diff --git a/src/Utils/Serialization.cpp b/src/Utils/Serialization.cpp
index d0b31cf..cb76386 100644
--- a/src/Utils/Serialization.cpp
+++ b/src/Utils/Serialization.cpp
@@ -32,6 +32,7 @@ namespace libnurbs::Utils
     void ReadVec4FromText(Vec4& vec, const std::string& text)
     {
         std::stringstream ss(text);
+        ss.imbue(std::locale::classic());
         ss >> vec.x() >> vec.y() >> vec.z() >> vec.w();
         if (ss.fail())
         {
-- 
2.43.0


From d5f6586dc15c0a5dbbc90274f64a5bde68c8ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:07 +0000
Subject: [PATCH 19/19] fix: binomial coefficients overflowed int (derivatives
 of order 30 and above, mixed orders of 18, elevation to degree 30)

---
 include/libnurbs/Algorithm/MathUtils.hpp | 5 +++--
 src/Surface/Surface.cpp                  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/libnurbs/Algorithm/MathUtils.hpp b/include/libnurbs/Algorithm/MathUtils.hpp
index c11b009..18283a4 100644
--- a/include/libnurbs/Algorithm/MathUtils.hpp
+++ b/include/libnurbs/Algorithm/MathUtils.hpp
@@ -24,9 +24,10 @@ namespace libnurbs
         return ((v1 - v2).cwiseAbs().array() < epsilon).all();
     }
 
-    inline int Binomial(int n, int k)
+    // exact up to n = 50; an int would overflow from n = 30 on
+    inline double Binomial(int n, int k)
     {
-        int result = 1;
+        double result = 1;
         if (k > n)
             return 0;
         for (int i = 1; i <= k; i++)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index b56cbbf..82234dc 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -445,7 +445,7 @@ Grid<Vec3> Surface::EvaluateAll(Numeric u, Numeric v, int order_u, int order_v)
 
             for (int i = 1; i <= ou; ++i)
             {
-                const int bi = Binomial(ou, i);
+                const Numeric bi = Binomial(ou, i);
                 for (int j = 1; j <= ov; ++j)
                 {
                     Numeric Wders = homo_ders.Get(i, j).w();
-- 
2.43.0

