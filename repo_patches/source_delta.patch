From a9880e152a613fa2c59fc04083feb33de3541c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 01/11] fix: UnionFind::unite must link the roots of the two
 sets

---
 include/utils/UnionFind.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utils/UnionFind.h b/include/utils/UnionFind.h
index e2d42cc..c6824b4 100644
--- a/include/utils/UnionFind.h
+++ b/include/utils/UnionFind.h
@@ -104,15 +104,15 @@ public:
         //The tree with the greatest rank becomes the parent. This creates shallower trees.
         if (rank[first_root] < rank[second_root])
         {
-            parent_index[first] = second;
+            parent_index[first_root] = second_root;
             rank[second_root] += rank[first_root];
-            return second;
+            return second_root;
         }
         else
         {
-            parent_index[second] = first;
+            parent_index[second_root] = first_root;
             rank[first_root] += rank[second_root];
-            return first;
+            return first_root;
         }
     }
 
-- 
2.43.0


From e1776582411dbcafa05faf54b289248d9c941429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 02/11] fix: AABB::distanceSquared passed the point and the
 edge end point in the wrong order

---
 src/utils/AABB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/AABB.cpp b/src/utils/AABB.cpp
index 649fbfd..9881a2a 100644
--- a/src/utils/AABB.cpp
+++ b/src/utils/AABB.cpp
@@ -67,10 +67,10 @@ coord_t AABB::distanceSquared(const Point2LL& p) const
     const Point2LL a = Point2LL(max_.X, min_.Y);
     const Point2LL b = Point2LL(min_.X, max_.Y);
     return (contains(p) ? -1 : 1)
-         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, a, p),
-                      LinearAlg2D::getDist2FromLineSegment(a, max_, p),
-                      LinearAlg2D::getDist2FromLineSegment(max_, b, p),
-                      LinearAlg2D::getDist2FromLineSegment(b, min_, p) });
+         * std::min({ LinearAlg2D::getDist2FromLineSegment(min_, p, a),
+                      LinearAlg2D::getDist2FromLineSegment(a, p, max_),
+                      LinearAlg2D::getDist2FromLineSegment(max_, p, b),
+                      LinearAlg2D::getDist2FromLineSegment(b, p, min_) });
 }
 
 coord_t AABB::distanceSquared(const AABB& other) const
-- 
2.43.0


From 069b69ae25c71bc63de8fd88962149a80344a7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 03/11] fix: LinearAlg2D::getClosestConnection projected the
 wrong end point

---
 src/utils/linearAlg2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/linearAlg2D.cpp b/src/utils/linearAlg2D.cpp
index ef1a8be..f122764 100644
--- a/src/utils/linearAlg2D.cpp
+++ b/src/utils/linearAlg2D.cpp
@@ -135,7 +135,7 @@ std::pair<Point2LL, Point2LL> LinearAlg2D::getClosestConnection(Point2LL a1, Poi
     coord_t b2_on_a_dist2 = vSize2(b2_on_a - b2);
     Point2LL a1_on_b = getClosestOnLineSegment(a1, b1, b2);
     coord_t a1_on_b_dist2 = vSize2(a1_on_b - a1);
-    Point2LL a2_on_b = getClosestOnLineSegment(a1, b1, b2);
+    Point2LL a2_on_b = getClosestOnLineSegment(a2, b1, b2);
     coord_t a2_on_b_dist2 = vSize2(a2_on_b - a2);
     if (b1_on_a_dist2 < b2_on_a_dist2 && b1_on_a_dist2 < a1_on_b_dist2 && b1_on_a_dist2 < a2_on_b_dist2)
     {
-- 
2.43.0


From c2304a6711b9cc2392ea5751a7d5a6eb6d26d6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 04/11] fix: RedistributeBeadingStrategy::toString called
 itself without end

---
 src/BeadingStrategy/RedistributeBeadingStrategy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BeadingStrategy/RedistributeBeadingStrategy.cpp b/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
index ebceddf..63b6cb9 100644
--- a/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
+++ b/src/BeadingStrategy/RedistributeBeadingStrategy.cpp
@@ -63,7 +63,7 @@ double RedistributeBeadingStrategy::getTransitionAnchorPos(coord_t lower_bead_co
 
 std::string RedistributeBeadingStrategy::toString() const
 {
-    return toString() + parent_->toString();
+    return std::string("RedistributeBeadingStrategy+") + parent_->toString();
 }
 
 BeadingStrategy::Beading RedistributeBeadingStrategy::compute(coord_t thickness, coord_t bead_count) const
-- 
2.43.0


From af1da3265634cbee563720f3b9588000a43cbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:54 +0000
Subject: [PATCH 05/11] fix: Polyline::length accumulated in an int and lost
 lengths above 2^31 micron

---
 src/geometry/Polyline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/Polyline.cpp b/src/geometry/Polyline.cpp
index fcbab0f..8dab304 100644
--- a/src/geometry/Polyline.cpp
+++ b/src/geometry/Polyline.cpp
@@ -137,7 +137,7 @@ coord_t Polyline::length() const
     return std::accumulate(
         beginSegments(),
         endSegments(),
-        0,
+        coord_t{ 0 },
         [](coord_t total, const const_segments_iterator::value_type& segment)
         {
             return total + vSize(segment.end - segment.start);
-- 
2.43.0


From 4d24ea61b9e9eae9033ea3cc9783a514e4befc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 06/11] fix: writeInt2mm(0) read and could write before the
 start of its buffer

---
 include/utils/string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/string.h b/include/utils/string.h
index c26b55c..ec3ac63 100644
--- a/include/utils/string.h
+++ b/include/utils/string.h
@@ -82,7 +82,7 @@ static inline void writeInt2mm(const int32_t coord, std::ostream& ss)
 #endif // DEBUG
     int end_pos = char_count; // the first character not to write any more
     int trailing_zeros = 1;
-    while (trailing_zeros < 4 && buffer[char_count - trailing_zeros] == '0')
+    while (trailing_zeros < 4 && trailing_zeros <= char_count && buffer[char_count - trailing_zeros] == '0')
     {
         trailing_zeros++;
     }
-- 
2.43.0


From f358e03f4d19fda542371085fe297135b59049a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 07/11] fix: distance between line segments ignored segments
 that cross

---
 include/utils/linearAlg2D.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/utils/linearAlg2D.h b/include/utils/linearAlg2D.h
index 19e7671..9e7b18e 100644
--- a/include/utils/linearAlg2D.h
+++ b/include/utils/linearAlg2D.h
@@ -268,6 +268,19 @@ public:
         //         return vSize2(ab) - ax_size*ax_size; // less accurate
     }
 
+    /*!
+     * Checks whether the interiors of two line segments cross each other in a single point.
+     * The first line segment is given by end points \p a and \p b, the second by \p c and \p d.
+     */
+    static bool lineSegmentsCross(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d)
+    {
+        const coord_t c_side = pointIsLeftOfLine(c, a, b);
+        const coord_t d_side = pointIsLeftOfLine(d, a, b);
+        const coord_t a_side = pointIsLeftOfLine(a, c, d);
+        const coord_t b_side = pointIsLeftOfLine(b, c, d);
+        return ((c_side < 0 && d_side > 0) || (c_side > 0 && d_side < 0)) && ((a_side < 0 && b_side > 0) || (a_side > 0 && b_side < 0));
+    }
+
     /*!
      * Checks whether the minimal distance between two line segments is at most \p max_dist
      * The first line semgent is given by end points \p a and \p b, the second by \p c and \p d.
@@ -282,7 +295,7 @@ public:
     {
         const coord_t max_dist2 = max_dist * max_dist;
 
-        return getDist2FromLineSegment(a, c, b) <= max_dist2 || getDist2FromLineSegment(a, d, b) <= max_dist2 || getDist2FromLineSegment(c, a, d) <= max_dist2
+        return lineSegmentsCross(a, b, c, d) || getDist2FromLineSegment(a, c, b) <= max_dist2 || getDist2FromLineSegment(a, d, b) <= max_dist2 || getDist2FromLineSegment(c, a, d) <= max_dist2
             || getDist2FromLineSegment(c, b, d) <= max_dist2;
     }
 
@@ -297,6 +310,10 @@ public:
      */
     static coord_t getDist2BetweenLineSegments(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d)
     {
+        if (lineSegmentsCross(a, b, c, d))
+        {
+            return 0;
+        }
         return std::min(getDist2FromLineSegment(a, c, b), std::min(getDist2FromLineSegment(a, d, b), std::min(getDist2FromLineSegment(c, a, d), getDist2FromLineSegment(c, b, d))));
     }
 
-- 
2.43.0


From a3cc8d4b4a51203472351e816611a3efb568cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:14 +0000
Subject: [PATCH 08/11] fix: SingleShape::inside answered the opposite of
 border_result on the border of a hole

---
 src/geometry/SingleShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/geometry/SingleShape.cpp b/src/geometry/SingleShape.cpp
index 19b0702..35ff377 100644
--- a/src/geometry/SingleShape.cpp
+++ b/src/geometry/SingleShape.cpp
@@ -22,7 +22,7 @@ bool SingleShape::inside(const Point2LL& p, bool border_result) const
 
     for (unsigned int n = 1; n < size(); n++)
     {
-        if ((*this)[n].inside(p, border_result))
+        if ((*this)[n].inside(p, ! border_result)) // On the border of a hole, answer as on the outer border.
         {
             return false;
         }
-- 
2.43.0


From ad3821bea460dacc95f8fb559f63cab1db98f835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:14 +0000
Subject: [PATCH 09/11] fix: BestElementFinder compares with the best score of
 the pass, not with an element moved over it

---
 src/utils/scoring/BestElementFinder.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils/scoring/BestElementFinder.cpp b/src/utils/scoring/BestElementFinder.cpp
index c0f79cd..c328ab5 100644
--- a/src/utils/scoring/BestElementFinder.cpp
+++ b/src/utils/scoring/BestElementFinder.cpp
@@ -68,13 +68,14 @@ std::optional<size_t> cura::BestElementFinder::findBestElement(const size_t cand
         }
 
         // Skip candidates that have a score too far from the actual best one
+        const double best_score = best_candidate_iterator->score; // Copy it, since remove_if moves the candidates around
         const double delta_threshold = criteria_pass.outsider_delta_threshold + std::numeric_limits<double>::epsilon();
         end = std::remove_if(
             begin,
             end,
-            [&best_candidate_iterator, &delta_threshold](const Candidate& candidate)
+            [&best_score, &delta_threshold](const Candidate& candidate)
             {
-                return best_candidate_iterator->score - candidate.score > delta_threshold;
+                return best_score - candidate.score > delta_threshold;
             });
 
         if (std::distance(begin, end) == 1)
-- 
2.43.0


From 21d5d1c15bdbda9e9c3456958085cc99b5e93718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:09 +0000
Subject: [PATCH 10/11] fix: multiplying a point by an int cut its coordinates
 to 32 bits

---
 include/geometry/Point2LL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/geometry/Point2LL.h b/include/geometry/Point2LL.h
index afab7b4..2a5a338 100644
--- a/include/geometry/Point2LL.h
+++ b/include/geometry/Point2LL.h
@@ -63,7 +63,7 @@ INLINE Point2LL operator*(const Point2LL& p0, const coord_t i)
     return { p0.X * i, p0.Y * i };
 }
 
-template<utils::numeric T> // Use only for numeric types.
+template<utils::floating_point T> // Use only for floating point types, since casting the coordinates to a narrower integer type would overflow.
 INLINE Point2LL operator*(const Point2LL& p0, const T i)
 {
     return { std::llrint(static_cast<T>(p0.X) * i), std::llrint(static_cast<T>(p0.Y) * i) };
-- 
2.43.0


From a59cdea6b5b6f03cf4415a6de6cede070bbc970b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:20 +0000
Subject: [PATCH 11/11] fix: cool-down point after warm-up used the heating
 time per degree for the cooling part

The time to reach the printing temperature and cool down again is (mid - outer) * (heatup + cooldown), and when the
window is too short for that, the part of it spent cooling is in proportion to the cool-down time per degree.
---
 src/Preheat.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Preheat.cpp b/src/Preheat.cpp
index d9f24b2..229b0c9 100644
--- a/src/Preheat.cpp
+++ b/src/Preheat.cpp
@@ -170,9 +170,9 @@ Preheat::CoolDownResult Preheat::getCoolDownPointAfterWarmUp(double time_window,
         result.highest_temperature = std::max(temp_start, temp_end);
         return result;
     }
-    double time_ratio_cooldown_heatup = time_to_cooldown_1_degree / time_to_heatup_1_degree;
+    double time_ratio_heatup_cooldown = time_to_heatup_1_degree / time_to_cooldown_1_degree;
     double cool_down_time = getTimeToGoFromTempToTemp(extruder, temp_mid, outer_temp, during_printing);
-    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_cooldown_heatup);
+    double time_needed_to_reach_temp1 = cool_down_time * (1.0 + time_ratio_heatup_cooldown);
     if (time_needed_to_reach_temp1 < limited_time_window)
     {
         result.cooling_time += cool_down_time;
@@ -180,7 +180,7 @@ Preheat::CoolDownResult Preheat::getCoolDownPointAfterWarmUp(double time_window,
     }
     else
     {
-        result.cooling_time += limited_time_window * time_to_heatup_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
+        result.cooling_time += limited_time_window * time_to_cooldown_1_degree / (time_to_cooldown_1_degree + time_to_heatup_1_degree);
         result.highest_temperature = std::min(temp_mid, temp_end + result.cooling_time / time_to_cooldown_1_degree);
     }
 
-- 
2.43.0

