From beebf399eb55d3cfc526357169b2a8a27895c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 001/120] fix: divide by the squared edge length in EPA's
 origin-to-edge distance

The distance of the origin to the line through a and b is
|a x b| / |b - a|; the division by |b - a| was missing, so EPA picked the
wrong face to expand and to report: penetration depths of the GST_INDEP
solver were off by as much as the size of the shapes.
---
 .../fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index e9c667d..7125586 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -145,7 +145,7 @@ bool EPA<S>::getEdgeDist(SimplexF* face, SimplexV* a, SimplexV* b, S& dist)
     else
     {
       S a_dot_b = a->w.dot(b->w);
-      dist = std::sqrt(std::max(a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b, (S)0));
+      dist = std::sqrt(std::max((a->w.squaredNorm() * b->w.squaredNorm() - a_dot_b * a_dot_b) / ba.squaredNorm(), (S)0));
     }
 
     return true;
-- 
2.43.0


From e6e1c5c35c8b0ebc78e3ef191c7803194fc441e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 002/120] fix: report GST_INDEP contacts in world frame with
 positive depth

EPA's normal is expressed in the first shape's frame and its depth is the
positive penetration depth. Contact promises a world-space normal from o1
to o2 and a penetration depth, which is what the analytic routines and
GJKSolver_libccd report; rotate the normal and drop the sign flips.
---
 .../fcl/narrowphase/detail/gjk_solver_indep-inl.h    | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index fd78927..ba353e1 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -147,9 +147,9 @@ struct ShapeIntersectIndepImpl
           }
           if(contacts)
           {
-            Vector3<S> normal = epa.normal;
+            Vector3<S> normal = tf1.linear() * epa.normal;
             Vector3<S> point = tf1 * (w0 - epa.normal*(epa.depth *0.5));
-            S depth = -epa.depth;
+            S depth = epa.depth;
             contacts->emplace_back(normal, point, depth);
           }
           return true;
@@ -391,8 +391,8 @@ struct ShapeTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) normal->noalias() = tf.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
@@ -488,8 +488,8 @@ struct ShapeTransformedTriangleIntersectIndepImpl
           {
             w0.noalias() += shape.support(epa.result.c[i]->d, 0) * epa.result.p[i];
           }
-          if(penetration_depth) *penetration_depth = -epa.depth;
-          if(normal) *normal = -epa.normal;
+          if(penetration_depth) *penetration_depth = epa.depth;
+          if(normal) normal->noalias() = tf1.linear() * epa.normal;
           if(contact_points) (*contact_points).noalias() = tf1 * (w0 - epa.normal*(epa.depth *0.5));
           return true;
         }
-- 
2.43.0


From 121296747c697fe59d5a4959974dea31eff35c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:54 +0000
Subject: [PATCH 003/120] fix: take the closest triangle edge in
 sphere-triangle intersection

When the sphere reached more than one edge the last edge tested supplied
the contact point, normal and depth, whichever was closest to the centre.
---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 0078900..277d81d 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -174,6 +174,7 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        contact_capsule_radius_sqr = distance_sqr;
       }
 
       distance_sqr = segmentSqrDistance(P2, P3, center, nearest_on_edge);
@@ -181,6 +182,7 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
       {
         has_contact = true;
         contact_point = nearest_on_edge;
+        contact_capsule_radius_sqr = distance_sqr;
       }
 
       distance_sqr = segmentSqrDistance(P3, P1, center, nearest_on_edge);
-- 
2.43.0


From 7348cf7adc8c127c2ac59c046f0db573dd698cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:38 +0000
Subject: [PATCH 004/120] fix: report sphere-triangle penetration as a positive
 depth

---
 .../detail/primitive_shape_algorithm/sphere_triangle-inl.h    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 277d81d..3736e89 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -206,13 +206,13 @@ bool sphereTriangleIntersect(const Sphere<S>& s, const Transform3<S>& tf,
         S distance = std::sqrt(distance_sqr);
         if(normal_) *normal_ = contact_to_center.normalized();
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -(radius - distance);
+        if(penetration_depth) *penetration_depth = radius - distance;
       }
       else
       {
         if(normal_) *normal_ = -normal;
         if(contact_points) *contact_points = contact_point;
-        if(penetration_depth) *penetration_depth = -radius;
+        if(penetration_depth) *penetration_depth = radius;
       }
 
       return true;
-- 
2.43.0


From 7bdb4ea0a730840ee32cd10c65fee04eab2324a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:42 +0000
Subject: [PATCH 005/120] fix: treat only axis-parallel cones as such in
 cone-halfspace intersection

A cone whose axis points into the halfspace (cosa < 0) took the branch for
an axis parallel to the boundary plane, which ignores the tilt: hits were
missed and depths wrong by up to the cone's size.
---
 .../detail/primitive_shape_algorithm/halfspace-inl.h            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 09a86f5..29cde8d 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -441,7 +441,7 @@ bool coneHalfspaceIntersect(const Cone<S>& s1, const Transform3<S>& tf1,
   Vector3<S> dir_z = R.col(2);
   S cosa = dir_z.dot(new_s2.n);
 
-  if(cosa < halfspaceIntersectTolerance<S>())
+  if(std::abs(cosa) < halfspaceIntersectTolerance<S>())
   {
     S signed_dist = new_s2.signedDistance(T);
     S depth = s1.radius - signed_dist;
-- 
2.43.0


From bccdeecfb8cf770164f698071811089aa1f8cc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 006/120] fix: let GJK re-add a support vertex it dropped
 earlier

GJK<S>::evaluate stopped whenever a new support point was close to one of
the last four, even when that vertex had left the simplex and was needed
again. It then returned a wrong distance (off by centimetres on metre-size
polytopes) and sometimes missed an overlap. Compare with the vertices of
the current simplex only.
---
 .../detail/convexity_based_algorithm/gjk-inl.h     | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index fa01dc3..831cbbe 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -83,8 +83,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 {
   size_t iterations = 0;
   S alpha = 0;
-  Vector3<S> lastw[4];
-  size_t clastw = 0;
 
   free_v[0] = &store_v[0];
   free_v[1] = &store_v[1];
@@ -102,7 +100,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
   appendVertex(simplices[0], (ray.squaredNorm() > 0) ? (-ray).eval() : Vector3<S>::UnitX());
   simplices[0].p[0] = 1;
   ray = simplices[0].c[0]->w;
-  lastw[0] = lastw[1] = lastw[2] = lastw[3] = ray; // cache previous support points, the new support point will compare with it to avoid too close support points
 
   do
   {
@@ -120,12 +117,13 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 
     appendVertex(curr_simplex, -ray); // see below, ray points away from origin
 
-    // check B: when the new support point is close to previous support points, stop (as the new simplex is degenerated)
+    // check B: when the new support point is close to a vertex of the current simplex, stop (as the new simplex is degenerated).
+    // A vertex dropped earlier may well be needed again, so it is not a reason to stop.
     Vector3<S>& w = curr_simplex.c[curr_simplex.rank - 1]->w;
     bool found = false;
-    for(size_t i = 0; i < 4; ++i)
+    for(size_t i = 0; i + 1 < curr_simplex.rank; ++i)
     {
-      if((w - lastw[i]).squaredNorm() < tolerance)
+      if((w - curr_simplex.c[i]->w).squaredNorm() < tolerance)
       {
         found = true; break;
       }
@@ -136,10 +134,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
       removeVertex(simplices[current]);
       break;
     }
-    else
-    {
-      lastw[clastw = (clastw+1)&3] = w;
-    }
 
     // check C: when the new support point is close to the sub-simplex where the ray point lies, stop (as the new simplex again is degenerated)
     S omega = ray.dot(w) / rl;
-- 
2.43.0


From e1a132de693fffe63679c7336115ba0f62d74f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 007/120] fix: stop libccd GJK distance only once the distance
 is proven converged

A small improvement, or a support point that happens to be as far from the
origin as the current nearest point, ended the iteration with distances up to
tens of percent too large. Use the support plane's offset as the bound, and
keep nearest points from a well-conditioned simplex.
---
 .../gjk_libccd-inl.h                          | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 3090fc7..6ebf30d 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -2070,11 +2070,14 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
                                   ccd_vec3_t* p1, ccd_vec3_t* p2)
 {
   ccd_real_t last_dist = CCD_REAL_MAX;
+  ccd_vec3_t closest_p; // The point on the simplex that is closest to the
+                        // origin; kept when a new vertex brings none closer.
+  bool converged = false; // Whether the distance found so far is proven to be
+                          // within tolerance.
+  ccd_vec3_t converged_p1, converged_p2; // The nearest points as of then.
 
   for (unsigned long iterations = 0UL; iterations < ccd->max_iterations;
        ++iterations) {
-    ccd_vec3_t closest_p; // The point on the simplex that is closest to the
-                          // origin.
     ccd_real_t dist;
     // get a next direction vector
     // we are trying to find out a point on the minkowski difference
@@ -2108,10 +2111,21 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
       dist = simplexReduceToTriangle(simplex, last_dist, &closest_p);
     }
 
-    // check whether we improved for at least a minimum tolerance
-    if ((last_dist - dist) < ccd->dist_tolerance)
+    // check whether we improved for at least a minimum tolerance; a small but
+    // positive improvement does not mean that the distance has converged
+    // unless the last support point said so
+    if (last_dist <= dist ||
+        (converged && (last_dist - dist) < ccd->dist_tolerance))
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
+      if (converged && p1 && p2 &&
+          CCD_FABS(CCD_SQRT(ccdVec3Dist2(p1, p2)) - dist) >
+              ccd->dist_tolerance)
+      {
+        // The new vertex made the triangle too thin to interpolate in.
+        ccdVec3Copy(p1, &converged_p1);
+        ccdVec3Copy(p2, &converged_p2);
+      }
       return dist;
     }
 
@@ -2128,17 +2142,27 @@ static inline ccd_real_t _ccdDist(const void *obj1, const void *obj2,
     // record last distance
     last_dist = dist;
 
+    // The Minkowski difference lies entirely beyond the plane through the
+    // support point with normal dir, so the offset of that plane bounds the
+    // distance from below.
+    const ccd_real_t gap = last_dist + ccdVec3Dot(&last.v, &dir);
+    converged = gap < ccd->dist_tolerance;
+
     // check whether we improved for at least a minimum tolerance
     // this is here probably only for a degenerate cases when we got a
     // point that is already in the simplex
     dist = ccdVec3Len2(&last.v);
     dist = CCD_SQRT(dist);
-    if (CCD_FABS(last_dist - dist) < ccd->dist_tolerance)
+    if ((converged && CCD_FABS(last_dist - dist) < ccd->dist_tolerance) ||
+        gap <= CCD_EPS * (last_dist + dist))
     {
       extractClosestPoints(simplex, p1, p2, &closest_p);
       return last_dist;
     }
 
+    if (converged)
+      extractClosestPoints(simplex, &converged_p1, &converged_p2, &closest_p);
+
     // add a point to simplex
     ccdSimplexAdd(simplex, &last);
   }
-- 
2.43.0


From 97e7297def54b2575b278a641296e074625af3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:54 +0000
Subject: [PATCH 008/120] fix: test EPA face visibility against the face's
 plane

---
 .../fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
index 7125586..97e276f 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/epa-inl.h
@@ -356,7 +356,8 @@ bool EPA<S>::expand(size_t pass, SimplexV* w, SimplexF* f, size_t e, SimplexHori
     const size_t e1 = nexti[e];
 
     // case 1: the new face is not degenerated, i.e., the new face is not coplanar with the old face f.
-    if(f->n.dot(w->w) - f->d < -tolerance)
+    // (f->d is not the offset of the face's plane when the origin projects outside the face.)
+    if(f->n.dot(w->w - f->c[0]->w) < -tolerance)
     {
       SimplexF* nf = newFace(f->c[e1], f->c[e], w, false);
       if(nf)
-- 
2.43.0


From 352f153fc901238ec3133ea864ad5c32561b837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:18 +0000
Subject: [PATCH 009/120] fix: place the sphere-capsule contact on the sphere's
 deepest point

---
 .../detail/primitive_shape_algorithm/sphere_capsule-inl.h      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index c85d569..f339d46 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -111,7 +111,8 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
   if (contacts)
   {
     const Vector3<S> normal = tf2.linear() * local_normal;
-    const Vector3<S> point = tf2 * (segment_point + local_normal * distance);
+    // The point of the sphere that lies deepest in the capsule.
+    const Vector3<S> point = tf2 * (s_c + local_normal * s1.radius);
     const S penetration_depth = -distance;
 
     contacts->emplace_back(normal, point, penetration_depth);
-- 
2.43.0


From 950ba31f2f292eb2d6854a8eb3cd7004522b2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 010/120] fix: give sphere-capsule contacts a radial normal
 when the center is on the axis

---
 .../primitive_shape_algorithm/sphere_capsule-inl.h       | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
index f339d46..252c3ce 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_capsule-inl.h
@@ -100,13 +100,20 @@ bool sphereCapsuleIntersect(const Sphere<S>& s1, const Transform3<S>& tf1,
 
   lineSegmentPointClosestToPoint (s_c, pos1, pos2, segment_point);
   Vector3<S> diff = s_c - segment_point;
+  // Inside the segment the difference is radial; drop the rounding error.
+  if (segment_point(2) > pos2(2) && segment_point(2) < pos1(2))
+    diff(2) = 0;
 
   const S distance = diff.norm() - s1.radius - s2.radius;
 
   if (distance > 0)
     return false;
 
-  const Vector3<S> local_normal = -diff.normalized();
+  // If the sphere's center lies on the capsule's center line, every radial
+  // direction is a shortest way out.
+  const Vector3<S> local_normal =
+      diff.squaredNorm() > 0 ? Vector3<S>(-diff.normalized())
+                             : Vector3<S>(-Vector3<S>::UnitX());
 
   if (contacts)
   {
-- 
2.43.0


From 17bdfb67ad163399800419fa6b0bf25021ea6ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 011/120] fix: return the signed distance computed from the
 contacts

---
 include/fcl/narrowphase/distance-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 3244631..8c6a1ee 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -174,9 +174,10 @@ typename NarrowPhaseSolver::S distance(
       }
     }
     result.min_distance = -max_pen_depth;
+    res = result.min_distance;
     assert(index != static_cast<std::size_t>(-1));
 
-    if (request.enable_nearest_points)
+    if (request.enable_nearest_points && collision_result.isCollision())
     {
       const Vector3<S>& pos = collision_result.getContact(index).pos;
       result.nearest_points[0] = pos;
-- 
2.43.0


From 1ffa74ed5c1b462da0be40b3e23358121b8a5db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 012/120] fix: decide antiparallel half-spaces and planes by
 the right side

---
 .../detail/primitive_shape_algorithm/halfspace-inl.h      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
index 29cde8d..6cac0dc 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/halfspace-inl.h
@@ -651,11 +651,11 @@ bool planeHalfspaceIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0)
+      if(new_s1.d + new_s2.d < 0)
         return false;
       else
       {
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         ret = 2;
         pl = new_s1;
         return true;
@@ -722,12 +722,12 @@ bool halfspaceIntersect(const Halfspace<S>& s1, const Transform3<S>& tf1,
     }
     else
     {
-      if(new_s1.d + new_s2.d > 0) // not collision
+      if(new_s1.d + new_s2.d < 0) // not collision
         return false;
       else // in each other
       {
         ret = 3;
-        penetration_depth = -(new_s1.d + new_s2.d);
+        penetration_depth = new_s1.d + new_s2.d;
         return true;
       }
     }
-- 
2.43.0


From 5b9db87d3454e197c356855369639efc252d38e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 013/120] fix: recognise parallel planes despite rounding

---
 .../detail/primitive_shape_algorithm/plane-inl.h    | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 1373dce..35af2a8 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -766,11 +766,14 @@ bool planeIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
   Plane<S> new_s1 = transform(s1, tf1);
   Plane<S> new_s2 = transform(s2, tf2);
 
-  S a = (new_s1.n).dot(new_s2.n);
-  if(a == 1 && new_s1.d != new_s2.d)
-    return false;
-  if(a == -1 && new_s1.d != -new_s2.d)
-    return false;
+  const S dir_norm = (new_s1.n).cross(new_s2.n).squaredNorm();
+  if(dir_norm < std::numeric_limits<S>::epsilon()) // parallel
+  {
+    if((new_s1.n).dot(new_s2.n) > 0)
+      return new_s1.d == new_s2.d;
+    else
+      return new_s1.d == -new_s2.d;
+  }
 
   return true;
 }
-- 
2.43.0


From 4f8b71bdd6815c4e4307cbe48c1622641935f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 014/120] fix: intersect convex polytopes with planes instead
 of a missing support function

---
 .../narrowphase/detail/gjk_solver_indep-inl.h |  1 +
 .../detail/gjk_solver_libccd-inl.h            |  1 +
 .../primitive_shape_algorithm/plane-inl.h     | 22 +++++++++++++++++++
 .../detail/primitive_shape_algorithm/plane.h  |  6 +++++
 .../primitive_shape_algorithm/plane.cpp       |  6 +++++
 5 files changed, 36 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index ba353e1..ff92ba7 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -269,6 +269,7 @@ FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_INDEP_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectIndepImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 7207292..0a9e4f5 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -265,6 +265,7 @@ FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Box, Plane, detail::boxPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Capsule, Plane, detail::capsulePlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cylinder, Plane, detail::cylinderPlaneIntersect)
 FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Cone, Plane, detail::conePlaneIntersect)
+FCL_GJK_LIBCCD_SHAPE_SHAPE_INTERSECT(Convex, Plane, detail::convexPlaneIntersect)
 
 template <typename S>
 struct ShapeIntersectLibccdImpl<S, Halfspace<S>, Halfspace<S>>
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 35af2a8..9324c43 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -98,6 +98,12 @@ bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf
                           const Plane<double>& s2, const Transform3<double>& tf2,
                           Vector3<double>* contact_points, double* penetration_depth, Vector3<double>* normal);
 
+//==============================================================================
+extern template
+bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf1,
+                          const Plane<double>& s2, const Transform3<double>& tf2,
+                          std::vector<ContactPoint<double>>* contacts);
+
 //==============================================================================
 extern template
 bool planeTriangleIntersect(const Plane<double>& s1, const Transform3<double>& tf1,
@@ -677,6 +683,22 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
   }
 }
 
+//==============================================================================
+template <typename S>
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts)
+{
+  Vector3<S> pos, normal;
+  S depth;
+
+  if(!convexPlaneIntersect(s1, tf1, s2, tf2, &pos, &depth, &normal))
+    return false;
+
+  if(contacts) contacts->emplace_back(normal, pos, depth);
+  return true;
+}
+
 //==============================================================================
 template <typename S>
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
index 86b141f..05c98cb 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane.h
@@ -130,6 +130,12 @@ bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
                           const Plane<S>& s2, const Transform3<S>& tf2,
                           Vector3<S>* contact_points, S* penetration_depth, Vector3<S>* normal);
 
+template <typename S>
+FCL_EXPORT
+bool convexPlaneIntersect(const Convex<S>& s1, const Transform3<S>& tf1,
+                          const Plane<S>& s2, const Transform3<S>& tf2,
+                          std::vector<ContactPoint<S>>* contacts);
+
 template <typename S>
 FCL_EXPORT
 bool planeTriangleIntersect(const Plane<S>& s1, const Transform3<S>& tf1,
diff --git a/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp b/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
index 5cee207..7791363 100755
--- a/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
+++ b/src/narrowphase/detail/primitive_shape_algorithm/plane.cpp
@@ -109,6 +109,12 @@ bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf
                           const Plane<double>& s2, const Transform3<double>& tf2,
                           Vector3<double>* contact_points, double* penetration_depth, Vector3<double>* normal);
 
+//==============================================================================
+template
+bool convexPlaneIntersect(const Convex<double>& s1, const Transform3<double>& tf1,
+                          const Plane<double>& s2, const Transform3<double>& tf2,
+                          std::vector<ContactPoint<double>>* contacts);
+
 //==============================================================================
 template
 bool planeTriangleIntersect(const Plane<double>& s1, const Transform3<double>& tf1,
-- 
2.43.0


From 38c07d89295cf5199ea94db4d5890f960a3cd1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 015/120] fix: report colliding unbounded shapes when contacts
 are requested

---
 .../traversal/collision/shape_collision_traversal_node-inl.h  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
index 36a264d..9fae488 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/shape_collision_traversal_node-inl.h
@@ -96,6 +96,10 @@ leafTesting(int, int) const
             num_adding_contacts = contacts.size();
           }
 
+          // Unbounded shapes can intersect without a definite contact point.
+          if (contacts.empty())
+            this->result->addContact(Contact<S>(model1, model2, Contact<S>::NONE, Contact<S>::NONE));
+
           for(size_t i = 0; i < num_adding_contacts; ++i)
             this->result->addContact(Contact<S>(model1, model2, Contact<S>::NONE, Contact<S>::NONE, contacts[i].pos, contacts[i].normal, contacts[i].penetration_depth));
         }
-- 
2.43.0


From 52692d1c9913b51581823ee6b761987b0e7adeae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:20 +0000
Subject: [PATCH 016/120] fix: use the cylinder's half length in the
 contact-free plane test

---
 .../narrowphase/detail/primitive_shape_algorithm/plane-inl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
index 9324c43..ef039af 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/plane-inl.h
@@ -405,7 +405,7 @@ bool cylinderPlaneIntersect(const Cylinder<S>& s1, const Transform3<S>& tf1,
 
   Vector3<S> Q = R.transpose() * new_s2.n;
 
-  S term = std::abs(Q[2]) * s1.lz + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
+  S term = std::abs(Q[2]) * (0.5 * s1.lz) + s1.radius * std::sqrt(Q[0] * Q[0] + Q[1] * Q[1]);
   S dist = new_s2.distance(T);
   S depth = term - dist;
 
-- 
2.43.0


From 5473f10367ef57c51cd804f34f94a76f4971a77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 017/120] fix: report sphere-triangle nearest points in the
 world frame and always a distance

---
 .../primitive_shape_algorithm/sphere_triangle-inl.h    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
index 3736e89..784ed7b 100755
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/sphere_triangle-inl.h
@@ -482,12 +482,15 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf,
       Vector3<S> project_p = P1 * result.parameterization[0] + P2 * result.parameterization[1] + P3 * result.parameterization[2];
       Vector3<S> dir = o - project_p;
       dir.normalize();
-      if(p1) { *p1 = o - dir * sp.radius; *p1 = tf.inverse(Eigen::Isometry) * (*p1); }
+      if(p1) *p1 = o - dir * sp.radius;
       if(p2) *p2 = project_p;
       return true;
     }
     else
+    {
+      if(dist) *dist = -1;
       return false;
+    }
   }
   else
   {
@@ -501,10 +504,7 @@ bool sphereTriangleDistance(const Sphere<S>& sp, const Transform3<S>& tf1,
                             const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3, const Transform3<S>& tf2,
                             S* dist, Vector3<S>* p1, Vector3<S>* p2)
 {
-  bool res = detail::sphereTriangleDistance(sp, tf1, tf2 * P1, tf2 * P2, tf2 * P3, dist, p1, p2);
-  if(p2) *p2 = tf2.inverse(Eigen::Isometry) * (*p2);
-
-  return res;
+  return detail::sphereTriangleDistance(sp, tf1, (tf2 * P1).eval(), (tf2 * P2).eval(), (tf2 * P3).eval(), dist, p1, p2);
 }
 
 } // namespace detail
-- 
2.43.0


From 0170a47ea224f08d35a38369aa43906ced49e36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:23 +0000
Subject: [PATCH 018/120] fix: report GST_INDEP shape-triangle nearest points
 in the world frame

---
 include/fcl/narrowphase/detail/gjk_solver_indep-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index ff92ba7..c4d9c1d 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -893,9 +893,9 @@ struct ShapeTriangleDistanceIndepImpl
       }
 
       if(distance) *distance = (w0 - w1).norm();
-      // The answers are produced in world coordinates. Keep them there.
-      if(p1) *p1 = w0;
-      if(p2) *p2 = w1;
+      // The answers are produced in the shape's frame.
+      if(p1) p1->noalias() = tf * w0;
+      if(p2) p2->noalias() = tf * w1;
       return true;
     }
     else
-- 
2.43.0


From e8d79356a8df27b43e9e32ccc046455bc00dfbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:15 +0000
Subject: [PATCH 019/120] fix: stop GJK when a support vertex brings it no
 closer

---
 .../detail/convexity_based_algorithm/gjk-inl.h   | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
index 831cbbe..df7401f 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk-inl.h
@@ -157,8 +157,21 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
 
     if(project_res.sqr_distance >= 0)
     {
+      // check D: when the new support point brings the simplex no closer to the origin, stop (only rounding is left to gain)
+      Vector3<S> next_ray = Vector3<S>::Zero();
+      for(size_t i = 0; i < curr_simplex.rank; ++i)
+      {
+        if(project_res.encode & (1 << i))
+          next_ray += curr_simplex.c[i]->w * project_res.parameterization[i];
+      }
+      if(project_res.encode != 15 && next_ray.norm() >= rl)
+      {
+        removeVertex(simplices[current]);
+        break;
+      }
+
       next_simplex.rank = 0;
-      ray.setZero();
+      ray = next_ray;
       current = next;
       for(size_t i = 0; i < curr_simplex.rank; ++i)
       {
@@ -166,7 +179,6 @@ typename GJK<S>::Status GJK<S>::evaluate(const MinkowskiDiff<S>& shape_, const V
         {
           next_simplex.c[next_simplex.rank] = curr_simplex.c[i];
           next_simplex.p[next_simplex.rank++] = project_res.parameterization[i]; // weights[i];
-          ray += curr_simplex.c[i]->w * project_res.parameterization[i]; // weights[i];
         }
         else
           free_v[nfree++] = curr_simplex.c[i];
-- 
2.43.0


From 08bc977aba415776a19fcf3294bc9d1f178fcb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 020/120] fix: merge bounding volumes before the array tree
 reallocates its nodes

---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index b4edc40..98bf1d4 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -973,10 +973,14 @@ size_t HierarchyTree<BV>::createNode(size_t parent,
                                      const BV& bv2,
                                      void* data)
 {
+  // The arguments may refer to elements of nodes, which allocateNode() can
+  // reallocate.
+  const BV merged_bv = bv1 + bv2;
+
   size_t node = allocateNode();
   nodes[node].parent = parent;
   nodes[node].data = data;
-  nodes[node].bv = bv1 + bv2;
+  nodes[node].bv = merged_bv;
   return node;
 }
 
-- 
2.43.0


From a65988fb21e445bb45fa88e71f6219ea16528f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 021/120] fix: reinsert an updated leaf that is the array
 tree's only node

---
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 98bf1d4..5e33578 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -926,10 +926,12 @@ void HierarchyTree<BV>::update_(size_t leaf, const BV& bv)
       for(int i = 0; (i < max_lookahead_level) && (nodes[root].parent != NULL_NODE); ++i)
         root = nodes[root].parent;
     }
-
-    nodes[leaf].bv = bv;
-    insertLeaf(root, leaf);
+    else
+      root = root_node;
   }
+
+  nodes[leaf].bv = bv;
+  insertLeaf(root, leaf);
 }
 
 //==============================================================================
-- 
2.43.0


From ad00f9b204d455511bd96b6782695390cd0cdf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 022/120] fix: keep leaf indices valid when balancing the array
 tree

---
 .../detail/hierarchy_tree_array-inl.h         | 42 ++++++-------------
 .../broadphase/detail/hierarchy_tree_array.h  |  4 +-
 2 files changed, 15 insertions(+), 31 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 5e33578..ab82568 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -383,24 +383,15 @@ void HierarchyTree<BV>::balanceBottomup()
 {
   if(root_node != NULL_NODE)
   {
-    NodeType* leaves = new NodeType[n_leaves];
-    NodeType* leaves_ = leaves;
-    extractLeaves(root_node, leaves_);
-    root_node = NULL_NODE;
-    std::copy(leaves, leaves + n_leaves, nodes);
-    freelist = n_leaves;
-    n_nodes = n_leaves;
-    for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-      nodes[i].next = i + 1;
-    nodes[n_nodes_alloc - 1].next = NULL_NODE;
-
-
+    // The leaves stay where they are: their indices have been handed out by
+    // insert() and init().
     size_t* ids = new size_t[n_leaves];
-    for(size_t i = 0; i < n_leaves; ++i)
-      ids[i] = i;
+    size_t* ids_end = ids;
+    fetchLeaves(root_node, ids_end);
 
     bottomup(ids, ids + n_leaves);
     root_node = *ids;
+    nodes[root_node].parent = NULL_NODE;
 
     delete [] ids;
   }
@@ -412,22 +403,15 @@ void HierarchyTree<BV>::balanceTopdown()
 {
   if(root_node != NULL_NODE)
   {
-    NodeType* leaves = new NodeType[n_leaves];
-    NodeType* leaves_ = leaves;
-    extractLeaves(root_node, leaves_);
-    root_node = NULL_NODE;
-    std::copy(leaves, leaves + n_leaves, nodes);
-    freelist = n_leaves;
-    n_nodes = n_leaves;
-    for(size_t i = n_leaves; i < n_nodes_alloc; ++i)
-      nodes[i].next = i + 1;
-    nodes[n_nodes_alloc - 1].next = NULL_NODE;
-
+    // The leaves stay where they are: their indices have been handed out by
+    // insert() and init().
     size_t* ids = new size_t[n_leaves];
-    for(size_t i = 0; i < n_leaves; ++i)
-      ids[i] = i;
+    size_t* ids_end = ids;
+    fetchLeaves(root_node, ids_end);
 
     root_node = topdown(ids, ids + n_leaves);
+    nodes[root_node].parent = NULL_NODE;
+
     delete [] ids;
   }
 }
@@ -1035,7 +1019,7 @@ void HierarchyTree<BV>::recurseRefit(size_t node)
 
 //==============================================================================
 template<typename BV>
-void HierarchyTree<BV>::fetchLeaves(size_t root, NodeType*& leaves, int depth)
+void HierarchyTree<BV>::fetchLeaves(size_t root, size_t*& leaves, int depth)
 {
   if((!nodes[root].isLeaf()) && depth)
   {
@@ -1045,7 +1029,7 @@ void HierarchyTree<BV>::fetchLeaves(size_t root, NodeType*& leaves, int depth)
   }
   else
   {
-    *leaves = nodes[root];
+    *leaves = root;
     leaves++;
   }
 }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array.h b/include/fcl/broadphase/detail/hierarchy_tree_array.h
index 85e80fe..196427c 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array.h
@@ -208,8 +208,8 @@ private:
   /// return the node with the smallest depth and is influenced by the remove operation 
   size_t removeLeaf(size_t leaf);
 
-  /// @brief Delete all internal nodes and return all leaves nodes with given depth from root 
-  void fetchLeaves(size_t root, NodeType*& leaves, int depth = -1);
+  /// @brief Delete all internal nodes and return the indices of all leaves nodes with given depth from root 
+  void fetchLeaves(size_t root, size_t*& leaves, int depth = -1);
 
   size_t indexOf(size_t node);
 
-- 
2.43.0


From bbeb2c5a8b41ba169b9cdc07b837978222442beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 023/120] fix: free the array tree's node buffers

---
 .../fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h   | 1 +
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h      | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index 3cec23c..da87969 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -774,6 +774,7 @@ void DynamicAABBTreeCollisionManager_Array<S>::registerObjects(
     int n_leaves = other_objs.size();
 
     dtree.init(leaves, n_leaves, tree_init_level);
+    delete [] leaves;
 
     setup_ = true;
   }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index ab82568..c03fb49 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -110,6 +110,7 @@ void HierarchyTree<BV>::init_0(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -138,6 +139,7 @@ void HierarchyTree<BV>::init_1(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -182,6 +184,7 @@ void HierarchyTree<BV>::init_2(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
@@ -226,6 +229,7 @@ void HierarchyTree<BV>::init_3(NodeType* leaves, int n_leaves_)
 
   n_leaves = n_leaves_;
   root_node = NULL_NODE;
+  delete [] nodes;
   nodes = new NodeType[n_leaves * 2];
   std::copy(leaves, leaves + n_leaves, nodes);
   freelist = n_leaves;
-- 
2.43.0


From 464af7425dca408b774126a8ced2a19baf4b8b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 024/120] fix: initialise the maximum depth of hierarchy trees

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 2 +-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index 1438eb9..e879eea 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -226,7 +226,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(!root_node) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index c03fb49..2827942 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -376,7 +376,7 @@ size_t HierarchyTree<BV>::getMaxDepth() const
 {
   if(root_node == NULL_NODE) return 0;
 
-  size_t max_depth;
+  size_t max_depth = 0;
   getMaxDepth(root_node, 0, max_depth);
   return max_depth;
 }
@@ -526,7 +526,7 @@ void HierarchyTree<BV>::getMaxDepth(size_t node, size_t depth, size_t& max_depth
   if(!nodes[node].isLeaf())
   {
     getMaxDepth(nodes[node].children[0], depth+1, max_depth);
-    getmaxDepth(nodes[node].children[1], depth+1, max_depth);
+    getMaxDepth(nodes[node].children[1], depth+1, max_depth);
   }
   else
     max_depth = std::max(max_depth, depth);
-- 
2.43.0


From 2a94849fa3745c27d8dc74e26cad8d834bd6eb67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:24 +0000
Subject: [PATCH 025/120] fix: terminate top-down construction when leaf
 centers coincide

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 4 ++++
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index e879eea..f276dc6 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -514,6 +514,10 @@ typename HierarchyTree<BV>::NodeType* HierarchyTree<BV>::topdown_1(const NodeVec
         }
       }
 
+      // When the centers do not separate the leaves, any balanced split will do.
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       NodeType* node = createNode(nullptr, vol, nullptr);
       node->children[0] = topdown_1(lbeg, lcenter);
       node->children[1] = topdown_1(lcenter, lend);
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index 2827942..ec41acc 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -678,6 +678,10 @@ size_t HierarchyTree<BV>::topdown_1(size_t* lbeg, size_t* lend)
         }
       }
 
+      // When the centers do not separate the leaves, any balanced split will do.
+      if(lcenter == lbeg || lcenter == lend)
+        lcenter = lbeg + num_leaves / 2;
+
       size_t node = createNode(NULL_NODE, vol, nullptr);
       nodes[node].children[0] = topdown_1(lbeg, lcenter);
       nodes[node].children[1] = topdown_1(lcenter, lend);
-- 
2.43.0


From 3f7f11a94309f1071ad87a4f2daa09c327d2d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 026/120] fix: let the dynamic AABB tree managers query
 themselves as another manager

---
 .../broadphase/broadphase_dynamic_AABB_tree-inl.h  | 14 ++++++++++++++
 .../broadphase_dynamic_AABB_tree_array-inl.h       | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
index 1a7341b..937347d 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree-inl.h
@@ -969,6 +969,13 @@ void DynamicAABBTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree::collisionRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -979,6 +986,13 @@ void DynamicAABBTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>*
 {
   DynamicAABBTreeCollisionManager* other_manager = static_cast<DynamicAABBTreeCollisionManager*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree::distanceRecurse(dtree.getRoot(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
diff --git a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
index da87969..4453d22 100644
--- a/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
+++ b/include/fcl/broadphase/broadphase_dynamic_AABB_tree_array-inl.h
@@ -974,6 +974,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::collide(BroadPhaseCollisionManage
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    collide(cdata, callback);
+    return;
+  }
+
   detail::dynamic_AABB_tree_array::collisionRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback);
 }
 
@@ -984,6 +991,13 @@ void DynamicAABBTreeCollisionManager_Array<S>::distance(BroadPhaseCollisionManag
 {
   DynamicAABBTreeCollisionManager_Array* other_manager = static_cast<DynamicAABBTreeCollisionManager_Array*>(other_manager_);
   if((size() == 0) || (other_manager->size() == 0)) return;
+
+  if(this == other_manager)
+  {
+    distance(cdata, callback);
+    return;
+  }
+
   S min_dist = std::numeric_limits<S>::max();
   detail::dynamic_AABB_tree_array::distanceRecurse(dtree.getNodes(), dtree.getRoot(), other_manager->dtree.getNodes(), other_manager->dtree.getRoot(), cdata, callback, min_dist);
 }
-- 
2.43.0


From 99c09e3b87644e45cbdee50827161be4eb955b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 027/120] fix: query another interval tree manager once per
 object

---
 .../fcl/broadphase/broadphase_interval_tree-inl.h  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index dcc4f6d..7eaeab1 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -604,12 +604,19 @@ void IntervalTreeCollisionManager<S>::collide(BroadPhaseCollisionManager<S>* oth
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
+    {
+      // every object has two end points
+      if(endpoints[0][i].minmax != 0) continue;
       if(other_manager->collide_(endpoints[0][i].obj, cdata, callback)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
+    {
+      if(other_manager->endpoints[0][i].minmax != 0) continue;
       if(collide_(other_manager->endpoints[0][i].obj, cdata, callback)) return;
+    }
   }
 }
 
@@ -632,12 +639,19 @@ void IntervalTreeCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* ot
   if(this->size() < other_manager->size())
   {
     for(size_t i = 0, size = endpoints[0].size(); i < size; ++i)
+    {
+      // every object has two end points
+      if(endpoints[0][i].minmax != 0) continue;
       if(other_manager->distance_(endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    }
   }
   else
   {
     for(size_t i = 0, size = other_manager->endpoints[0].size(); i < size; ++i)
+    {
+      if(other_manager->endpoints[0][i].minmax != 0) continue;
       if(distance_(other_manager->endpoints[0][i].obj, cdata, callback, min_dist)) return;
+    }
   }
 }
 
-- 
2.43.0


From 8057c8e59f67c6a4ece182db53d48d6375054290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 028/120] fix: put lower end points first among equal interval
 end points

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 7eaeab1..c989338 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -289,6 +289,7 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
   }
 
   EndPoint dummy;
+  dummy.minmax = 0;
   typename std::vector<EndPoint>::iterator it;
   for(int i = 0; i < 3; ++i)
   {
@@ -745,6 +746,8 @@ template <typename S>
 bool IntervalTreeCollisionManager<S>::EndPoint::operator<(
     const typename IntervalTreeCollisionManager<S>::EndPoint& p) const
 {
+  // Touching intervals overlap: lower end points come first among equal values.
+  if(value == p.value) return minmax < p.minmax;
   return value < p.value;
 }
 
-- 
2.43.0


From 582687cf40c61286eaaf4a6100ba9d3d43cbada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 029/120] fix: update the upper interval end points of a moved
 object

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index c989338..9da7382 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -282,7 +282,6 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
     const auto it = obj_interval_maps[i].find(updated_obj);
     interval_trees[i]->deleteNode(it->second);
     old_aabb.min_[i] = it->second->low;
-    old_aabb.max_[i] = it->second->high;
     it->second->low = new_aabb.min_[i];
     it->second->high = new_aabb.max_[i];
     interval_trees[i]->insert(it->second);
@@ -304,11 +303,12 @@ void IntervalTreeCollisionManager<S>::update(CollisionObject<S>* updated_obj)
       }
     }
 
-    dummy.value = old_aabb.max_[i];
-    it = std::lower_bound(endpoints[i].begin(), endpoints[i].end(), dummy);
+    // The lower end point may have moved past the upper one, so the end points
+    // are no longer sorted.
+    it = endpoints[i].begin();
     for(; it != endpoints[i].end(); ++it)
     {
-      if(it->obj == updated_obj && it->minmax == 0)
+      if(it->obj == updated_obj && it->minmax == 1)
       {
         it->value = new_aabb.max_[i];
         break;
-- 
2.43.0


From 4e76c95907cf8cfb59d5b83d08bd3cacfdfb798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 030/120] fix: remove exactly the unregistered object's
 interval end points

---
 .../broadphase/broadphase_interval_tree-inl.h | 82 ++-----------------
 1 file changed, 5 insertions(+), 77 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 9da7382..95d7a71 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -54,84 +54,12 @@ void IntervalTreeCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   // must sorted before
   setup();
 
-  EndPoint p;
-  p.value = obj->getAABB().min_[0];
-  auto start1 = std::lower_bound(endpoints[0].begin(), endpoints[0].end(), p);
-  p.value = obj->getAABB().max_[0];
-  auto end1 = std::upper_bound(start1, endpoints[0].end(), p);
-
-  if(start1 < end1)
-  {
-    unsigned int start_id = start1 - endpoints[0].begin();
-    unsigned int end_id = end1 - endpoints[0].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[0][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[0][cur_id] = endpoints[0][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[0].resize(endpoints[0].size() - 2);
-  }
-
-  p.value = obj->getAABB().min_[1];
-  auto start2 = std::lower_bound(endpoints[1].begin(), endpoints[1].end(), p);
-  p.value = obj->getAABB().max_[1];
-  auto end2 = std::upper_bound(start2, endpoints[1].end(), p);
-
-  if(start2 < end2)
-  {
-    unsigned int start_id = start2 - endpoints[1].begin();
-    unsigned int end_id = end2 - endpoints[1].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[1][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[1][cur_id] = endpoints[1][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[1].resize(endpoints[1].size() - 2);
-  }
-
-
-  p.value = obj->getAABB().min_[2];
-  auto start3 = std::lower_bound(endpoints[2].begin(), endpoints[2].end(), p);
-  p.value = obj->getAABB().max_[2];
-  auto end3 = std::upper_bound(start3, endpoints[2].end(), p);
-
-  if(start3 < end3)
+  for(int i = 0; i < 3; ++i)
   {
-    unsigned int start_id = start3 - endpoints[2].begin();
-    unsigned int end_id = end3 - endpoints[2].begin();
-    unsigned int cur_id = start_id;
-    for(unsigned int i = start_id; i < end_id; ++i)
-    {
-      if(endpoints[2][i].obj != obj)
-      {
-        if(i == cur_id) cur_id++;
-        else
-        {
-          endpoints[2][cur_id] = endpoints[2][i];
-          cur_id++;
-        }
-      }
-    }
-    if(cur_id < end_id)
-      endpoints[2].resize(endpoints[2].size() - 2);
+    endpoints[i].erase(
+        std::remove_if(endpoints[i].begin(), endpoints[i].end(),
+                       [obj](const EndPoint& p) { return p.obj == obj; }),
+        endpoints[i].end());
   }
 
   // update the interval tree
-- 
2.43.0


From fc21acd44ff87982084f130f418970f36e7a5357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 031/120] fix: free the previous intervals when rebuilding the
 interval trees

---
 include/fcl/broadphase/broadphase_interval_tree-inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 95d7a71..4097a23 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -138,6 +138,13 @@ void IntervalTreeCollisionManager<S>::setup()
     for(int i = 0; i < 3; ++i)
       delete interval_trees[i];
 
+    for(int i = 0; i < 3; ++i)
+    {
+      for(const auto& entry : obj_interval_maps[i])
+        delete entry.second;
+      obj_interval_maps[i].clear();
+    }
+
     for(int i = 0; i < 3; ++i)
       interval_trees[i] = new detail::IntervalTree<S>;
 
-- 
2.43.0


From 15de368b065fb06be01e2ac6acaa77c80e2d5767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 032/120] fix: end the broadphase distance search once
 everything has been searched

---
 include/fcl/broadphase/broadphase_SSaP-inl.h  | 10 ++++++++++
 include/fcl/broadphase/broadphase_SaP-inl.h   | 13 +++++++++++++
 .../broadphase/broadphase_interval_tree-inl.h | 19 +++++++++++++++++++
 .../broadphase/broadphase_spatialhash-inl.h   | 13 +++++++++++++
 4 files changed, 55 insertions(+)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index ad859ea..45bb45d 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -388,10 +388,20 @@ bool SSaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Di
         }
         else // need more loop
         {
+          // Stop once everything has been searched.
+          if(pos_end1 == objs_x.end() && pos_end2 == objs_y.end() && pos_end3 == objs_z.end())
+            break;
+
+          const Vector3<S> searched = dummy_vector;
           if(dummy_vector.isApprox(obj->getAABB().max_, std::numeric_limits<S>::epsilon() * 100))
             dummy_vector = dummy_vector + delta;
           else
             dummy_vector = dummy_vector * 2 - obj->getAABB().max_;
+
+          // The extent of the object cannot guide the growth in a direction in
+          // which it has none: search everything.
+          if(!(dummy_vector.array() > searched.array()).all())
+            dummy_vector.setConstant(std::numeric_limits<S>::max());
         }
       }
 
diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 7d201c7..b3be521 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -740,10 +740,23 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
         }
         else
         {
+          // Stop once everything has been searched.
+          if(end_pos == nullptr && min_val <= elist[axis]->getVal(axis)) break;
+
+          const AABB<S> searched = aabb;
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
             aabb.expand(obj->getAABB(), 2.0);
+
+          // The extent of the object cannot guide the growth in a direction in
+          // which it has none: search everything.
+          if(!(aabb.min_.array() < searched.min_.array()).all()
+             || !(aabb.max_.array() > searched.max_.array()).all())
+          {
+            aabb.max_.setConstant(std::numeric_limits<S>::max());
+            aabb.min_ = -aabb.max_;
+          }
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 4097a23..6af9917 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -433,10 +433,29 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
         }
         else
         {
+          // Stop once everything has been searched.
+          bool complete = true;
+          for(int i = 0; i < 3; ++i)
+          {
+            complete = complete && aabb.min_[i] <= endpoints[i].front().value
+                && aabb.max_[i] >= endpoints[i].back().value;
+          }
+          if(complete) break;
+
+          const AABB<S> searched = aabb;
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
             aabb.expand(obj->getAABB(), 2.0);
+
+          // The extent of the object cannot guide the growth in a direction in
+          // which it has none: search everything.
+          if(!(aabb.min_.array() < searched.min_.array()).all()
+             || !(aabb.max_.array() > searched.max_.array()).all())
+          {
+            aabb.max_.setConstant(std::numeric_limits<S>::max());
+            aabb.min_ = -aabb.max_;
+          }
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 12551ce..dda844a 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -439,10 +439,23 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
         }
         else
         {
+          // Stop once everything has been searched.
+          if(aabb.contain(scene_limit) && !scene_limit.contain(aabb)) break;
+
+          const AABB<S> searched = aabb;
           if(aabb.equal(obj->getAABB()))
             aabb.expand(delta);
           else
             aabb.expand(obj->getAABB(), 2.0);
+
+          // The extent of the object cannot guide the growth in a direction in
+          // which it has none: search everything.
+          if(!(aabb.min_.array() < searched.min_.array()).all()
+             || !(aabb.max_.array() > searched.max_.array()).all())
+          {
+            aabb.max_.setConstant(std::numeric_limits<S>::max());
+            aabb.min_ = -aabb.max_;
+          }
         }
       }
     }
-- 
2.43.0


From fdc0ed25c6d85ad177779210d4b689a2c35c536a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 033/120] fix: find moved objects when unregistering from the
 SSaP manager

---
 include/fcl/broadphase/broadphase_SSaP-inl.h | 43 +++-----------------
 1 file changed, 5 insertions(+), 38 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SSaP-inl.h b/include/fcl/broadphase/broadphase_SSaP-inl.h
index 45bb45d..e7a358f 100644
--- a/include/fcl/broadphase/broadphase_SSaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SSaP-inl.h
@@ -102,45 +102,12 @@ void SSaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
 {
   setup();
 
-  DummyCollisionObject<S> dummyHigh(AABB<S>(obj->getAABB().max_));
-
-  auto pos_start1 = objs_x.begin();
-  auto pos_end1 = std::upper_bound(pos_start1, objs_x.end(), &dummyHigh, SortByXLow<S>());
-
-  while(pos_start1 < pos_end1)
-  {
-    if(*pos_start1 == obj)
-    {
-      objs_x.erase(pos_start1);
-      break;
-    }
-    ++pos_start1;
-  }
-
-  auto pos_start2 = objs_y.begin();
-  auto pos_end2 = std::upper_bound(pos_start2, objs_y.end(), &dummyHigh, SortByYLow<S>());
-
-  while(pos_start2 < pos_end2)
+  // The object may have moved since the last update, so its AABB does not tell
+  // where it is in the sorted arrays.
+  for(auto* objs : {&objs_x, &objs_y, &objs_z})
   {
-    if(*pos_start2 == obj)
-    {
-      objs_y.erase(pos_start2);
-      break;
-    }
-    ++pos_start2;
-  }
-
-  auto pos_start3 = objs_z.begin();
-  auto pos_end3 = std::upper_bound(pos_start3, objs_z.end(), &dummyHigh, SortByZLow<S>());
-
-  while(pos_start3 < pos_end3)
-  {
-    if(*pos_start3 == obj)
-    {
-      objs_z.erase(pos_start3);
-      break;
-    }
-    ++pos_start3;
+    const auto it = std::find(objs->begin(), objs->end(), obj);
+    if(it != objs->end()) objs->erase(it);
   }
 }
 
-- 
2.43.0


From 105fda27bab2e3da3a07dabb3aa4c12c8faf9a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 034/120] fix: hash AABBs that touch a cell border into the
 adjoining cell

---
 include/fcl/broadphase/detail/spatial_hash-inl.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/fcl/broadphase/detail/spatial_hash-inl.h b/include/fcl/broadphase/detail/spatial_hash-inl.h
index 1d4985f..0b1c441 100644
--- a/include/fcl/broadphase/detail/spatial_hash-inl.h
+++ b/include/fcl/broadphase/detail/spatial_hash-inl.h
@@ -61,12 +61,14 @@ SpatialHash<S>::SpatialHash(const AABB<S>& scene_limit_, S cell_size_)
 template <typename S>
 std::vector<unsigned int> SpatialHash<S>::operator()(const AABB<S>& aabb) const
 {
+  // The cells are half open, so an AABB reaching a cell border from below also
+  // occupies the next cell; AABBs that touch there then share a cell.
   int min_x = std::floor((aabb.min_[0] - scene_limit.min_[0]) / cell_size);
-  int max_x = std::ceil((aabb.max_[0] - scene_limit.min_[0]) / cell_size);
+  int max_x = static_cast<int>(std::floor((aabb.max_[0] - scene_limit.min_[0]) / cell_size)) + 1;
   int min_y = std::floor((aabb.min_[1] - scene_limit.min_[1]) / cell_size);
-  int max_y = std::ceil((aabb.max_[1] - scene_limit.min_[1]) / cell_size);
+  int max_y = static_cast<int>(std::floor((aabb.max_[1] - scene_limit.min_[1]) / cell_size)) + 1;
   int min_z = std::floor((aabb.min_[2] - scene_limit.min_[2]) / cell_size);
-  int max_z = std::ceil((aabb.max_[2] - scene_limit.min_[2]) / cell_size);
+  int max_z = static_cast<int>(std::floor((aabb.max_[2] - scene_limit.min_[2]) / cell_size)) + 1;
 
   std::vector<unsigned int> keys((max_x - min_x) * (max_y - min_y) * (max_z - min_z));
   int id = 0;
-- 
2.43.0


From f2b1e664c51be9a8157bf9518553b0aff084e15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 035/120] fix: forget scene-penetrating objects when clearing
 the spatial hash manager

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index dda844a..5284fad 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -284,6 +284,7 @@ void SpatialHashingCollisionManager<S, HashTable>::clear()
 {
   objs.clear();
   hash_table->clear();
+  objs_partially_penetrating_scene_limit.clear();
   objs_outside_scene_limit.clear();
   obj_aabb_map.clear();
 }
-- 
2.43.0


From db0d0b214ed5dc65afc2823ecf8e6ddd5926895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 036/120] fix: unregister moved objects from the cells they
 were hashed into

---
 include/fcl/broadphase/broadphase_spatialhash-inl.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index 5284fad..d6bf034 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -101,7 +101,11 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
 {
   objs.remove(obj);
 
-  const AABB<S>& obj_aabb = obj->getAABB();
+  // The AABB the object was last registered or updated with
+  const auto it = obj_aabb_map.find(obj);
+  if(it == obj_aabb_map.end()) return;
+
+  const AABB<S>& obj_aabb = it->second;
   AABB<S> overlap_aabb;
 
   if(scene_limit.overlap(obj_aabb, overlap_aabb))
@@ -116,7 +120,7 @@ void SpatialHashingCollisionManager<S, HashTable>::unregisterObject(CollisionObj
     objs_outside_scene_limit.remove(obj);
   }
 
-  obj_aabb_map.erase(obj);
+  obj_aabb_map.erase(it);
 }
 
 //==============================================================================
-- 
2.43.0


From ea30bfb4d08c3d531292707e5e20c1072e04a3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 037/120] fix: report whether the SaP manager is empty, not its
 opposite

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index b3be521..4bdad13 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -885,7 +885,7 @@ void SaPCollisionManager<S>::distance(BroadPhaseCollisionManager<S>* other_manag
 template <typename S>
 bool SaPCollisionManager<S>::empty() const
 {
-  return AABB_arr.size();
+  return AABB_arr.empty();
 }
 
 //==============================================================================
-- 
2.43.0


From 298d4ff11b22709037fc073c85954a97bde2665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 038/120] fix: do not read erased entries when unregistering
 from the SaP manager

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 4bdad13..0a8d8e9 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -58,14 +58,12 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
       break;
   }
 
-  AABB_arr.erase(it);
-  obj_aabb_map.erase(obj);
-
   if(it == AABB_arr.end())
     return;
 
   SaPAABB* curr = *it;
-  *it = nullptr;
+  AABB_arr.erase(it);
+  obj_aabb_map.erase(obj);
 
   for(int coord = 0; coord < 3; ++coord)
   {
@@ -92,8 +90,10 @@ void SaPCollisionManager<S>::unregisterObject(CollisionObject<S>* obj)
   delete curr;
 
   overlap_pairs.remove_if(isUnregistered(obj));
+
+  updateVelist();
 }
-\
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPCollisionManager()
-- 
2.43.0


From e2ada528c1497cb899b82c7f8810c93c349ec202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 039/120] fix: find all overlapping pairs when registering with
 the SaP manager

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 111 ++++++--------------
 include/fcl/broadphase/broadphase_SaP.h     |   8 ++
 2 files changed, 43 insertions(+), 76 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 0a8d8e9..0713bd4 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -146,9 +146,7 @@ void SaPCollisionManager<S>::registerObjects(const std::vector<CollisionObject<S
     for(size_t coord = 0; coord < 3; ++coord)
     {
       std::sort(endpoints.begin(), endpoints.end(),
-                std::bind(std::less<S>(),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_1, coord),
-                            std::bind(static_cast<S (EndPoint::*)(size_t) const >(&EndPoint::getVal), std::placeholders::_2, coord)));
+                [coord](const EndPoint* a, const EndPoint* b) { return a->isBefore(*b, coord); });
 
       endpoints[0]->prev[coord] = nullptr;
       endpoints[0]->next[coord] = endpoints[1];
@@ -218,80 +216,14 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    EndPoint* current = elist[coord];
-
-    // first insert the lo end point
-    if(current == nullptr) // empty list
-    {
-      elist[coord] = curr->lo;
-      curr->lo->prev[coord] = curr->lo->next[coord] = nullptr;
-    }
-    else // otherwise, find the correct location in the list and insert
-    {
-      EndPoint* curr_lo = curr->lo;
-      S curr_lo_val = curr_lo->getVal()[coord];
-      while((current->getVal()[coord] < curr_lo_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-
-      if(current->getVal()[coord] >= curr_lo_val)
-      {
-        curr_lo->prev[coord] = current->prev[coord];
-        curr_lo->next[coord] = current;
-        if(current->prev[coord] == nullptr)
-          elist[coord] = curr_lo;
-        else
-          current->prev[coord]->next[coord] = curr_lo;
-
-        current->prev[coord] = curr_lo;
-      }
-      else
-      {
-        curr_lo->prev[coord] = current;
-        curr_lo->next[coord] = nullptr;
-        current->next[coord] = curr_lo;
-      }
-    }
-
-    // now insert hi end point
-    current = curr->lo;
-
-    EndPoint* curr_hi = curr->hi;
-    S curr_hi_val = curr_hi->getVal()[coord];
-
-    if(coord == 0)
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-      {
-        if(current != curr->lo)
-          if(current->aabb->cached.overlap(curr->cached))
-            overlap_pairs.emplace_back(current->aabb->obj, obj);
-
-        current = current->next[coord];
-      }
-    }
-    else
-    {
-      while((current->getVal()[coord] < curr_hi_val) && (current->next[coord] != nullptr))
-        current = current->next[coord];
-    }
-
-    if(current->getVal()[coord] >= curr_hi_val)
-    {
-      curr_hi->prev[coord] = current->prev[coord];
-      curr_hi->next[coord] = current;
-      if(current->prev[coord] == nullptr)
-        elist[coord] = curr_hi;
-      else
-        current->prev[coord]->next[coord] = curr_hi;
+    insertEndPoint(curr->lo, nullptr, coord);
+    insertEndPoint(curr->hi, curr->lo, coord);
+  }
 
-      current->prev[coord] = curr_hi;
-    }
-    else
-    {
-      curr_hi->prev[coord] = current;
-      curr_hi->next[coord] = nullptr;
-      current->next[coord] = curr_hi;
-    }
+  for(const SaPAABB* other : AABB_arr)
+  {
+    if(other->cached.overlap(curr->cached))
+      overlap_pairs.emplace_back(other->obj, obj);
   }
 
   AABB_arr.push_back(curr);
@@ -301,6 +233,24 @@ void SaPCollisionManager<S>::registerObject(CollisionObject<S>* obj)
   updateVelist();
 }
 
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::insertEndPoint(EndPoint* p, EndPoint* prev, int coord)
+{
+  EndPoint* next = prev ? prev->next[coord] : elist[coord];
+  while(next != nullptr && next->isBefore(*p, coord))
+  {
+    prev = next;
+    next = next->next[coord];
+  }
+
+  p->prev[coord] = prev;
+  p->next[coord] = next;
+  if(prev != nullptr) prev->next[coord] = p;
+  else elist[coord] = p;
+  if(next != nullptr) next->prev[coord] = p;
+}
+
 //==============================================================================
 template <typename S>
 void SaPCollisionManager<S>::setup()
@@ -931,6 +881,15 @@ S& SaPCollisionManager<S>::EndPoint::getVal(size_t i)
     return aabb->cached.min_[i];
 }
 
+//==============================================================================
+template <typename S>
+bool SaPCollisionManager<S>::EndPoint::isBefore(const EndPoint& other, size_t i) const
+{
+  if(getVal(i) == other.getVal(i))
+    return minmax < other.minmax;
+  return getVal(i) < other.getVal(i);
+}
+
 //==============================================================================
 template <typename S>
 SaPCollisionManager<S>::SaPPair::SaPPair(CollisionObject<S>* a, CollisionObject<S>* b)
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index 8a6b611..2b623df 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -128,6 +128,10 @@ protected:
 
   void updateVelist();
 
+  /// @brief insert an end point into the coord-th end point list, somewhere
+  /// behind prev (or anywhere if prev is nullptr)
+  void insertEndPoint(EndPoint* p, EndPoint* prev, int coord);
+
   /// @brief End point list for x, y, z coordinates
   EndPoint* elist[3];
   
@@ -199,6 +203,10 @@ struct SaPCollisionManager<S>::EndPoint
 
   S& getVal(size_t i);
 
+  /// @brief whether the end point comes before another one in the i-th end point list.
+  /// Among equal values lower bounds come first, so that touching intervals overlap.
+  bool isBefore(const EndPoint& other, size_t i) const;
+
 };
 
 /// @brief A pair of objects that are not culling away and should further check collision
-- 
2.43.0


From f009b9046dcf6e60193f21fd9c6c9f8d542021f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:38 +0000
Subject: [PATCH 040/120] fix: keep the SaP end point lists and pairs
 consistent on update

---
 include/fcl/broadphase/broadphase_SaP-inl.h | 179 ++++++--------------
 include/fcl/broadphase/broadphase_SaP.h     |   4 +
 2 files changed, 60 insertions(+), 123 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index 0713bd4..d208a50 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -274,141 +274,74 @@ void SaPCollisionManager<S>::update_(SaPAABB* updated_aabb)
   if(updated_aabb->cached.equal(updated_aabb->obj->getAABB()))
     return;
 
-  SaPAABB* current = updated_aabb;
-
-  Vector3<S> new_min = current->obj->getAABB().min_;
-  Vector3<S> new_max = current->obj->getAABB().max_;
-
-  SaPAABB dummy;
-  dummy.cached = current->obj->getAABB();
+  const AABB<S> old_aabb = updated_aabb->cached;
+  const AABB<S> new_aabb = updated_aabb->obj->getAABB();
 
   for(int coord = 0; coord < 3; ++coord)
   {
-    int direction; // -1 reverse, 0 nochange, 1 forward
-    EndPoint* temp;
-
-    if(current->lo->getVal(coord) > new_min[coord])
-      direction = -1;
-    else if(current->lo->getVal(coord) < new_min[coord])
-      direction = 1;
-    else direction = 0;
-
-    if(direction == -1)
+    // Move the leading end point first, so that the lower end point always
+    // stays in front of the upper one.
+    if(new_aabb.min_[coord] > old_aabb.min_[coord])
     {
-      //first update the "lo" endpoint of the interval
-      if(current->lo->prev[coord] != nullptr)
-      {
-        temp = current->lo;
-        while((temp != nullptr) && (temp->getVal(coord) > new_min[coord]))
-        {
-          if(temp->minmax == 1)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->prev[coord];
-        }
-
-        if(temp == nullptr)
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = nullptr;
-          current->lo->next[coord] = elist[coord];
-          elist[coord]->prev[coord] = current->lo;
-          elist[coord] = current->lo;
-        }
-        else
-        {
-          current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-          current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-          current->lo->prev[coord] = temp;
-          current->lo->next[coord] = temp->next[coord];
-          temp->next[coord]->prev[coord] = current->lo;
-          temp->next[coord] = current->lo;
-        }
-      }
-
-      current->lo->getVal(coord) = new_min[coord];
-
-      // update hi end point
-      temp = current->hi;
-      while(temp->getVal(coord) > new_max[coord])
-      {
-        if((temp->minmax == 0) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->prev[coord];
-      }
-
-      current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-      if(current->hi->next[coord] != nullptr)
-        current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-      current->hi->prev[coord] = temp;
-      current->hi->next[coord] = temp->next[coord];
-      if(temp->next[coord] != nullptr)
-        temp->next[coord]->prev[coord] = current->hi;
-      temp->next[coord] = current->hi;
-
-      current->hi->getVal(coord) = new_max[coord];
+      moveEndPoint(updated_aabb->hi, new_aabb.max_[coord], coord, old_aabb, new_aabb);
+      moveEndPoint(updated_aabb->lo, new_aabb.min_[coord], coord, old_aabb, new_aabb);
     }
-    else if(direction == 1)
+    else
     {
-      //here, we first update the "hi" endpoint.
-      if(current->hi->next[coord] != nullptr)
-      {
-        temp = current->hi;
-        while((temp->next[coord] != nullptr) && (temp->getVal(coord) < new_max[coord]))
-        {
-          if(temp->minmax == 0)
-            if(temp->aabb->cached.overlap(dummy.cached))
-              addToOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-          temp = temp->next[coord];
-        }
+      moveEndPoint(updated_aabb->lo, new_aabb.min_[coord], coord, old_aabb, new_aabb);
+      moveEndPoint(updated_aabb->hi, new_aabb.max_[coord], coord, old_aabb, new_aabb);
+    }
+  }
+}
 
-        if(temp->getVal(coord) < new_max[coord])
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp;
-          current->hi->next[coord] = nullptr;
-          temp->next[coord] = current->hi;
-        }
-        else
-        {
-          current->hi->prev[coord]->next[coord] = current->hi->next[coord];
-          current->hi->next[coord]->prev[coord] = current->hi->prev[coord];
-          current->hi->prev[coord] = temp->prev[coord];
-          current->hi->next[coord] = temp;
-          temp->prev[coord]->next[coord] = current->hi;
-          temp->prev[coord] = current->hi;
-        }
-      }
+//==============================================================================
+template <typename S>
+void SaPCollisionManager<S>::moveEndPoint(
+    EndPoint* p, S value, int coord, const AABB<S>& old_aabb, const AABB<S>& new_aabb)
+{
+  CollisionObject<S>* obj = p->aabb->obj;
 
-      current->hi->getVal(coord) = new_max[coord];
+  // A pair can only start or cease to overlap when end points of different
+  // kinds pass each other.
+  const auto passed = [&](const EndPoint* other)
+  {
+    if(other->minmax == p->minmax || other->aabb == p->aabb) return;
 
-      //then, update the "lo" endpoint of the interval.
-      temp = current->lo;
+    const bool was_overlapping = other->aabb->cached.overlap(old_aabb);
+    const bool is_overlapping = other->aabb->cached.overlap(new_aabb);
+    if(is_overlapping && !was_overlapping)
+      addToOverlapPairs(SaPPair(other->aabb->obj, obj));
+    else if(was_overlapping && !is_overlapping)
+      removeFromOverlapPairs(SaPPair(other->aabb->obj, obj));
+  };
 
-      while(temp->getVal(coord) < new_min[coord])
-      {
-        if((temp->minmax == 1) && (temp->aabb->cached.overlap(current->cached)))
-          removeFromOverlapPairs(SaPPair(temp->aabb->obj, current->obj));
-        temp = temp->next[coord];
-      }
+  p->getVal(coord) = value;
 
-      if(current->lo->prev[coord] != nullptr)
-        current->lo->prev[coord]->next[coord] = current->lo->next[coord];
-      else
-        elist[coord] = current->lo->next[coord];
-      current->lo->next[coord]->prev[coord] = current->lo->prev[coord];
-      current->lo->prev[coord] = temp->prev[coord];
-      current->lo->next[coord] = temp;
-      if(temp->prev[coord] != nullptr)
-        temp->prev[coord]->next[coord] = current->lo;
-      else
-        elist[coord] = current->lo;
-      temp->prev[coord] = current->lo;
-      current->lo->getVal(coord) = new_min[coord];
-    }
+  EndPoint* prev = p->prev[coord];
+  EndPoint* next = p->next[coord];
+  if(prev != nullptr) prev->next[coord] = next;
+  else elist[coord] = next;
+  if(next != nullptr) next->prev[coord] = prev;
+
+  while(prev != nullptr && p->isBefore(*prev, coord))
+  {
+    passed(prev);
+    next = prev;
+    prev = prev->prev[coord];
+  }
+
+  while(next != nullptr && next->isBefore(*p, coord))
+  {
+    passed(next);
+    prev = next;
+    next = next->next[coord];
   }
+
+  p->prev[coord] = prev;
+  p->next[coord] = next;
+  if(prev != nullptr) prev->next[coord] = p;
+  else elist[coord] = p;
+  if(next != nullptr) next->prev[coord] = p;
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index 2b623df..cb1c485 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -126,6 +126,10 @@ protected:
 
   void update_(SaPAABB* updated_aabb);
 
+  /// @brief move an end point of an updated object to its new place in the
+  /// coord-th end point list, and update the overlapping pairs on the way
+  void moveEndPoint(EndPoint* p, S value, int coord, const AABB<S>& old_aabb, const AABB<S>& new_aabb);
+
   void updateVelist();
 
   /// @brief insert an end point into the coord-th end point list, somewhere
-- 
2.43.0


From cb9e88aeb56c7df5a78d1b972e90ac083cc7da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:57 +0000
Subject: [PATCH 041/120] fix: recolor the interval tree's nodes on insertion
 as red-black trees do

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 5c93cc4..6f6b712 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -217,8 +217,8 @@ IntervalTreeNode<S>* IntervalTree<S>::insert(SimpleInterval<S>* new_interval)
       y = x->parent->parent->right;
       if(y->red)
       {
-        x->parent->red = true;
-        y->red = true;
+        x->parent->red = false;
+        y->red = false;
         x->parent->parent->red = true;
         x = x->parent->parent;
       }
-- 
2.43.0


From ec0adf186ac6b1ab866f5a6e16c8ed2ba75d4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 042/120] fix: do not mistake the interval tree's sentinel for
 a subtree

---
 include/fcl/broadphase/detail/interval_tree-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index 6f6b712..b7ae860 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -524,7 +524,7 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
       result_stack.push_back(x->stored_interval);
       recursion_node_stack[current_parent].try_right_branch = true;
     }
-    if(x->left->max_high >= low)
+    if((x->left != nil) && (x->left->max_high >= low))
     {
       if(recursion_node_stack_top == recursion_node_stack_size)
       {
-- 
2.43.0


From c46c37c446cf8c865471e12210670c53d8be4dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 043/120] fix: build hierarchy trees over unbounded volumes

---
 include/fcl/broadphase/detail/hierarchy_tree-inl.h       | 4 +++-
 include/fcl/broadphase/detail/hierarchy_tree_array-inl.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/fcl/broadphase/detail/hierarchy_tree-inl.h b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
index f276dc6..4f29565 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree-inl.h
@@ -346,7 +346,9 @@ void HierarchyTree<BV>::bottomup(const NodeVecIterator lbeg, const NodeVecIterat
   NodeVecIterator lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    NodeVecIterator min_it1, min_it2;
+    // The size of unbounded volumes may overflow, so that no pair is smaller
+    // than min_size.
+    NodeVecIterator min_it1 = lbeg, min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(NodeVecIterator it1 = lbeg; it1 < lcur_end; ++it1)
     {
diff --git a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
index ec41acc..9b3bcf5 100644
--- a/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
+++ b/include/fcl/broadphase/detail/hierarchy_tree_array-inl.h
@@ -539,7 +539,9 @@ void HierarchyTree<BV>::bottomup(size_t* lbeg, size_t* lend)
   size_t* lcur_end = lend;
   while(lbeg < lcur_end - 1)
   {
-    size_t* min_it1 = nullptr, *min_it2 = nullptr;
+    // The size of unbounded volumes may overflow, so that no pair is smaller
+    // than min_size.
+    size_t* min_it1 = lbeg, *min_it2 = lbeg + 1;
     S min_size = std::numeric_limits<S>::max();
     for(size_t* it1 = lbeg; it1 < lcur_end; ++it1)
     {
-- 
2.43.0


From 30980d4ab511965201213f9443d1b39cc31ee323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:12 +0000
Subject: [PATCH 044/120] fix: tell unbounded AABBs with different bounds apart

---
 include/fcl/math/bv/AABB-inl.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/AABB-inl.h b/include/fcl/math/bv/AABB-inl.h
index 6738006..7de48b3 100644
--- a/include/fcl/math/bv/AABB-inl.h
+++ b/include/fcl/math/bv/AABB-inl.h
@@ -318,8 +318,16 @@ S AABB<S>::distance(const AABB<S>& other) const
 template <typename S>
 bool AABB<S>::equal(const AABB<S>& other) const
 {
-  return min_.isApprox(other.min_, std::numeric_limits<S>::epsilon() * 100)
-      && max_.isApprox(other.max_, std::numeric_limits<S>::epsilon() * 100);
+  // isApprox() compares squared norms, which overflow for unbounded boxes.
+  const auto approx = [](const Vector3<S>& a, const Vector3<S>& b)
+  {
+    return a == b
+        || (a.squaredNorm() <= std::numeric_limits<S>::max()
+            && b.squaredNorm() <= std::numeric_limits<S>::max()
+            && a.isApprox(b, std::numeric_limits<S>::epsilon() * 100));
+  };
+
+  return approx(min_, other.min_) && approx(max_, other.max_);
 }
 
 //==============================================================================
-- 
2.43.0


From 759cd24f7c5a1434161a031ea6413567e18718eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:02 +0000
Subject: [PATCH 045/120] fix: quantize coordinates of flat bounds to Morton
 cells

---
 include/fcl/broadphase/detail/morton-inl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/fcl/broadphase/detail/morton-inl.h b/include/fcl/broadphase/detail/morton-inl.h
index cb23207..b05335f 100644
--- a/include/fcl/broadphase/detail/morton-inl.h
+++ b/include/fcl/broadphase/detail/morton-inl.h
@@ -61,7 +61,10 @@ struct morton_functor<double, uint64>;
 template <typename S>
 uint32 quantize(S x, uint32 n)
 {
-  return std::max(std::min((uint32)(x * (S)n), uint32(n-1)), uint32(0));
+  // Only values in range can be converted; x is NaN for a bound that is flat.
+  if(!(x > 0)) return 0;
+  if(x >= 1) return n - 1;
+  return std::min((uint32)(x * (S)n), uint32(n-1));
 }
 
 //==============================================================================
-- 
2.43.0


From 5b955c081de7a74b50e30f7077ecf59fab4486cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 046/120] fix: compute real cube roots in the cubic solver

---
 include/fcl/math/detail/polysolver-inl.h | 402 +++++++++++------------
 include/fcl/math/detail/polysolver.h     | 160 ++++-----
 2 files changed, 281 insertions(+), 281 deletions(-)

diff --git a/include/fcl/math/detail/polysolver-inl.h b/include/fcl/math/detail/polysolver-inl.h
index c2c538c..9356461 100644
--- a/include/fcl/math/detail/polysolver-inl.h
+++ b/include/fcl/math/detail/polysolver-inl.h
@@ -1,201 +1,201 @@
-/*
- * Software License Agreement (BSD License)
- *
- *  Copyright (c) 2011-2014, Willow Garage, Inc.
- *  Copyright (c) 2014-2016, Open Source Robotics Foundation
- *  All rights reserved.
- *
- *  Redistribution and use in source and binary forms, with or without
- *  modification, are permitted provided that the following conditions
- *  are met:
- *
- *   * Redistributions of source code must retain the above copyright
- *     notice, this list of conditions and the following disclaimer.
- *   * Redistributions in binary form must reproduce the above
- *     copyright notice, this list of conditions and the following
- *     disclaimer in the documentation and/or other materials provided
- *     with the distribution.
- *   * Neither the name of Open Source Robotics Foundation nor the names of its
- *     contributors may be used to endorse or promote products derived
- *     from this software without specific prior written permission.
- *
- *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
- *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
- *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
- *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
- *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
- *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
- *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
- *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
- *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
- *  POSSIBILITY OF SUCH DAMAGE.
- */
-
-/** @author Jia Pan */
-
-#ifndef FCL_NARROWPHASE_DETAIL_POLYSOLVER_INL_H
-#define FCL_NARROWPHASE_DETAIL_POLYSOLVER_INL_H
-
-#include "fcl/math/detail/polysolver.h"
-
-#include <cmath>
-#include "fcl/common/types.h"
-
-namespace fcl
-{
-
-namespace detail {
-
-//==============================================================================
-extern template
-class FCL_EXPORT PolySolver<double>;
-
-//==============================================================================
-template <typename S>
-int PolySolver<S>::solveLinear(S c[2], S s[1])
-{
-  if(isZero(c[1]))
-    return 0;
-  s[0] = - c[0] / c[1];
-  return 1;
-}
-
-//==============================================================================
-template <typename S>
-int PolySolver<S>::solveQuadric(S c[3], S s[2])
-{
-  S p, q, D;
-
-  // make sure we have a d2 equation
-
-  if(isZero(c[2]))
-    return solveLinear(c, s);
-
-  // normal for: x^2 + px + q
-  p = c[1] / (2.0 * c[2]);
-  q = c[0] / c[2];
-  D = p * p - q;
-
-  if(isZero(D))
-  {
-    // one S root
-    s[0] = s[1] = -p;
-    return 1;
-  }
-
-  if(D < 0.0)
-    // no real root
-    return 0;
-  else
-  {
-    // two real roots
-    S sqrt_D = sqrt(D);
-    s[0] = sqrt_D - p;
-    s[1] = -sqrt_D - p;
-    return 2;
-  }
-}
-
-//==============================================================================
-template <typename S>
-int PolySolver<S>::solveCubic(S c[4], S s[3])
-{
-  int i, num;
-  S sub, A, B, C, sq_A, p, q, cb_p, D;
-  const S ONE_OVER_THREE = 1 / 3.0;
-  const S PI = 3.14159265358979323846;
-
-  // make sure we have a d2 equation
-  if(isZero(c[3]))
-    return solveQuadric(c, s);
-
-  // normalize the equation:x ^ 3 + Ax ^ 2 + Bx  + C = 0
-  A = c[2] / c[3];
-  B = c[1] / c[3];
-  C = c[0] / c[3];
-
-  // substitute x = y - A / 3 to eliminate the quadratic term: x^3 + px + q = 0
-  sq_A = A * A;
-  p = (-ONE_OVER_THREE * sq_A + B) * ONE_OVER_THREE;
-  q = 0.5 * (2.0 / 27.0 * A * sq_A - ONE_OVER_THREE * A * B + C);
-
-  // use Cardano's formula
-  cb_p = p * p * p;
-  D = q * q + cb_p;
-
-  if(isZero(D))
-  {
-    if(isZero(q))
-    {
-      // one triple solution
-      s[0] = 0.0;
-      num = 1;
-    }
-    else
-    {
-      // one single and one S solution
-      S u = cbrt(-q);
-      s[0] = 2.0 * u;
-      s[1] = -u;
-      num = 2;
-    }
-  }
-  else
-  {
-    if(D < 0.0)
-    {
-      // three real solutions
-      S phi = ONE_OVER_THREE * acos(-q / sqrt(-cb_p));
-      S t = 2.0 * sqrt(-p);
-      s[0] = t * cos(phi);
-      s[1] = -t * cos(phi + PI / 3.0);
-      s[2] = -t * cos(phi - PI / 3.0);
-      num = 3;
-    }
-    else
-    {
-      // one real solution
-      S sqrt_D = sqrt(D);
-      S u = cbrt(sqrt_D + fabs(q));
-      if(q > 0.0)
-        s[0] = - u + p / u ;
-      else
-        s[0] = u - p / u;
-      num = 1;
-    }
-  }
-
-  // re-substitute
-  sub = ONE_OVER_THREE * A;
-  for(i = 0; i < num; i++)
-    s[i] -= sub;
-  return num;
-}
-
-//==============================================================================
-template <typename S>
-bool PolySolver<S>::isZero(S v)
-{
-  return (v < getNearZeroThreshold()) && (v > -getNearZeroThreshold());
-}
-
-//==============================================================================
-template <typename S>
-bool PolySolver<S>::cbrt(S v)
-{
-  return std::pow(v, 1.0 / 3.0);
-}
-
-//==============================================================================
-template <typename S>
-constexpr S PolySolver<S>::getNearZeroThreshold()
-{
-  return 1e-9;
-}
-
-} // namespace detail
-} // namespace fcl
-
-#endif
+/*
+ * Software License Agreement (BSD License)
+ *
+ *  Copyright (c) 2011-2014, Willow Garage, Inc.
+ *  Copyright (c) 2014-2016, Open Source Robotics Foundation
+ *  All rights reserved.
+ *
+ *  Redistribution and use in source and binary forms, with or without
+ *  modification, are permitted provided that the following conditions
+ *  are met:
+ *
+ *   * Redistributions of source code must retain the above copyright
+ *     notice, this list of conditions and the following disclaimer.
+ *   * Redistributions in binary form must reproduce the above
+ *     copyright notice, this list of conditions and the following
+ *     disclaimer in the documentation and/or other materials provided
+ *     with the distribution.
+ *   * Neither the name of Open Source Robotics Foundation nor the names of its
+ *     contributors may be used to endorse or promote products derived
+ *     from this software without specific prior written permission.
+ *
+ *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+ *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
+ *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+ *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+ *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+ *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+ *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+ *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+ *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+ *  POSSIBILITY OF SUCH DAMAGE.
+ */
+
+/** @author Jia Pan */
+
+#ifndef FCL_NARROWPHASE_DETAIL_POLYSOLVER_INL_H
+#define FCL_NARROWPHASE_DETAIL_POLYSOLVER_INL_H
+
+#include "fcl/math/detail/polysolver.h"
+
+#include <cmath>
+#include "fcl/common/types.h"
+
+namespace fcl
+{
+
+namespace detail {
+
+//==============================================================================
+extern template
+class FCL_EXPORT PolySolver<double>;
+
+//==============================================================================
+template <typename S>
+int PolySolver<S>::solveLinear(S c[2], S s[1])
+{
+  if(isZero(c[1]))
+    return 0;
+  s[0] = - c[0] / c[1];
+  return 1;
+}
+
+//==============================================================================
+template <typename S>
+int PolySolver<S>::solveQuadric(S c[3], S s[2])
+{
+  S p, q, D;
+
+  // make sure we have a d2 equation
+
+  if(isZero(c[2]))
+    return solveLinear(c, s);
+
+  // normal for: x^2 + px + q
+  p = c[1] / (2.0 * c[2]);
+  q = c[0] / c[2];
+  D = p * p - q;
+
+  if(isZero(D))
+  {
+    // one S root
+    s[0] = s[1] = -p;
+    return 1;
+  }
+
+  if(D < 0.0)
+    // no real root
+    return 0;
+  else
+  {
+    // two real roots
+    S sqrt_D = sqrt(D);
+    s[0] = sqrt_D - p;
+    s[1] = -sqrt_D - p;
+    return 2;
+  }
+}
+
+//==============================================================================
+template <typename S>
+int PolySolver<S>::solveCubic(S c[4], S s[3])
+{
+  int i, num;
+  S sub, A, B, C, sq_A, p, q, cb_p, D;
+  const S ONE_OVER_THREE = 1 / 3.0;
+  const S PI = 3.14159265358979323846;
+
+  // make sure we have a d2 equation
+  if(isZero(c[3]))
+    return solveQuadric(c, s);
+
+  // normalize the equation:x ^ 3 + Ax ^ 2 + Bx  + C = 0
+  A = c[2] / c[3];
+  B = c[1] / c[3];
+  C = c[0] / c[3];
+
+  // substitute x = y - A / 3 to eliminate the quadratic term: x^3 + px + q = 0
+  sq_A = A * A;
+  p = (-ONE_OVER_THREE * sq_A + B) * ONE_OVER_THREE;
+  q = 0.5 * (2.0 / 27.0 * A * sq_A - ONE_OVER_THREE * A * B + C);
+
+  // use Cardano's formula
+  cb_p = p * p * p;
+  D = q * q + cb_p;
+
+  if(isZero(D))
+  {
+    if(isZero(q))
+    {
+      // one triple solution
+      s[0] = 0.0;
+      num = 1;
+    }
+    else
+    {
+      // one single and one S solution
+      S u = cbrt(-q);
+      s[0] = 2.0 * u;
+      s[1] = -u;
+      num = 2;
+    }
+  }
+  else
+  {
+    if(D < 0.0)
+    {
+      // three real solutions
+      S phi = ONE_OVER_THREE * acos(-q / sqrt(-cb_p));
+      S t = 2.0 * sqrt(-p);
+      s[0] = t * cos(phi);
+      s[1] = -t * cos(phi + PI / 3.0);
+      s[2] = -t * cos(phi - PI / 3.0);
+      num = 3;
+    }
+    else
+    {
+      // one real solution
+      S sqrt_D = sqrt(D);
+      S u = cbrt(sqrt_D + fabs(q));
+      if(q > 0.0)
+        s[0] = - u + p / u ;
+      else
+        s[0] = u - p / u;
+      num = 1;
+    }
+  }
+
+  // re-substitute
+  sub = ONE_OVER_THREE * A;
+  for(i = 0; i < num; i++)
+    s[i] -= sub;
+  return num;
+}
+
+//==============================================================================
+template <typename S>
+bool PolySolver<S>::isZero(S v)
+{
+  return (v < getNearZeroThreshold()) && (v > -getNearZeroThreshold());
+}
+
+//==============================================================================
+template <typename S>
+S PolySolver<S>::cbrt(S v)
+{
+  return std::cbrt(v);
+}
+
+//==============================================================================
+template <typename S>
+constexpr S PolySolver<S>::getNearZeroThreshold()
+{
+  return 1e-9;
+}
+
+} // namespace detail
+} // namespace fcl
+
+#endif
diff --git a/include/fcl/math/detail/polysolver.h b/include/fcl/math/detail/polysolver.h
index 52808a9..924d85b 100644
--- a/include/fcl/math/detail/polysolver.h
+++ b/include/fcl/math/detail/polysolver.h
@@ -1,80 +1,80 @@
-/*
- * Software License Agreement (BSD License)
- *
- *  Copyright (c) 2011-2014, Willow Garage, Inc.
- *  Copyright (c) 2014-2016, Open Source Robotics Foundation
- *  All rights reserved.
- *
- *  Redistribution and use in source and binary forms, with or without
- *  modification, are permitted provided that the following conditions
- *  are met:
- *
- *   * Redistributions of source code must retain the above copyright
- *     notice, this list of conditions and the following disclaimer.
- *   * Redistributions in binary form must reproduce the above
- *     copyright notice, this list of conditions and the following
- *     disclaimer in the documentation and/or other materials provided
- *     with the distribution.
- *   * Neither the name of Open Source Robotics Foundation nor the names of its
- *     contributors may be used to endorse or promote products derived
- *     from this software without specific prior written permission.
- *
- *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
- *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
- *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
- *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
- *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
- *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
- *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
- *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
- *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
- *  POSSIBILITY OF SUCH DAMAGE.
- */
-
-/** @author Jia Pan */
-
-#ifndef FCL_NARROWPHASE_DETAIL_POLYSOLVER_H
-#define FCL_NARROWPHASE_DETAIL_POLYSOLVER_H
-
-#include "fcl/export.h"
-
-namespace fcl
-{
-
-namespace detail {
-
-/// @brief A class solves polynomial degree (1,2,3) equations 
-template <typename S>
-class FCL_EXPORT PolySolver
-{
-public:
-  /// @brief Solve a linear equation with coefficients c, return roots s and number of roots 
-  static int solveLinear(S c[2], S s[1]);
-
-  /// @brief Solve a quadratic function with coefficients c, return roots s and number of roots 
-  static int solveQuadric(S c[3], S s[2]);
-
-  /// @brief Solve a cubic function with coefficients c, return roots s and number of roots 
-  static int solveCubic(S c[4], S s[3]);
-
-private:
-  /// @brief Check whether v is zero 
-  static bool isZero(S v);
-
-  /// @brief Compute v^{1/3} 
-  static bool cbrt(S v);
-
-  static constexpr S getNearZeroThreshold();
-};
-
-using PolySolverf = PolySolver<float>;
-using PolySolverd = PolySolver<double>;
-
-} // namespace detail
-} // namespace fcl
-
-#include "fcl/math/detail/polysolver-inl.h"
-
-#endif
+/*
+ * Software License Agreement (BSD License)
+ *
+ *  Copyright (c) 2011-2014, Willow Garage, Inc.
+ *  Copyright (c) 2014-2016, Open Source Robotics Foundation
+ *  All rights reserved.
+ *
+ *  Redistribution and use in source and binary forms, with or without
+ *  modification, are permitted provided that the following conditions
+ *  are met:
+ *
+ *   * Redistributions of source code must retain the above copyright
+ *     notice, this list of conditions and the following disclaimer.
+ *   * Redistributions in binary form must reproduce the above
+ *     copyright notice, this list of conditions and the following
+ *     disclaimer in the documentation and/or other materials provided
+ *     with the distribution.
+ *   * Neither the name of Open Source Robotics Foundation nor the names of its
+ *     contributors may be used to endorse or promote products derived
+ *     from this software without specific prior written permission.
+ *
+ *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+ *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
+ *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+ *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+ *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+ *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+ *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+ *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+ *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+ *  POSSIBILITY OF SUCH DAMAGE.
+ */
+
+/** @author Jia Pan */
+
+#ifndef FCL_NARROWPHASE_DETAIL_POLYSOLVER_H
+#define FCL_NARROWPHASE_DETAIL_POLYSOLVER_H
+
+#include "fcl/export.h"
+
+namespace fcl
+{
+
+namespace detail {
+
+/// @brief A class solves polynomial degree (1,2,3) equations 
+template <typename S>
+class FCL_EXPORT PolySolver
+{
+public:
+  /// @brief Solve a linear equation with coefficients c, return roots s and number of roots 
+  static int solveLinear(S c[2], S s[1]);
+
+  /// @brief Solve a quadratic function with coefficients c, return roots s and number of roots 
+  static int solveQuadric(S c[3], S s[2]);
+
+  /// @brief Solve a cubic function with coefficients c, return roots s and number of roots 
+  static int solveCubic(S c[4], S s[3]);
+
+private:
+  /// @brief Check whether v is zero 
+  static bool isZero(S v);
+
+  /// @brief Compute v^{1/3} 
+  static S cbrt(S v);
+
+  static constexpr S getNearZeroThreshold();
+};
+
+using PolySolverf = PolySolver<float>;
+using PolySolverd = PolySolver<double>;
+
+} // namespace detail
+} // namespace fcl
+
+#include "fcl/math/detail/polysolver-inl.h"
+
+#endif
-- 
2.43.0


From 20770d7a560732012295e23bb5c6b4a340952124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 047/120] fix: sample SE2 positions between the lower and upper
 bounds

---
 include/fcl/math/sampler/sampler_se2-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/sampler/sampler_se2-inl.h b/include/fcl/math/sampler/sampler_se2-inl.h
index aa3cb9a..1c20ea9 100644
--- a/include/fcl/math/sampler/sampler_se2-inl.h
+++ b/include/fcl/math/sampler/sampler_se2-inl.h
@@ -91,8 +91,8 @@ template <typename S>
 Vector3<S> SamplerSE2<S>::sample() const
 {
   Vector3<S> q;
-  q[0] = this->rng.uniformReal(lower_bound[0], lower_bound[1]);
-  q[1] = this->rng.uniformReal(lower_bound[1], lower_bound[2]);
+  q[0] = this->rng.uniformReal(lower_bound[0], upper_bound[0]);
+  q[1] = this->rng.uniformReal(lower_bound[1], upper_bound[1]);
   q[2] = this->rng.uniformReal(-constants<S>::pi(), constants<S>::pi());
 
   return q;
-- 
2.43.0


From 44f57d29c69a61ad8a1ba87cadd6f640fe3f9da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:38 +0000
Subject: [PATCH 048/120] fix: give SE3 quaternion samples room for all seven
 coordinates

---
 include/fcl/math/sampler/sampler_se3_quat-inl.h | 4 ++--
 include/fcl/math/sampler/sampler_se3_quat.h     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/sampler/sampler_se3_quat-inl.h b/include/fcl/math/sampler/sampler_se3_quat-inl.h
index ed961ab..a54b3a0 100644
--- a/include/fcl/math/sampler/sampler_se3_quat-inl.h
+++ b/include/fcl/math/sampler/sampler_se3_quat-inl.h
@@ -81,9 +81,9 @@ void SamplerSE3Quat<S>::setBound(const Vector3<S>& lower_bound_, const Vector3<S
 
 //==============================================================================
 template <typename S>
-Vector6<S> SamplerSE3Quat<S>::sample() const
+Vector7<S> SamplerSE3Quat<S>::sample() const
 {
-  Vector6<S> q;
+  Vector7<S> q;
   q[0] = this->rng.uniformReal(lower_bound[0], upper_bound[0]);
   q[1] = this->rng.uniformReal(lower_bound[1], upper_bound[1]);
   q[2] = this->rng.uniformReal(lower_bound[2], upper_bound[2]);
diff --git a/include/fcl/math/sampler/sampler_se3_quat.h b/include/fcl/math/sampler/sampler_se3_quat.h
index 3c2ae98..e36d577 100644
--- a/include/fcl/math/sampler/sampler_se3_quat.h
+++ b/include/fcl/math/sampler/sampler_se3_quat.h
@@ -59,7 +59,7 @@ public:
   void getBound(Vector3<S>& lower_bound_,
                 Vector3<S>& upper_bound_) const;
 
-  Vector6<S> sample() const;
+  Vector7<S> sample() const;
 
 protected:
   Vector3<S> lower_bound;
-- 
2.43.0


From 4e893284328b3348117029e95619a7d1624b3504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 049/120] fix: project onto the nearest of all faces a point
 lies beyond

---
 include/fcl/math/detail/project-inl.h | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/fcl/math/detail/project-inl.h b/include/fcl/math/detail/project-inl.h
index abe4df6..b41030d 100644
--- a/include/fcl/math/detail/project-inl.h
+++ b/include/fcl/math/detail/project-inl.h
@@ -135,10 +135,17 @@ typename Project<S>::ProjectResult Project<S>::projectTetrahedra(const Vector3<S
   const Vector3<S> dl[3] = {a-d, b-d, c-d};
   S vl = triple(dl[0], dl[1], dl[2]);
   bool ng = (vl * (a-p).dot((b-c).cross(a-b))) <= 0;
-  if(ng && std::abs(vl) > 0) // abs(vl) == 0, the tetrahedron is degenerated; if ng is false, then the last vertex in the tetrahedron does not grow toward the origin (in fact origin is on the other side of the abc face)
+  if(std::abs(vl) > 0) // abs(vl) == 0, the tetrahedron is degenerated; if ng is false, then the last vertex in the tetrahedron does not grow toward the origin (in fact origin is on the other side of the abc face)
   {
     S mindist = -1;
 
+    if(!ng)
+    {
+      res = projectTriangle(a, b, c, p);
+      res.parameterization[3] = 0;
+      mindist = res.sqr_distance;
+    }
+
     for(size_t i = 0; i < 3; ++i)
     {
       size_t j = nexti[i];
@@ -170,11 +177,6 @@ typename Project<S>::ProjectResult Project<S>::projectTetrahedra(const Vector3<S
 
     res.sqr_distance = mindist;
   }
-  else if(!ng)
-  {
-    res = projectTriangle(a, b, c, p);
-    res.parameterization[3] = 0;
-  }
   return res;
 }
 
@@ -263,10 +265,17 @@ typename Project<S>::ProjectResult Project<S>::projectTetrahedraOrigin(const Vec
   const Vector3<S> dl[3] = {a-d, b-d, c-d};
   S vl = triple(dl[0], dl[1], dl[2]);
   bool ng = (vl * a.dot((b-c).cross(a-b))) <= 0;
-  if(ng && std::abs(vl) > 0) // abs(vl) == 0, the tetrahedron is degenerated; if ng is false, then the last vertex in the tetrahedron does not grow toward the origin (in fact origin is on the other side of the abc face)
+  if(std::abs(vl) > 0) // abs(vl) == 0, the tetrahedron is degenerated; if ng is false, then the last vertex in the tetrahedron does not grow toward the origin (in fact origin is on the other side of the abc face)
   {
     S mindist = -1;
 
+    if(!ng)
+    {
+      res = projectTriangleOrigin(a, b, c);
+      res.parameterization[3] = 0;
+      mindist = res.sqr_distance;
+    }
+
     for(size_t i = 0; i < 3; ++i)
     {
       size_t j = nexti[i];
@@ -298,11 +307,6 @@ typename Project<S>::ProjectResult Project<S>::projectTetrahedraOrigin(const Vec
 
     res.sqr_distance = mindist;
   }
-  else if(!ng)
-  {
-    res = projectTriangleOrigin(a, b, c);
-    res.parameterization[3] = 0;
-  }
   return res;
 }
 
-- 
2.43.0


From 9f8832a3851dd034cc8f1e8fbe32ec541676f636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:03 +0000
Subject: [PATCH 050/120] fix: do not take a noise vector for the slab of
 parallel triangle edges

---
 .../primitive_shape_algorithm/triangle_distance-inl.h      | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
index 33a1d4f..4c611e7 100644
--- a/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
+++ b/include/fcl/narrowphase/detail/primitive_shape_algorithm/triangle_distance-inl.h
@@ -158,7 +158,12 @@ void TriangleDistance<S>::segPoints(const Vector3<S>& P, const Vector3<S>& A, co
     {
       X = P + A * t;
       VEC = A.cross(B);
-      if(VEC.dot(T) < 0)
+      if(VEC.squaredNorm() <= 1e-14 * A_dot_A * B_dot_B)
+      {
+        // (nearly) parallel segments: the cross product is only noise
+        VEC = Y - X;
+      }
+      else if(VEC.dot(T) < 0)
       {
         VEC = VEC * (-1);
       }
-- 
2.43.0


From f2d2ddab07b71e4fe2bd9682a47b8d8a7a17c1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 051/120] fix: do not read past the end of a clipped polygon

---
 .../fcl/narrowphase/detail/traversal/collision/intersect-inl.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index 4c9d606..ef9606b 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -947,7 +947,7 @@ void Intersect<S>::clipPolygonByPlane(Vector3<S>* polygon_points, unsigned int n
   for(unsigned int i = 0; i <= num_polygon_points; ++i)
   {
     vi = (i % num_polygon_points);
-    S d = distanceToPlane(n, t, polygon_points[i]);
+    S d = distanceToPlane(n, t, polygon_points[vi]);
     classify = ((d > getEpsilon()) ? 1 : 0);
     if(classify == 0)
     {
-- 
2.43.0


From 6a1ea4142a060652c885d004c8aae91cfc07dca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 052/120] fix: release the buffers of a refused beginModel()
 when building begins again

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 906a593..c6a5019 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -206,16 +206,14 @@ NODE_TYPE BVHModel<BV>::getNodeType() const
 template <typename BV>
 int BVHModel<BV>::beginModel(int num_tris_, int num_vertices_)
 {
-  if(build_state != BVH_BUILD_STATE_EMPTY)
-  {
-    delete [] vertices; vertices = nullptr;
-    delete [] tri_indices; tri_indices = nullptr;
-    delete [] bvs; bvs = nullptr;
-    delete [] prev_vertices; prev_vertices = nullptr;
-    delete [] primitive_indices; primitive_indices = nullptr;
-
-    num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
-  }
+  // An empty model still owns the buffers of a beginModel() that was refused.
+  delete [] vertices; vertices = nullptr;
+  delete [] tri_indices; tri_indices = nullptr;
+  delete [] bvs; bvs = nullptr;
+  delete [] prev_vertices; prev_vertices = nullptr;
+  delete [] primitive_indices; primitive_indices = nullptr;
+
+  num_vertices_allocated = num_vertices = num_tris_allocated = num_tris = num_bvs_allocated = num_bvs = 0;
 
   if(num_tris_ < 0) num_tris_ = 8;
   if(num_vertices_ <= 0) num_vertices_ = 8;
-- 
2.43.0


From e25af0f5713321bce129985065dbf2d26d93e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 053/120] fix: add triangles and sub-models only to a model
 that has begun

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index c6a5019..d75e849 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -285,7 +285,7 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 template <typename BV>
 int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addTriangle() in a wrong order. addTriangle() was ignored. Must do a beginModel() to clear the model for addition of new triangles.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -344,7 +344,7 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
@@ -380,7 +380,7 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 template <typename BV>
 int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vector<Triangle>& ts)
 {
-  if(build_state == BVH_BUILD_STATE_PROCESSED)
+  if(build_state != BVH_BUILD_STATE_BEGUN)
   {
     std::cerr << "BVH Warning! Call addSubModel() in a wrong order. addSubModel() was ignored. Must do a beginModel() to clear the model for addition of new vertices.\n";
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
-- 
2.43.0


From 9f09b3e9a48eb50ccb19d3565c9be41d2c62c78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 054/120] fix: refuse more vertices than the model has when
 replacing or updating

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 36 ++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index d75e849..b1db458 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -547,6 +547,12 @@ int BVHModel<BV>::replaceVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 1 > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -563,6 +569,12 @@ int BVHModel<BV>::replaceTriangle(const Vector3<S>& p1, const Vector3<S>& p2, co
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -579,6 +591,12 @@ int BVHModel<BV>::replaceSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + static_cast<int>(ps.size()) > num_vertices)
+  {
+    std::cerr << "BVH Error! The replaced model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
@@ -656,6 +674,12 @@ int BVHModel<BV>::updateVertex(const Vector3<S>& p)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 1 > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p;
   num_vertex_updated++;
 
@@ -672,6 +696,12 @@ int BVHModel<BV>::updateTriangle(const Vector3<S>& p1, const Vector3<S>& p2, con
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + 3 > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   vertices[num_vertex_updated] = p1; num_vertex_updated++;
   vertices[num_vertex_updated] = p2; num_vertex_updated++;
   vertices[num_vertex_updated] = p3; num_vertex_updated++;
@@ -688,6 +718,12 @@ int BVHModel<BV>::updateSubModel(const std::vector<Vector3<S>>& ps)
     return BVH_ERR_BUILD_OUT_OF_SEQUENCE;
   }
 
+  if(num_vertex_updated + static_cast<int>(ps.size()) > num_vertices)
+  {
+    std::cerr << "BVH Error! The updated model should have the same number of vertices as the old model.\n";
+    return BVH_ERR_INCORRECT_DATA;
+  }
+
   for(unsigned int i = 0; i < ps.size(); ++i)
   {
     vertices[num_vertex_updated] = ps[i];
-- 
2.43.0


From d92d0cc127f95da3816767d751f36b922a6ce0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 055/120] fix: let a copy of a model under construction grow

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index b1db458..19a66b1 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -88,7 +88,8 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bv_splitter(other.bv_splitter),
     bv_fitter(other.bv_fitter),
     num_tris_allocated(other.num_tris),
-    num_vertices_allocated(other.num_vertices)
+    num_vertices_allocated(other.num_vertices),
+    num_vertex_updated(other.num_vertex_updated)
 {
   if(other.vertices)
   {
@@ -262,6 +263,10 @@ int BVHModel<BV>::addVertex(const Vector3<S>& p)
 
   if(num_vertices >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2];
     if(!temp)
     {
@@ -293,6 +298,10 @@ int BVHModel<BV>::addTriangle(const Vector3<S>& p1, const Vector3<S>& p2, const
 
   if(num_vertices + 2 >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + 2];
     if(!temp)
     {
@@ -354,6 +363,10 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps)
 
   if(num_vertices + num_vertices_to_add - 1 >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add - 1];
     if(!temp)
     {
@@ -390,6 +403,10 @@ int BVHModel<BV>::addSubModel(const std::vector<Vector3<S>>& ps, const std::vect
 
   if(num_vertices + num_vertices_to_add - 1 >= num_vertices_allocated)
   {
+    if(num_vertices_allocated == 0)
+    {
+      num_vertices_allocated = 1;
+    }
     Vector3<S>* temp = new Vector3<S>[num_vertices_allocated * 2 + num_vertices_to_add - 1];
     if(!temp)
     {
-- 
2.43.0


From 2a82592ee502270045a567c997a79392755bfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 056/120] fix: copy the mesh data when assigning a model

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 26 ++++++++++++++++++++++++
 include/fcl/geometry/bvh/BVH_model.h     |  3 +++
 2 files changed, 29 insertions(+)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 19a66b1..2891f14 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -146,6 +146,32 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     bvs = nullptr;
 }
 
+//==============================================================================
+template <typename BV>
+BVHModel<BV>& BVHModel<BV>::operator=(const BVHModel<BV>& other)
+{
+  BVHModel<BV> copy(other);
+
+  CollisionGeometry<S>::operator=(other);
+  std::swap(vertices, copy.vertices);
+  std::swap(tri_indices, copy.tri_indices);
+  std::swap(prev_vertices, copy.prev_vertices);
+  std::swap(num_tris, copy.num_tris);
+  std::swap(num_vertices, copy.num_vertices);
+  std::swap(build_state, copy.build_state);
+  std::swap(bv_splitter, copy.bv_splitter);
+  std::swap(bv_fitter, copy.bv_fitter);
+  std::swap(num_tris_allocated, copy.num_tris_allocated);
+  std::swap(num_vertices_allocated, copy.num_vertices_allocated);
+  std::swap(num_bvs_allocated, copy.num_bvs_allocated);
+  std::swap(num_vertex_updated, copy.num_vertex_updated);
+  std::swap(primitive_indices, copy.primitive_indices);
+  std::swap(bvs, copy.bvs);
+  std::swap(num_bvs, copy.num_bvs);
+
+  return *this;
+}
+
 //==============================================================================
 template <typename BV>
 BVHModel<BV>::~BVHModel()
diff --git a/include/fcl/geometry/bvh/BVH_model.h b/include/fcl/geometry/bvh/BVH_model.h
index 294d521..699db6a 100644
--- a/include/fcl/geometry/bvh/BVH_model.h
+++ b/include/fcl/geometry/bvh/BVH_model.h
@@ -69,6 +69,9 @@ public:
   /// @brief copy from another BVH
   BVHModel(const BVHModel& other);
 
+  /// @brief assignment of another BVH, copies the mesh data
+  BVHModel& operator=(const BVHModel& other);
+
   /// @brief deconstruction, delete mesh data related.
   ~BVHModel();
 
-- 
2.43.0


From b0d603384515480269b959f156c02091214e81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 057/120] fix: complete the frame of the union of two RSS with
 its own axes

---
 include/fcl/math/bv/RSS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 2cbc7dd..3e82b2f 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -368,7 +368,7 @@ RSS<S> RSS<S>::operator +(const RSS<S>& other) const
   // column first matrix, as the axis in RSS
   bv.axis.col(0) = E.col(max);
   bv.axis.col(1) = E.col(mid);
-  bv.axis.col(2).noalias() = axis.col(0).cross(axis.col(1));
+  bv.axis.col(2).noalias() = bv.axis.col(0).cross(bv.axis.col(1));
 
   // set rss origin, rectangle size and radius
   getRadiusAndOriginAndRectangleSize<S>(v, nullptr, nullptr, nullptr, 16, bv.axis, bv.To, bv.l, bv.r);
-- 
2.43.0


From 32b49c58a9853ef0f19bdb1a1921ab7cda82e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 058/120] fix: consider every corner for both ends of the union
 of two near OBB

---
 include/fcl/math/bv/OBB-inl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 4d5455f..47bad32 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -341,7 +341,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
@@ -355,7 +355,7 @@ OBB<S> merge_smalldist(const OBB<S>& b1, const OBB<S>& b2)
       S dot = diff.dot(b.axis.col(j));
       if(dot > pmax[j])
         pmax[j] = dot;
-      else if(dot < pmin[j])
+      if(dot < pmin[j])
         pmin[j] = dot;
     }
   }
-- 
2.43.0


From 71806764b9492386c073302feaaad97a4f75c6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 059/120] fix: give the union of two distant OBB an orthonormal
 frame

---
 include/fcl/math/bv/OBB-inl.h | 37 ++++++++++++-----------------------
 1 file changed, 13 insertions(+), 24 deletions(-)

diff --git a/include/fcl/math/bv/OBB-inl.h b/include/fcl/math/bv/OBB-inl.h
index 47bad32..9675a42 100644
--- a/include/fcl/math/bv/OBB-inl.h
+++ b/include/fcl/math/bv/OBB-inl.h
@@ -274,36 +274,25 @@ OBB<S> merge_largedist(const OBB<S>& b1, const OBB<S>& b2)
   getCovariance<S>(vertex_proj, nullptr, nullptr, nullptr, 16, M);
   eigen_old(M, s, E);
 
-  int min, mid, max;
-  if (s[0] > s[1])
+  // Take the principal direction of the projection as second axis, made
+  // exactly orthogonal to the first one.
+  int max = 0;
+  if (s[1] > s[max]) max = 1;
+  if (s[2] > s[max]) max = 2;
+
+  b.axis.col(2).noalias() = b.axis.col(0).cross(E.col(max));
+  if (b.axis.col(2).norm() > 0.5)
   {
-    max = 0;
-    min = 1;
+    b.axis.col(2).normalize();
+    b.axis.col(1).noalias() = b.axis.col(2).cross(b.axis.col(0));
   }
   else
   {
-    min = 0;
-    max = 1;
+    // Nothing extends across the first axis: any frame about it will do.
+    const Vector3<S> first_axis = b.axis.col(0);
+    b.axis = generateCoordinateSystem(first_axis);
   }
 
-  if (s[2] < s[min])
-  {
-    mid = min;
-    min = 2;
-  }
-  else if (s[2] > s[max])
-  {
-    mid = max;
-    max = 2;
-  }
-  else
-  {
-    mid = 2;
-  }
-
-  b.axis.col(1) << E.col(0)[max], E.col(1)[max], E.col(2)[max];
-  b.axis.col(2) << E.col(0)[mid], E.col(1)[mid], E.col(2)[mid];
-
   // set obb centers and extensions
   getExtentAndCenter<S>(
         vertex, nullptr, nullptr, nullptr, 16, b.axis, b.To, b.extent);
-- 
2.43.0


From b7613776febd37d16fa27abeccb3e416bae4784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 060/120] fix: fit volumes to degenerate triangles and
 coincident points

---
 include/fcl/math/bv/utility-inl.h | 169 +++++++++++++++++++-----------
 1 file changed, 105 insertions(+), 64 deletions(-)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index 333ec15..f7dc96b 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -56,6 +56,71 @@ namespace fcl {
 namespace detail {
 //==============================================================================
 
+//==============================================================================
+/// @brief Orthonormal frame of a triangle: the first axis along its longest
+/// edge, the third one along its normal. Returns false when the three points
+/// coincide. For (nearly) collinear points, which have no reliable normal, any
+/// frame about the longest edge is given.
+template <typename S>
+bool triangleFrame(const Vector3<S>* const ps, Matrix3<S>& axis)
+{
+  Vector3<S> e[3];
+  e[0] = ps[0] - ps[1];
+  e[1] = ps[1] - ps[2];
+  e[2] = ps[2] - ps[0];
+  S len[3];
+  len[0] = e[0].squaredNorm();
+  len[1] = e[1].squaredNorm();
+  len[2] = e[2].squaredNorm();
+
+  int imax = 0;
+  if(len[1] > len[0]) imax = 1;
+  if(len[2] > len[imax]) imax = 2;
+
+  if(!(len[imax] > 0))
+    return false;
+
+  axis.col(0) = e[imax].normalized();
+  axis.col(2) = e[0].normalized().cross(e[1].normalized());
+  const S sine = axis.col(2).norm();
+  if(sine > std::sqrt(std::numeric_limits<S>::epsilon()))
+  {
+    axis.col(2) /= sine;
+    axis.col(1) = axis.col(2).cross(axis.col(0)).normalized();
+    axis.col(2) = axis.col(0).cross(axis.col(1));
+  }
+  else
+  {
+    axis = generateCoordinateSystem(e[imax]);
+  }
+
+  return true;
+}
+
+//==============================================================================
+/// @brief Center and radius of the smallest circle around three points that do
+/// not all coincide.
+template <typename S>
+void circleOfTriangle(const Vector3<S>* const ps, Vector3<S>& center, S& radius)
+{
+  bool acute = true;
+  for(int i = 0; i < 3 && acute; ++i)
+  {
+    const Vector3<S>& a = ps[(i + 1) % 3];
+    const Vector3<S>& b = ps[(i + 2) % 3];
+    if((a - ps[i]).dot(b - ps[i]) <= 0)
+    {
+      center = (a + b) * 0.5;
+      acute = false;
+    }
+  }
+
+  if(acute)
+    circumCircleComputation(ps[0], ps[1], ps[2], center, radius);
+
+  radius = maximumDistance<S>(ps, nullptr, nullptr, nullptr, 3, center);
+}
+
 //==============================================================================
 namespace OBB_fit_functions {
 //==============================================================================
@@ -80,6 +145,12 @@ void fit2(const Vector3<S>* const ps, OBB<S>& bv)
   const Vector3<S> p1p2 = p1 - p2;
   const S len_p1p2 = p1p2.norm();
 
+  if(!(len_p1p2 > 0))
+  {
+    fit1(ps, bv);
+    return;
+  }
+
   bv.axis = generateCoordinateSystem(p1p2);
 
   bv.extent << len_p1p2 * 0.5, 0, 0;
@@ -91,27 +162,11 @@ template <typename S>
 FCL_EXPORT
 void fit3(const Vector3<S>* const ps, OBB<S>& bv)
 {
-  const Vector3<S>& p1 = ps[0];
-  const Vector3<S>& p2 = ps[1];
-  const Vector3<S>& p3 = ps[2];
-  Vector3<S> e[3];
-  e[0] = p1 - p2;
-  e[1] = p2 - p3;
-  e[2] = p3 - p1;
-  S len[3];
-  len[0] = e[0].squaredNorm();
-  len[1] = e[1].squaredNorm();
-  len[2] = e[2].squaredNorm();
-
-  int imax = 0;
-  if(len[1] > len[0]) imax = 1;
-  if(len[2] > len[imax]) imax = 2;
-
-  bv.axis.col(2).noalias() = e[0].cross(e[1]);
-  bv.axis.col(2).normalize();
-  bv.axis.col(0) = e[imax];
-  bv.axis.col(0).normalize();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  if(!triangleFrame(ps, bv.axis))
+  {
+    fit1(ps, bv);
+    return;
+  }
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.extent);
 }
@@ -194,6 +249,12 @@ void fit2(const Vector3<S>* const ps, RSS<S>& bv)
   const Vector3<S> p1p2 = p1 - p2;
   const S len_p1p2 = p1p2.norm();
 
+  if(!(len_p1p2 > 0))
+  {
+    fit1(ps, bv);
+    return;
+  }
+
   bv.axis = generateCoordinateSystem(p1p2);
   bv.l[0] = len_p1p2;
   bv.l[1] = 0;
@@ -207,25 +268,11 @@ template <typename S>
 FCL_EXPORT
 void fit3(const Vector3<S>* const ps, RSS<S>& bv)
 {
-  const Vector3<S>& p1 = ps[0];
-  const Vector3<S>& p2 = ps[1];
-  const Vector3<S>& p3 = ps[2];
-  Vector3<S> e[3];
-  e[0] = p1 - p2;
-  e[1] = p2 - p3;
-  e[2] = p3 - p1;
-  S len[3];
-  len[0] = e[0].squaredNorm();
-  len[1] = e[1].squaredNorm();
-  len[2] = e[2].squaredNorm();
-
-  int imax = 0;
-  if(len[1] > len[0]) imax = 1;
-  if(len[2] > len[imax]) imax = 2;
-
-  bv.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.axis.col(0).noalias() = e[imax].normalized();
-  bv.axis.col(1).noalias() = bv.axis.col(2).cross(bv.axis.col(0));
+  if(!triangleFrame(ps, bv.axis))
+  {
+    fit1(ps, bv);
+    return;
+  }
 
   getRadiusAndOriginAndRectangleSize<S>(ps, nullptr, nullptr, nullptr, 3, bv.axis, bv.To, bv.l, bv.r);
 }
@@ -310,13 +357,19 @@ template <typename S>
 FCL_EXPORT
 void fit2(const Vector3<S>* const ps, kIOS<S>& bv)
 {
-  bv.num_spheres = 5;
-
   const Vector3<S>& p1 = ps[0];
   const Vector3<S>& p2 = ps[1];
   const Vector3<S> p1p2 = p1 - p2;
   const S len_p1p2 = p1p2.norm();
 
+  if(!(len_p1p2 > 0))
+  {
+    fit1(ps, bv);
+    return;
+  }
+
+  bv.num_spheres = 5;
+
   bv.obb.axis = generateCoordinateSystem(p1p2);
 
   S r0 = len_p1p2 * 0.5;
@@ -346,34 +399,22 @@ template <typename S>
 FCL_EXPORT
 void fit3(const Vector3<S>* const ps, kIOS<S>& bv)
 {
-  bv.num_spheres = 3;
-
-  const Vector3<S>& p1 = ps[0];
-  const Vector3<S>& p2 = ps[1];
-  const Vector3<S>& p3 = ps[2];
-  Vector3<S> e[3];
-  e[0] = p1 - p2;
-  e[1] = p2 - p3;
-  e[2] = p3 - p1;
-  S len[3];
-  len[0] = e[0].squaredNorm();
-  len[1] = e[1].squaredNorm();
-  len[2] = e[2].squaredNorm();
-
-  int imax = 0;
-  if(len[1] > len[0]) imax = 1;
-  if(len[2] > len[imax]) imax = 2;
+  if(!triangleFrame(ps, bv.obb.axis))
+  {
+    fit1(ps, bv);
+    return;
+  }
 
-  bv.obb.axis.col(2).noalias() = e[0].cross(e[1]).normalized();
-  bv.obb.axis.col(0) = e[imax].normalized();
-  bv.obb.axis.col(1).noalias() = bv.obb.axis.col(2).cross(bv.obb.axis.col(0));
+  bv.num_spheres = 3;
 
   getExtentAndCenter<S>(ps, nullptr, nullptr, nullptr, 3, bv.obb.axis, bv.obb.To, bv.obb.extent);
 
-  // compute radius and center
+  // compute radius and center of the smallest circle: the circumscribed one, or
+  // that on the longest edge when the angle facing it is not acute (which also
+  // keeps clear of the circumscribed circle of nearly collinear points)
   S r0;
   Vector3<S> center;
-  circumCircleComputation(p1, p2, p3, center, r0);
+  circleOfTriangle(ps, center, r0);
 
   bv.spheres[0].o = center;
   bv.spheres[0].r = r0;
-- 
2.43.0


From 269dbb00963c496dce806b32e8954d0c5ef33cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 061/120] fix: merge spheres of a kIOS in full precision

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index 81a802a..f1cb181 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -64,7 +64,7 @@ typename kIOS<S>::kIOS_Sphere kIOS<S>::encloseSphere(
   }
   else /** spheres partially overlapping or disjoint */
   {
-    float dist = std::sqrt(dist2);
+    S dist = std::sqrt(dist2);
     kIOS_Sphere s;
     s.r = dist + s0.r + s1.r;
     if(dist > 0)
-- 
2.43.0


From 24b69994b0c6a9724348094703cf5f7c2ad75c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 062/120] fix: translate the box of a kIOS along with its
 spheres

---
 include/fcl/math/bv/kIOS-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index f1cb181..e060a08 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -309,7 +309,7 @@ kIOS<S> translate(
     res.spheres[i].o += t;
   }
 
-  translate(res.obb, t);
+  res.obb = translate(res.obb, t);
   return res;
 }
 
-- 
2.43.0


From 926a47c3fed4a7ea5a19d6ca7de3837886c76b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 063/120] fix: take the nearest points of two kIOS from both of
 them

---
 include/fcl/math/bv/kIOS-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/bv/kIOS-inl.h b/include/fcl/math/bv/kIOS-inl.h
index e060a08..9562dfd 100644
--- a/include/fcl/math/bv/kIOS-inl.h
+++ b/include/fcl/math/bv/kIOS-inl.h
@@ -232,12 +232,12 @@ S kIOS<S>::distance(
   {
     if(id_a != -1 && id_b != -1)
     {
-      Vector3<S> v = spheres[id_a].o - spheres[id_b].o;
+      Vector3<S> v = spheres[id_a].o - other.spheres[id_b].o;
       S len_v = v.norm();
       *P = spheres[id_a].o;
       (*P).noalias() -= v * (spheres[id_a].r / len_v);
-      *Q = spheres[id_b].o;
-      (*Q).noalias() += v * (spheres[id_b].r / len_v);
+      *Q = other.spheres[id_b].o;
+      (*Q).noalias() += v * (other.spheres[id_b].r / len_v);
     }
   }
 
-- 
2.43.0


From c56e8c4a59b757e404f5e8fac7da08f16e679847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 064/120] fix: grow an RSS in its own frame when a point is
 added

---
 include/fcl/math/bv/RSS-inl.h | 143 +++++++---------------------------
 1 file changed, 28 insertions(+), 115 deletions(-)

diff --git a/include/fcl/math/bv/RSS-inl.h b/include/fcl/math/bv/RSS-inl.h
index 3e82b2f..8b307b2 100644
--- a/include/fcl/math/bv/RSS-inl.h
+++ b/include/fcl/math/bv/RSS-inl.h
@@ -172,129 +172,42 @@ RSS<S>& RSS<S>::operator +=(const Vector3<S>& p)
       axis.col(0).dot(local_p),
       axis.col(1).dot(local_p),
       axis.col(2).dot(local_p));
-  S abs_proj2 = fabs(proj[2]);
+  const S abs_proj2 = fabs(proj[2]);
 
-  // projection is within the rectangle
-  if((proj[0] < l[0]) && (proj[0] > 0) && (proj[1] < l[1]) && (proj[1] > 0))
+  // offset of the projection from the rectangle
+  S offset[2];
+  for(int i = 0; i < 2; ++i)
   {
-    if(abs_proj2 < r)
-      ; // do nothing
-    else
-    {
-      r = 0.5 * (r + abs_proj2); // enlarge the r
-      // change RSS origin position
-      if(proj[2] > 0)
-        To[2] += 0.5 * (abs_proj2 - r);
-      else
-        To[2] -= 0.5 * (abs_proj2 - r);
-    }
+    if(proj[i] < 0) offset[i] = proj[i];
+    else if(proj[i] > l[i]) offset[i] = proj[i] - l[i];
+    else offset[i] = 0;
   }
-  else if((proj[0] < l[0]) && (proj[0] > 0) && ((proj[1] < 0) || (proj[1] > l[1])))
+  const S diag = std::sqrt(offset[0] * offset[0] + offset[1] * offset[1]);
+
+  if(diag * diag + abs_proj2 * abs_proj2 <= r * r)
+    return *this;
+
+  // part of the offset the rectangle has to be extended by
+  S ratio = 1;
+  if(abs_proj2 < r)
   {
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(proj[0], y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_y = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-      }
-      else
-      {
-        S delta_y = fabs(proj[1] - y);
-        l[1] += delta_y;
-        if(proj[1] < 0)
-          To[1] -= delta_y;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    const S reach = std::sqrt(r * r - abs_proj2 * abs_proj2);
+    ratio = (diag > reach) ? (diag - reach) / diag : (S)0.0;
   }
-  else if((proj[1] < l[1]) && (proj[1] > 0) && ((proj[0] < 0) || (proj[0] > l[0])))
+  else
   {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    Vector3<S> v(x, proj[1], 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S delta_x = - std::sqrt(r * r - proj[2] * proj[2]) + fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        l[0] += delta_x;
-        if(proj[0] < 0)
-          To[0] -= delta_x;
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    // enlarge the r and move the rectangle towards the point as much
+    const S shift = 0.5 * (abs_proj2 - r);
+    r += shift;
+    To += axis.col(2) * ((proj[2] > 0) ? shift : -shift);
   }
-  else
+
+  for(int i = 0; i < 2; ++i)
   {
-    S x = (proj[0] > 0) ? l[0] : 0;
-    S y = (proj[1] > 0) ? l[1] : 0;
-    Vector3<S> v(x, y, 0);
-    S new_r_sqr = (proj - v).squaredNorm();
-    if(new_r_sqr < r * r)
-      ; // do nothing
-    else
-    {
-      if(abs_proj2 < r)
-      {
-        S diag = std::sqrt(new_r_sqr - proj[2] * proj[2]);
-        S delta_diag = - std::sqrt(r * r - proj[2] * proj[2]) + diag;
-
-        S delta_x = delta_diag / diag * fabs(proj[0] - x);
-        S delta_y = delta_diag / diag * fabs(proj[1] - y);
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-      }
-      else
-      {
-        S delta_x = fabs(proj[0] - x);
-        S delta_y = fabs(proj[1] - y);
-
-        l[0] += delta_x;
-        l[1] += delta_y;
-
-        if(proj[0] < 0 && proj[1] < 0)
-        {
-          To[0] -= delta_x;
-          To[1] -= delta_y;
-        }
-
-        if(proj[2] > 0)
-          To[2] += 0.5 * (abs_proj2 - r);
-        else
-          To[2] -= 0.5 * (abs_proj2 - r);
-      }
-    }
+    const S delta = offset[i] * ratio;
+    l[i] += fabs(delta);
+    if(delta < 0)
+      To += axis.col(i) * delta;
   }
 
   return *this;
-- 
2.43.0


From 4cbabffb0c649cb530dfaa393980deea98b0670c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 065/120] fix: place the box made of a bounding volume on that
 volume

---
 include/fcl/geometry/shape/utility-inl.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index ca42a0b..251c576 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -1102,7 +1102,7 @@ void constructBox(const RSS<S>& bv, Box<S>& box, Transform3<S>& tf)
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
 }
 
 //==============================================================================
@@ -1144,11 +1144,10 @@ void constructBox(const AABB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tr
 template <typename S>
 void constructBox(const OBB<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.extent * 2);
   tf.linear() = bv.axis;
   tf.translation() = bv.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1165,11 +1164,10 @@ void constructBox(const OBBRSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box,
 template <typename S>
 void constructBox(const kIOS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Transform3<S>& tf)
 {
-  FCL_UNUSED(tf_bv);
-
   box = Box<S>(bv.obb.extent * 2);
   tf.linear() = bv.obb.axis;
   tf.translation() = bv.obb.To;
+  tf = tf_bv * tf;
 }
 
 //==============================================================================
@@ -1178,7 +1176,7 @@ void constructBox(const RSS<S>& bv, const Transform3<S>& tf_bv, Box<S>& box, Tra
 {
   box = Box<S>(bv.width(), bv.height(), bv.depth());
   tf.linear() = bv.axis;
-  tf.translation() = bv.To;
+  tf.translation() = bv.center();
   tf = tf_bv * tf;
 }
 
-- 
2.43.0


From 49d9e762061c915804e389cedf05b47e48bb11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:17 +0000
Subject: [PATCH 066/120] fix: turn the oriented box of a convex with its frame

---
 include/fcl/geometry/shape/utility-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 251c576..1f4f8d3 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -253,7 +253,7 @@ struct FCL_EXPORT ComputeBVImpl<S, OBB<S>, Convex<S>>
   {
     fit(s.getVertices().data(), static_cast<int>(s.getVertices().size()), bv);
 
-    bv.axis = tf.linear();
+    bv.axis = tf.linear() * bv.axis;
     bv.To = tf * bv.To;
   }
 };
-- 
2.43.0


From cbe1f8b7d2b18541b0f898accfef08fea5478087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 067/120] fix: bound half spaces and planes along the right
 k-DOP directions

---
 include/fcl/geometry/shape/utility-inl.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 1f4f8d3..78bc309 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -450,7 +450,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -510,7 +510,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 18>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -575,7 +575,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
     }
     else if(n[1] == (S)0.0 && n[0] == n[2])
     {
-      if(n[1] > 0) bv.dist(D + 4) = n[0] * d * 2;
+      if(n[0] > 0) bv.dist(D + 4) = n[0] * d * 2;
       else bv.dist(4) = n[0] * d * 2;
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
@@ -598,7 +598,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Halfspace<S>>
       if(n[1] > 0) bv.dist(D + 8) = n[1] * d * 2;
       else bv.dist(8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] == n[1] && n[0] + n[2] == (S)0.0)
     {
       if(n[0] > 0) bv.dist(D + 9) = n[0] * d * 3;
       else bv.dist(9) = n[0] * d * 3;
@@ -753,7 +753,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 16>, Plane<S>>
     }
     else if(n[0] == (S)0.0 && n[1] == n[2])
     {
-      bv.dist(6) = bv.dist(D + 5) = n[1] * d * 2;
+      bv.dist(5) = bv.dist(D + 5) = n[1] * d * 2;
     }
     else if(n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
     {
@@ -881,7 +881,7 @@ struct FCL_EXPORT ComputeBVImpl<S, KDOP<S, 24>, Plane<S>>
     {
       bv.dist(8) = bv.dist(D + 8) = n[1] * d * 2;
     }
-    else if(n[0] + n[2] == (S)0.0 && n[0] + n[1] == (S)0.0)
+    else if(n[0] == n[1] && n[0] + n[2] == (S)0.0)
     {
       bv.dist(9) = bv.dist(D + 9) = n[0] * d * 3;
     }
-- 
2.43.0


From 4cab3d5baa96c7c84b46cd5ff6ea77d07f0e4b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 068/120] fix: enclose all of a plane in its RSS

---
 include/fcl/geometry/shape/utility-inl.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/fcl/geometry/shape/utility-inl.h b/include/fcl/geometry/shape/utility-inl.h
index 78bc309..bb378e5 100644
--- a/include/fcl/geometry/shape/utility-inl.h
+++ b/include/fcl/geometry/shape/utility-inl.h
@@ -674,16 +674,14 @@ struct FCL_EXPORT ComputeBVImpl<S, RSS<S>, Plane<S>>
 {
   static void run(const Plane<S>& s, const Transform3<S>& tf, RSS<S>& bv)
   {
-    const Vector3<S> n = tf.linear() * s.n;
-    bv.axis = generateCoordinateSystem(n);
-
-    bv.l[0] = std::numeric_limits<S>::max();
-    bv.l[1] = std::numeric_limits<S>::max();
-
-    bv.r = 0;
+    FCL_UNUSED(s);
+    FCL_UNUSED(tf);
 
-    Vector3<S> p = s.n * s.d;
-    bv.To = tf * p;
+    /// The rectangle of an RSS starts at a corner, so that none extends without
+    /// bound in all directions of the plane: it can only have very rough RSS
+    bv.axis.setIdentity();
+    bv.To.setZero();
+    bv.l[0] = bv.l[1] = bv.r = std::numeric_limits<S>::max();
   }
 };
 
-- 
2.43.0


From add3b703dcfbfad0cb5048e8586cb35ea76bbf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:43 +0000
Subject: [PATCH 069/120] fix: convert a kIOS about the center of its box

---
 include/fcl/math/bv/utility-inl.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/fcl/math/bv/utility-inl.h b/include/fcl/math/bv/utility-inl.h
index f7dc96b..e43cce4 100644
--- a/include/fcl/math/bv/utility-inl.h
+++ b/include/fcl/math/bv/utility-inl.h
@@ -853,6 +853,18 @@ public:
   }
 };
 
+//==============================================================================
+template <typename S>
+class FCL_EXPORT ConvertBVImpl<S, kIOS<S>, AABB<S>>
+{
+public:
+  static void run(const kIOS<S>& bv1, const Transform3<S>& tf1, AABB<S>& bv2)
+  {
+    // The extents of a kIOS are those of its box, about the center of the box.
+    ConvertBVImpl<S, OBB<S>, AABB<S>>::run(bv1.obb, tf1, bv2);
+  }
+};
+
 //==============================================================================
 template <typename S, typename BV1>
 class FCL_EXPORT ConvertBVImpl<S, BV1, OBB<S>>
-- 
2.43.0


From bb3854b513bc266c2ed459a321810814c606f238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 070/120] fix: fit the bounding volumes of a point cloud to its
 points

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 2891f14..7ac1166 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -516,6 +516,13 @@ int BVHModel<BV>::endModel()
     num_tris_allocated = num_tris;
   }
 
+  // A point cloud has no triangles; its bounding volumes are fitted to vertices.
+  if(num_tris == 0)
+  {
+    delete [] tri_indices;
+    tri_indices = nullptr;
+  }
+
   if(num_vertices_allocated > num_vertices)
   {
     Vector3<S>* new_vertices = new Vector3<S>[num_vertices];
-- 
2.43.0


From b28414cff18802e1e743a9a22f9d480879713c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:09 +0000
Subject: [PATCH 071/120] fix: name the given geometries, not temporary copies,
 in results

---
 include/fcl/narrowphase/collision_result-inl.h       | 12 ++++++++++++
 include/fcl/narrowphase/collision_result.h           |  4 ++++
 .../narrowphase/detail/collision_func_matrix-inl.h   |  4 ++++
 .../narrowphase/detail/distance_func_matrix-inl.h    |  3 +++
 4 files changed, 23 insertions(+)

diff --git a/include/fcl/narrowphase/collision_result-inl.h b/include/fcl/narrowphase/collision_result-inl.h
index e8829be..f0b92fc 100644
--- a/include/fcl/narrowphase/collision_result-inl.h
+++ b/include/fcl/narrowphase/collision_result-inl.h
@@ -120,6 +120,18 @@ void CollisionResult<S>::getCostSources(
   std::copy(cost_sources.begin(), cost_sources.end(), cost_sources_.begin());
 }
 
+//==============================================================================
+template <typename S>
+void CollisionResult<S>::replaceGeometry(
+    const CollisionGeometry<S>* from, const CollisionGeometry<S>* to)
+{
+  for (Contact<S>& contact : contacts)
+  {
+    if (contact.o1 == from) contact.o1 = to;
+    if (contact.o2 == from) contact.o2 = to;
+  }
+}
+
 //==============================================================================
 template <typename S>
 void CollisionResult<S>::clear()
diff --git a/include/fcl/narrowphase/collision_result.h b/include/fcl/narrowphase/collision_result.h
index a0d3677..b9b4bea 100644
--- a/include/fcl/narrowphase/collision_result.h
+++ b/include/fcl/narrowphase/collision_result.h
@@ -88,6 +88,10 @@ public:
   /// @brief get all the cost sources 
   void getCostSources(std::vector<CostSource<S>>& cost_sources_);
 
+  /// @brief let the contacts that name geometry @p from name @p to instead
+  void replaceGeometry(
+      const CollisionGeometry<S>* from, const CollisionGeometry<S>* to);
+
   /// @brief clear the results obtained
   void clear();
 };
diff --git a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
index 092d338..2135bcb 100644
--- a/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/collision_func_matrix-inl.h
@@ -341,6 +341,7 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, no_cost_request, result);
       fcl::detail::collide(&node);
 
+      result.replaceGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
 
       Box<S> box;
@@ -365,6 +366,7 @@ struct BVHShapeCollider
       initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
       fcl::detail::collide(&node);
 
+      result.replaceGeometry(obj1_tmp, obj1);
       delete obj1_tmp;
     }
 
@@ -546,6 +548,8 @@ struct BVHCollideImpl
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     collide(&node);
 
+    result.replaceGeometry(obj1_tmp, obj1);
+    result.replaceGeometry(obj2_tmp, obj2);
     delete obj1_tmp;
     delete obj2_tmp;
 
diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index 43f5f09..a609d38 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -249,6 +249,7 @@ struct BVHShapeDistancer
     initialize(node, *obj1_tmp, tf1_tmp, *obj2, tf2, nsolver, request, result);
     ::fcl::distance(&node);
 
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
     delete obj1_tmp;
     return result.min_distance;
   }
@@ -362,6 +363,8 @@ struct BVHDistanceImpl
 
     initialize(node, *obj1_tmp, tf1_tmp, *obj2_tmp, tf2_tmp, request, result);
     distance(&node);
+    if(result.o1 == obj1_tmp) result.o1 = obj1;
+    if(result.o2 == obj2_tmp) result.o2 = obj2;
     delete obj1_tmp;
     delete obj2_tmp;
 
-- 
2.43.0


From 0915b4215c8c2160dd53541b0c39766241b42a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:37 +0000
Subject: [PATCH 072/120] fix: collide half spaces and planes with meshes of
 any bounding volume

---
 .../narrowphase/detail/gjk_solver_indep-inl.h | 42 +++++++++++++++++++
 .../detail/gjk_solver_libccd-inl.h            | 42 +++++++++++++++++++
 2 files changed, 84 insertions(+)

diff --git a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
index c4d9c1d..30f3f47 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_indep-inl.h
@@ -445,6 +445,48 @@ struct ShapeTriangleIntersectIndepImpl<S, Sphere<S>>
 };
 
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectIndepImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_indep<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectIndepImpl
diff --git a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
index 0a9e4f5..695113e 100755
--- a/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/gjk_solver_libccd-inl.h
@@ -419,6 +419,48 @@ struct ShapeTriangleIntersectLibccdImpl<S, Sphere<S>>
   }
 };
 
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Halfspace<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Halfspace<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::halfspaceTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
+//==============================================================================
+template<typename S>
+struct ShapeTriangleIntersectLibccdImpl<S, Plane<S>>
+{
+  static bool run(
+      const GJKSolver_libccd<S>& /*gjkSolver*/,
+      const Plane<S>& s,
+      const Transform3<S>& tf,
+      const Vector3<S>& P1,
+      const Vector3<S>& P2,
+      const Vector3<S>& P3,
+      Vector3<S>* contact_points,
+      S* penetration_depth,
+      Vector3<S>* normal)
+  {
+    return detail::planeTriangleIntersect(
+          s, tf, P1, P2, P3, Transform3<S>::Identity(),
+          contact_points, penetration_depth, normal);
+  }
+};
+
 //==============================================================================
 template<typename S, typename Shape>
 struct ShapeTransformedTriangleIntersectLibccdImpl
-- 
2.43.0


From a57e07934ee627f83fc447165fb7d5ca3a155751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 073/120] fix: find the extreme vertex of a convex mesh with
 flat neighborhoods

---
 include/fcl/geometry/shape/convex-inl.h | 31 +++++++++++++++----------
 include/fcl/geometry/shape/convex.h     |  4 ++++
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index ef3dc75..41fd60b 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -73,8 +73,10 @@ Convex<S>::Convex(
   // Compute an interior point. We're computing the mean point and *not* some
   // alternative such as the centroid or bounding box center.
   Vector3<S> sum = Vector3<S>::Zero();
+  max_magnitude_.setZero();
   for (const auto& vertex : *vertices_) {
     sum += vertex;
+    max_magnitude_ = max_magnitude_.cwiseMax(vertex.cwiseAbs());
   }
   interior_point_ = sum * (S)(1.0 / vertices_->size());
   FindVertexNeighbors();
@@ -276,10 +278,19 @@ const Vector3<S>& Convex<S>::findExtremeVertex(const Vector3<S>& v_C) const {
   S extreme_value = v_C.dot(vertices[extreme_index]);
 
   if (find_extreme_via_neighbors_) {
-    bool keep_searching = true;
-    while (keep_searching) {
-      keep_searching = false;
-      const int neighbor_start = neighbors_[extreme_index];
+    // The vertices still to be walked from. Vertices as good as the best one
+    // (to within rounding error) are all walked from: where they lie inside a
+    // face perpendicular to v_C, a single one of them can have no better
+    // neighbor without being extreme.
+    const S tolerance = 16 * std::numeric_limits<S>::epsilon() *
+                        v_C.cwiseAbs().dot(max_magnitude_);
+    std::vector<int> frontier(1, extreme_index);
+    visited[extreme_index] = 1;
+    while (!frontier.empty()) {
+      const int index = frontier.back();
+      frontier.pop_back();
+      if (v_C.dot(vertices[index]) < extreme_value - tolerance) continue;
+      const int neighbor_start = neighbors_[index];
       const int neighbor_count = neighbors_[neighbor_start];
       for (int n_index = neighbor_start + 1;
            n_index <= neighbor_start + neighbor_count; ++n_index) {
@@ -287,14 +298,10 @@ const Vector3<S>& Convex<S>::findExtremeVertex(const Vector3<S>& v_C) const {
         if (visited[neighbor_index]) continue;
         visited[neighbor_index] = 1;
         const S neighbor_value = v_C.dot(vertices[neighbor_index]);
-        // N.B. Testing >= (instead of >) protects us from the (very rare) case
-        // where the *starting* vertex is co-planar with all of its neighbors
-        // *and* the query direction v_C is perpendicular to that plane. With >
-        // we wouldn't walk away from the start vertex. With >= we will walk
-        // away and continue around (although it won't necessarily be the
-        // fastest walk down).
-        if (neighbor_value >= extreme_value) {
-          keep_searching = true;
+        if (neighbor_value >= extreme_value - tolerance) {
+          frontier.push_back(neighbor_index);
+        }
+        if (neighbor_value > extreme_value) {
           extreme_index = neighbor_index;
           extreme_value = neighbor_value;
         }
diff --git a/include/fcl/geometry/shape/convex.h b/include/fcl/geometry/shape/convex.h
index 41f2cca..bb6d4a4 100644
--- a/include/fcl/geometry/shape/convex.h
+++ b/include/fcl/geometry/shape/convex.h
@@ -262,6 +262,10 @@ public:
    hypothesis attributes it to improved cache hits. */
   std::vector<int> neighbors_;
 
+  // The largest magnitude of each vertex coordinate; the scale of the rounding
+  // error in the vertex values findExtremeVertex() compares.
+  Vector3<S> max_magnitude_;
+
   // If true, findExtremeVertex() can reliably use neighbor_vertices_ to walk
   // along the surface of the mesh. If false, it must linearly search.
   bool find_extreme_via_neighbors_{false};
-- 
2.43.0


From cb95e30470ccbcb9d29e91934836d6a57a23fedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 074/120] fix: shift the inertia of a convex mesh to its center
 of mass by its own mass

---
 include/fcl/geometry/shape/convex-inl.h | 10 ++++++++++
 include/fcl/geometry/shape/convex.h     |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/include/fcl/geometry/shape/convex-inl.h b/include/fcl/geometry/shape/convex-inl.h
index 41fd60b..c8e33bc 100644
--- a/include/fcl/geometry/shape/convex-inl.h
+++ b/include/fcl/geometry/shape/convex-inl.h
@@ -163,6 +163,16 @@ Matrix3<S> Convex<S>::computeMomentofInertia() const {
   return m * (6 / vol_times_six);
 }
 
+//==============================================================================
+template <typename S>
+Matrix3<S> Convex<S>::computeMomentofInertiaRelatedToCOM() const {
+  // The moment of inertia of Convex is that of a unit mass (and not of a unit
+  // density), and so is the parallel axis term.
+  const Vector3<S> com = computeCOM();
+  return computeMomentofInertia() -
+         (com.squaredNorm() * Matrix3<S>::Identity() - com * com.transpose());
+}
+
 //==============================================================================
 template <typename S>
 Vector3<S> Convex<S>::computeCOM() const {
diff --git a/include/fcl/geometry/shape/convex.h b/include/fcl/geometry/shape/convex.h
index bb6d4a4..0238b52 100644
--- a/include/fcl/geometry/shape/convex.h
+++ b/include/fcl/geometry/shape/convex.h
@@ -158,6 +158,9 @@ public:
   // Documentation inherited.
   Matrix3<S> computeMomentofInertia() const override;
 
+  // Documentation inherited.
+  Matrix3<S> computeMomentofInertiaRelatedToCOM() const override;
+
   // Documentation inherited.
   Vector3<S> computeCOM() const override;
 
-- 
2.43.0


From f3758dfb4558cc8cade1e96b00166bc7afe911d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:23 +0000
Subject: [PATCH 075/120] fix: tessellate spheres and ellipsoids at the
 documented density, small shapes at least closed

---
 .../geometric_shape_to_BVH_model-inl.h        | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
index 7fe4386..89af8bf 100644
--- a/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
+++ b/include/fcl/geometry/geometric_shape_to_BVH_model-inl.h
@@ -40,6 +40,9 @@
 
 #include "fcl/geometry/geometric_shape_to_BVH_model.h"
 
+#include <algorithm>
+#include <cmath>
+
 namespace fcl
 {
 
@@ -177,9 +180,9 @@ int generateBVHModel(BVHModel<BV>& model, const Sphere<typename BV::S>& shape, c
   using S = typename BV::S;
 
   S r = shape.radius;
-  S n_low_bound = sqrtf(n_faces_for_unit_sphere / 2.0) * r * r;
-  unsigned int ring = ceil(n_low_bound);
-  unsigned int seg = ceil(n_low_bound);
+  const S n_low_bound = std::sqrt(n_faces_for_unit_sphere / 2.0) * r;
+  const unsigned int ring = std::max(1u, static_cast<unsigned int>(std::ceil(n_low_bound)));
+  const unsigned int seg = std::max(3u, static_cast<unsigned int>(std::ceil(n_low_bound)));
 
   return generateBVHModel(model, shape, pose, seg, ring, finalize_model);
 }
@@ -264,10 +267,10 @@ int generateBVHModel(BVHModel<BV>& model, const Ellipsoid<typename BV::S>& shape
   const S& cp = std::pow(shape.radii[2], p);
 
   const S ratio = std::pow((ap * bp + bp * cp + cp * ap) / 3.0, 1.0 / p);
-  const S n_low_bound = std::sqrt(n_faces_for_unit_ellipsoid / 2.0) * ratio;
+  const S n_low_bound = std::sqrt(n_faces_for_unit_ellipsoid / 2.0 * ratio);
 
-  const unsigned int ring = std::ceil(n_low_bound);
-  const unsigned int seg = std::ceil(n_low_bound);
+  const unsigned int ring = std::max(1u, static_cast<unsigned int>(std::ceil(n_low_bound)));
+  const unsigned int seg = std::max(3u, static_cast<unsigned int>(std::ceil(n_low_bound)));
 
   return generateBVHModel(model, shape, pose, seg, ring, finalize_model);
 }
@@ -347,11 +350,11 @@ int generateBVHModel(BVHModel<BV>& model, const Cylinder<typename BV::S>& shape,
   S h = shape.lz;
 
   const S pi = constants<S>::pi();
-  unsigned int circle_split_tot = circle_split_tot_for_unit_cylinder * r;
+  const unsigned int circle_split_tot = std::max(3u, static_cast<unsigned int>(circle_split_tot_for_unit_cylinder * r));
   S phid = pi * 2 / circle_split_tot;
 
   S circle_edge = phid * r;
-  unsigned int h_num = ceil(h / circle_edge);
+  const unsigned int h_num = std::max(1u, static_cast<unsigned int>(std::ceil(h / circle_edge)));
 
   return generateBVHModel(model, shape, pose, circle_split_tot, h_num, finalize_model);
 }
@@ -433,11 +436,11 @@ int generateBVHModel(BVHModel<BV>& model, const Cone<typename BV::S>& shape, con
   S h = shape.lz;
 
   const S pi = constants<S>::pi();
-  unsigned int circle_split_tot = circle_split_tot_for_unit_cone * r;
+  const unsigned int circle_split_tot = std::max(3u, static_cast<unsigned int>(circle_split_tot_for_unit_cone * r));
   S phid = pi * 2 / circle_split_tot;
 
   S circle_edge = phid * r;
-  unsigned int h_num = ceil(h / circle_edge);
+  const unsigned int h_num = std::max(1u, static_cast<unsigned int>(std::ceil(h / circle_edge)));
 
   return generateBVHModel(model, shape, pose, circle_split_tot, h_num, finalize_model);
 }
-- 
2.43.0


From 7dcfd3f6a00fbca587ae6eead6e321901c7c599f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 076/120] fix: keep the whole octree cell id in contacts and
 distance results

---
 include/fcl/narrowphase/contact-inl.h         | 8 ++++----
 include/fcl/narrowphase/contact.h             | 4 ++--
 include/fcl/narrowphase/distance_result-inl.h | 8 ++++----
 include/fcl/narrowphase/distance_result.h     | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/fcl/narrowphase/contact-inl.h b/include/fcl/narrowphase/contact-inl.h
index 88d26e5..e0b93dc 100644
--- a/include/fcl/narrowphase/contact-inl.h
+++ b/include/fcl/narrowphase/contact-inl.h
@@ -63,8 +63,8 @@ template <typename S>
 Contact<S>::Contact(
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_)
+    intptr_t b1_,
+    intptr_t b2_)
   : o1(o1_),
     o2(o2_),
     b1(b1_),
@@ -78,8 +78,8 @@ template <typename S>
 Contact<S>::Contact(
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_,
+    intptr_t b1_,
+    intptr_t b2_,
     const Vector3<S>& pos_,
     const Vector3<S>& normal_,
     S depth_)
diff --git a/include/fcl/narrowphase/contact.h b/include/fcl/narrowphase/contact.h
index eaa9b2f..6d750b5 100644
--- a/include/fcl/narrowphase/contact.h
+++ b/include/fcl/narrowphase/contact.h
@@ -82,9 +82,9 @@ struct FCL_EXPORT Contact
 
   Contact();
 
-  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_);
+  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_);
 
-  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_,
+  Contact(const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_,
           const Vector3<S>& pos_, const Vector3<S>& normal_, S depth_);
 
   bool operator < (const Contact& other) const;
diff --git a/include/fcl/narrowphase/distance_result-inl.h b/include/fcl/narrowphase/distance_result-inl.h
index 424cffd..76c3230 100644
--- a/include/fcl/narrowphase/distance_result-inl.h
+++ b/include/fcl/narrowphase/distance_result-inl.h
@@ -67,8 +67,8 @@ void DistanceResult<S>::update(
     S distance,
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_)
+    intptr_t b1_,
+    intptr_t b2_)
 {
   if(min_distance > distance)
   {
@@ -87,8 +87,8 @@ void DistanceResult<S>::update(
     S distance,
     const CollisionGeometry<S>* o1_,
     const CollisionGeometry<S>* o2_,
-    int b1_,
-    int b2_,
+    intptr_t b1_,
+    intptr_t b2_,
     const Vector3<S>& p1,
     const Vector3<S>& p2)
 {
diff --git a/include/fcl/narrowphase/distance_result.h b/include/fcl/narrowphase/distance_result.h
index 97373a3..9f2c0b4 100644
--- a/include/fcl/narrowphase/distance_result.h
+++ b/include/fcl/narrowphase/distance_result.h
@@ -94,10 +94,10 @@ public:
   DistanceResult(S min_distance_ = std::numeric_limits<S>::max());
 
   /// @brief add distance information into the result
-  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_);
+  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_);
 
   /// @brief add distance information into the result
-  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, int b1_, int b2_, const Vector3<S>& p1, const Vector3<S>& p2);
+  void update(S distance, const CollisionGeometry<S>* o1_, const CollisionGeometry<S>* o2_, intptr_t b1_, intptr_t b2_, const Vector3<S>& p1, const Vector3<S>& p2);
 
   /// @brief add distance information into the result
   void update(const DistanceResult& other_result);
-- 
2.43.0


From 92ca5e98a4286dde48ef3a380878fb581ca61dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 077/120] fix: an occupied octree node is not free

---
 include/fcl/geometry/octree/octree-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fcl/geometry/octree/octree-inl.h b/include/fcl/geometry/octree/octree-inl.h
index f50fe81..0ac304b 100644
--- a/include/fcl/geometry/octree/octree-inl.h
+++ b/include/fcl/geometry/octree/octree-inl.h
@@ -120,7 +120,8 @@ template <typename S>
 bool OcTree<S>::isNodeFree(const typename OcTree<S>::OcTreeNode* node) const
 {
   // return false; // default no definitely free node
-  return node->getLogOdds() <= free_threshold_log_odds;
+  return !isNodeOccupied(node)
+      && node->getLogOdds() <= free_threshold_log_odds;
 }
 
 //==============================================================================
-- 
2.43.0


From 803d426908df00f5b8bdc1000adc0f60a02e46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 078/120] fix: collide octrees with half spaces and planes

---
 .../detail/traversal/octree/octree_solver-inl.h           | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9c66696..80d0e9b 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -190,10 +190,8 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv2;
-  computeBV(s, Transform3<S>::Identity(), bv2);
   OBB<S> obb2;
-  convertBV(bv2, tf2, obb2);
+  computeBV(s, tf2, obb2);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb2,
                               tf1, tf2);
@@ -215,10 +213,8 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
-  AABB<S> bv1;
-  computeBV(s, Transform3<S>::Identity(), bv1);
   OBB<S> obb1;
-  convertBV(bv1, tf1, obb1);
+  computeBV(s, tf1, obb1);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
                               s, obb1,
                               tf2, tf1);
-- 
2.43.0


From 286d7e9504206ad887819923c84179e06b6c79f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 079/120] fix: no distance to an empty octree

---
 .../traversal/octree/octree_solver-inl.h      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 80d0e9b..8317e63 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -92,6 +92,10 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty tree has no cells
+  if(!tree1->getRoot() || !tree2->getRoot())
+    return;
+
   OcTreeDistanceRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                         tree2, tree2->getRoot(), tree2->getRootBV(),
                         tf1, tf2);
@@ -130,6 +134,10 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty tree has no cells
+  if(!tree1->getRoot())
+    return;
+
   OcTreeMeshDistanceRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                             tree2, 0,
                             tf1, tf2);
@@ -170,6 +178,10 @@ void OcTreeSolver<NarrowPhaseSolver>::MeshOcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty tree has no cells
+  if(!tree2->getRoot())
+    return;
+
   OcTreeMeshDistanceRecurse(tree1, 0,
                             tree2, tree2->getRoot(), tree2->getRootBV(),
                             tf1, tf2);
@@ -235,6 +247,10 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty tree has no cells
+  if(!tree->getRoot())
+    return;
+
   AABB<S> aabb2;
   computeBV(s, tf2, aabb2);
   OcTreeShapeDistanceRecurse(tree, tree->getRoot(), tree->getRootBV(),
@@ -257,6 +273,10 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeDistance(
   drequest = &request_;
   dresult = &result_;
 
+  // an empty tree has no cells
+  if(!tree->getRoot())
+    return;
+
   AABB<S> aabb1;
   computeBV(s, tf1, aabb1);
   OcTreeShapeDistanceRecurse(tree, tree->getRoot(), tree->getRootBV(),
-- 
2.43.0


From 61c3e2f932fbd232ea9de5ac096cd324132301a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 080/120] fix: report the cost of octree cells meeting a shape

---
 .../fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 8317e63..cacc444 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -429,6 +429,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
 
         return crequest->isSatisfied(*cresult);
@@ -452,6 +453,7 @@ bool OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersectRecurse(const OcTree<S
           computeBV(box, box_tf, aabb1);
           computeBV(s, tf2, aabb2);
           aabb1.overlap(aabb2, overlap_part);
+          cresult->addCostSource(CostSource<S>(overlap_part, root1->getOccupancy() * s.cost_density), crequest->num_max_cost_sources);
         }
       }
 
-- 
2.43.0


From 4034033c3b61008335fd495e1e093fde859e28d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 081/120] fix: no cost sources of an empty octree unless asked
 for

---
 .../traversal/octree/octree_solver-inl.h      | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index cacc444..9533647 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -74,6 +74,10 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
+  // an empty tree is unknown space: it has a cost, but no contacts
+  if((!tree1->getRoot() || !tree2->getRoot()) && !request_.enable_cost)
+    return;
+
   OcTreeIntersectRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                          tree2, tree2->getRoot(), tree2->getRootBV(),
                          tf1, tf2);
@@ -115,6 +119,10 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersect(
   crequest = &request_;
   cresult = &result_;
 
+  // an empty tree is unknown space: it has a cost, but no contacts
+  if(!tree1->getRoot() && !request_.enable_cost)
+    return;
+
   OcTreeMeshIntersectRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
                              tree2, 0,
                              tf1, tf2);
@@ -158,6 +166,10 @@ void OcTreeSolver<NarrowPhaseSolver>::MeshOcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
+  // an empty tree is unknown space: it has a cost, but no contacts
+  if(!tree2->getRoot() && !request_.enable_cost)
+    return;
+
   OcTreeMeshIntersectRecurse(tree2, tree2->getRoot(), tree2->getRootBV(),
                              tree1, 0,
                              tf2, tf1);
@@ -202,6 +214,10 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersect(
   crequest = &request_;
   cresult = &result_;
 
+  // an empty tree is unknown space: it has a cost, but no contacts
+  if(!tree->getRoot() && !request_.enable_cost)
+    return;
+
   OBB<S> obb2;
   computeBV(s, tf2, obb2);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
@@ -225,6 +241,10 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeIntersect(
   crequest = &request_;
   cresult = &result_;
 
+  // an empty tree is unknown space: it has a cost, but no contacts
+  if(!tree->getRoot() && !request_.enable_cost)
+    return;
+
   OBB<S> obb1;
   computeBV(s, tf1, obb1);
   OcTreeShapeIntersectRecurse(tree, tree->getRoot(), tree->getRootBV(),
-- 
2.43.0


From 258220d86c11f8dbd2568b64d9112232729e70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 082/120] fix: no cost sources of free objects against meshes

---
 .../collision/mesh_shape_collision_traversal_node-inl.h         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
index d24b467..573ab57 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/mesh_shape_collision_traversal_node-inl.h
@@ -253,7 +253,7 @@ void meshShapeCollisionOrientedNodeLeafTesting(
       result.addCostSource(CostSource<S>(overlap_part, cost_density), request.num_max_cost_sources);
     }
   }
-  else if((!model1->isFree() || model2.isFree()) && request.enable_cost)
+  else if((!model1->isFree() && !model2.isFree()) && request.enable_cost)
   {
     if(nsolver->shapeTriangleIntersect(model2, tf2, p1, p2, p3, tf1, nullptr, nullptr, nullptr))
     {
-- 
2.43.0


From fc4e95503054be5e8739096d32efe51a73a2c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 083/120] fix: drop cost sources with an empty box

---
 include/fcl/narrowphase/collision_result-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/collision_result-inl.h b/include/fcl/narrowphase/collision_result-inl.h
index f0b92fc..8e1ef3b 100644
--- a/include/fcl/narrowphase/collision_result-inl.h
+++ b/include/fcl/narrowphase/collision_result-inl.h
@@ -66,6 +66,10 @@ template <typename S>
 void CollisionResult<S>::addCostSource(
     const CostSource<S>& c, std::size_t num_max_cost_sources)
 {
+  // the bounding boxes of objects that barely touch can miss each other
+  if((c.aabb_min.array() > c.aabb_max.array()).any())
+    return;
+
   cost_sources.insert(c);
   while (cost_sources.size() > num_max_cost_sources)
     cost_sources.erase(--cost_sources.end());
-- 
2.43.0


From 43c21c060cf71c9f03e3f01d29b7ebb04777788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:42 +0000
Subject: [PATCH 084/120] fix: keep cost sources that differ only in their
 upper corner

---
 include/fcl/narrowphase/cost_source-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/cost_source-inl.h b/include/fcl/narrowphase/cost_source-inl.h
index abadfc9..a875f05 100644
--- a/include/fcl/narrowphase/cost_source-inl.h
+++ b/include/fcl/narrowphase/cost_source-inl.h
@@ -99,6 +99,10 @@ bool CostSource<S>::operator <(const CostSource& other) const
     if(aabb_min[i] != other.aabb_min[i])
       return aabb_min[i] < other.aabb_min[i];
 
+  for(size_t i = 0; i < 3; ++i)
+    if(aabb_max[i] != other.aabb_max[i])
+      return aabb_max[i] < other.aabb_max[i];
+
   return false;
 }
 
-- 
2.43.0


From c045ed116dddc78bb1a1fd560e0204d32e9f9b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 085/120] fix: no cost sources of free objects with an empty
 octree

---
 .../detail/traversal/octree/octree_solver-inl.h           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
index 9533647..342828d 100644
--- a/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/octree/octree_solver-inl.h
@@ -120,7 +120,7 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeMeshIntersect(
   cresult = &result_;
 
   // an empty tree is unknown space: it has a cost, but no contacts
-  if(!tree1->getRoot() && !request_.enable_cost)
+  if(!tree1->getRoot() && (!request_.enable_cost || tree2->isFree()))
     return;
 
   OcTreeMeshIntersectRecurse(tree1, tree1->getRoot(), tree1->getRootBV(),
@@ -167,7 +167,7 @@ void OcTreeSolver<NarrowPhaseSolver>::MeshOcTreeIntersect(
   cresult = &result_;
 
   // an empty tree is unknown space: it has a cost, but no contacts
-  if(!tree2->getRoot() && !request_.enable_cost)
+  if(!tree2->getRoot() && (!request_.enable_cost || tree1->isFree()))
     return;
 
   OcTreeMeshIntersectRecurse(tree2, tree2->getRoot(), tree2->getRootBV(),
@@ -215,7 +215,7 @@ void OcTreeSolver<NarrowPhaseSolver>::OcTreeShapeIntersect(
   cresult = &result_;
 
   // an empty tree is unknown space: it has a cost, but no contacts
-  if(!tree->getRoot() && !request_.enable_cost)
+  if(!tree->getRoot() && (!request_.enable_cost || s.isFree()))
     return;
 
   OBB<S> obb2;
@@ -242,7 +242,7 @@ void OcTreeSolver<NarrowPhaseSolver>::ShapeOcTreeIntersect(
   cresult = &result_;
 
   // an empty tree is unknown space: it has a cost, but no contacts
-  if(!tree->getRoot() && !request_.enable_cost)
+  if(!tree->getRoot() && (!request_.enable_cost || s.isFree()))
     return;
 
   OBB<S> obb1;
-- 
2.43.0


From 31016fdebabf62fe2adbc0d82dca77783fc7c1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 086/120] fix: absolute upper bound of a mostly negative
 interval

---
 include/fcl/math/motion/taylor_model/interval-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/interval-inl.h b/include/fcl/math/motion/taylor_model/interval-inl.h
index 2e2dbb1..cf0f939 100644
--- a/include/fcl/math/motion/taylor_model/interval-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval-inl.h
@@ -361,7 +361,7 @@ template <typename S>
 S Interval<S>::getAbsUpper() const
 {
   if(i_[0] + i_[1] >= 0) return i_[1];
-  return i_[0];
+  return -i_[0];
 }
 
 //==============================================================================
-- 
2.43.0


From 6e1e9df124aee9b5b4d52d68995ea64c804a8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 087/120] fix: return the lower limits from IMatrix3::getLow

---
 include/fcl/math/motion/taylor_model/interval_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index bda8fc0..3e87510 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -165,9 +165,9 @@ template <typename S>
 Matrix3<S> IMatrix3<S>::getLow() const
 {
   Matrix3<S> m;
-  m << v_[0][0][1], v_[0][1][1], v_[0][2][1],
-       v_[1][0][1], v_[1][1][1], v_[1][2][1],
-       v_[2][0][1], v_[2][1][1], v_[2][2][1];
+  m << v_[0][0][0], v_[0][1][0], v_[0][2][0],
+       v_[1][0][0], v_[1][1][0], v_[1][2][0],
+       v_[2][0][0], v_[2][1][0], v_[2][2][0];
   return m;
 }
 
-- 
2.43.0


From 636be36f158e6fc5acf36c184dd4934bfbcc1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 088/120] fix: keep the values of a rotation in
 rotationConstrain

---
 .../motion/taylor_model/interval_matrix-inl.h |  2 +-
 .../motion/taylor_model/taylor_matrix-inl.h   | 41 ++++---------------
 2 files changed, 9 insertions(+), 34 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
index 3e87510..c5a948a 100644
--- a/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/interval_matrix-inl.h
@@ -322,7 +322,7 @@ void IMatrix3<S>::print() const
 template <typename S>
 IMatrix3<S> rotationConstrain(const IMatrix3<S>& m)
 {
-  IMatrix3<S> res;
+  IMatrix3<S> res(m);
   for(std::size_t i = 0; i < 3; ++i)
   {
     for(std::size_t j = 0; j < 3; ++j)
diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index f5b1843..2043383 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -459,18 +459,13 @@ TMatrix3<S>& TMatrix3<S>::rotationConstrain()
   {
     for(std::size_t j = 0; j < 3; ++j)
     {
-      if(v_[i][j].remainder()[0] < -1) v_[i][j].remainder()[0] = -1;
-      else if(v_[i][j].remainder()[0] > 1) v_[i][j].remainder()[0] = 1;
-
-      if(v_[i][j].remainder()[1] < -1) v_[i][j].remainder()[1] = -1;
-      else if(v_[i][j].remainder()[1] > 1) v_[i][j].remainder()[1] = 1;
-
-      if((v_[i][j].remainder()[0] == -1) && (v_[i][j].remainder()[1] == 1))
+      // The entries of a rotation lie in [-1, 1]: a model that says less about
+      // them than that is replaced. Narrowing the remainder of any other model
+      // would cut off values of the entry, as the polynomial is added to it.
+      if((v_[i][j].remainder()[0] <= -1) && (v_[i][j].remainder()[1] >= 1))
       {
-        v_[i][j].coeff(0) = 0;
-        v_[i][j].coeff(1) = 0;
-        v_[i][j].coeff(2) = 0;
-        v_[i][j].coeff(3) = 0;
+        v_[i][j].setZero();
+        v_[i][j].remainder().setValue(-1, 1);
       }
     }
   }
@@ -482,28 +477,8 @@ TMatrix3<S>& TMatrix3<S>::rotationConstrain()
 template <typename S>
 TMatrix3<S> rotationConstrain(const TMatrix3<S>& m)
 {
-  TMatrix3<S> res;
-
-  for(std::size_t i = 0; i < 3; ++i)
-  {
-    for(std::size_t j = 0; j < 3; ++j)
-    {
-      if(m(i, j).remainder()[0] < -1) res(i, j).remainder()[0] = -1;
-      else if(m(i, j).remainder()[0] > 1) res(i, j).remainder()[0] = 1;
-
-      if(m(i, j).remainder()[1] < -1) res(i, j).remainder()[1] = -1;
-      else if(m(i, j).remainder()[1] > 1) res(i, j).remainder()[1] = 1;
-
-      if((m(i, j).remainder()[0] == -1) && (m(i, j).remainder()[1] == 1))
-      {
-        res(i, j).coeff(0) = 0;
-        res(i, j).coeff(1) = 0;
-        res(i, j).coeff(2) = 0;
-        res(i, j).coeff(3) = 0;
-      }
-    }
-  }
-
+  TMatrix3<S> res(m);
+  res.rotationConstrain();
   return res;
 }
 
-- 
2.43.0


From 0c29a38ce117ab5a8f3c50f6aeb41bd0682bc734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 089/120] fix: fill the third column of a matrix times a Taylor
 model

---
 include/fcl/math/motion/taylor_model/taylor_matrix-inl.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
index 2043383..0621c46 100644
--- a/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_matrix-inl.h
@@ -489,15 +489,15 @@ TMatrix3<S> operator * (const Matrix3<S>& m, const TaylorModel<S>& a)
   TMatrix3<S> res(a.getTimeInterval());
   res(0, 0) = a * m(0, 0);
   res(0, 1) = a * m(0, 1);
-  res(0, 1) = a * m(0, 2);
+  res(0, 2) = a * m(0, 2);
 
   res(1, 0) = a * m(1, 0);
   res(1, 1) = a * m(1, 1);
-  res(1, 1) = a * m(1, 2);
+  res(1, 2) = a * m(1, 2);
 
   res(2, 0) = a * m(2, 0);
   res(2, 1) = a * m(2, 1);
-  res(2, 1) = a * m(2, 2);
+  res(2, 2) = a * m(2, 2);
 
   return res;
 }
-- 
2.43.0


From 0d29c1c8a88fd800f2cacdeda90fd618589fcf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 090/120] fix: upper bound of a Taylor model over its time
 interval

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 861f72d..7630bc3 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -356,7 +356,7 @@ Interval<S> TaylorModel<S>::getBound(S t0, S t1) const
 template <typename S>
 Interval<S> TaylorModel<S>::getBound() const
 {
-  return Interval<S>(coeffs_[0] + r_[0], coeffs_[1] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
+  return Interval<S>(coeffs_[0] + r_[0], coeffs_[0] + r_[1]) + time_interval_->t_ * coeffs_[1] + time_interval_->t2_ * coeffs_[2] + time_interval_->t3_ * coeffs_[3];
 }
 
 //==============================================================================
-- 
2.43.0


From c55c4b2ff48837b2a77a98ca159e5ae485a6a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 091/120] fix: remainders of the Taylor models of cosine and
 sine

---
 .../motion/taylor_model/taylor_model-inl.h    | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index 7630bc3..b9b7d52 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -551,7 +551,7 @@ void generateTaylorModelForCosFunc(TaylorModel<S>& tm, S w, S q0)
   // [0, midSize4] * fdddBounds
   if(fddddBounds[0] > 0)
     tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-  else if(fddddBounds[0] < 0)
+  else if(fddddBounds[1] < 0)
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
   else
     tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
@@ -611,22 +611,22 @@ void generateTaylorModelForSinFunc(TaylorModel<S>& tm, S w, S q0)
       k2 -= 0.5;
       if(ceil(k1) - floor(k2) > 1) fddddBounds[0] = -1;
     }
+  }
 
-    S w4 = w2 * w2;
-    fddddBounds *= w4;
+  S w4 = w2 * w2;
+  fddddBounds *= w4;
 
-    S midSize = 0.5 * (tm.getTimeInterval()->t_[1] - tm.getTimeInterval()->t_[0]);
-    S midSize2 = midSize * midSize;
-    S midSize4 = midSize2 * midSize2;
+  S midSize = 0.5 * (tm.getTimeInterval()->t_[1] - tm.getTimeInterval()->t_[0]);
+  S midSize2 = midSize * midSize;
+  S midSize4 = midSize2 * midSize2;
 
-    // [0, midSize4] * fdddBounds
-    if(fddddBounds[0] > 0)
-      tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
-    else if(fddddBounds[0] < 0)
-      tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
-    else
-      tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
-  }
+  // [0, midSize4] * fdddBounds
+  if(fddddBounds[0] > 0)
+    tm.remainder().setValue(0, fddddBounds[1] * midSize4 * (1.0 / 24));
+  else if(fddddBounds[1] < 0)
+    tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), 0);
+  else
+    tm.remainder().setValue(fddddBounds[0] * midSize4 * (1.0 / 24), fddddBounds[1] * midSize4 * (1.0 / 24));
 }
 
 //==============================================================================
-- 
2.43.0


From f2c93bfafa6065b27401be61d367d8b2aa11e8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 092/120] fix: extrema of a Taylor model with a tiny cubic
 coefficient

---
 include/fcl/math/motion/taylor_model/taylor_model-inl.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/fcl/math/motion/taylor_model/taylor_model-inl.h b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
index b9b7d52..9bbe7eb 100644
--- a/include/fcl/math/motion/taylor_model/taylor_model-inl.h
+++ b/include/fcl/math/motion/taylor_model/taylor_model-inl.h
@@ -423,8 +423,10 @@ Interval<S> TaylorModel<S>::getTightBound(S t0, S t1) const
     if(delta < 0)
       return Interval<S>(LQ, RQ) + r_;
 
-    S r1 = (-coeffs_[2]-sqrt(delta))/(3*coeffs_[3]);
-    S r2 = (-coeffs_[2]+sqrt(delta))/(3*coeffs_[3]);
+    // avoid cancellation, which misplaces a root when coeffs_[3] is tiny
+    S q = coeffs_[2] >= 0 ? -coeffs_[2]-sqrt(delta) : -coeffs_[2]+sqrt(delta);
+    S r1 = q/(3*coeffs_[3]);
+    S r2 = q != 0 ? coeffs_[1]/q : r1;
 
     if(r1 <= t1 && r1 >= t0)
     {
-- 
2.43.0


From bb22fbbb52c2111ec1f7b99b03c35dc32b29feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 093/120] fix: implement the Taylor model of a translation
 motion

---
 include/fcl/math/motion/translation_motion-inl.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/fcl/math/motion/translation_motion-inl.h b/include/fcl/math/motion/translation_motion-inl.h
index a2aaf6c..fc42130 100644
--- a/include/fcl/math/motion/translation_motion-inl.h
+++ b/include/fcl/math/motion/translation_motion-inl.h
@@ -115,11 +115,9 @@ void TranslationMotion<S>::getCurrentTransform(Transform3<S>& tf_) const
 template <typename S>
 void TranslationMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
-  FCL_UNUSED(tm);
-  FCL_UNUSED(tv);
-
-  // Do nothing
-  // TODO(JS): Not implemented?
+  tm = TMatrix3<S>(rot.toRotationMatrix(), this->getTimeInterval());
+  tv.setTimeInterval(this->getTimeInterval());
+  generateTVector3ForLinearFunc(tv, trans_start, trans_range);
 }
 
 //==============================================================================
-- 
2.43.0


From 10dd7a0be734e7474993bbc9493e608a0cf66ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 094/120] fix: initialize every part of an InterpMotion

---
 include/fcl/math/motion/interp_motion-inl.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/fcl/math/motion/interp_motion-inl.h b/include/fcl/math/motion/interp_motion-inl.h
index c006841..0aa176d 100644
--- a/include/fcl/math/motion/interp_motion-inl.h
+++ b/include/fcl/math/motion/interp_motion-inl.h
@@ -50,14 +50,20 @@ class FCL_EXPORT InterpMotion<double>;
 //==============================================================================
 template <typename S>
 InterpMotion<S>::InterpMotion()
-  : MotionBase<S>(), angular_axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    angular_axis(Vector3<S>::UnitX())
 {
   // Default angular velocity is zero
   angular_vel = 0;
 
   // Default reference point is local zero point
+  reference_p.setZero();
 
   // Default linear velocity is zero
+  linear_vel.setZero();
 }
 
 //==============================================================================
@@ -67,7 +73,8 @@ InterpMotion<S>::InterpMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>(),
     tf1(Transform3<S>::Identity()),
-    tf2(Transform3<S>::Identity())
+    tf2(Transform3<S>::Identity()),
+    reference_p(Vector3<S>::Zero())
 {
   tf1.linear() = R1;
   tf1.translation() = T1;
@@ -85,7 +92,8 @@ InterpMotion<S>::InterpMotion(
 template <typename S>
 InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_)
-  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1)
+  : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1),
+    reference_p(Vector3<S>::Zero())
 {
   // Compute the velocities for the motion
   computeVelocity();
@@ -122,7 +130,8 @@ InterpMotion<S>::InterpMotion(
     const Transform3<S>& tf1_, const Transform3<S>& tf2_, const Vector3<S>& O)
   : MotionBase<S>(), tf1(tf1_), tf2(tf2_), tf(tf1), reference_p(O)
 {
-  // Do nothing
+  // Compute the velocities for the motion
+  computeVelocity();
 }
 
 //==============================================================================
-- 
2.43.0


From 2f9f54645fa4196fe1f8a04c6efda25f05958929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 095/120] fix: initialize every part of a default ScrewMotion

---
 include/fcl/math/motion/screw_motion-inl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index ae72d6c..14b7366 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -50,12 +50,17 @@ class FCL_EXPORT ScrewMotion<double>;
 //==============================================================================
 template <typename S>
 ScrewMotion<S>::ScrewMotion()
-  : MotionBase<S>(), axis(Vector3<S>::UnitX())
+  : MotionBase<S>(),
+    tf1(Transform3<S>::Identity()),
+    tf2(Transform3<S>::Identity()),
+    tf(Transform3<S>::Identity()),
+    axis(Vector3<S>::UnitX())
 {
   // Default angular velocity is zero
   angular_vel = 0;
 
   // Default reference point is local zero point
+  p.setZero();
 
   // Default linear velocity is zero
   linear_vel = 0;
-- 
2.43.0


From bf36669406568bd4208759b9edea2b316c47689f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 096/120] fix: reach the goal of a screw motion without
 rotation

---
 include/fcl/math/motion/screw_motion-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/math/motion/screw_motion-inl.h b/include/fcl/math/motion/screw_motion-inl.h
index 14b7366..0b21564 100644
--- a/include/fcl/math/motion/screw_motion-inl.h
+++ b/include/fcl/math/motion/screw_motion-inl.h
@@ -179,6 +179,8 @@ void ScrewMotion<S>::computeScrewParameter()
     angular_vel = 0;
     axis = tf2.translation() - tf1.translation();
     linear_vel = axis.norm();
+    if(linear_vel > 0) axis /= linear_vel;
+    else axis = Vector3<S>::UnitX();
     p = tf1.translation();
   }
   else
-- 
2.43.0


From f2f18456f0652e1f2bda13b78034d39a90b96639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 097/120] fix: implement the spline motion between two
 transforms

---
 include/fcl/math/motion/spline_motion-inl.h | 72 ++++++++++++---------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index e3d992d..dd9b8f5 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -40,7 +40,7 @@
 
 #include "fcl/math/motion/spline_motion.h"
 
-#include "fcl/common/unused.h"
+#include "fcl/math/constants.h"
 
 namespace fcl
 {
@@ -66,24 +66,7 @@ SplineMotion<S>::SplineMotion(
   Rd[2] = Rd2;
   Rd[3] = Rd3;
 
-  Rd0Rd0 = Rd[0].dot(Rd[0]);
-  Rd0Rd1 = Rd[0].dot(Rd[1]);
-  Rd0Rd2 = Rd[0].dot(Rd[2]);
-  Rd0Rd3 = Rd[0].dot(Rd[3]);
-  Rd1Rd1 = Rd[1].dot(Rd[1]);
-  Rd1Rd2 = Rd[1].dot(Rd[2]);
-  Rd1Rd3 = Rd[1].dot(Rd[3]);
-  Rd2Rd2 = Rd[2].dot(Rd[2]);
-  Rd2Rd3 = Rd[2].dot(Rd[3]);
-  Rd3Rd3 = Rd[3].dot(Rd[3]);
-
-  TA = Td[1] * 3 - Td[2] * 3 + Td[3] - Td[0];
-  TB = (Td[0] - Td[1] * 2 + Td[2]) * 3;
-  TC = (Td[2] - Td[0]) * 3;
-
-  RA = Rd[1] * 3 - Rd[2] * 3 + Rd[3] - Rd[0];
-  RB = (Rd[0] - Rd[1] * 2 + Rd[2]) * 3;
-  RC = (Rd[2] - Rd[0]) * 3;
+  computeSplineParameter();
 
   tf.setIdentity();
   integrate(0.0);
@@ -96,24 +79,36 @@ SplineMotion<S>::SplineMotion(
     const Matrix3<S>& R2, const Vector3<S>& T2)
   : MotionBase<S>()
 {
-  FCL_UNUSED(R1);
-  FCL_UNUSED(T1);
-  FCL_UNUSED(R2);
-  FCL_UNUSED(T2);
+  // Equally spaced control points move the spline from the second one at time 0
+  // to the third one at time 1.
+  Td[1] = T1;
+  Td[2] = T2;
+  Td[0] = T1 * 2 - T2;
+  Td[3] = T2 * 2 - T1;
+
+  const AngleAxis<S> aa1(R1);
+  const AngleAxis<S> aa2(R2);
+  Rd[1] = aa1.axis() * aa1.angle();
+  // of the vectors of the goal rotation take the one nearest to the start
+  const S turn = 2 * constants<S>::pi();
+  const S turns = std::floor((Rd[1].dot(aa2.axis()) - aa2.angle()) / turn + (S)0.5);
+  Rd[2] = aa2.axis() * (aa2.angle() + turns * turn);
+  Rd[0] = Rd[1] * 2 - Rd[2];
+  Rd[3] = Rd[2] * 2 - Rd[1];
+
+  computeSplineParameter();
 
-  // TODO
+  tf.setIdentity();
+  integrate(0.0);
 }
 
 //==============================================================================
 template <typename S>
 SplineMotion<S>::SplineMotion(
     const Transform3<S>& tf1, const Transform3<S>& tf2)
-  : MotionBase<S>()
+  : SplineMotion(tf1.linear(), tf1.translation(), tf2.linear(), tf2.translation())
 {
-  FCL_UNUSED(tf1);
-  FCL_UNUSED(tf2);
-
-  // TODO
+  // Do nothing
 }
 
 //==============================================================================
@@ -242,7 +237,24 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 template <typename S>
 void SplineMotion<S>::computeSplineParameter()
 {
-  // TODO(JS): Not implemented?
+  Rd0Rd0 = Rd[0].dot(Rd[0]);
+  Rd0Rd1 = Rd[0].dot(Rd[1]);
+  Rd0Rd2 = Rd[0].dot(Rd[2]);
+  Rd0Rd3 = Rd[0].dot(Rd[3]);
+  Rd1Rd1 = Rd[1].dot(Rd[1]);
+  Rd1Rd2 = Rd[1].dot(Rd[2]);
+  Rd1Rd3 = Rd[1].dot(Rd[3]);
+  Rd2Rd2 = Rd[2].dot(Rd[2]);
+  Rd2Rd3 = Rd[2].dot(Rd[3]);
+  Rd3Rd3 = Rd[3].dot(Rd[3]);
+
+  TA = Td[1] * 3 - Td[2] * 3 + Td[3] - Td[0];
+  TB = (Td[0] - Td[1] * 2 + Td[2]) * 3;
+  TC = (Td[2] - Td[0]) * 3;
+
+  RA = Rd[1] * 3 - Rd[2] * 3 + Rd[3] - Rd[0];
+  RB = (Rd[0] - Rd[1] * 2 + Rd[2]) * 3;
+  RC = (Rd[2] - Rd[0]) * 3;
 }
 
 //==============================================================================
-- 
2.43.0


From 47e22401da2116dd25c6f9502197768d4c8faad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 098/120] fix: Taylor model of a spline motion

---
 include/fcl/math/motion/spline_motion-inl.h | 122 +++++++++++++-------
 1 file changed, 78 insertions(+), 44 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index dd9b8f5..4abae2e 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -40,6 +40,9 @@
 
 #include "fcl/math/motion/spline_motion.h"
 
+#include <algorithm>
+#include <cmath>
+
 #include "fcl/math/constants.h"
 
 namespace fcl
@@ -159,7 +162,7 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
 {
   // set tv
   Vector3<S> c[4];
-  c[0] = (Td[0] + Td[1] * 4 + Td[2] + Td[3]) * (1/6.0);
+  c[0] = (Td[0] + Td[1] * 4 + Td[2]) * (1/6.0);
   c[1] = (-Td[0] + Td[2]) * (1/2.0);
   c[2] = (Td[0] - Td[1] * 2 + Td[2]) * (1/2.0);
   c[3] = (-Td[0] + Td[1] * 3 - Td[2] * 3 + Td[3]) * (1/6.0);
@@ -170,53 +173,84 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
     {
       tv[i].coeff(j) = c[j][i];
     }
+    tv[i].remainder().setValue(0);
   }
 
   // set tm
   Matrix3<S> I = Matrix3<S>::Identity();
-  // R(t) = R(t0) + R'(t0) (t-t0) + 1/2 R''(t0)(t-t0)^2 + 1 / 6 R'''(t0) (t-t0)^3 + 1 / 24 R''''(l)(t-t0)^4; t0 = 0.5
+  // R(t) = R(t0) + R'(t0) (t-t0) + 1/2 R''(t0)(t-t0)^2 + 1 / 6 R'''(l)(t-t0)^3; t0 = 0.5
   /// 1. compute M(1/2)
-  Vector3<S> Rt0 = (Rd[0] + Rd[1] * 23 + Rd[2] * 23 + Rd[3]) * (1 / 48.0);
-  S Rt0_len = Rt0.norm();
-  S inv_Rt0_len = 1.0 / Rt0_len;
-  S inv_Rt0_len_3 = inv_Rt0_len * inv_Rt0_len * inv_Rt0_len;
-  S inv_Rt0_len_5 = inv_Rt0_len_3 * inv_Rt0_len * inv_Rt0_len;
-  S theta0 = Rt0_len;
-  S costheta0 = cos(theta0);
-  S sintheta0 = sin(theta0);
-
-  Vector3<S> Wt0 = Rt0 * inv_Rt0_len;
-  Matrix3<S> hatWt0;
-  hat(hatWt0, Wt0);
-  Matrix3<S> hatWt0_sqr = hatWt0 * hatWt0;
-  Matrix3<S> Mt0 = I + hatWt0 * sintheta0 + hatWt0_sqr * (1 - costheta0);
-  // TODO(JS): this could be improved by using exp(Wt0)
-
-  /// 2. compute M'(1/2)
-  Vector3<S> dRt0 = (-Rd[0] - Rd[1] * 5 + Rd[2] * 5 + Rd[3]) * (1 / 8.0);
-  S Rt0_dot_dRt0 = Rt0.dot(dRt0);
-  S dtheta0 = Rt0_dot_dRt0 * inv_Rt0_len;
-  Vector3<S> dWt0 = dRt0 * inv_Rt0_len - Rt0 * (Rt0_dot_dRt0 * inv_Rt0_len_3);
-  Matrix3<S> hatdWt0;
-  hat(hatdWt0, dWt0);
-  Matrix3<S> dMt0 = hatdWt0 * sintheta0 + hatWt0 * (costheta0 * dtheta0) + hatWt0_sqr * (sintheta0 * dtheta0) + (hatWt0 * hatdWt0 + hatdWt0 * hatWt0) * (1 - costheta0);
-
-  /// 3.1. compute M''(1/2)
-  Vector3<S> ddRt0 = (Rd[0] - Rd[1] - Rd[2] + Rd[3]) * 0.5;
-  S Rt0_dot_ddRt0 = Rt0.dot(ddRt0);
-  S dRt0_dot_dRt0 = dRt0.squaredNorm();
-  S ddtheta0 = (Rt0_dot_ddRt0 + dRt0_dot_dRt0) * inv_Rt0_len - Rt0_dot_dRt0 * Rt0_dot_dRt0 * inv_Rt0_len_3;
-  Vector3<S> ddWt0 = ddRt0 * inv_Rt0_len - (dRt0 * (2 * Rt0_dot_dRt0) + Rt0 * (Rt0_dot_ddRt0 + dRt0_dot_dRt0)) * inv_Rt0_len_3 + (Rt0 * (3 * Rt0_dot_dRt0 * Rt0_dot_dRt0)) * inv_Rt0_len_5;
-  Matrix3<S> hatddWt0;
-  hat(hatddWt0, ddWt0);
-  Matrix3<S> ddMt0 =
-      hatddWt0 * sintheta0 +
-      hatWt0 * (costheta0 * dtheta0 - sintheta0 * dtheta0 * dtheta0 + costheta0 * ddtheta0) +
-      hatdWt0 * (costheta0 * dtheta0) +
-      (hatWt0 * hatdWt0 + hatdWt0 * hatWt0) * (sintheta0 * dtheta0 * 2) +
-      hatdWt0 * hatdWt0 * (2 * (1 - costheta0)) +
-      hatWt0 * hatWt0 * (costheta0 * dtheta0 * dtheta0 + sintheta0 * ddtheta0) +
-      (hatWt0 * hatddWt0 + hatddWt0 + hatWt0) * (1 - costheta0);
+  const Vector3<S> Rt0 = (Rd[0] + Rd[1] * 23 + Rd[2] * 23 + Rd[3]) * (1 / 48.0);
+  const Vector3<S> dRt0 = (-Rd[0] - Rd[1] * 5 + Rd[2] * 5 + Rd[3]) * (1 / 8.0);
+  const Vector3<S> ddRt0 = (Rd[0] - Rd[1] - Rd[2] + Rd[3]) * 0.5;
+  const S theta0 = Rt0.norm();
+  const S speed0 = dRt0.norm();
+
+  Matrix3<S> Mt0, dMt0, ddMt0;
+  const S dt0 = std::max(std::abs(this->getTimeInterval()->t_[0] - (S)0.5), std::abs(this->getTimeInterval()->t_[1] - (S)0.5));
+  S error = 0;
+
+  if(theta0 < 1e-4)
+  {
+    // The axis is not well defined: expand around the zero rotation, where the
+    // derivatives are off by at most theta0 times the bound of the next one.
+    Matrix3<S> hatdRt0, hatddRt0;
+    hat(hatdRt0, dRt0);
+    hat(hatddRt0, ddRt0);
+    Mt0 = theta0 > 0 ? AngleAxis<S>(theta0, (Rt0 / theta0).eval()).toRotationMatrix() : I;
+    dMt0 = hatdRt0;
+    ddMt0 = hatddRt0 + hatdRt0 * hatdRt0;
+    error = theta0 * dt0 * (speed0 + 0.5 * dt0 * (ddRt0.norm() + speed0 * speed0));
+  }
+  else
+  {
+    const S inv_theta0 = 1.0 / theta0;
+    const S inv_theta0_3 = inv_theta0 * inv_theta0 * inv_theta0;
+    const S inv_theta0_5 = inv_theta0_3 * inv_theta0 * inv_theta0;
+    const S costheta0 = cos(theta0);
+    const S sintheta0 = sin(theta0);
+
+    const Vector3<S> Wt0 = Rt0 * inv_theta0;
+    Matrix3<S> hatWt0;
+    hat(hatWt0, Wt0);
+    const Matrix3<S> hatWt0_sqr = hatWt0 * hatWt0;
+    Mt0 = I + hatWt0 * sintheta0 + hatWt0_sqr * (1 - costheta0);
+    // TODO(JS): this could be improved by using exp(Wt0)
+
+    /// 2. compute M'(1/2)
+    const S Rt0_dot_dRt0 = Rt0.dot(dRt0);
+    const S dtheta0 = Rt0_dot_dRt0 * inv_theta0;
+    const Vector3<S> dWt0 = dRt0 * inv_theta0 - Rt0 * (Rt0_dot_dRt0 * inv_theta0_3);
+    Matrix3<S> hatdWt0;
+    hat(hatdWt0, dWt0);
+    const Matrix3<S> hatW_hatdW = hatWt0 * hatdWt0 + hatdWt0 * hatWt0;
+    dMt0 = hatdWt0 * sintheta0 + hatWt0 * (costheta0 * dtheta0) + hatWt0_sqr * (sintheta0 * dtheta0) + hatW_hatdW * (1 - costheta0);
+
+    /// 3.1. compute M''(1/2)
+    const S Rt0_dot_ddRt0 = Rt0.dot(ddRt0);
+    const S dRt0_dot_dRt0 = dRt0.squaredNorm();
+    const S ddtheta0 = (Rt0_dot_ddRt0 + dRt0_dot_dRt0) * inv_theta0 - Rt0_dot_dRt0 * Rt0_dot_dRt0 * inv_theta0_3;
+    const Vector3<S> ddWt0 = ddRt0 * inv_theta0 - (dRt0 * (2 * Rt0_dot_dRt0) + Rt0 * (Rt0_dot_ddRt0 + dRt0_dot_dRt0)) * inv_theta0_3 + (Rt0 * (3 * Rt0_dot_dRt0 * Rt0_dot_dRt0)) * inv_theta0_5;
+    Matrix3<S> hatddWt0;
+    hat(hatddWt0, ddWt0);
+    ddMt0 =
+        hatddWt0 * sintheta0 +
+        hatdWt0 * (2 * costheta0 * dtheta0) +
+        hatWt0 * (costheta0 * ddtheta0 - sintheta0 * dtheta0 * dtheta0) +
+        hatW_hatdW * (sintheta0 * dtheta0 * 2) +
+        hatdWt0 * hatdWt0 * (2 * (1 - costheta0)) +
+        hatWt0_sqr * (costheta0 * dtheta0 * dtheta0 + sintheta0 * ddtheta0) +
+        (hatWt0 * hatddWt0 + hatddWt0 * hatWt0) * (1 - costheta0);
+  }
+
+  // |R'''| <= |w'''| + 3 |w'| |w''| + |w'|^3 for the rotation vector w(t) of the
+  // spline, whose derivatives lie in the hull of the differences of its control points
+  const S speed = std::max((Rd[1] - Rd[0]).norm(), std::max((Rd[2] - Rd[1]).norm(), (Rd[3] - Rd[2]).norm()));
+  const S accel = std::max((Rd[0] - Rd[1] * 2 + Rd[2]).norm(), (Rd[1] - Rd[2] * 2 + Rd[3]).norm());
+  const S jerk = (Rd[3] - Rd[2] * 3 + Rd[1] * 3 - Rd[0]).norm();
+  error += (jerk + 3 * speed * accel + speed * speed * speed) * dt0 * dt0 * dt0 / 6;
+  // enlarge to handle round-off errors
+  error += 1e-10;
 
   tm.setTimeInterval(this->getTimeInterval());
   for(std::size_t i = 0; i < 3; ++i)
@@ -228,7 +262,7 @@ void SplineMotion<S>::getTaylorModel(TMatrix3<S>& tm, TVector3<S>& tv) const
       tm(i, j).coeff(2) = ddMt0(i, j) * 0.5;
       tm(i, j).coeff(3) = 0;
 
-      tm(i, j).remainder() = Interval<S>(-1/48.0, 1/48.0); /// not correct, should fix
+      tm(i, j).remainder().setValue(-error, error);
     }
   }
 }
-- 
2.43.0


From bfe14609f4be4cc4af78bfbfb45c024cc6b9c6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 099/120] fix: bound the speed of a spline motion

---
 include/fcl/math/motion/spline_motion-inl.h   | 57 ++++++-------------
 include/fcl/math/motion/spline_motion.h       |  2 +
 .../motion/tbv_motion_bound_visitor-inl.h     |  4 +-
 .../triangle_motion_bound_visitor-inl.h       |  4 +-
 4 files changed, 20 insertions(+), 47 deletions(-)

diff --git a/include/fcl/math/motion/spline_motion-inl.h b/include/fcl/math/motion/spline_motion-inl.h
index 4abae2e..625d0d2 100644
--- a/include/fcl/math/motion/spline_motion-inl.h
+++ b/include/fcl/math/motion/spline_motion-inl.h
@@ -295,49 +295,21 @@ void SplineMotion<S>::computeSplineParameter()
 template <typename S>
 S SplineMotion<S>::computeTBound(const Vector3<S>& n) const
 {
-  S Ta = TA.dot(n);
-  S Tb = TB.dot(n);
-  S Tc = TC.dot(n);
-
-  std::vector<S> T_potential;
-  T_potential.push_back(tf_t);
-  T_potential.push_back(1);
-  if(Tb * Tb - 3 * Ta * Tc >= 0)
-  {
-    if(Ta == 0)
-    {
-      if(Tb != 0)
-      {
-        S tmp = -Tc / (2 * Tb);
-        if(tmp < 1 && tmp > tf_t)
-          T_potential.push_back(tmp);
-      }
-    }
-    else
-    {
-      S tmp_delta = sqrt(Tb * Tb - 3 * Ta * Tc);
-      S tmp1 = (-Tb + tmp_delta) / (3 * Ta);
-      S tmp2 = (-Tb - tmp_delta) / (3 * Ta);
-      if(tmp1 < 1 && tmp1 > tf_t)
-        T_potential.push_back(tmp1);
-      if(tmp2 < 1 && tmp2 > tf_t)
-        T_potential.push_back(tmp2);
-    }
-  }
+  // the velocity along n is (3 * Ta * t^2 + 2 * Tb * t + Tc) / 6
+  const S Ta = TA.dot(n);
+  const S Tb = TB.dot(n);
+  const S Tc = TC.dot(n);
+
+  const auto speed = [&](S t) { return (t * (3 * Ta * t + 2 * Tb) + Tc) / 6; };
 
-  S T_bound = Ta * T_potential[0] * T_potential[0] * T_potential[0] + Tb * T_potential[0] * T_potential[0] + Tc * T_potential[0];
-  for(unsigned int i = 1; i < T_potential.size(); ++i)
+  S T_bound = std::max(speed(tf_t), speed(1));
+  if(Ta != 0)
   {
-    S T_bound_tmp = Ta * T_potential[i] * T_potential[i] * T_potential[i] + Tb * T_potential[i] * T_potential[i] + Tc * T_potential[i];
-    if(T_bound_tmp > T_bound) T_bound = T_bound_tmp;
+    const S t = -Tb / (3 * Ta);
+    if(t > tf_t && t < 1)
+      T_bound = std::max(T_bound, speed(t));
   }
 
-
-  S cur_delta = Ta * tf_t * tf_t * tf_t + Tb * tf_t * tf_t + Tc * tf_t;
-
-  T_bound -= cur_delta;
-  T_bound /= 6.0;
-
   return T_bound;
 }
 
@@ -392,9 +364,11 @@ S SplineMotion<S>::computeDWMax() const
 
   S roots[3];
 
+  // the solver takes the constant coefficient first
+  std::reverse(da, da + 4);
   int root_num = detail::PolySolver<S>::solveCubic(da, roots);
 
-  S dWdW_max = a[0] * tf_t * tf_t * tf_t + a[1] * tf_t * tf_t * tf_t + a[2] * tf_t * tf_t + a[3] * tf_t + a[4];
+  S dWdW_max = a[0] * tf_t * tf_t * tf_t * tf_t + a[1] * tf_t * tf_t * tf_t + a[2] * tf_t * tf_t + a[3] * tf_t + a[4];
   S dWdW_1 = a[0] + a[1] + a[2] + a[3] + a[4];
   if(dWdW_max < dWdW_1) dWdW_max = dWdW_1;
   for(int i = 0; i < root_num; ++i)
@@ -408,7 +382,8 @@ S SplineMotion<S>::computeDWMax() const
     }
   }
 
-  return sqrt(dWdW_max);
+  // it is a square, which round-off may make negative
+  return sqrt(std::max(dWdW_max, (S)0));
 }
 
 //==============================================================================
diff --git a/include/fcl/math/motion/spline_motion.h b/include/fcl/math/motion/spline_motion.h
index 96f2eba..b93eedf 100644
--- a/include/fcl/math/motion/spline_motion.h
+++ b/include/fcl/math/motion/spline_motion.h
@@ -101,8 +101,10 @@ protected:
   mutable S tf_t;
 
 public:
+  /// @brief The maximal speed of the translation along n from the current time on
   S computeTBound(const Vector3<S>& n) const;
   
+  /// @brief The maximal speed of the rotation vector from the current time on
   S computeDWMax() const;
 
   S getCurrentTime() const;
diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index f33249d..5acdc92 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -129,7 +129,6 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, SplineMotion<S>>
       const SplineMotion<S>& motion)
   {
     S T_bound = motion.computeTBound(visitor.n);
-    S tf_t = motion.getCurrentTime();
 
     Vector3<S> c1 = visitor.bv.To;
     Vector3<S> c2 = visitor.bv.To + visitor.bv.axis.col(0) * visitor.bv.l[0];
@@ -166,8 +165,7 @@ struct TBVMotionBoundVisitorVisitImpl<S, RSS<S>, SplineMotion<S>>
     if(tmp > cxn_max) cxn_max = tmp;
     cxn_max = sqrt(cxn_max);
 
-    S dWdW_max = motion.computeDWMax();
-    S ratio = std::min(1 - tf_t, dWdW_max);
+    const S ratio = motion.computeDWMax();
 
     S R_bound = 2 * (cn_max + cmax + cxn_max + 3 * visitor.bv.r) * ratio;
 
diff --git a/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h b/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
index 59f37cb..c2ff3f1 100644
--- a/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/triangle_motion_bound_visitor-inl.h
@@ -194,7 +194,6 @@ struct TriangleMotionBoundVisitorVisitImpl<S, SplineMotion<S>>
       const SplineMotion<S>& motion)
   {
     S T_bound = motion.computeTBound(visitor.n);
-    S tf_t = motion.getCurrentTime();
 
     S R_bound = std::abs(visitor.a.dot(visitor.n)) + visitor.a.norm() + (visitor.a.cross(visitor.n)).norm();
     S R_bound_tmp = std::abs(visitor.b.dot(visitor.n)) + visitor.b.norm() + (visitor.b.cross(visitor.n)).norm();
@@ -202,8 +201,7 @@ struct TriangleMotionBoundVisitorVisitImpl<S, SplineMotion<S>>
     R_bound_tmp = std::abs(visitor.c.dot(visitor.n)) + visitor.c.norm() + (visitor.c.cross(visitor.n)).norm();
     if(R_bound_tmp > R_bound) R_bound = R_bound_tmp;
 
-    S dWdW_max = motion.computeDWMax();
-    S ratio = std::min(1 - tf_t, dWdW_max);
+    const S ratio = motion.computeDWMax();
 
     R_bound *= 2 * ratio;
 
-- 
2.43.0


From 4ba56aa1f33cf6417b519830370ba4b38d7bc6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:05 +0000
Subject: [PATCH 100/120] fix: motion bounds of bounding volumes other than RSS

---
 .../motion/tbv_motion_bound_visitor-inl.h     | 39 +++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
index 5acdc92..2c8be6f 100644
--- a/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
+++ b/include/fcl/math/motion/tbv_motion_bound_visitor-inl.h
@@ -42,6 +42,8 @@
 
 #include "fcl/common/unused.h"
 
+#include "fcl/math/bv/utility.h"
+
 namespace fcl
 {
 
@@ -55,14 +57,45 @@ TBVMotionBoundVisitor<BV>::TBVMotionBoundVisitor(
 }
 
 //==============================================================================
+/// @brief An RSS that contains the given bounding volume
+template <typename BV>
+RSS<typename BV::S> getMotionBoundRSS(const BV& bv)
+{
+  using S = typename BV::S;
+
+  AABB<S> aabb;
+  RSS<S> rss;
+  convertBV(bv, Transform3<S>::Identity(), aabb);
+  convertBV(aabb, Transform3<S>::Identity(), rss);
+  return rss;
+}
+
+//==============================================================================
+template <typename S>
+RSS<S> getMotionBoundRSS(const OBB<S>& bv)
+{
+  RSS<S> rss;
+  convertBV(bv, Transform3<S>::Identity(), rss);
+  return rss;
+}
+
+//==============================================================================
+template <typename S>
+RSS<S> getMotionBoundRSS(const OBBRSS<S>& bv)
+{
+  return bv.rss;
+}
+
+//==============================================================================
+/// @brief The motion bound of a bounding volume is the one of an RSS around it
 template <typename S, typename BV, typename MotionT>
 struct TBVMotionBoundVisitorVisitImpl
 {
   static S run(
-      const TBVMotionBoundVisitor<BV>& /*visitor*/,
-      const MotionT& /*motion*/)
+      const TBVMotionBoundVisitor<BV>& visitor,
+      const MotionT& motion)
   {
-    return 0;
+    return TBVMotionBoundVisitor<RSS<S>>(getMotionBoundRSS(visitor.bv), visitor.n).visit(motion);
   }
 };
 
-- 
2.43.0


From 73b3a8e48b70db14e8968c3a00baf26a7b6e04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 101/120] fix: naive continuous collision with a single sample

---
 include/fcl/narrowphase/continuous_collision-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b24d0b8..b4179f4 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -145,7 +145,7 @@ S continuousCollideNaive(
   Transform3<S> cur_tf1, cur_tf2;
   for(std::size_t i = 0; i < n_iter; ++i)
   {
-    S t = i / (S) (n_iter - 1);
+    S t = (n_iter > 1) ? i / (S) (n_iter - 1) : S(0);
     motion1->integrate(t);
     motion2->integrate(t);
 
-- 
2.43.0


From 6838267cadc89b57b8bcbd22fd2f2ae4136ca2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:58 +0000
Subject: [PATCH 102/120] fix: conservative advancement starts at the beginning
 of the motions

---
 include/fcl/narrowphase/continuous_collision-inl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index b4179f4..8a1b4f4 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -324,6 +324,10 @@ typename NarrowPhaseSolver::S continuousCollideConservativeAdvancement(
 
   S res = -1;
 
+  // the advancement starts from the beginning of the motions
+  motion1->integrate(0);
+  motion2->integrate(0);
+
   if(!looktable.conservative_advancement_matrix[node_type1][node_type2])
   {
     std::cerr << "Warning: collision function between node type " << node_type1 << " and node type " << node_type2 << " is not supported\n";
-- 
2.43.0


From 5ced6aa0add475c7c5a5bbbcab85079808dba9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 103/120] fix: conservative advancement of two meshes

---
 ...conservative_advancement_func_matrix-inl.h | 14 ++++-----
 ...servative_advancement_traversal_node-inl.h | 31 +++++++++++++------
 ..._conservative_advancement_traversal_node.h |  8 ++++-
 3 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index e9af921..1dd6f82 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -95,19 +95,20 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
 
 
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
-
   MeshConservativeAdvancementTraversalNode<BV> node;
 
   node.motion1 = motion1;
   node.motion2 = motion2;
 
+  node.local_model1 = &o1;
+  node.local_model2 = &o2;
+
   do
   {
     // repeatedly update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, *o2_tmp, tf2);
+    BVHModel<BV> o1_tmp(o1);
+    BVHModel<BV> o2_tmp(o2);
+    initialize(node, o1_tmp, tf1, o2_tmp, tf2, S(1), true, true);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -135,9 +136,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
   while(1);
 
-  delete o1_tmp;
-  delete o2_tmp;
-
   toc = node.toc;
 
   if(node.toc < 1)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
index 44ddde5..974b101 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
@@ -91,6 +91,9 @@ MeshConservativeAdvancementTraversalNode(typename BV::S w_)
 
   motion1 = nullptr;
   motion2 = nullptr;
+
+  local_model1 = nullptr;
+  local_model2 = nullptr;
 }
 
 //==============================================================================
@@ -99,7 +102,8 @@ typename BV::S
 MeshConservativeAdvancementTraversalNode<BV>::BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   S d = this->model1->getBV(b1).distance(this->model2->getBV(b2), &P1, &P2);
 
   stack.emplace_back(P1, P2, b1, b2, d);
@@ -150,14 +154,19 @@ void MeshConservativeAdvancementTraversalNode<BV>::leafTesting(int b1, int b2) c
   Vector3<S> n = P2 - P1;
   n.normalize();
   // here n is already in global frame as we assume the body is in original configuration (I, 0) for general BVH
-  TriangleMotionBoundVisitor<S> mb_visitor1(p1, p2, p3, n), mb_visitor2(q1, q2, q3, n);
+  // while the triangles of a motion bound are in the local frames
+  const Vector3<S>* v1 = local_model1->vertices;
+  const Vector3<S>* v2 = local_model2->vertices;
+  TriangleMotionBoundVisitor<S> mb_visitor1(v1[tri_id1[0]], v1[tri_id1[1]], v1[tri_id1[2]], n);
+  TriangleMotionBoundVisitor<S> mb_visitor2(v2[tri_id2[0]], v2[tri_id2[1]], v2[tri_id2[2]], -n);
   S bound1 = motion1->computeMotionBound(mb_visitor1);
   S bound2 = motion2->computeMotionBound(mb_visitor2);
 
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  if(d <= 0) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
@@ -197,7 +206,7 @@ struct CanStopImpl
 
       assert(c == d);
 
-      TBVMotionBoundVisitor<BV> mb_visitor1(node.model1->getBV(c1).bv, n), mb_visitor2(node.model2->getBV(c2).bv, n);
+      TBVMotionBoundVisitor<BV> mb_visitor1(node.local_model1->getBV(c1).bv, n), mb_visitor2(node.local_model2->getBV(c2).bv, -n);
       S bound1 = node.motion1->computeMotionBound(mb_visitor1);
       S bound2 = node.motion2->computeMotionBound(mb_visitor2);
 
@@ -252,7 +261,8 @@ struct CanStopImpl<S, OBB<S>>
           node.rel_err,
           node.w,
           node.model1,
-          node.model2,
+          node.local_model1,
+          node.local_model2,
           node.motion1,
           node.motion2,
           node.stack,
@@ -275,7 +285,8 @@ struct CanStopImpl<S, RSS<S>>
           node.rel_err,
           node.w,
           node.model1,
-          node.model2,
+          node.local_model1,
+          node.local_model2,
           node.motion1,
           node.motion2,
           node.stack,
@@ -298,7 +309,8 @@ struct CanStopImpl<S, OBBRSS<S>>
           node.rel_err,
           node.w,
           node.model1,
-          node.model2,
+          node.local_model1,
+          node.local_model2,
           node.motion1,
           node.motion2,
           node.stack,
@@ -507,7 +519,8 @@ bool meshConservativeAdvancementTraversalNodeCanStop(
     typename BV::S rel_err,
     typename BV::S w,
     const BVHModel<BV>* model1,
-    const BVHModel<BV>* model2,
+    const BVHModel<BV>* local_model1,
+    const BVHModel<BV>* local_model2,
     const MotionBase<typename BV::S>* motion1,
     const MotionBase<typename BV::S>* motion2,
     std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
@@ -545,7 +558,7 @@ bool meshConservativeAdvancementTraversalNodeCanStop(
         getBVAxis(model1->getBV(c1).bv, 1) * n[1] +
         getBVAxis(model1->getBV(c1).bv, 2) * n[2];
 
-    TBVMotionBoundVisitor<BV> mb_visitor1(model1->getBV(c1).bv, n_transformed), mb_visitor2(model2->getBV(c2).bv, n_transformed);
+    TBVMotionBoundVisitor<BV> mb_visitor1(local_model1->getBV(c1).bv, n_transformed), mb_visitor2(local_model2->getBV(c2).bv, -n_transformed);
     S bound1 = motion1->computeMotionBound(mb_visitor1);
     S bound2 = motion2->computeMotionBound(mb_visitor2);
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h
index be72620..8374e79 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node.h
@@ -88,6 +88,11 @@ public:
   const MotionBase<S>* motion1;
   const MotionBase<S>* motion2;
 
+  /// @brief The models in their local frames, of the same hierarchies as model1
+  /// and model2: motion bounds are those of the geometry in its local frame
+  const BVHModel<BV>* local_model1;
+  const BVHModel<BV>* local_model2;
+
   mutable std::vector<ConservativeAdvancementStackData<S>> stack;
 
   template <typename, typename>
@@ -221,7 +226,8 @@ bool meshConservativeAdvancementTraversalNodeCanStop(
     typename BV::S rel_err,
     typename BV::S w,
     const BVHModel<BV>* model1,
-    const BVHModel<BV>* model2,
+    const BVHModel<BV>* local_model1,
+    const BVHModel<BV>* local_model2,
     const MotionBase<typename BV::S>* motion1,
     const MotionBase<typename BV::S>* motion2,
     std::vector<ConservativeAdvancementStackData<typename BV::S>>& stack,
-- 
2.43.0


From 282a950325fce7dcc8458b2b1986f22427f8c4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:09 +0000
Subject: [PATCH 104/120] fix: conservative advancement of a mesh and a shape

---
 ...conservative_advancement_func_matrix-inl.h | 18 ++++-----
 .../conservative_advancement_stack_data.h     | 29 ++++++++++++++
 ...servative_advancement_traversal_node-inl.h | 39 +++++++++++++------
 ..._conservative_advancement_traversal_node.h |  6 +++
 ...servative_advancement_traversal_node-inl.h | 39 +++++++++++++------
 ..._conservative_advancement_traversal_node.h |  6 +++
 6 files changed, 103 insertions(+), 34 deletions(-)

diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index 1dd6f82..b88c5b2 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -308,17 +308,18 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
     return true;
   }
 
-  BVHModel<BV>* o1_tmp = new BVHModel<BV>(o1);
-
   MeshShapeConservativeAdvancementTraversalNode<BV, Shape, NarrowPhaseSolver> node;
 
   node.motion1 = motion1;
   node.motion2 = motion2;
 
+  node.local_model1 = &o1;
+
   do
   {
     // initialize update mesh to global coordinate, so time consuming
-    initialize(node, *o1_tmp, tf1, o2, tf2, nsolver);
+    BVHModel<BV> o1_tmp(o1);
+    initialize(node, o1_tmp, tf1, o2, tf2, nsolver, S(1), true, true);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -345,8 +346,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
   }
   while(1);
 
-  delete o1_tmp;
-
   toc = node.toc;
 
   if(node.toc < 1)
@@ -476,17 +475,18 @@ bool conservativeAdvancement(const Shape& o1,
     return true;
   }
 
-  BVHModel<BV>* o2_tmp = new BVHModel<BV>(o2);
-
   ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver> node;
 
   node.motion1 = motion1;
   node.motion2 = motion2;
 
+  node.local_model2 = &o2;
+
   do
   {
     // initialize update mesh to global coordinate, so time consuming
-    initialize(node, o1, tf1, *o2_tmp, tf2, nsolver);
+    BVHModel<BV> o2_tmp(o2);
+    initialize(node, o1, tf1, o2_tmp, tf2, nsolver, S(1), true, true);
 
     node.delta_t = 1;
     node.min_distance = std::numeric_limits<S>::max();
@@ -513,8 +513,6 @@ bool conservativeAdvancement(const Shape& o1,
   }
   while(1);
 
-  delete o2_tmp;
-
   toc = node.toc;
 
   if(node.toc < 1)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h b/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h
index fb95a94..6fc21ab 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/conservative_advancement_stack_data.h
@@ -39,6 +39,7 @@
 #define FCL_TRAVERSAL_CONVERVATIVEADVANCEMENTSTACKDATA_H
 
 #include "fcl/common/types.h"
+#include "fcl/math/bv/OBBRSS.h"
 
 namespace fcl
 {
@@ -61,6 +62,34 @@ struct FCL_EXPORT ConservativeAdvancementStackData
   S d;
 };
 
+/// @brief Turn the direction between the nearest points of two bounding volumes,
+/// the first of which is bv, into the frame the bounding volumes are in. OBB, RSS
+/// and OBBRSS give the nearest points in the local frame of the first one
+template <typename BV>
+Vector3<typename BV::S> bvDirectionToGlobal(
+    const BV& /*bv*/, const Vector3<typename BV::S>& n)
+{
+  return n;
+}
+
+template <typename S>
+Vector3<S> bvDirectionToGlobal(const OBB<S>& bv, const Vector3<S>& n)
+{
+  return bv.axis * n;
+}
+
+template <typename S>
+Vector3<S> bvDirectionToGlobal(const RSS<S>& bv, const Vector3<S>& n)
+{
+  return bv.axis * n;
+}
+
+template <typename S>
+Vector3<S> bvDirectionToGlobal(const OBBRSS<S>& bv, const Vector3<S>& n)
+{
+  return bv.rss.axis * n;
+}
+
 } // namespace detail
 } // namespace fcl
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
index 20ee58d..f086f52 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
@@ -62,6 +62,8 @@ MeshShapeConservativeAdvancementTraversalNode(S w_) :
 
   motion1 = nullptr;
   motion2 = nullptr;
+
+  local_model1 = nullptr;
 }
 
 //==============================================================================
@@ -71,7 +73,8 @@ MeshShapeConservativeAdvancementTraversalNode<BV, Shape, NarrowPhaseSolver>::
 BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   S d = this->model2_bv.distance(this->model1->getBV(b1).bv, &P2, &P1);
 
   stack.emplace_back(P1, P2, b1, b2, d);
@@ -99,7 +102,8 @@ leafTesting(int b1, int b2) const
   const Vector3<S>& p3 = this->vertices[tri_id[2]];
 
   S d;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   this->nsolver->shapeTriangleDistance(*(this->model2), this->tf2, p1, p2, p3, &d, &P2, &P1);
 
   if(d < this->min_distance)
@@ -112,17 +116,19 @@ leafTesting(int b1, int b2) const
     last_tri_id = primitive_id;
   }
 
-  Vector3<S> n = this->tf2 * p2 - P1; n.normalize();
-  // here n should be in global frame
-  TriangleMotionBoundVisitor<S> mb_visitor1(p1, p2, p3, n);
-  TBVMotionBoundVisitor<BV> mb_visitor2(this->model2_bv, -n);
+  Vector3<S> n = P2 - P1; n.normalize();
+  // here n should be in global frame, the triangle and the bounding volume in their local ones
+  const Vector3<S>* v = local_model1->vertices;
+  TriangleMotionBoundVisitor<S> mb_visitor1(v[tri_id[0]], v[tri_id[1]], v[tri_id[2]], n);
+  TBVMotionBoundVisitor<BV> mb_visitor2(local_model2_bv, -n);
   S bound1 = motion1->computeMotionBound(mb_visitor1);
   S bound2 = motion2->computeMotionBound(mb_visitor2);
 
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  if(d <= 0) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
@@ -137,20 +143,26 @@ canStop(S c) const
   if((c >= w * (this->min_distance - this->abs_err))
      && (c * (1 + this->rel_err) >= w * this->min_distance))
   {
+    // the entry of this node is below the top of the stack when the other node was
+    // tested after it
+    if(stack.size() > 1 && stack.back().d > c)
+      std::swap(stack[stack.size() - 2], stack[stack.size() - 1]);
     const auto& data = stack.back();
 
-    Vector3<S> n = this->tf2 * data.P2 - data.P1; n.normalize();
+    // the nearest points are in the frame of the bounding volume of the shape
+    Vector3<S> n = bvDirectionToGlobal(this->model2_bv, Vector3<S>(data.P2 - data.P1));
+    n.normalize();
     int c1 = data.c1;
 
-    TBVMotionBoundVisitor<BV> mb_visitor1(this->model1->getBV(c1).bv, n);
-    TBVMotionBoundVisitor<BV> mb_visitor2(this->model2_bv, -n);
+    TBVMotionBoundVisitor<BV> mb_visitor1(local_model1->getBV(c1).bv, n);
+    TBVMotionBoundVisitor<BV> mb_visitor2(local_model2_bv, -n);
     S bound1 = motion1->computeMotionBound(mb_visitor1);
     S bound2 = motion2->computeMotionBound(mb_visitor2);
 
     S bound = bound1 + bound2;
 
     S cur_delta_t;
-    if(bound < c) cur_delta_t = 1;
+    if(bound <= c) cur_delta_t = 1;
     else cur_delta_t = c / bound;
 
     if(cur_delta_t < delta_t)
@@ -162,6 +174,8 @@ canStop(S c) const
   }
   else
   {
+    if(stack.size() > 1 && stack.back().d > c)
+      std::swap(stack[stack.size() - 2], stack[stack.size() - 1]);
     stack.pop_back();
 
     return false;
@@ -207,7 +221,8 @@ bool initialize(
   node.nsolver = nsolver;
   node.w = w;
 
-  computeBV(model2, Transform3<S>::Identity(), node.model2_bv);
+  computeBV(model2, tf2, node.model2_bv);
+  computeBV(model2, Transform3<S>::Identity(), node.local_model2_bv);
 
   return true;
 }
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h
index a9f8d75..1f0a40b 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node.h
@@ -87,6 +87,12 @@ public:
   const MotionBase<S>* motion1;
   const MotionBase<S>* motion2;
 
+  /// @brief The mesh in its local frame, of the same hierarchy as model1, and
+  /// the bounding volume of the shape in its local frame: motion bounds are those
+  /// of the geometry in its local frame
+  const BVHModel<BV>* local_model1;
+  BV local_model2_bv;
+
   mutable std::vector<ConservativeAdvancementStackData<S>> stack;
 };
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
index 45ae86f..0f3fa28 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
@@ -62,6 +62,8 @@ ShapeMeshConservativeAdvancementTraversalNode(S w_)
 
   motion1 = nullptr;
   motion2 = nullptr;
+
+  local_model2 = nullptr;
 }
 
 //==============================================================================
@@ -71,7 +73,8 @@ ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>::
 BVTesting(int b1, int b2) const
 {
   if(this->enable_statistics) this->num_bv_tests++;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   S d = this->model1_bv.distance(this->model2->getBV(b2).bv, &P1, &P2);
 
   stack.emplace_back(P1, P2, b1, b2, d);
@@ -98,7 +101,8 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
   const Vector3<S>& p3 = this->vertices[tri_id[2]];
 
   S d;
-  Vector3<S> P1, P2;
+  Vector3<S> P1 = Vector3<S>::Zero();
+  Vector3<S> P2 = Vector3<S>::Zero();
   this->nsolver->shapeTriangleDistance(*(this->model1), this->tf1, p1, p2, p3, &d, &P1, &P2);
 
   if(d < this->min_distance)
@@ -111,17 +115,19 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
     last_tri_id = primitive_id;
   }
 
-  Vector3<S> n = P2 - this->tf1 * p1; n.normalize();
-  // here n should be in global frame
-  TBVMotionBoundVisitor<BV> mb_visitor1(this->model1_bv, n);
-  TriangleMotionBoundVisitor<S> mb_visitor2(p1, p2, p3, -n);
+  Vector3<S> n = P2 - P1; n.normalize();
+  // here n should be in global frame, the bounding volume and the triangle in their local ones
+  const Vector3<S>* v = local_model2->vertices;
+  TBVMotionBoundVisitor<BV> mb_visitor1(local_model1_bv, n);
+  TriangleMotionBoundVisitor<S> mb_visitor2(v[tri_id[0]], v[tri_id[1]], v[tri_id[2]], -n);
   S bound1 = motion1->computeMotionBound(mb_visitor1);
   S bound2 = motion2->computeMotionBound(mb_visitor2);
 
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= d) cur_delta_t = 1;
+  if(d <= 0) cur_delta_t = 0;
+  else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
   if(cur_delta_t < delta_t)
@@ -135,20 +141,26 @@ canStop(S c) const
 {
   if((c >= w * (this->min_distance - this->abs_err)) && (c * (1 + this->rel_err) >= w * this->min_distance))
   {
+    // the entry of this node is below the top of the stack when the other node was
+    // tested after it
+    if(stack.size() > 1 && stack.back().d > c)
+      std::swap(stack[stack.size() - 2], stack[stack.size() - 1]);
     const auto& data = stack.back();
 
-    Vector3<S> n = data.P2 - this->tf1 * data.P1; n.normalize();
+    // the nearest points are in the frame of the bounding volume of the shape
+    Vector3<S> n = bvDirectionToGlobal(this->model1_bv, Vector3<S>(data.P2 - data.P1));
+    n.normalize();
     int c2 = data.c2;
 
-    TBVMotionBoundVisitor<BV> mb_visitor1(this->model1_bv, n);
-    TBVMotionBoundVisitor<BV> mb_visitor2(this->model2->getBV(c2).bv, -n);
+    TBVMotionBoundVisitor<BV> mb_visitor1(local_model1_bv, n);
+    TBVMotionBoundVisitor<BV> mb_visitor2(local_model2->getBV(c2).bv, -n);
     S bound1 = motion1->computeMotionBound(mb_visitor1);
     S bound2 = motion2->computeMotionBound(mb_visitor2);
 
     S bound = bound1 + bound2;
 
     S cur_delta_t;
-    if(bound < c) cur_delta_t = 1;
+    if(bound <= c) cur_delta_t = 1;
     else cur_delta_t = c / bound;
 
     if(cur_delta_t < delta_t)
@@ -160,6 +172,8 @@ canStop(S c) const
   }
   else
   {
+    if(stack.size() > 1 && stack.back().d > c)
+      std::swap(stack[stack.size() - 2], stack[stack.size() - 1]);
     stack.pop_back();
 
     return false;
@@ -205,7 +219,8 @@ bool initialize(
   node.nsolver = nsolver;
   node.w = w;
 
-  computeBV(model1, Transform3<S>::Identity(), node.model1_bv);
+  computeBV(model1, tf1, node.model1_bv);
+  computeBV(model1, Transform3<S>::Identity(), node.local_model1_bv);
 
   return true;
 }
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node.h
index bf54940..0d8c835 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node.h
@@ -87,6 +87,12 @@ public:
   const MotionBase<S>* motion1;
   const MotionBase<S>* motion2;
 
+  /// @brief The mesh in its local frame, of the same hierarchy as model2, and
+  /// the bounding volume of the shape in its local frame: motion bounds are those
+  /// of the geometry in its local frame
+  const BVHModel<BV>* local_model2;
+  BV local_model1_bv;
+
   mutable std::vector<ConservativeAdvancementStackData<S>> stack;
 };
 
-- 
2.43.0


From d4c84add6ac67ade3fa8ba588670a055bac45a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 105/120] fix: descend into the mesh in the distance traversal
 of a shape and a mesh

---
 .../distance/shape_bvh_distance_traversal_node-inl.h       | 7 +++++++
 .../traversal/distance/shape_bvh_distance_traversal_node.h | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
index 1478e92..f864553 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node-inl.h
@@ -68,6 +68,13 @@ bool ShapeBVHDistanceTraversalNode<Shape, BV>::isSecondNodeLeaf(int b) const
   return model2->getBV(b).isLeaf();
 }
 
+//==============================================================================
+template<typename Shape, typename BV>
+bool ShapeBVHDistanceTraversalNode<Shape, BV>::firstOverSecond(int, int) const
+{
+  return false;
+}
+
 //==============================================================================
 template<typename Shape, typename BV>
 int ShapeBVHDistanceTraversalNode<Shape, BV>::getSecondLeftChild(int b) const
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
index 53176cf..ffed8a0 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_bvh_distance_traversal_node.h
@@ -62,6 +62,9 @@ public:
   /// @brief Whether the BV node in the second BVH tree is leaf
   bool isSecondNodeLeaf(int b) const;
 
+  /// @brief Determine the traversal order, is the first BVTT subtree better
+  bool firstOverSecond(int b1, int b2) const;
+
   /// @brief Obtain the left child of BV node in the second BVH
   int getSecondLeftChild(int b) const;
 
-- 
2.43.0


From 67bf784397a384146e6c04fda43c9261d7f913af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 106/120] fix: conservative advancement ends where the nearest
 points coincide

---
 .../mesh_conservative_advancement_traversal_node-inl.h        | 3 ++-
 .../mesh_shape_conservative_advancement_traversal_node-inl.h  | 3 ++-
 .../shape_conservative_advancement_traversal_node-inl.h       | 4 +++-
 .../shape_mesh_conservative_advancement_traversal_node-inl.h  | 3 ++-
 4 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
index 974b101..d2dde79 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_conservative_advancement_traversal_node-inl.h
@@ -165,7 +165,8 @@ void MeshConservativeAdvancementTraversalNode<BV>::leafTesting(int b1, int b2) c
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(d <= 0) cur_delta_t = 0;
+  // no direction to speak of between points this close
+  if(d <= S(1e-8)) cur_delta_t = 0;
   else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
index f086f52..4217cf8 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/mesh_shape_conservative_advancement_traversal_node-inl.h
@@ -127,7 +127,8 @@ leafTesting(int b1, int b2) const
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(d <= 0) cur_delta_t = 0;
+  // the narrowphase gives no direction to speak of between points this close
+  if(d <= S(1e-5)) cur_delta_t = 0;
   else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
index 0944d4e..acc6017 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_conservative_advancement_traversal_node-inl.h
@@ -88,7 +88,9 @@ leafTesting(int, int) const
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(bound <= distance) cur_delta_t = 1;
+  // the narrowphase gives no direction to speak of between points this close
+  if(distance <= S(1e-5)) cur_delta_t = 0;
+  else if(bound <= distance) cur_delta_t = 1;
   else cur_delta_t = distance / bound;
 
   if(cur_delta_t < delta_t)
diff --git a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
index 0f3fa28..ab73c6a 100644
--- a/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/distance/shape_mesh_conservative_advancement_traversal_node-inl.h
@@ -126,7 +126,8 @@ void ShapeMeshConservativeAdvancementTraversalNode<Shape, BV, NarrowPhaseSolver>
   S bound = bound1 + bound2;
 
   S cur_delta_t;
-  if(d <= 0) cur_delta_t = 0;
+  // the narrowphase gives no direction to speak of between points this close
+  if(d <= S(1e-5)) cur_delta_t = 0;
   else if(bound <= d) cur_delta_t = 1;
   else cur_delta_t = d / bound;
 
-- 
2.43.0


From 69d2aded12410c1fd48879c5b0d885f1afe8f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:18 +0000
Subject: [PATCH 107/120] fix: continuous collision of translating meshes by
 the polynomial solver

---
 .../narrowphase/continuous_collision-inl.h    | 64 +++++++++++--------
 1 file changed, 39 insertions(+), 25 deletions(-)

diff --git a/include/fcl/narrowphase/continuous_collision-inl.h b/include/fcl/narrowphase/continuous_collision-inl.h
index 8a1b4f4..dc2b5ef 100644
--- a/include/fcl/narrowphase/continuous_collision-inl.h
+++ b/include/fcl/narrowphase/continuous_collision-inl.h
@@ -188,30 +188,10 @@ typename BV::S continuousCollideBVHPolynomial(
 
   using S = typename BV::S;
 
-  const BVHModel<BV>* o1__ = static_cast<const BVHModel<BV>*>(o1_);
-  const BVHModel<BV>* o2__ = static_cast<const BVHModel<BV>*>(o2_);
-
-  // ugly, but lets do it now.
-  BVHModel<BV>* o1 = const_cast<BVHModel<BV>*>(o1__);
-  BVHModel<BV>* o2 = const_cast<BVHModel<BV>*>(o2__);
-  std::vector<Vector3<S>> new_v1(o1->num_vertices);
-  std::vector<Vector3<S>> new_v2(o2->num_vertices);
-
-  for(std::size_t i = 0; i < new_v1.size(); ++i)
-    new_v1[i] = o1->vertices[i] + motion1->getVelocity();
-  for(std::size_t i = 0; i < new_v2.size(); ++i)
-    new_v2[i] = o2->vertices[i] + motion2->getVelocity();
-
-  o1->beginUpdateModel();
-  o1->updateSubModel(new_v1);
-  o1->endUpdateModel(true, true);
-
-  o2->beginUpdateModel();
-  o2->updateSubModel(new_v2);
-  o2->endUpdateModel(true, true);
-
-  MeshContinuousCollisionTraversalNode<BV> node;
-  CollisionRequest<S> c_request;
+  // the traversal needs the vertices of both models at the beginning and at the
+  // end of the motion in the global frame: move copies, the models may be shared
+  BVHModel<BV> o1(*static_cast<const BVHModel<BV>*>(o1_));
+  BVHModel<BV> o2(*static_cast<const BVHModel<BV>*>(o2_));
 
   motion1->integrate(0);
   motion2->integrate(0);
@@ -219,7 +199,41 @@ typename BV::S continuousCollideBVHPolynomial(
   Transform3<S> tf2;
   motion1->getCurrentTransform(tf1);
   motion2->getCurrentTransform(tf2);
-  if(!initialize<BV>(node, *o1, tf1, *o2, tf2, c_request))
+
+  std::vector<Vector3<S>> v1(o1.num_vertices);
+  std::vector<Vector3<S>> v2(o2.num_vertices);
+
+  for(std::size_t i = 0; i < v1.size(); ++i)
+    v1[i] = tf1 * o1.vertices[i];
+  for(std::size_t i = 0; i < v2.size(); ++i)
+    v2[i] = tf2 * o2.vertices[i];
+
+  o1.beginReplaceModel();
+  o1.replaceSubModel(v1);
+  o1.endReplaceModel(true, true);
+
+  o2.beginReplaceModel();
+  o2.replaceSubModel(v2);
+  o2.endReplaceModel(true, true);
+
+  for(auto& v : v1)
+    v += motion1->getVelocity();
+  for(auto& v : v2)
+    v += motion2->getVelocity();
+
+  o1.beginUpdateModel();
+  o1.updateSubModel(v1);
+  o1.endUpdateModel(true, true);
+
+  o2.beginUpdateModel();
+  o2.updateSubModel(v2);
+  o2.endUpdateModel(true, true);
+
+  MeshContinuousCollisionTraversalNode<BV> node;
+  // the first contact is known after all pairs
+  CollisionRequest<S> c_request(std::numeric_limits<std::size_t>::max());
+
+  if(!initialize<BV>(node, o1, Transform3<S>::Identity(), o2, Transform3<S>::Identity(), c_request))
     return -1.0;
 
   collide(&node);
-- 
2.43.0


From a1def547a1d5d586f76b5a49e976f4c17f6fbb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:38 +0000
Subject: [PATCH 108/120] fix: tolerances of moving triangles independent of
 their size

---
 .../traversal/collision/intersect-inl.h       | 2296 +++++++++--------
 1 file changed, 1150 insertions(+), 1146 deletions(-)

diff --git a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
index ef9606b..ca00f28 100644
--- a/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
+++ b/include/fcl/narrowphase/detail/traversal/collision/intersect-inl.h
@@ -1,1146 +1,1150 @@
-/*
- * Software License Agreement (BSD License)
- *
- *  Copyright (c) 2011-2014, Willow Garage, Inc.
- *  Copyright (c) 2014-2016, Open Source Robotics Foundation
- *  All rights reserved.
- *
- *  Redistribution and use in source and binary forms, with or without
- *  modification, are permitted provided that the following conditions
- *  are met:
- *
- *   * Redistributions of source code must retain the above copyright
- *     notice, this list of conditions and the following disclaimer.
- *   * Redistributions in binary form must reproduce the above
- *     copyright notice, this list of conditions and the following
- *     disclaimer in the documentation and/or other materials provided
- *     with the distribution.
- *   * Neither the name of Open Source Robotics Foundation nor the names of its
- *     contributors may be used to endorse or promote products derived
- *     from this software without specific prior written permission.
- *
- *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
- *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
- *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
- *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
- *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
- *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
- *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
- *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
- *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
- *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
- *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
- *  POSSIBILITY OF SUCH DAMAGE.
- */
-
-/** @author Jia Pan */
-
-#ifndef FCL_NARROWPHASE_DETAIL_INTERSECT_INL_H
-#define FCL_NARROWPHASE_DETAIL_INTERSECT_INL_H
-
-#include "fcl/narrowphase/detail/traversal/collision/intersect.h"
-
-namespace fcl
-{
-
-namespace detail
-{
-
-//==============================================================================
-extern template
-class FCL_EXPORT Intersect<double>;
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::isZero(S v)
-{
-  return (v < getNearZeroThreshold()) && (v > -getNearZeroThreshold());
-}
-
-//==============================================================================
-/// @brief data: only used for EE, return the intersect point
-template <typename S>
-bool Intersect<S>::solveCubicWithIntervalNewton(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                                             const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
-                                             S& l, S& r, bool bVF, S coeffs[], Vector3<S>* data)
-{
-  S v2[2]= {l*l,r*r};
-  S v[2]= {l,r};
-  S r_backup;
-
-  unsigned char min3, min2, min1, max3, max2, max1;
-
-  min3= *((unsigned char*)&coeffs[3]+7)>>7; max3=min3^1;
-  min2= *((unsigned char*)&coeffs[2]+7)>>7; max2=min2^1;
-  min1= *((unsigned char*)&coeffs[1]+7)>>7; max1=min1^1;
-
-  // bound the cubic
-
-  S minor = coeffs[3]*v2[min3]*v[min3]+coeffs[2]*v2[min2]+coeffs[1]*v[min1]+coeffs[0];
-  S major = coeffs[3]*v2[max3]*v[max3]+coeffs[2]*v2[max2]+coeffs[1]*v[max1]+coeffs[0];
-
-  if(major<0) return false;
-  if(minor>0) return false;
-
-  // starting here, the bounds have opposite values
-  S m = 0.5 * (r + l);
-
-  // bound the derivative
-  S dminor = 3.0*coeffs[3]*v2[min3]+2.0*coeffs[2]*v[min2]+coeffs[1];
-  S dmajor = 3.0*coeffs[3]*v2[max3]+2.0*coeffs[2]*v[max2]+coeffs[1];
-
-  if((dminor > 0)||(dmajor < 0)) // we can use Newton
-  {
-    S m2 = m*m;
-    S fm = coeffs[3]*m2*m+coeffs[2]*m2+coeffs[1]*m+coeffs[0];
-    S nl = m;
-    S nu = m;
-    if(fm>0)
-    {
-      nl-=(fm/dminor);
-      nu-=(fm/dmajor);
-    }
-    else
-    {
-      nu-=(fm/dminor);
-      nl-=(fm/dmajor);
-    }
-
-    //intersect with [l,r]
-
-    if(nl>r) return false;
-    if(nu<l) return false;
-    if(nl>l)
-    {
-      if(nu<r) { l=nl; r=nu; m=0.5*(l+r); }
-      else { l=nl; m=0.5*(l+r); }
-    }
-    else
-    {
-      if(nu<r) { r=nu; m=0.5*(l+r); }
-    }
-  }
-
-  // sufficient temporal resolution, check root validity
-  if((r-l)< getCcdResolution())
-  {
-    if(bVF)
-      return checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r);
-    else
-      return checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r, data);
-  }
-
-  r_backup = r, r = m;
-  if(solveCubicWithIntervalNewton(a0, b0, c0, d0, va, vb, vc, vd, l, r, bVF, coeffs, data))
-    return true;
-
-  l = m, r = r_backup;
-  return solveCubicWithIntervalNewton(a0, b0, c0, d0, va, vb, vc, vd, l, r, bVF, coeffs, data);
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::insideTriangle(const Vector3<S>& a, const Vector3<S>& b, const Vector3<S>& c, const Vector3<S>&p)
-{
-  Vector3<S> ab = b - a;
-  Vector3<S> ac = c - a;
-  Vector3<S> n = ab.cross(ac);
-
-  Vector3<S> pa = a - p;
-  Vector3<S> pb = b - p;
-  Vector3<S> pc = c - p;
-
-  if((pb.cross(pc)).dot(n) < -getEpsilon()) return false;
-  if((pc.cross(pa)).dot(n) < -getEpsilon()) return false;
-  if((pa.cross(pb)).dot(n) < -getEpsilon()) return false;
-
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::insideLineSegment(const Vector3<S>& a, const Vector3<S>& b, const Vector3<S>& p)
-{
-  return (p - a).dot(p - b) <= 0;
-}
-
-//==============================================================================
-/// @brief Calculate the line segment papb that is the shortest route between
-/// two lines p1p2 and p3p4. Calculate also the values of mua and mub where
-///    pa = p1 + mua (p2 - p1)
-///    pb = p3 + mub (p4 - p3)
-/// Return FALSE if no solution exists.
-template <typename S>
-bool Intersect<S>::linelineIntersect(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3, const Vector3<S>& p4,
-                                  Vector3<S>* pa, Vector3<S>* pb, S* mua, S* mub)
-{
-  Vector3<S> p31 = p1 - p3;
-  Vector3<S> p34 = p4 - p3;
-  if(fabs(p34[0]) < getEpsilon() && fabs(p34[1]) < getEpsilon() && fabs(p34[2]) < getEpsilon())
-    return false;
-
-  Vector3<S> p12 = p2 - p1;
-  if(fabs(p12[0]) < getEpsilon() && fabs(p12[1]) < getEpsilon() && fabs(p12[2]) < getEpsilon())
-    return false;
-
-  S d3134 = p31.dot(p34);
-  S d3412 = p34.dot(p12);
-  S d3112 = p31.dot(p12);
-  S d3434 = p34.dot(p34);
-  S d1212 = p12.dot(p12);
-
-  S denom = d1212 * d3434 - d3412 * d3412;
-  if(fabs(denom) < getEpsilon())
-    return false;
-  S numer = d3134 * d3412 - d3112 * d3434;
-
-  *mua = numer / denom;
-  if(*mua < 0 || *mua > 1)
-    return false;
-
-  *mub = (d3134 + d3412 * (*mua)) / d3434;
-  if(*mub < 0 || *mub > 1)
-    return false;
-
-  *pa = p1 + p12 * (*mua);
-  *pb = p3 + p34 * (*mub);
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::checkRootValidity_VF(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
-                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vp,
-                                     S t)
-{
-  return insideTriangle(a0 + va * t, b0 + vb * t, c0 + vc * t, p0 + vp * t);
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::checkRootValidity_EE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
-                                     S t, Vector3<S>* q_i)
-{
-  Vector3<S> a = a0 + va * t;
-  Vector3<S> b = b0 + vb * t;
-  Vector3<S> c = c0 + vc * t;
-  Vector3<S> d = d0 + vd * t;
-  Vector3<S> p1, p2;
-  S t_ab, t_cd;
-  if(linelineIntersect(a, b, c, d, &p1, &p2, &t_ab, &t_cd))
-  {
-    if(q_i) *q_i = p1;
-    return true;
-  }
-
-  return false;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::checkRootValidity_VE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
-                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vp,
-                                     S t)
-{
-  return insideLineSegment(a0 + va * t, b0 + vb * t, p0 + vp * t);
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::solveSquare(S a, S b, S c,
-                            const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                            const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
-                            bool bVF,
-                            S* ret)
-{
-  S discriminant = b * b - 4 * a * c;
-  if(discriminant < 0)
-    return false;
-
-  S sqrt_dis = sqrt(discriminant);
-  S r1 = (-b + sqrt_dis) / (2 * a);
-  bool v1 = (r1 >= 0.0 && r1 <= 1.0) ? ((bVF) ? checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r1) : checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r1)) : false;
-
-  S r2 = (-b - sqrt_dis) / (2 * a);
-  bool v2 = (r2 >= 0.0 && r2 <= 1.0) ? ((bVF) ? checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r2) : checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r2)) : false;
-
-  if(v1 && v2)
-  {
-    *ret = (r1 > r2) ? r2 : r1;
-    return true;
-  }
-  if(v1)
-  {
-    *ret = r1;
-    return true;
-  }
-  if(v2)
-  {
-    *ret = r2;
-    return true;
-  }
-
-  return false;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::solveSquare(S a, S b, S c,
-                            const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
-                            const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vp)
-{
-  if(isZero(a))
-  {
-    S t = -c/b;
-    return (t >= 0 && t <= 1) ? checkRootValidity_VE(a0, b0, p0, va, vb, vp, t) : false;
-  }
-
-  S discriminant = b*b-4*a*c;
-  if(discriminant < 0)
-    return false;
-
-  S sqrt_dis = sqrt(discriminant);
-
-  S r1 = (-b+sqrt_dis) / (2 * a);
-  bool v1 = (r1 >= 0.0 && r1 <= 1.0) ? checkRootValidity_VE(a0, b0, p0, va, vb, vp, r1) : false;
-  if(v1) return true;
-
-  S r2 = (-b-sqrt_dis) / (2 * a);
-  bool v2 = (r2 >= 0.0 && r2 <= 1.0) ? checkRootValidity_VE(a0, b0, p0, va, vb, vp, r2) : false;
-  return v2;
-}
-
-//==============================================================================
-/// @brief Compute the cubic coefficients for VF case
-/// See Paper "Interactive Continuous Collision Detection between Deformable Models using Connectivity-Based Culling", Equation 1.
-template <typename S>
-void Intersect<S>::computeCubicCoeff_VF(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
-                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vp,
-                                     S* a, S* b, S* c, S* d)
-{
-  Vector3<S> vavb = vb - va;
-  Vector3<S> vavc = vc - va;
-  Vector3<S> vavp = vp - va;
-  Vector3<S> a0b0 = b0 - a0;
-  Vector3<S> a0c0 = c0 - a0;
-  Vector3<S> a0p0 = p0 - a0;
-
-  Vector3<S> vavb_cross_vavc = vavb.cross(vavc);
-  Vector3<S> vavb_cross_a0c0 = vavb.cross(a0c0);
-  Vector3<S> a0b0_cross_vavc = a0b0.cross(vavc);
-  Vector3<S> a0b0_cross_a0c0 = a0b0.cross(a0c0);
-
-  *a = vavp.dot(vavb_cross_vavc);
-  *b = a0p0.dot(vavb_cross_vavc) + vavp.dot(vavb_cross_a0c0 + a0b0_cross_vavc);
-  *c = vavp.dot(a0b0_cross_a0c0) + a0p0.dot(vavb_cross_a0c0 + a0b0_cross_vavc);
-  *d = a0p0.dot(a0b0_cross_a0c0);
-}
-
-//==============================================================================
-template <typename S>
-void Intersect<S>::computeCubicCoeff_EE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
-                                     S* a, S* b, S* c, S* d)
-{
-  Vector3<S> vavb = vb - va;
-  Vector3<S> vcvd = vd - vc;
-  Vector3<S> vavc = vc - va;
-  Vector3<S> c0d0 = d0 - c0;
-  Vector3<S> a0b0 = b0 - a0;
-  Vector3<S> a0c0 = c0 - a0;
-  Vector3<S> vavb_cross_vcvd = vavb.cross(vcvd);
-  Vector3<S> vavb_cross_c0d0 = vavb.cross(c0d0);
-  Vector3<S> a0b0_cross_vcvd = a0b0.cross(vcvd);
-  Vector3<S> a0b0_cross_c0d0 = a0b0.cross(c0d0);
-
-  *a = vavc.dot(vavb_cross_vcvd);
-  *b = a0c0.dot(vavb_cross_vcvd) + vavc.dot(vavb_cross_c0d0 + a0b0_cross_vcvd);
-  *c = vavc.dot(a0b0_cross_c0d0) + a0c0.dot(vavb_cross_c0d0 + a0b0_cross_vcvd);
-  *d = a0c0.dot(a0b0_cross_c0d0);
-}
-
-//==============================================================================
-template <typename S>
-void Intersect<S>::computeCubicCoeff_VE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
-                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vp,
-                                     const Vector3<S>& L,
-                                     S* a, S* b, S* c)
-{
-  Vector3<S> vbva = va - vb;
-  Vector3<S> vbvp = vp - vb;
-  Vector3<S> b0a0 = a0 - b0;
-  Vector3<S> b0p0 = p0 - b0;
-
-  Vector3<S> L_cross_vbvp = L.cross(vbvp);
-  Vector3<S> L_cross_b0p0 = L.cross(b0p0);
-
-  *a = L_cross_vbvp.dot(vbva);
-  *b = L_cross_vbvp.dot(b0a0) + L_cross_b0p0.dot(vbva);
-  *c = L_cross_b0p0.dot(b0a0);
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_VF(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
-                             const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& p1,
-                             S* collision_time, Vector3<S>* p_i, bool useNewton)
-{
-  *collision_time = 2.0;
-
-  Vector3<S> vp, va, vb, vc;
-  vp = p1 - p0;
-  va = a1 - a0;
-  vb = b1 - b0;
-  vc = c1 - c0;
-
-  S a, b, c, d;
-  computeCubicCoeff_VF(a0, b0, c0, p0, va, vb, vc, vp, &a, &b, &c, &d);
-
-  if(isZero(a) && isZero(b) && isZero(c) && isZero(d))
-  {
-    return false;
-  }
-
-
-  /// if(isZero(a))
-  /// {
-  ///   return solveSquare(b, c, d, a0, b0, c0, p0, va, vb, vc, vp, true, collision_time);
-  /// }
-
-  S coeffs[4];
-  coeffs[3] = a, coeffs[2] = b, coeffs[1] = c, coeffs[0] = d;
-
-  if(useNewton)
-  {
-    S l = 0;
-    S r = 1;
-
-    if(solveCubicWithIntervalNewton(a0, b0, c0, p0, va, vb, vc, vp, l, r, true, coeffs))
-    {
-      *collision_time = 0.5 * (l + r);
-    }
-  }
-  else
-  {
-    S roots[3];
-    int num = PolySolver<S>::solveCubic(coeffs, roots);
-    for(int i = 0; i < num; ++i)
-    {
-      S r = roots[i];
-      if(r < 0 || r > 1) continue;
-      if(checkRootValidity_VF(a0, b0, c0, p0, va, vb, vc, vp, r))
-      {
-        *collision_time = r;
-        break;
-      }
-    }
-  }
-
-  if(*collision_time > 1)
-  {
-    return false;
-  }
-
-  *p_i = vp * (*collision_time) + p0;
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_EE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                             const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& d1,
-                             S* collision_time, Vector3<S>* p_i, bool useNewton)
-{
-  *collision_time = 2.0;
-
-  Vector3<S> va, vb, vc, vd;
-  va = a1 - a0;
-  vb = b1 - b0;
-  vc = c1 - c0;
-  vd = d1 - d0;
-
-  S a, b, c, d;
-  computeCubicCoeff_EE(a0, b0, c0, d0, va, vb, vc, vd, &a, &b, &c, &d);
-
-  if(isZero(a) && isZero(b) && isZero(c) && isZero(d))
-  {
-    return false;
-  }
-
-  /// if(isZero(a))
-  /// {
-  ///   return solveSquare(b, c, d, a0, b0, c0, d0, va, vb, vc, vd, collision_time, false);
-  /// }
-
-
-  S coeffs[4];
-  coeffs[3] = a, coeffs[2] = b, coeffs[1] = c, coeffs[0] = d;
-
-  if(useNewton)
-  {
-    S l = 0;
-    S r = 1;
-
-    if(solveCubicWithIntervalNewton(a0, b0, c0, d0, va, vb, vc, vd, l, r, false, coeffs, p_i))
-    {
-      *collision_time  = (l + r) * 0.5;
-    }
-  }
-  else
-  {
-    S roots[3];
-    int num = PolySolver<S>::solveCubic(coeffs, roots);
-    for(int i = 0; i < num; ++i)
-    {
-      S r = roots[i];
-      if(r < 0 || r > 1) continue;
-
-      if(checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r, p_i))
-      {
-        *collision_time = r;
-        break;
-      }
-    }
-  }
-
-  if(*collision_time > 1)
-  {
-    return false;
-  }
-
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_VE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
-                             const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& p1,
-                             const Vector3<S>& L)
-{
-  Vector3<S> va, vb, vp;
-  va = a1 - a0;
-  vb = b1 - b0;
-  vp = p1 - p0;
-
-  S a, b, c;
-  computeCubicCoeff_VE(a0, b0, p0, va, vb, vp, L, &a, &b, &c);
-
-  if(isZero(a) && isZero(b) && isZero(c))
-    return true;
-
-  return solveSquare(a, b, c, a0, b0, p0, va, vb, vp);
-
-}
-
-//==============================================================================
-/// @brief Prefilter for intersection, works for both VF and EE
-template <typename S>
-bool Intersect<S>::intersectPreFiltering(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                                      const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& d1)
-{
-  Vector3<S> n0 = (b0 - a0).cross(c0 - a0);
-  Vector3<S> n1 = (b1 - a1).cross(c1 - a1);
-  Vector3<S> a0a1 = a1 - a0;
-  Vector3<S> b0b1 = b1 - b0;
-  Vector3<S> c0c1 = c1 - c0;
-  Vector3<S> delta = (b0b1 - a0a1).cross(c0c1 - a0a1);
-  Vector3<S> nx = (n0 + n1 - delta) * 0.5;
-
-  Vector3<S> a0d0 = d0 - a0;
-  Vector3<S> a1d1 = d1 - a1;
-
-  S A = n0.dot(a0d0);
-  S B = n1.dot(a1d1);
-  S C = nx.dot(a0d0);
-  S D = nx.dot(a1d1);
-  S E = n1.dot(a0d0);
-  S F = n0.dot(a1d1);
-
-  if(A > 0 && B > 0 && (2*C +F) > 0 && (2*D+E) > 0)
-    return false;
-  if(A < 0 && B < 0 && (2*C +F) < 0 && (2*D+E) < 0)
-    return false;
-
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_VF_filtered(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
-                                      const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& p1,
-                                      S* collision_time, Vector3<S>* p_i, bool useNewton)
-{
-  if(intersectPreFiltering(a0, b0, c0, p0, a1, b1, c1, p1))
-  {
-    return intersect_VF(a0, b0, c0, p0, a1, b1, c1, p1, collision_time, p_i, useNewton);
-  }
-  else
-    return false;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_EE_filtered(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
-                                      const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& d1,
-                                      S* collision_time, Vector3<S>* p_i, bool useNewton)
-{
-  if(intersectPreFiltering(a0, b0, c0, d0, a1, b1, c1, d1))
-  {
-    return intersect_EE(a0, b0, c0, d0, a1, b1, c1, d1, collision_time, p_i, useNewton);
-  }
-  else
-    return false;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_Triangle(
-    const Vector3<S>& P1,
-    const Vector3<S>& P2,
-    const Vector3<S>& P3,
-    const Vector3<S>& Q1,
-    const Vector3<S>& Q2,
-    const Vector3<S>& Q3,
-    const Matrix3<S>& R,
-    const Vector3<S>& T,
-    Vector3<S>* contact_points,
-    unsigned int* num_contact_points,
-    S* penetration_depth,
-    Vector3<S>* normal)
-{
-  Vector3<S> Q1_ = R * Q1 + T;
-  Vector3<S> Q2_ = R * Q2 + T;
-  Vector3<S> Q3_ = R * Q3 + T;
-
-  return intersect_Triangle(P1, P2, P3, Q1_, Q2_, Q3_, contact_points, num_contact_points, penetration_depth, normal);
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_Triangle(
-    const Vector3<S>& P1,
-    const Vector3<S>& P2,
-    const Vector3<S>& P3,
-    const Vector3<S>& Q1,
-    const Vector3<S>& Q2,
-    const Vector3<S>& Q3,
-    const Transform3<S>& tf,
-    Vector3<S>* contact_points,
-    unsigned int* num_contact_points,
-    S* penetration_depth,
-    Vector3<S>* normal)
-{
-  Vector3<S> Q1_ = tf * Q1;
-  Vector3<S> Q2_ = tf * Q2;
-  Vector3<S> Q3_ = tf * Q3;
-
-  return intersect_Triangle(P1, P2, P3, Q1_, Q2_, Q3_, contact_points, num_contact_points, penetration_depth, normal);
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_Triangle_ODE_style(
-    const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3,
-    const Vector3<S>& Q1, const Vector3<S>& Q2, const Vector3<S>& Q3,
-    Vector3<S>* contact_points,
-    unsigned int* num_contact_points,
-    S* penetration_depth,
-    Vector3<S>* normal)
-{
-  Vector3<S> n1;
-  S t1;
-  bool b1 = buildTrianglePlane(P1, P2, P3, &n1, &t1);
-  if(!b1) return false;
-
-  Vector3<S> n2;
-  S t2;
-  bool b2 = buildTrianglePlane(Q1, Q2, Q3, &n2, &t2);
-  if(!b2) return false;
-
-  if(sameSideOfPlane(P1, P2, P3, n2, t2))
-    return false;
-
-  if(sameSideOfPlane(Q1, Q2, Q3, n1, t1))
-    return false;
-
-  Vector3<S> clipped_points1[getMaxTriangleClips()];
-  unsigned int num_clipped_points1 = 0;
-  Vector3<S> clipped_points2[getMaxTriangleClips()];
-  unsigned int num_clipped_points2 = 0;
-
-  Vector3<S> deepest_points1[getMaxTriangleClips()];
-  unsigned int num_deepest_points1 = 0;
-  Vector3<S> deepest_points2[getMaxTriangleClips()];
-  unsigned int num_deepest_points2 = 0;
-  S penetration_depth1 = -1, penetration_depth2 = -1;
-
-  clipTriangleByTriangleAndEdgePlanes(Q1, Q2, Q3, P1, P2, P3, n1, t1, clipped_points2, &num_clipped_points2);
-
-  if(num_clipped_points2 == 0)
-    return false;
-
-  computeDeepestPoints(clipped_points2, num_clipped_points2, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
-  if(num_deepest_points2 == 0)
-    return false;
-
-  clipTriangleByTriangleAndEdgePlanes(P1, P2, P3, Q1, Q2, Q3, n2, t2, clipped_points1, &num_clipped_points1);
-  if(num_clipped_points1 == 0)
-    return false;
-
-  computeDeepestPoints(clipped_points1, num_clipped_points1, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
-  if(num_deepest_points1 == 0)
-    return false;
-
-
-  /// Return contact information
-  if(contact_points && num_contact_points && penetration_depth && normal)
-  {
-    if(penetration_depth1 > penetration_depth2)
-    {
-      *num_contact_points = num_deepest_points2;
-      for(unsigned int i = 0; i < num_deepest_points2; ++i)
-      {
-        contact_points[i] = deepest_points2[i];
-      }
-
-      *normal = n1;
-      *penetration_depth = penetration_depth2;
-    }
-    else
-    {
-      *num_contact_points = num_deepest_points1;
-      for(unsigned int i = 0; i < num_deepest_points1; ++i)
-      {
-        contact_points[i] = deepest_points1[i];
-      }
-
-      *normal = -n2;
-      *penetration_depth = penetration_depth1;
-    }
-  }
-
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::intersect_Triangle(
-    const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3,
-    const Vector3<S>& Q1, const Vector3<S>& Q2, const Vector3<S>& Q3,
-    Vector3<S>* contact_points,
-    unsigned int* num_contact_points,
-    S* penetration_depth,
-    Vector3<S>* normal)
-{
-  Vector3<S> p1 = P1 - P1;
-  Vector3<S> p2 = P2 - P1;
-  Vector3<S> p3 = P3 - P1;
-  Vector3<S> q1 = Q1 - P1;
-  Vector3<S> q2 = Q2 - P1;
-  Vector3<S> q3 = Q3 - P1;
-
-  Vector3<S> e1 = p2 - p1;
-  Vector3<S> e2 = p3 - p2;
-  Vector3<S> n1 = e1.cross(e2);
-  if (!project6(n1, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> f1 = q2 - q1;
-  Vector3<S> f2 = q3 - q2;
-  Vector3<S> m1 = f1.cross(f2);
-  if (!project6(m1, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef11 = e1.cross(f1);
-  if (!project6(ef11, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef12 = e1.cross(f2);
-  if (!project6(ef12, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> f3 = q1 - q3;
-  Vector3<S> ef13 = e1.cross(f3);
-  if (!project6(ef13, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef21 = e2.cross(f1);
-  if (!project6(ef21, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef22 = e2.cross(f2);
-  if (!project6(ef22, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef23 = e2.cross(f3);
-  if (!project6(ef23, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> e3 = p1 - p3;
-  Vector3<S> ef31 = e3.cross(f1);
-  if (!project6(ef31, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef32 = e3.cross(f2);
-  if (!project6(ef32, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> ef33 = e3.cross(f3);
-  if (!project6(ef33, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> g1 = e1.cross(n1);
-  if (!project6(g1, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> g2 = e2.cross(n1);
-  if (!project6(g2, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> g3 = e3.cross(n1);
-  if (!project6(g3, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> h1 = f1.cross(m1);
-  if (!project6(h1, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> h2 = f2.cross(m1);
-  if (!project6(h2, p1, p2, p3, q1, q2, q3)) return false;
-
-  Vector3<S> h3 = f3.cross(m1);
-  if (!project6(h3, p1, p2, p3, q1, q2, q3)) return false;
-
-  if(contact_points && num_contact_points && penetration_depth && normal)
-  {
-    Vector3<S> n1, n2;
-    S t1, t2;
-    buildTrianglePlane(P1, P2, P3, &n1, &t1);
-    buildTrianglePlane(Q1, Q2, Q3, &n2, &t2);
-
-    Vector3<S> deepest_points1[3];
-    unsigned int num_deepest_points1 = 0;
-    Vector3<S> deepest_points2[3];
-    unsigned int num_deepest_points2 = 0;
-    S penetration_depth1, penetration_depth2;
-
-    Vector3<S> P[3] = {P1, P2, P3};
-    Vector3<S> Q[3] = {Q1, Q2, Q3};
-
-    computeDeepestPoints(Q, 3, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
-    computeDeepestPoints(P, 3, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
-
-
-    if(penetration_depth1 > penetration_depth2)
-    {
-      *num_contact_points = std::min(num_deepest_points2, (unsigned int)2);
-      for(unsigned int i = 0; i < *num_contact_points; ++i)
-      {
-        contact_points[i] = deepest_points2[i];
-      }
-
-      *normal = n1;
-      *penetration_depth = penetration_depth2;
-    }
-    else
-    {
-      *num_contact_points = std::min(num_deepest_points1, (unsigned int)2);
-      for(unsigned int i = 0; i < *num_contact_points; ++i)
-      {
-        contact_points[i] = deepest_points1[i];
-      }
-
-      *normal = -n2;
-      *penetration_depth = penetration_depth1;
-    }
-  }
-
-  return true;
-}
-
-//==============================================================================
-template <typename S>
-void Intersect<S>::computeDeepestPoints(Vector3<S>* clipped_points, unsigned int num_clipped_points, const Vector3<S>& n, S t, S* penetration_depth, Vector3<S>* deepest_points, unsigned int* num_deepest_points)
-{
-  *num_deepest_points = 0;
-  S max_depth = -std::numeric_limits<S>::max();
-  unsigned int num_deepest_points_ = 0;
-  unsigned int num_neg = 0;
-  unsigned int num_pos = 0;
-  unsigned int num_zero = 0;
-
-  for(unsigned int i = 0; i < num_clipped_points; ++i)
-  {
-    S dist = -distanceToPlane(n, t, clipped_points[i]);
-    if(dist > getEpsilon()) num_pos++;
-    else if(dist < -getEpsilon()) num_neg++;
-    else num_zero++;
-    if(dist > max_depth)
-    {
-      max_depth = dist;
-      num_deepest_points_ = 1;
-      deepest_points[num_deepest_points_ - 1] = clipped_points[i];
-    }
-    else if(dist + 1e-6 >= max_depth)
-    {
-      num_deepest_points_++;
-      deepest_points[num_deepest_points_ - 1] = clipped_points[i];
-    }
-  }
-
-  if(max_depth < -getEpsilon())
-    num_deepest_points_ = 0;
-
-  if(num_zero == 0 && ((num_neg == 0) || (num_pos == 0)))
-    num_deepest_points_ = 0;
-
-  *penetration_depth = max_depth;
-  *num_deepest_points = num_deepest_points_;
-}
-
-//==============================================================================
-template <typename S>
-void Intersect<S>::clipTriangleByTriangleAndEdgePlanes(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& v3,
-                                                    const Vector3<S>& t1, const Vector3<S>& t2, const Vector3<S>& t3,
-                                                    const Vector3<S>& tn, S to,
-                                                    Vector3<S> clipped_points[], unsigned int* num_clipped_points,
-                                                    bool clip_triangle)
-{
-  *num_clipped_points = 0;
-  Vector3<S> temp_clip[getMaxTriangleClips()];
-  Vector3<S> temp_clip2[getMaxTriangleClips()];
-  unsigned int num_temp_clip = 0;
-  unsigned int num_temp_clip2 = 0;
-  Vector3<S> v[3] = {v1, v2, v3};
-
-  Vector3<S> plane_n;
-  S plane_dist;
-
-  if(buildEdgePlane(t1, t2, tn, &plane_n, &plane_dist))
-  {
-    clipPolygonByPlane(v, 3, plane_n, plane_dist, temp_clip, &num_temp_clip);
-    if(num_temp_clip > 0)
-    {
-      if(buildEdgePlane(t2, t3, tn, &plane_n, &plane_dist))
-      {
-        clipPolygonByPlane(temp_clip, num_temp_clip, plane_n, plane_dist, temp_clip2, &num_temp_clip2);
-        if(num_temp_clip2 > 0)
-        {
-          if(buildEdgePlane(t3, t1, tn, &plane_n, &plane_dist))
-          {
-            if(clip_triangle)
-            {
-              num_temp_clip = 0;
-              clipPolygonByPlane(temp_clip2, num_temp_clip2, plane_n, plane_dist, temp_clip, &num_temp_clip);
-              if(num_temp_clip > 0)
-              {
-                clipPolygonByPlane(temp_clip, num_temp_clip, tn, to, clipped_points, num_clipped_points);
-              }
-            }
-            else
-            {
-              clipPolygonByPlane(temp_clip2, num_temp_clip2, plane_n, plane_dist, clipped_points, num_clipped_points);
-            }
-          }
-        }
-      }
-    }
-  }
-}
-
-//==============================================================================
-template <typename S>
-void Intersect<S>::clipPolygonByPlane(Vector3<S>* polygon_points, unsigned int num_polygon_points, const Vector3<S>& n, S t, Vector3<S> clipped_points[], unsigned int* num_clipped_points)
-{
-  *num_clipped_points = 0;
-
-  unsigned int num_clipped_points_ = 0;
-  unsigned int vi;
-  unsigned int prev_classify = 2;
-  unsigned int classify;
-  for(unsigned int i = 0; i <= num_polygon_points; ++i)
-  {
-    vi = (i % num_polygon_points);
-    S d = distanceToPlane(n, t, polygon_points[vi]);
-    classify = ((d > getEpsilon()) ? 1 : 0);
-    if(classify == 0)
-    {
-      if(prev_classify == 1)
-      {
-        if(num_clipped_points_ < getMaxTriangleClips())
-        {
-          Vector3<S> tmp;
-          clipSegmentByPlane(polygon_points[i - 1], polygon_points[vi], n, t, &tmp);
-          if(num_clipped_points_ > 0)
-          {
-            if((tmp - clipped_points[num_clipped_points_ - 1]).squaredNorm() > getEpsilon())
-            {
-              clipped_points[num_clipped_points_] = tmp;
-              num_clipped_points_++;
-            }
-          }
-          else
-          {
-            clipped_points[num_clipped_points_] = tmp;
-            num_clipped_points_++;
-          }
-        }
-      }
-
-      if(num_clipped_points_ < getMaxTriangleClips() && i < num_polygon_points)
-      {
-        clipped_points[num_clipped_points_] = polygon_points[vi];
-        num_clipped_points_++;
-      }
-    }
-    else
-    {
-      if(prev_classify == 0)
-      {
-        if(num_clipped_points_ < getMaxTriangleClips())
-        {
-          Vector3<S> tmp;
-          clipSegmentByPlane(polygon_points[i - 1], polygon_points[vi], n, t, &tmp);
-          if(num_clipped_points_ > 0)
-          {
-            if((tmp - clipped_points[num_clipped_points_ - 1]).squaredNorm() > getEpsilon())
-            {
-              clipped_points[num_clipped_points_] = tmp;
-              num_clipped_points_++;
-            }
-          }
-          else
-          {
-            clipped_points[num_clipped_points_] = tmp;
-            num_clipped_points_++;
-          }
-        }
-      }
-    }
-
-    prev_classify = classify;
-  }
-
-  if(num_clipped_points_ > 2)
-  {
-    if((clipped_points[0] - clipped_points[num_clipped_points_ - 1]).squaredNorm() < getEpsilon())
-    {
-      num_clipped_points_--;
-    }
-  }
-
-  *num_clipped_points = num_clipped_points_;
-}
-
-//==============================================================================
-template <typename S>
-void Intersect<S>::clipSegmentByPlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& n, S t, Vector3<S>* clipped_point)
-{
-  S dist1 = distanceToPlane(n, t, v1);
-  Vector3<S> tmp = v2 - v1;
-  S dist2 = tmp.dot(n);
-  *clipped_point = tmp * (-dist1 / dist2) + v1;
-}
-
-//==============================================================================
-template <typename S>
-S Intersect<S>::distanceToPlane(const Vector3<S>& n, S t, const Vector3<S>& v)
-{
-  return n.dot(v) - t;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::buildTrianglePlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& v3, Vector3<S>* n, S* t)
-{
-  Vector3<S> n_ = (v2 - v1).cross(v3 - v1);
-  bool can_normalize = false;
-  normalize(n_, &can_normalize);
-  if(can_normalize)
-  {
-    *n = n_;
-    *t = n_.dot(v1);
-    return true;
-  }
-
-  return false;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::buildEdgePlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& tn, Vector3<S>* n, S* t)
-{
-  Vector3<S> n_ = (v2 - v1).cross(tn);
-  bool can_normalize = false;
-  normalize(n_, &can_normalize);
-  if(can_normalize)
-  {
-    *n = n_;
-    *t = n_.dot(v1);
-    return true;
-  }
-
-  return false;
-}
-
-//==============================================================================
-template <typename S>
-bool Intersect<S>::sameSideOfPlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& v3, const Vector3<S>& n, S t)
-{
-  S dist1 = distanceToPlane(n, t, v1);
-  S dist2 = dist1 * distanceToPlane(n, t, v2);
-  S dist3 = dist1 * distanceToPlane(n, t, v3);
-  if((dist2 > 0) && (dist3 > 0))
-    return true;
-  return false;
-}
-
-//==============================================================================
-template <typename S>
-int Intersect<S>::project6(const Vector3<S>& ax,
-                        const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3,
-                        const Vector3<S>& q1, const Vector3<S>& q2, const Vector3<S>& q3)
-{
-  S P1 = ax.dot(p1);
-  S P2 = ax.dot(p2);
-  S P3 = ax.dot(p3);
-  S Q1 = ax.dot(q1);
-  S Q2 = ax.dot(q2);
-  S Q3 = ax.dot(q3);
-
-  S mn1 = std::min(P1, std::min(P2, P3));
-  S mx2 = std::max(Q1, std::max(Q2, Q3));
-  if(mn1 > mx2) return 0;
-
-  S mx1 = std::max(P1, std::max(P2, P3));
-  S mn2 = std::min(Q1, std::min(Q2, Q3));
-
-  if(mn2 > mx1) return 0;
-  return 1;
-}
-
-//==============================================================================
-template <typename S>
-S Intersect<S>::gaussianCDF(S x)
-{
-  return 0.5 * std::erfc(-x / sqrt(2.0));
-}
-
-//==============================================================================
-template <typename S>
-constexpr S Intersect<S>::getEpsilon()
-{
-  return 1e-5;
-}
-
-//==============================================================================
-template <typename S>
-constexpr S Intersect<S>::getNearZeroThreshold()
-{
-  return 1e-7;
-}
-
-//==============================================================================
-template <typename S>
-constexpr S Intersect<S>::getCcdResolution()
-{
-  return 1e-7;
-}
-
-//==============================================================================
-template <typename S>
-constexpr unsigned int Intersect<S>::getMaxTriangleClips()
-{
-  return 8;
-}
-
-} // namespace detail
-} // namespace fcl
-
-#endif
+/*
+ * Software License Agreement (BSD License)
+ *
+ *  Copyright (c) 2011-2014, Willow Garage, Inc.
+ *  Copyright (c) 2014-2016, Open Source Robotics Foundation
+ *  All rights reserved.
+ *
+ *  Redistribution and use in source and binary forms, with or without
+ *  modification, are permitted provided that the following conditions
+ *  are met:
+ *
+ *   * Redistributions of source code must retain the above copyright
+ *     notice, this list of conditions and the following disclaimer.
+ *   * Redistributions in binary form must reproduce the above
+ *     copyright notice, this list of conditions and the following
+ *     disclaimer in the documentation and/or other materials provided
+ *     with the distribution.
+ *   * Neither the name of Open Source Robotics Foundation nor the names of its
+ *     contributors may be used to endorse or promote products derived
+ *     from this software without specific prior written permission.
+ *
+ *  THIS SOFTWARE IS PROVIDED BY THE COPYRIGHT HOLDERS AND CONTRIBUTORS
+ *  "AS IS" AND ANY EXPRESS OR IMPLIED WARRANTIES, INCLUDING, BUT NOT
+ *  LIMITED TO, THE IMPLIED WARRANTIES OF MERCHANTABILITY AND FITNESS
+ *  FOR A PARTICULAR PURPOSE ARE DISCLAIMED. IN NO EVENT SHALL THE
+ *  COPYRIGHT OWNER OR CONTRIBUTORS BE LIABLE FOR ANY DIRECT, INDIRECT,
+ *  INCIDENTAL, SPECIAL, EXEMPLARY, OR CONSEQUENTIAL DAMAGES (INCLUDING,
+ *  BUT NOT LIMITED TO, PROCUREMENT OF SUBSTITUTE GOODS OR SERVICES;
+ *  LOSS OF USE, DATA, OR PROFITS; OR BUSINESS INTERRUPTION) HOWEVER
+ *  CAUSED AND ON ANY THEORY OF LIABILITY, WHETHER IN CONTRACT, STRICT
+ *  LIABILITY, OR TORT (INCLUDING NEGLIGENCE OR OTHERWISE) ARISING IN
+ *  ANY WAY OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE
+ *  POSSIBILITY OF SUCH DAMAGE.
+ */
+
+/** @author Jia Pan */
+
+#ifndef FCL_NARROWPHASE_DETAIL_INTERSECT_INL_H
+#define FCL_NARROWPHASE_DETAIL_INTERSECT_INL_H
+
+#include "fcl/narrowphase/detail/traversal/collision/intersect.h"
+
+namespace fcl
+{
+
+namespace detail
+{
+
+//==============================================================================
+extern template
+class FCL_EXPORT Intersect<double>;
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::isZero(S v)
+{
+  return (v < getNearZeroThreshold()) && (v > -getNearZeroThreshold());
+}
+
+//==============================================================================
+/// @brief data: only used for EE, return the intersect point
+template <typename S>
+bool Intersect<S>::solveCubicWithIntervalNewton(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                                             const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
+                                             S& l, S& r, bool bVF, S coeffs[], Vector3<S>* data)
+{
+  S v2[2]= {l*l,r*r};
+  S v[2]= {l,r};
+  S r_backup;
+
+  unsigned char min3, min2, min1, max3, max2, max1;
+
+  min3= *((unsigned char*)&coeffs[3]+7)>>7; max3=min3^1;
+  min2= *((unsigned char*)&coeffs[2]+7)>>7; max2=min2^1;
+  min1= *((unsigned char*)&coeffs[1]+7)>>7; max1=min1^1;
+
+  // bound the cubic
+
+  S minor = coeffs[3]*v2[min3]*v[min3]+coeffs[2]*v2[min2]+coeffs[1]*v[min1]+coeffs[0];
+  S major = coeffs[3]*v2[max3]*v[max3]+coeffs[2]*v2[max2]+coeffs[1]*v[max1]+coeffs[0];
+
+  if(major<0) return false;
+  if(minor>0) return false;
+
+  // starting here, the bounds have opposite values
+  S m = 0.5 * (r + l);
+
+  // bound the derivative
+  S dminor = 3.0*coeffs[3]*v2[min3]+2.0*coeffs[2]*v[min2]+coeffs[1];
+  S dmajor = 3.0*coeffs[3]*v2[max3]+2.0*coeffs[2]*v[max2]+coeffs[1];
+
+  if((dminor > 0)||(dmajor < 0)) // we can use Newton
+  {
+    S m2 = m*m;
+    S fm = coeffs[3]*m2*m+coeffs[2]*m2+coeffs[1]*m+coeffs[0];
+    S nl = m;
+    S nu = m;
+    if(fm>0)
+    {
+      nl-=(fm/dminor);
+      nu-=(fm/dmajor);
+    }
+    else
+    {
+      nu-=(fm/dminor);
+      nl-=(fm/dmajor);
+    }
+
+    //intersect with [l,r]
+
+    if(nl>r) return false;
+    if(nu<l) return false;
+    if(nl>l)
+    {
+      if(nu<r) { l=nl; r=nu; m=0.5*(l+r); }
+      else { l=nl; m=0.5*(l+r); }
+    }
+    else
+    {
+      if(nu<r) { r=nu; m=0.5*(l+r); }
+    }
+  }
+
+  // sufficient temporal resolution, check root validity
+  if((r-l)< getCcdResolution())
+  {
+    if(bVF)
+      return checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r);
+    else
+      return checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r, data);
+  }
+
+  r_backup = r, r = m;
+  if(solveCubicWithIntervalNewton(a0, b0, c0, d0, va, vb, vc, vd, l, r, bVF, coeffs, data))
+    return true;
+
+  l = m, r = r_backup;
+  return solveCubicWithIntervalNewton(a0, b0, c0, d0, va, vb, vc, vd, l, r, bVF, coeffs, data);
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::insideTriangle(const Vector3<S>& a, const Vector3<S>& b, const Vector3<S>& c, const Vector3<S>&p)
+{
+  Vector3<S> ab = b - a;
+  Vector3<S> ac = c - a;
+  Vector3<S> n = ab.cross(ac);
+
+  Vector3<S> pa = a - p;
+  Vector3<S> pb = b - p;
+  Vector3<S> pc = c - p;
+
+  // the tolerance is one of barycentric coordinates, whatever the size of the triangle
+  const S tolerance = getEpsilon() * n.squaredNorm();
+
+  if((pb.cross(pc)).dot(n) < -tolerance) return false;
+  if((pc.cross(pa)).dot(n) < -tolerance) return false;
+  if((pa.cross(pb)).dot(n) < -tolerance) return false;
+
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::insideLineSegment(const Vector3<S>& a, const Vector3<S>& b, const Vector3<S>& p)
+{
+  return (p - a).dot(p - b) <= 0;
+}
+
+//==============================================================================
+/// @brief Calculate the line segment papb that is the shortest route between
+/// two lines p1p2 and p3p4. Calculate also the values of mua and mub where
+///    pa = p1 + mua (p2 - p1)
+///    pb = p3 + mub (p4 - p3)
+/// Return FALSE if no solution exists.
+template <typename S>
+bool Intersect<S>::linelineIntersect(const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3, const Vector3<S>& p4,
+                                  Vector3<S>* pa, Vector3<S>* pb, S* mua, S* mub)
+{
+  Vector3<S> p31 = p1 - p3;
+  Vector3<S> p34 = p4 - p3;
+  if(fabs(p34[0]) < getEpsilon() && fabs(p34[1]) < getEpsilon() && fabs(p34[2]) < getEpsilon())
+    return false;
+
+  Vector3<S> p12 = p2 - p1;
+  if(fabs(p12[0]) < getEpsilon() && fabs(p12[1]) < getEpsilon() && fabs(p12[2]) < getEpsilon())
+    return false;
+
+  S d3134 = p31.dot(p34);
+  S d3412 = p34.dot(p12);
+  S d3112 = p31.dot(p12);
+  S d3434 = p34.dot(p34);
+  S d1212 = p12.dot(p12);
+
+  S denom = d1212 * d3434 - d3412 * d3412;
+  // parallel, whatever the length of the lines
+  if(fabs(denom) <= getEpsilon() * d1212 * d3434)
+    return false;
+  S numer = d3134 * d3412 - d3112 * d3434;
+
+  *mua = numer / denom;
+  if(*mua < 0 || *mua > 1)
+    return false;
+
+  *mub = (d3134 + d3412 * (*mua)) / d3434;
+  if(*mub < 0 || *mub > 1)
+    return false;
+
+  *pa = p1 + p12 * (*mua);
+  *pb = p3 + p34 * (*mub);
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::checkRootValidity_VF(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
+                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vp,
+                                     S t)
+{
+  return insideTriangle(a0 + va * t, b0 + vb * t, c0 + vc * t, p0 + vp * t);
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::checkRootValidity_EE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
+                                     S t, Vector3<S>* q_i)
+{
+  Vector3<S> a = a0 + va * t;
+  Vector3<S> b = b0 + vb * t;
+  Vector3<S> c = c0 + vc * t;
+  Vector3<S> d = d0 + vd * t;
+  Vector3<S> p1, p2;
+  S t_ab, t_cd;
+  if(linelineIntersect(a, b, c, d, &p1, &p2, &t_ab, &t_cd))
+  {
+    if(q_i) *q_i = p1;
+    return true;
+  }
+
+  return false;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::checkRootValidity_VE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
+                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vp,
+                                     S t)
+{
+  return insideLineSegment(a0 + va * t, b0 + vb * t, p0 + vp * t);
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::solveSquare(S a, S b, S c,
+                            const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                            const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
+                            bool bVF,
+                            S* ret)
+{
+  S discriminant = b * b - 4 * a * c;
+  if(discriminant < 0)
+    return false;
+
+  S sqrt_dis = sqrt(discriminant);
+  S r1 = (-b + sqrt_dis) / (2 * a);
+  bool v1 = (r1 >= 0.0 && r1 <= 1.0) ? ((bVF) ? checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r1) : checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r1)) : false;
+
+  S r2 = (-b - sqrt_dis) / (2 * a);
+  bool v2 = (r2 >= 0.0 && r2 <= 1.0) ? ((bVF) ? checkRootValidity_VF(a0, b0, c0, d0, va, vb, vc, vd, r2) : checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r2)) : false;
+
+  if(v1 && v2)
+  {
+    *ret = (r1 > r2) ? r2 : r1;
+    return true;
+  }
+  if(v1)
+  {
+    *ret = r1;
+    return true;
+  }
+  if(v2)
+  {
+    *ret = r2;
+    return true;
+  }
+
+  return false;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::solveSquare(S a, S b, S c,
+                            const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
+                            const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vp)
+{
+  if(isZero(a))
+  {
+    S t = -c/b;
+    return (t >= 0 && t <= 1) ? checkRootValidity_VE(a0, b0, p0, va, vb, vp, t) : false;
+  }
+
+  S discriminant = b*b-4*a*c;
+  if(discriminant < 0)
+    return false;
+
+  S sqrt_dis = sqrt(discriminant);
+
+  S r1 = (-b+sqrt_dis) / (2 * a);
+  bool v1 = (r1 >= 0.0 && r1 <= 1.0) ? checkRootValidity_VE(a0, b0, p0, va, vb, vp, r1) : false;
+  if(v1) return true;
+
+  S r2 = (-b-sqrt_dis) / (2 * a);
+  bool v2 = (r2 >= 0.0 && r2 <= 1.0) ? checkRootValidity_VE(a0, b0, p0, va, vb, vp, r2) : false;
+  return v2;
+}
+
+//==============================================================================
+/// @brief Compute the cubic coefficients for VF case
+/// See Paper "Interactive Continuous Collision Detection between Deformable Models using Connectivity-Based Culling", Equation 1.
+template <typename S>
+void Intersect<S>::computeCubicCoeff_VF(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
+                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vp,
+                                     S* a, S* b, S* c, S* d)
+{
+  Vector3<S> vavb = vb - va;
+  Vector3<S> vavc = vc - va;
+  Vector3<S> vavp = vp - va;
+  Vector3<S> a0b0 = b0 - a0;
+  Vector3<S> a0c0 = c0 - a0;
+  Vector3<S> a0p0 = p0 - a0;
+
+  Vector3<S> vavb_cross_vavc = vavb.cross(vavc);
+  Vector3<S> vavb_cross_a0c0 = vavb.cross(a0c0);
+  Vector3<S> a0b0_cross_vavc = a0b0.cross(vavc);
+  Vector3<S> a0b0_cross_a0c0 = a0b0.cross(a0c0);
+
+  *a = vavp.dot(vavb_cross_vavc);
+  *b = a0p0.dot(vavb_cross_vavc) + vavp.dot(vavb_cross_a0c0 + a0b0_cross_vavc);
+  *c = vavp.dot(a0b0_cross_a0c0) + a0p0.dot(vavb_cross_a0c0 + a0b0_cross_vavc);
+  *d = a0p0.dot(a0b0_cross_a0c0);
+}
+
+//==============================================================================
+template <typename S>
+void Intersect<S>::computeCubicCoeff_EE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vc, const Vector3<S>& vd,
+                                     S* a, S* b, S* c, S* d)
+{
+  Vector3<S> vavb = vb - va;
+  Vector3<S> vcvd = vd - vc;
+  Vector3<S> vavc = vc - va;
+  Vector3<S> c0d0 = d0 - c0;
+  Vector3<S> a0b0 = b0 - a0;
+  Vector3<S> a0c0 = c0 - a0;
+  Vector3<S> vavb_cross_vcvd = vavb.cross(vcvd);
+  Vector3<S> vavb_cross_c0d0 = vavb.cross(c0d0);
+  Vector3<S> a0b0_cross_vcvd = a0b0.cross(vcvd);
+  Vector3<S> a0b0_cross_c0d0 = a0b0.cross(c0d0);
+
+  *a = vavc.dot(vavb_cross_vcvd);
+  *b = a0c0.dot(vavb_cross_vcvd) + vavc.dot(vavb_cross_c0d0 + a0b0_cross_vcvd);
+  *c = vavc.dot(a0b0_cross_c0d0) + a0c0.dot(vavb_cross_c0d0 + a0b0_cross_vcvd);
+  *d = a0c0.dot(a0b0_cross_c0d0);
+}
+
+//==============================================================================
+template <typename S>
+void Intersect<S>::computeCubicCoeff_VE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
+                                     const Vector3<S>& va, const Vector3<S>& vb, const Vector3<S>& vp,
+                                     const Vector3<S>& L,
+                                     S* a, S* b, S* c)
+{
+  Vector3<S> vbva = va - vb;
+  Vector3<S> vbvp = vp - vb;
+  Vector3<S> b0a0 = a0 - b0;
+  Vector3<S> b0p0 = p0 - b0;
+
+  Vector3<S> L_cross_vbvp = L.cross(vbvp);
+  Vector3<S> L_cross_b0p0 = L.cross(b0p0);
+
+  *a = L_cross_vbvp.dot(vbva);
+  *b = L_cross_vbvp.dot(b0a0) + L_cross_b0p0.dot(vbva);
+  *c = L_cross_b0p0.dot(b0a0);
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_VF(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
+                             const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& p1,
+                             S* collision_time, Vector3<S>* p_i, bool useNewton)
+{
+  *collision_time = 2.0;
+
+  Vector3<S> vp, va, vb, vc;
+  vp = p1 - p0;
+  va = a1 - a0;
+  vb = b1 - b0;
+  vc = c1 - c0;
+
+  S a, b, c, d;
+  computeCubicCoeff_VF(a0, b0, c0, p0, va, vb, vc, vp, &a, &b, &c, &d);
+
+  if(isZero(a) && isZero(b) && isZero(c) && isZero(d))
+  {
+    return false;
+  }
+
+
+  /// if(isZero(a))
+  /// {
+  ///   return solveSquare(b, c, d, a0, b0, c0, p0, va, vb, vc, vp, true, collision_time);
+  /// }
+
+  S coeffs[4];
+  coeffs[3] = a, coeffs[2] = b, coeffs[1] = c, coeffs[0] = d;
+
+  if(useNewton)
+  {
+    S l = 0;
+    S r = 1;
+
+    if(solveCubicWithIntervalNewton(a0, b0, c0, p0, va, vb, vc, vp, l, r, true, coeffs))
+    {
+      *collision_time = 0.5 * (l + r);
+    }
+  }
+  else
+  {
+    S roots[3];
+    int num = PolySolver<S>::solveCubic(coeffs, roots);
+    for(int i = 0; i < num; ++i)
+    {
+      S r = roots[i];
+      if(r < 0 || r > 1) continue;
+      if(checkRootValidity_VF(a0, b0, c0, p0, va, vb, vc, vp, r))
+      {
+        *collision_time = r;
+        break;
+      }
+    }
+  }
+
+  if(*collision_time > 1)
+  {
+    return false;
+  }
+
+  *p_i = vp * (*collision_time) + p0;
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_EE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                             const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& d1,
+                             S* collision_time, Vector3<S>* p_i, bool useNewton)
+{
+  *collision_time = 2.0;
+
+  Vector3<S> va, vb, vc, vd;
+  va = a1 - a0;
+  vb = b1 - b0;
+  vc = c1 - c0;
+  vd = d1 - d0;
+
+  S a, b, c, d;
+  computeCubicCoeff_EE(a0, b0, c0, d0, va, vb, vc, vd, &a, &b, &c, &d);
+
+  if(isZero(a) && isZero(b) && isZero(c) && isZero(d))
+  {
+    return false;
+  }
+
+  /// if(isZero(a))
+  /// {
+  ///   return solveSquare(b, c, d, a0, b0, c0, d0, va, vb, vc, vd, collision_time, false);
+  /// }
+
+
+  S coeffs[4];
+  coeffs[3] = a, coeffs[2] = b, coeffs[1] = c, coeffs[0] = d;
+
+  if(useNewton)
+  {
+    S l = 0;
+    S r = 1;
+
+    if(solveCubicWithIntervalNewton(a0, b0, c0, d0, va, vb, vc, vd, l, r, false, coeffs, p_i))
+    {
+      *collision_time  = (l + r) * 0.5;
+    }
+  }
+  else
+  {
+    S roots[3];
+    int num = PolySolver<S>::solveCubic(coeffs, roots);
+    for(int i = 0; i < num; ++i)
+    {
+      S r = roots[i];
+      if(r < 0 || r > 1) continue;
+
+      if(checkRootValidity_EE(a0, b0, c0, d0, va, vb, vc, vd, r, p_i))
+      {
+        *collision_time = r;
+        break;
+      }
+    }
+  }
+
+  if(*collision_time > 1)
+  {
+    return false;
+  }
+
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_VE(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& p0,
+                             const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& p1,
+                             const Vector3<S>& L)
+{
+  Vector3<S> va, vb, vp;
+  va = a1 - a0;
+  vb = b1 - b0;
+  vp = p1 - p0;
+
+  S a, b, c;
+  computeCubicCoeff_VE(a0, b0, p0, va, vb, vp, L, &a, &b, &c);
+
+  if(isZero(a) && isZero(b) && isZero(c))
+    return true;
+
+  return solveSquare(a, b, c, a0, b0, p0, va, vb, vp);
+
+}
+
+//==============================================================================
+/// @brief Prefilter for intersection, works for both VF and EE
+template <typename S>
+bool Intersect<S>::intersectPreFiltering(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                                      const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& d1)
+{
+  Vector3<S> n0 = (b0 - a0).cross(c0 - a0);
+  Vector3<S> n1 = (b1 - a1).cross(c1 - a1);
+  Vector3<S> a0a1 = a1 - a0;
+  Vector3<S> b0b1 = b1 - b0;
+  Vector3<S> c0c1 = c1 - c0;
+  Vector3<S> delta = (b0b1 - a0a1).cross(c0c1 - a0a1);
+  Vector3<S> nx = (n0 + n1 - delta) * 0.5;
+
+  Vector3<S> a0d0 = d0 - a0;
+  Vector3<S> a1d1 = d1 - a1;
+
+  S A = n0.dot(a0d0);
+  S B = n1.dot(a1d1);
+  S C = nx.dot(a0d0);
+  S D = nx.dot(a1d1);
+  S E = n1.dot(a0d0);
+  S F = n0.dot(a1d1);
+
+  if(A > 0 && B > 0 && (2*C +F) > 0 && (2*D+E) > 0)
+    return false;
+  if(A < 0 && B < 0 && (2*C +F) < 0 && (2*D+E) < 0)
+    return false;
+
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_VF_filtered(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& p0,
+                                      const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& p1,
+                                      S* collision_time, Vector3<S>* p_i, bool useNewton)
+{
+  if(intersectPreFiltering(a0, b0, c0, p0, a1, b1, c1, p1))
+  {
+    return intersect_VF(a0, b0, c0, p0, a1, b1, c1, p1, collision_time, p_i, useNewton);
+  }
+  else
+    return false;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_EE_filtered(const Vector3<S>& a0, const Vector3<S>& b0, const Vector3<S>& c0, const Vector3<S>& d0,
+                                      const Vector3<S>& a1, const Vector3<S>& b1, const Vector3<S>& c1, const Vector3<S>& d1,
+                                      S* collision_time, Vector3<S>* p_i, bool useNewton)
+{
+  if(intersectPreFiltering(a0, b0, c0, d0, a1, b1, c1, d1))
+  {
+    return intersect_EE(a0, b0, c0, d0, a1, b1, c1, d1, collision_time, p_i, useNewton);
+  }
+  else
+    return false;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_Triangle(
+    const Vector3<S>& P1,
+    const Vector3<S>& P2,
+    const Vector3<S>& P3,
+    const Vector3<S>& Q1,
+    const Vector3<S>& Q2,
+    const Vector3<S>& Q3,
+    const Matrix3<S>& R,
+    const Vector3<S>& T,
+    Vector3<S>* contact_points,
+    unsigned int* num_contact_points,
+    S* penetration_depth,
+    Vector3<S>* normal)
+{
+  Vector3<S> Q1_ = R * Q1 + T;
+  Vector3<S> Q2_ = R * Q2 + T;
+  Vector3<S> Q3_ = R * Q3 + T;
+
+  return intersect_Triangle(P1, P2, P3, Q1_, Q2_, Q3_, contact_points, num_contact_points, penetration_depth, normal);
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_Triangle(
+    const Vector3<S>& P1,
+    const Vector3<S>& P2,
+    const Vector3<S>& P3,
+    const Vector3<S>& Q1,
+    const Vector3<S>& Q2,
+    const Vector3<S>& Q3,
+    const Transform3<S>& tf,
+    Vector3<S>* contact_points,
+    unsigned int* num_contact_points,
+    S* penetration_depth,
+    Vector3<S>* normal)
+{
+  Vector3<S> Q1_ = tf * Q1;
+  Vector3<S> Q2_ = tf * Q2;
+  Vector3<S> Q3_ = tf * Q3;
+
+  return intersect_Triangle(P1, P2, P3, Q1_, Q2_, Q3_, contact_points, num_contact_points, penetration_depth, normal);
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_Triangle_ODE_style(
+    const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3,
+    const Vector3<S>& Q1, const Vector3<S>& Q2, const Vector3<S>& Q3,
+    Vector3<S>* contact_points,
+    unsigned int* num_contact_points,
+    S* penetration_depth,
+    Vector3<S>* normal)
+{
+  Vector3<S> n1;
+  S t1;
+  bool b1 = buildTrianglePlane(P1, P2, P3, &n1, &t1);
+  if(!b1) return false;
+
+  Vector3<S> n2;
+  S t2;
+  bool b2 = buildTrianglePlane(Q1, Q2, Q3, &n2, &t2);
+  if(!b2) return false;
+
+  if(sameSideOfPlane(P1, P2, P3, n2, t2))
+    return false;
+
+  if(sameSideOfPlane(Q1, Q2, Q3, n1, t1))
+    return false;
+
+  Vector3<S> clipped_points1[getMaxTriangleClips()];
+  unsigned int num_clipped_points1 = 0;
+  Vector3<S> clipped_points2[getMaxTriangleClips()];
+  unsigned int num_clipped_points2 = 0;
+
+  Vector3<S> deepest_points1[getMaxTriangleClips()];
+  unsigned int num_deepest_points1 = 0;
+  Vector3<S> deepest_points2[getMaxTriangleClips()];
+  unsigned int num_deepest_points2 = 0;
+  S penetration_depth1 = -1, penetration_depth2 = -1;
+
+  clipTriangleByTriangleAndEdgePlanes(Q1, Q2, Q3, P1, P2, P3, n1, t1, clipped_points2, &num_clipped_points2);
+
+  if(num_clipped_points2 == 0)
+    return false;
+
+  computeDeepestPoints(clipped_points2, num_clipped_points2, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
+  if(num_deepest_points2 == 0)
+    return false;
+
+  clipTriangleByTriangleAndEdgePlanes(P1, P2, P3, Q1, Q2, Q3, n2, t2, clipped_points1, &num_clipped_points1);
+  if(num_clipped_points1 == 0)
+    return false;
+
+  computeDeepestPoints(clipped_points1, num_clipped_points1, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
+  if(num_deepest_points1 == 0)
+    return false;
+
+
+  /// Return contact information
+  if(contact_points && num_contact_points && penetration_depth && normal)
+  {
+    if(penetration_depth1 > penetration_depth2)
+    {
+      *num_contact_points = num_deepest_points2;
+      for(unsigned int i = 0; i < num_deepest_points2; ++i)
+      {
+        contact_points[i] = deepest_points2[i];
+      }
+
+      *normal = n1;
+      *penetration_depth = penetration_depth2;
+    }
+    else
+    {
+      *num_contact_points = num_deepest_points1;
+      for(unsigned int i = 0; i < num_deepest_points1; ++i)
+      {
+        contact_points[i] = deepest_points1[i];
+      }
+
+      *normal = -n2;
+      *penetration_depth = penetration_depth1;
+    }
+  }
+
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::intersect_Triangle(
+    const Vector3<S>& P1, const Vector3<S>& P2, const Vector3<S>& P3,
+    const Vector3<S>& Q1, const Vector3<S>& Q2, const Vector3<S>& Q3,
+    Vector3<S>* contact_points,
+    unsigned int* num_contact_points,
+    S* penetration_depth,
+    Vector3<S>* normal)
+{
+  Vector3<S> p1 = P1 - P1;
+  Vector3<S> p2 = P2 - P1;
+  Vector3<S> p3 = P3 - P1;
+  Vector3<S> q1 = Q1 - P1;
+  Vector3<S> q2 = Q2 - P1;
+  Vector3<S> q3 = Q3 - P1;
+
+  Vector3<S> e1 = p2 - p1;
+  Vector3<S> e2 = p3 - p2;
+  Vector3<S> n1 = e1.cross(e2);
+  if (!project6(n1, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> f1 = q2 - q1;
+  Vector3<S> f2 = q3 - q2;
+  Vector3<S> m1 = f1.cross(f2);
+  if (!project6(m1, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef11 = e1.cross(f1);
+  if (!project6(ef11, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef12 = e1.cross(f2);
+  if (!project6(ef12, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> f3 = q1 - q3;
+  Vector3<S> ef13 = e1.cross(f3);
+  if (!project6(ef13, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef21 = e2.cross(f1);
+  if (!project6(ef21, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef22 = e2.cross(f2);
+  if (!project6(ef22, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef23 = e2.cross(f3);
+  if (!project6(ef23, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> e3 = p1 - p3;
+  Vector3<S> ef31 = e3.cross(f1);
+  if (!project6(ef31, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef32 = e3.cross(f2);
+  if (!project6(ef32, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> ef33 = e3.cross(f3);
+  if (!project6(ef33, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> g1 = e1.cross(n1);
+  if (!project6(g1, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> g2 = e2.cross(n1);
+  if (!project6(g2, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> g3 = e3.cross(n1);
+  if (!project6(g3, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> h1 = f1.cross(m1);
+  if (!project6(h1, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> h2 = f2.cross(m1);
+  if (!project6(h2, p1, p2, p3, q1, q2, q3)) return false;
+
+  Vector3<S> h3 = f3.cross(m1);
+  if (!project6(h3, p1, p2, p3, q1, q2, q3)) return false;
+
+  if(contact_points && num_contact_points && penetration_depth && normal)
+  {
+    Vector3<S> n1, n2;
+    S t1, t2;
+    buildTrianglePlane(P1, P2, P3, &n1, &t1);
+    buildTrianglePlane(Q1, Q2, Q3, &n2, &t2);
+
+    Vector3<S> deepest_points1[3];
+    unsigned int num_deepest_points1 = 0;
+    Vector3<S> deepest_points2[3];
+    unsigned int num_deepest_points2 = 0;
+    S penetration_depth1, penetration_depth2;
+
+    Vector3<S> P[3] = {P1, P2, P3};
+    Vector3<S> Q[3] = {Q1, Q2, Q3};
+
+    computeDeepestPoints(Q, 3, n1, t1, &penetration_depth2, deepest_points2, &num_deepest_points2);
+    computeDeepestPoints(P, 3, n2, t2, &penetration_depth1, deepest_points1, &num_deepest_points1);
+
+
+    if(penetration_depth1 > penetration_depth2)
+    {
+      *num_contact_points = std::min(num_deepest_points2, (unsigned int)2);
+      for(unsigned int i = 0; i < *num_contact_points; ++i)
+      {
+        contact_points[i] = deepest_points2[i];
+      }
+
+      *normal = n1;
+      *penetration_depth = penetration_depth2;
+    }
+    else
+    {
+      *num_contact_points = std::min(num_deepest_points1, (unsigned int)2);
+      for(unsigned int i = 0; i < *num_contact_points; ++i)
+      {
+        contact_points[i] = deepest_points1[i];
+      }
+
+      *normal = -n2;
+      *penetration_depth = penetration_depth1;
+    }
+  }
+
+  return true;
+}
+
+//==============================================================================
+template <typename S>
+void Intersect<S>::computeDeepestPoints(Vector3<S>* clipped_points, unsigned int num_clipped_points, const Vector3<S>& n, S t, S* penetration_depth, Vector3<S>* deepest_points, unsigned int* num_deepest_points)
+{
+  *num_deepest_points = 0;
+  S max_depth = -std::numeric_limits<S>::max();
+  unsigned int num_deepest_points_ = 0;
+  unsigned int num_neg = 0;
+  unsigned int num_pos = 0;
+  unsigned int num_zero = 0;
+
+  for(unsigned int i = 0; i < num_clipped_points; ++i)
+  {
+    S dist = -distanceToPlane(n, t, clipped_points[i]);
+    if(dist > getEpsilon()) num_pos++;
+    else if(dist < -getEpsilon()) num_neg++;
+    else num_zero++;
+    if(dist > max_depth)
+    {
+      max_depth = dist;
+      num_deepest_points_ = 1;
+      deepest_points[num_deepest_points_ - 1] = clipped_points[i];
+    }
+    else if(dist + 1e-6 >= max_depth)
+    {
+      num_deepest_points_++;
+      deepest_points[num_deepest_points_ - 1] = clipped_points[i];
+    }
+  }
+
+  if(max_depth < -getEpsilon())
+    num_deepest_points_ = 0;
+
+  if(num_zero == 0 && ((num_neg == 0) || (num_pos == 0)))
+    num_deepest_points_ = 0;
+
+  *penetration_depth = max_depth;
+  *num_deepest_points = num_deepest_points_;
+}
+
+//==============================================================================
+template <typename S>
+void Intersect<S>::clipTriangleByTriangleAndEdgePlanes(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& v3,
+                                                    const Vector3<S>& t1, const Vector3<S>& t2, const Vector3<S>& t3,
+                                                    const Vector3<S>& tn, S to,
+                                                    Vector3<S> clipped_points[], unsigned int* num_clipped_points,
+                                                    bool clip_triangle)
+{
+  *num_clipped_points = 0;
+  Vector3<S> temp_clip[getMaxTriangleClips()];
+  Vector3<S> temp_clip2[getMaxTriangleClips()];
+  unsigned int num_temp_clip = 0;
+  unsigned int num_temp_clip2 = 0;
+  Vector3<S> v[3] = {v1, v2, v3};
+
+  Vector3<S> plane_n;
+  S plane_dist;
+
+  if(buildEdgePlane(t1, t2, tn, &plane_n, &plane_dist))
+  {
+    clipPolygonByPlane(v, 3, plane_n, plane_dist, temp_clip, &num_temp_clip);
+    if(num_temp_clip > 0)
+    {
+      if(buildEdgePlane(t2, t3, tn, &plane_n, &plane_dist))
+      {
+        clipPolygonByPlane(temp_clip, num_temp_clip, plane_n, plane_dist, temp_clip2, &num_temp_clip2);
+        if(num_temp_clip2 > 0)
+        {
+          if(buildEdgePlane(t3, t1, tn, &plane_n, &plane_dist))
+          {
+            if(clip_triangle)
+            {
+              num_temp_clip = 0;
+              clipPolygonByPlane(temp_clip2, num_temp_clip2, plane_n, plane_dist, temp_clip, &num_temp_clip);
+              if(num_temp_clip > 0)
+              {
+                clipPolygonByPlane(temp_clip, num_temp_clip, tn, to, clipped_points, num_clipped_points);
+              }
+            }
+            else
+            {
+              clipPolygonByPlane(temp_clip2, num_temp_clip2, plane_n, plane_dist, clipped_points, num_clipped_points);
+            }
+          }
+        }
+      }
+    }
+  }
+}
+
+//==============================================================================
+template <typename S>
+void Intersect<S>::clipPolygonByPlane(Vector3<S>* polygon_points, unsigned int num_polygon_points, const Vector3<S>& n, S t, Vector3<S> clipped_points[], unsigned int* num_clipped_points)
+{
+  *num_clipped_points = 0;
+
+  unsigned int num_clipped_points_ = 0;
+  unsigned int vi;
+  unsigned int prev_classify = 2;
+  unsigned int classify;
+  for(unsigned int i = 0; i <= num_polygon_points; ++i)
+  {
+    vi = (i % num_polygon_points);
+    S d = distanceToPlane(n, t, polygon_points[vi]);
+    classify = ((d > getEpsilon()) ? 1 : 0);
+    if(classify == 0)
+    {
+      if(prev_classify == 1)
+      {
+        if(num_clipped_points_ < getMaxTriangleClips())
+        {
+          Vector3<S> tmp;
+          clipSegmentByPlane(polygon_points[i - 1], polygon_points[vi], n, t, &tmp);
+          if(num_clipped_points_ > 0)
+          {
+            if((tmp - clipped_points[num_clipped_points_ - 1]).squaredNorm() > getEpsilon())
+            {
+              clipped_points[num_clipped_points_] = tmp;
+              num_clipped_points_++;
+            }
+          }
+          else
+          {
+            clipped_points[num_clipped_points_] = tmp;
+            num_clipped_points_++;
+          }
+        }
+      }
+
+      if(num_clipped_points_ < getMaxTriangleClips() && i < num_polygon_points)
+      {
+        clipped_points[num_clipped_points_] = polygon_points[vi];
+        num_clipped_points_++;
+      }
+    }
+    else
+    {
+      if(prev_classify == 0)
+      {
+        if(num_clipped_points_ < getMaxTriangleClips())
+        {
+          Vector3<S> tmp;
+          clipSegmentByPlane(polygon_points[i - 1], polygon_points[vi], n, t, &tmp);
+          if(num_clipped_points_ > 0)
+          {
+            if((tmp - clipped_points[num_clipped_points_ - 1]).squaredNorm() > getEpsilon())
+            {
+              clipped_points[num_clipped_points_] = tmp;
+              num_clipped_points_++;
+            }
+          }
+          else
+          {
+            clipped_points[num_clipped_points_] = tmp;
+            num_clipped_points_++;
+          }
+        }
+      }
+    }
+
+    prev_classify = classify;
+  }
+
+  if(num_clipped_points_ > 2)
+  {
+    if((clipped_points[0] - clipped_points[num_clipped_points_ - 1]).squaredNorm() < getEpsilon())
+    {
+      num_clipped_points_--;
+    }
+  }
+
+  *num_clipped_points = num_clipped_points_;
+}
+
+//==============================================================================
+template <typename S>
+void Intersect<S>::clipSegmentByPlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& n, S t, Vector3<S>* clipped_point)
+{
+  S dist1 = distanceToPlane(n, t, v1);
+  Vector3<S> tmp = v2 - v1;
+  S dist2 = tmp.dot(n);
+  *clipped_point = tmp * (-dist1 / dist2) + v1;
+}
+
+//==============================================================================
+template <typename S>
+S Intersect<S>::distanceToPlane(const Vector3<S>& n, S t, const Vector3<S>& v)
+{
+  return n.dot(v) - t;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::buildTrianglePlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& v3, Vector3<S>* n, S* t)
+{
+  Vector3<S> n_ = (v2 - v1).cross(v3 - v1);
+  bool can_normalize = false;
+  normalize(n_, &can_normalize);
+  if(can_normalize)
+  {
+    *n = n_;
+    *t = n_.dot(v1);
+    return true;
+  }
+
+  return false;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::buildEdgePlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& tn, Vector3<S>* n, S* t)
+{
+  Vector3<S> n_ = (v2 - v1).cross(tn);
+  bool can_normalize = false;
+  normalize(n_, &can_normalize);
+  if(can_normalize)
+  {
+    *n = n_;
+    *t = n_.dot(v1);
+    return true;
+  }
+
+  return false;
+}
+
+//==============================================================================
+template <typename S>
+bool Intersect<S>::sameSideOfPlane(const Vector3<S>& v1, const Vector3<S>& v2, const Vector3<S>& v3, const Vector3<S>& n, S t)
+{
+  S dist1 = distanceToPlane(n, t, v1);
+  S dist2 = dist1 * distanceToPlane(n, t, v2);
+  S dist3 = dist1 * distanceToPlane(n, t, v3);
+  if((dist2 > 0) && (dist3 > 0))
+    return true;
+  return false;
+}
+
+//==============================================================================
+template <typename S>
+int Intersect<S>::project6(const Vector3<S>& ax,
+                        const Vector3<S>& p1, const Vector3<S>& p2, const Vector3<S>& p3,
+                        const Vector3<S>& q1, const Vector3<S>& q2, const Vector3<S>& q3)
+{
+  S P1 = ax.dot(p1);
+  S P2 = ax.dot(p2);
+  S P3 = ax.dot(p3);
+  S Q1 = ax.dot(q1);
+  S Q2 = ax.dot(q2);
+  S Q3 = ax.dot(q3);
+
+  S mn1 = std::min(P1, std::min(P2, P3));
+  S mx2 = std::max(Q1, std::max(Q2, Q3));
+  if(mn1 > mx2) return 0;
+
+  S mx1 = std::max(P1, std::max(P2, P3));
+  S mn2 = std::min(Q1, std::min(Q2, Q3));
+
+  if(mn2 > mx1) return 0;
+  return 1;
+}
+
+//==============================================================================
+template <typename S>
+S Intersect<S>::gaussianCDF(S x)
+{
+  return 0.5 * std::erfc(-x / sqrt(2.0));
+}
+
+//==============================================================================
+template <typename S>
+constexpr S Intersect<S>::getEpsilon()
+{
+  return 1e-5;
+}
+
+//==============================================================================
+template <typename S>
+constexpr S Intersect<S>::getNearZeroThreshold()
+{
+  return 1e-7;
+}
+
+//==============================================================================
+template <typename S>
+constexpr S Intersect<S>::getCcdResolution()
+{
+  return 1e-7;
+}
+
+//==============================================================================
+template <typename S>
+constexpr unsigned int Intersect<S>::getMaxTriangleClips()
+{
+  return 8;
+}
+
+} // namespace detail
+} // namespace fcl
+
+#endif
-- 
2.43.0


From 704603c65cc5a295c54fc062e2fbf83bed31a0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 109/120] fix: distance to planes and half-spaces is not
 supported

---
 .../detail/distance_func_matrix-inl.h         | 56 +------------------
 1 file changed, 3 insertions(+), 53 deletions(-)

diff --git a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
index a609d38..0923744 100644
--- a/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/distance_func_matrix-inl.h
@@ -485,6 +485,9 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
       distance_matrix[i][j] = nullptr;
   }
 
+  // Planes and half-spaces have no entries: the distance algorithms below work
+  // with support mappings, which unbounded shapes do not have.
+
   distance_matrix[GEOM_BOX][GEOM_BOX] = &ShapeShapeDistance<Box<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_BOX][GEOM_SPHERE] = &ShapeShapeDistance<Box<S>, Sphere<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_BOX][GEOM_ELLIPSOID] = &ShapeShapeDistance<Box<S>, Ellipsoid<S>, NarrowPhaseSolver>;
@@ -492,8 +495,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_BOX][GEOM_CONE] = &ShapeShapeDistance<Box<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_BOX][GEOM_CYLINDER] = &ShapeShapeDistance<Box<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_BOX][GEOM_CONVEX] = &ShapeShapeDistance<Box<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_BOX][GEOM_PLANE] = &ShapeShapeDistance<Box<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_BOX][GEOM_HALFSPACE] = &ShapeShapeDistance<Box<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_SPHERE][GEOM_BOX] = &ShapeShapeDistance<Sphere<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_SPHERE][GEOM_SPHERE] = &ShapeShapeDistance<Sphere<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -502,8 +503,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_SPHERE][GEOM_CONE] = &ShapeShapeDistance<Sphere<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_SPHERE][GEOM_CYLINDER] = &ShapeShapeDistance<Sphere<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_SPHERE][GEOM_CONVEX] = &ShapeShapeDistance<Sphere<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_SPHERE][GEOM_PLANE] = &ShapeShapeDistance<Sphere<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_SPHERE][GEOM_HALFSPACE] = &ShapeShapeDistance<Sphere<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_ELLIPSOID][GEOM_BOX] = &ShapeShapeDistance<Ellipsoid<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_ELLIPSOID][GEOM_SPHERE] = &ShapeShapeDistance<Ellipsoid<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -512,8 +511,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_ELLIPSOID][GEOM_CONE] = &ShapeShapeDistance<Ellipsoid<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_ELLIPSOID][GEOM_CYLINDER] = &ShapeShapeDistance<Ellipsoid<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_ELLIPSOID][GEOM_CONVEX] = &ShapeShapeDistance<Ellipsoid<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_ELLIPSOID][GEOM_PLANE] = &ShapeShapeDistance<Ellipsoid<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_ELLIPSOID][GEOM_HALFSPACE] = &ShapeShapeDistance<Ellipsoid<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_CAPSULE][GEOM_BOX] = &ShapeShapeDistance<Capsule<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CAPSULE][GEOM_SPHERE] = &ShapeShapeDistance<Capsule<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -522,8 +519,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_CAPSULE][GEOM_CONE] = &ShapeShapeDistance<Capsule<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CAPSULE][GEOM_CYLINDER] = &ShapeShapeDistance<Capsule<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CAPSULE][GEOM_CONVEX] = &ShapeShapeDistance<Capsule<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CAPSULE][GEOM_PLANE] = &ShapeShapeDistance<Capsule<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CAPSULE][GEOM_HALFSPACE] = &ShapeShapeDistance<Capsule<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_CONE][GEOM_BOX] = &ShapeShapeDistance<Cone<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONE][GEOM_SPHERE] = &ShapeShapeDistance<Cone<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -532,8 +527,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_CONE][GEOM_CONE] = &ShapeShapeDistance<Cone<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONE][GEOM_CYLINDER] = &ShapeShapeDistance<Cone<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONE][GEOM_CONVEX] = &ShapeShapeDistance<Cone<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CONE][GEOM_PLANE] = &ShapeShapeDistance<Cone<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CONE][GEOM_HALFSPACE] = &ShapeShapeDistance<Cone<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_CYLINDER][GEOM_BOX] = &ShapeShapeDistance<Cylinder<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CYLINDER][GEOM_SPHERE] = &ShapeShapeDistance<Cylinder<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -542,8 +535,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_CYLINDER][GEOM_CONE] = &ShapeShapeDistance<Cylinder<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CYLINDER][GEOM_CYLINDER] = &ShapeShapeDistance<Cylinder<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CYLINDER][GEOM_CONVEX] = &ShapeShapeDistance<Cylinder<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CYLINDER][GEOM_PLANE] = &ShapeShapeDistance<Cylinder<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CYLINDER][GEOM_HALFSPACE] = &ShapeShapeDistance<Cylinder<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_CONVEX][GEOM_BOX] = &ShapeShapeDistance<Convex<S>, Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONVEX][GEOM_SPHERE] = &ShapeShapeDistance<Convex<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -552,27 +543,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_CONVEX][GEOM_CONE] = &ShapeShapeDistance<Convex<S>, Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONVEX][GEOM_CYLINDER] = &ShapeShapeDistance<Convex<S>, Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONVEX][GEOM_CONVEX] = &ShapeShapeDistance<Convex<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CONVEX][GEOM_PLANE] = &ShapeShapeDistance<Convex<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_CONVEX][GEOM_HALFSPACE] = &ShapeShapeDistance<Convex<S>, Halfspace<S>, NarrowPhaseSolver>;
-
-  distance_matrix[GEOM_PLANE][GEOM_BOX] = &ShapeShapeDistance<Plane<S>, Box<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_SPHERE] = &ShapeShapeDistance<Plane<S>, Sphere<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_ELLIPSOID] = &ShapeShapeDistance<Plane<S>, Ellipsoid<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_CAPSULE] = &ShapeShapeDistance<Plane<S>, Capsule<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_CONE] = &ShapeShapeDistance<Plane<S>, Cone<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_CYLINDER] = &ShapeShapeDistance<Plane<S>, Cylinder<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_CONVEX] = &ShapeShapeDistance<Plane<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_PLANE] = &ShapeShapeDistance<Plane<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_HALFSPACE] = &ShapeShapeDistance<Plane<S>, Halfspace<S>, NarrowPhaseSolver>;
-
-  distance_matrix[GEOM_HALFSPACE][GEOM_BOX] = &ShapeShapeDistance<Halfspace<S>, Box<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_SPHERE] = &ShapeShapeDistance<Halfspace<S>, Sphere<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_CAPSULE] = &ShapeShapeDistance<Halfspace<S>, Capsule<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_CONE] = &ShapeShapeDistance<Halfspace<S>, Cone<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_CYLINDER] = &ShapeShapeDistance<Halfspace<S>, Cylinder<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_CONVEX] = &ShapeShapeDistance<Halfspace<S>, Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_PLANE] = &ShapeShapeDistance<Halfspace<S>, Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_HALFSPACE] = &ShapeShapeDistance<Halfspace<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   /* AABB distance not implemented */
   /*
@@ -583,8 +553,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_AABB][GEOM_CONE] = &BVHShapeDistancer<AABB<S>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_AABB][GEOM_CYLINDER] = &BVHShapeDistancer<AABB<S>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_AABB][GEOM_CONVEX] = &BVHShapeDistancer<AABB<S>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_AABB][GEOM_PLANE] = &BVHShapeDistancer<AABB<S>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_AABB][GEOM_HALFSPACE] = &BVHShapeDistancer<AABB<S>, Halfspace<S>, NarrowPhaseSolver>::distance;
 
   distance_matrix[BV_OBB][GEOM_BOX] = &BVHShapeDistancer<OBB<S>, Box<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_OBB][GEOM_SPHERE] = &BVHShapeDistancer<OBB<S>, Sphere<S>, NarrowPhaseSolver>::distance;
@@ -593,8 +561,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_OBB][GEOM_CONE] = &BVHShapeDistancer<OBB<S>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_OBB][GEOM_CYLINDER] = &BVHShapeDistancer<OBB<S>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_OBB][GEOM_CONVEX] = &BVHShapeDistancer<OBB<S>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_OBB][GEOM_PLANE] = &BVHShapeDistancer<OBB<S>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_OBB][GEOM_HALFSPACE] = &BVHShapeDistancer<OBB<S>, Halfspace<S>, NarrowPhaseSolver>::distance;
   */
 
   distance_matrix[BV_RSS][GEOM_BOX] = &BVHShapeDistancer<RSS<S>, Box<S>, NarrowPhaseSolver>::distance;
@@ -604,8 +570,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_RSS][GEOM_CONE] = &BVHShapeDistancer<RSS<S>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_RSS][GEOM_CYLINDER] = &BVHShapeDistancer<RSS<S>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_RSS][GEOM_CONVEX] = &BVHShapeDistancer<RSS<S>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_RSS][GEOM_PLANE] = &BVHShapeDistancer<RSS<S>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_RSS][GEOM_HALFSPACE] = &BVHShapeDistancer<RSS<S>, Halfspace<S>, NarrowPhaseSolver>::distance;
 
   /* KDOPd distance not implemented */
   /*
@@ -616,8 +580,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_KDOP16][GEOM_CONE] = &BVHShapeDistancer<KDOP<S, 16>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP16][GEOM_CYLINDER] = &BVHShapeDistancer<KDOP<S, 16>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP16][GEOM_CONVEX] = &BVHShapeDistancer<KDOP<S, 16>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_KDOP16][GEOM_PLANE] = &BVHShapeDistancer<KDOP<S, 16>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_KDOP16][GEOM_HALFSPACE] = &BVHShapeDistancer<KDOP<S, 16>, Halfspace<S>, NarrowPhaseSolver>::distance;
 
   distance_matrix[BV_KDOP18][GEOM_BOX] = &BVHShapeDistancer<KDOP<S, 18>, Box<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP18][GEOM_SPHERE] = &BVHShapeDistancer<KDOP<S, 18>, Sphere<S>, NarrowPhaseSolver>::distance;
@@ -626,8 +588,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_KDOP18][GEOM_CONE] = &BVHShapeDistancer<KDOP<S, 18>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP18][GEOM_CYLINDER] = &BVHShapeDistancer<KDOP<S, 18>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP18][GEOM_CONVEX] = &BVHShapeDistancer<KDOP<S, 18>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_KDOP18][GEOM_PLANE] = &BVHShapeDistancer<KDOP<S, 18>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_KDOP18][GEOM_HALFSPACE] = &BVHShapeDistancer<KDOP<S, 18>, Halfspace<S>, NarrowPhaseSolver>::distance;
 
   distance_matrix[BV_KDOP24][GEOM_BOX] = &BVHShapeDistancer<KDOP<S, 24>, Box<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP24][GEOM_SPHERE] = &BVHShapeDistancer<KDOP<S, 24>, Sphere<S>, NarrowPhaseSolver>::distance;
@@ -636,8 +596,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_KDOP24][GEOM_CONE] = &BVHShapeDistancer<KDOP<S, 24>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP24][GEOM_CYLINDER] = &BVHShapeDistancer<KDOP<S, 24>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_KDOP24][GEOM_CONVEX] = &BVHShapeDistancer<KDOP<S, 24>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_KDOP24][GEOM_PLANE] = &BVHShapeDistancer<KDOP<S, 24>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_KDOP24][GEOM_HALFSPACE] = &BVHShapeDistancer<KDOP<S, 24>, Halfspace<S>, NarrowPhaseSolver>::distance;
   */
 
   distance_matrix[BV_kIOS][GEOM_BOX] = &BVHShapeDistancer<kIOS<S>, Box<S>, NarrowPhaseSolver>::distance;
@@ -647,8 +605,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_kIOS][GEOM_CONE] = &BVHShapeDistancer<kIOS<S>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_kIOS][GEOM_CYLINDER] = &BVHShapeDistancer<kIOS<S>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_kIOS][GEOM_CONVEX] = &BVHShapeDistancer<kIOS<S>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_kIOS][GEOM_PLANE] = &BVHShapeDistancer<kIOS<S>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_kIOS][GEOM_HALFSPACE] = &BVHShapeDistancer<kIOS<S>, Halfspace<S>, NarrowPhaseSolver>::distance;
 
   distance_matrix[BV_OBBRSS][GEOM_BOX] = &BVHShapeDistancer<OBBRSS<S>, Box<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_OBBRSS][GEOM_SPHERE] = &BVHShapeDistancer<OBBRSS<S>, Sphere<S>, NarrowPhaseSolver>::distance;
@@ -657,8 +613,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[BV_OBBRSS][GEOM_CONE] = &BVHShapeDistancer<OBBRSS<S>, Cone<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_OBBRSS][GEOM_CYLINDER] = &BVHShapeDistancer<OBBRSS<S>, Cylinder<S>, NarrowPhaseSolver>::distance;
   distance_matrix[BV_OBBRSS][GEOM_CONVEX] = &BVHShapeDistancer<OBBRSS<S>, Convex<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_OBBRSS][GEOM_PLANE] = &BVHShapeDistancer<OBBRSS<S>, Plane<S>, NarrowPhaseSolver>::distance;
-  distance_matrix[BV_OBBRSS][GEOM_HALFSPACE] = &BVHShapeDistancer<OBBRSS<S>, Halfspace<S>, NarrowPhaseSolver>::distance;
 
   distance_matrix[BV_AABB][BV_AABB] = &BVHDistance<AABB<S>, NarrowPhaseSolver>;
   distance_matrix[BV_RSS][BV_RSS] = &BVHDistance<RSS<S>, NarrowPhaseSolver>;
@@ -673,8 +627,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_OCTREE][GEOM_CONE] = &OcTreeShapeDistance<Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_OCTREE][GEOM_CYLINDER] = &OcTreeShapeDistance<Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_OCTREE][GEOM_CONVEX] = &OcTreeShapeDistance<Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_OCTREE][GEOM_PLANE] = &OcTreeShapeDistance<Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_OCTREE][GEOM_HALFSPACE] = &OcTreeShapeDistance<Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_BOX][GEOM_OCTREE] = &ShapeOcTreeDistance<Box<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_SPHERE][GEOM_OCTREE] = &ShapeOcTreeDistance<Sphere<S>, NarrowPhaseSolver>;
@@ -683,8 +635,6 @@ DistanceFunctionMatrix<NarrowPhaseSolver>::DistanceFunctionMatrix()
   distance_matrix[GEOM_CONE][GEOM_OCTREE] = &ShapeOcTreeDistance<Cone<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CYLINDER][GEOM_OCTREE] = &ShapeOcTreeDistance<Cylinder<S>, NarrowPhaseSolver>;
   distance_matrix[GEOM_CONVEX][GEOM_OCTREE] = &ShapeOcTreeDistance<Convex<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_PLANE][GEOM_OCTREE] = &ShapeOcTreeDistance<Plane<S>, NarrowPhaseSolver>;
-  distance_matrix[GEOM_HALFSPACE][GEOM_OCTREE] = &ShapeOcTreeDistance<Halfspace<S>, NarrowPhaseSolver>;
 
   distance_matrix[GEOM_OCTREE][GEOM_OCTREE] = &OcTreeDistance<NarrowPhaseSolver>;
 
-- 
2.43.0


From 5eea7e1e7cc83d997c63fe9e7808a6b62f8fb214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:49 +0000
Subject: [PATCH 110/120] fix: conservative advancement against planes and
 half-spaces is not supported

---
 ...conservative_advancement_func_matrix-inl.h | 67 +------------------
 1 file changed, 2 insertions(+), 65 deletions(-)

diff --git a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
index b88c5b2..51f46fa 100644
--- a/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
+++ b/include/fcl/narrowphase/detail/conservative_advancement_func_matrix-inl.h
@@ -94,7 +94,6 @@ bool conservativeAdvancement(const BVHModel<BV>& o1,
     return true;
   }
 
-
   MeshConservativeAdvancementTraversalNode<BV> node;
 
   node.motion1 = motion1;
@@ -167,7 +166,6 @@ bool conservativeAdvancementMeshOriented(const BVHModel<BV>& o1,
     return true;
   }
 
-
   ConservativeAdvancementOrientedNode node;
 
   initialize(node, o1, tf1, o2, tf2);
@@ -783,6 +781,8 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
       conservative_advancement_matrix[i][j] = nullptr;
   }
 
+  // Planes and half-spaces have no entries: they have no support mapping and so
+  // no distance to advance by.
 
   conservative_advancement_matrix[GEOM_BOX][GEOM_BOX] = &ShapeConservativeAdvancement<Box<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_BOX][GEOM_SPHERE] = &ShapeConservativeAdvancement<Box<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -790,8 +790,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_BOX][GEOM_CONE] = &ShapeConservativeAdvancement<Box<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_BOX][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Box<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_BOX][GEOM_CONVEX] = &ShapeConservativeAdvancement<Box<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_BOX][GEOM_PLANE] = &ShapeConservativeAdvancement<Box<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_BOX][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Box<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_SPHERE][GEOM_BOX] = &ShapeConservativeAdvancement<Sphere<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][GEOM_SPHERE] = &ShapeConservativeAdvancement<Sphere<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -799,8 +797,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_SPHERE][GEOM_CONE] = &ShapeConservativeAdvancement<Sphere<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Sphere<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][GEOM_CONVEX] = &ShapeConservativeAdvancement<Sphere<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_SPHERE][GEOM_PLANE] = &ShapeConservativeAdvancement<Sphere<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_SPHERE][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Sphere<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_CAPSULE][GEOM_BOX] = &ShapeConservativeAdvancement<Capsule<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CAPSULE][GEOM_SPHERE] = &ShapeConservativeAdvancement<Capsule<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -808,8 +804,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CAPSULE][GEOM_CONE] = &ShapeConservativeAdvancement<Capsule<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CAPSULE][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Capsule<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CAPSULE][GEOM_CONVEX] = &ShapeConservativeAdvancement<Capsule<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CAPSULE][GEOM_PLANE] = &ShapeConservativeAdvancement<Capsule<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CAPSULE][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Capsule<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_CONE][GEOM_BOX] = &ShapeConservativeAdvancement<Cone<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONE][GEOM_SPHERE] = &ShapeConservativeAdvancement<Cone<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -817,8 +811,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][GEOM_CONE] = &ShapeConservativeAdvancement<Cone<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONE][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Cone<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONE][GEOM_CONVEX] = &ShapeConservativeAdvancement<Cone<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CONE][GEOM_PLANE] = &ShapeConservativeAdvancement<Cone<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CONE][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Cone<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_CYLINDER][GEOM_BOX] = &ShapeConservativeAdvancement<Cylinder<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][GEOM_SPHERE] = &ShapeConservativeAdvancement<Cylinder<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -826,8 +818,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CYLINDER][GEOM_CONE] = &ShapeConservativeAdvancement<Cylinder<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Cylinder<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][GEOM_CONVEX] = &ShapeConservativeAdvancement<Cylinder<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CYLINDER][GEOM_PLANE] = &ShapeConservativeAdvancement<Cylinder<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CYLINDER][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Cylinder<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_CONVEX][GEOM_BOX] = &ShapeConservativeAdvancement<Convex<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][GEOM_SPHERE] = &ShapeConservativeAdvancement<Convex<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -835,26 +825,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONVEX][GEOM_CONE] = &ShapeConservativeAdvancement<Convex<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Convex<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][GEOM_CONVEX] = &ShapeConservativeAdvancement<Convex<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CONVEX][GEOM_PLANE] = &ShapeConservativeAdvancement<Convex<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_CONVEX][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Convex<S>, Halfspace<S>, NarrowPhaseSolver>;
-
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_BOX] = &ShapeConservativeAdvancement<Plane<S>, Box<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_SPHERE] = &ShapeConservativeAdvancement<Plane<S>, Sphere<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_CAPSULE] = &ShapeConservativeAdvancement<Plane<S>, Capsule<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_CONE] = &ShapeConservativeAdvancement<Plane<S>, Cone<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Plane<S>, Cylinder<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_CONVEX] = &ShapeConservativeAdvancement<Plane<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_PLANE] = &ShapeConservativeAdvancement<Plane<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Plane<S>, Halfspace<S>, NarrowPhaseSolver>;
-
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_BOX] = &ShapeConservativeAdvancement<Halfspace<S>, Box<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_SPHERE] = &ShapeConservativeAdvancement<Halfspace<S>, Sphere<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_CAPSULE] = &ShapeConservativeAdvancement<Halfspace<S>, Capsule<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_CONE] = &ShapeConservativeAdvancement<Halfspace<S>, Cone<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_CYLINDER] = &ShapeConservativeAdvancement<Halfspace<S>, Cylinder<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_CONVEX] = &ShapeConservativeAdvancement<Halfspace<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_PLANE] = &ShapeConservativeAdvancement<Halfspace<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][GEOM_HALFSPACE] = &ShapeConservativeAdvancement<Halfspace<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_AABB][GEOM_BOX] = &BVHShapeConservativeAdvancement<AABB<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_AABB][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<AABB<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -862,8 +832,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_AABB][GEOM_CONE] = &BVHShapeConservativeAdvancement<AABB<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_AABB][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<AABB<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_AABB][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<AABB<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_AABB][GEOM_PLANE] = &BVHShapeConservativeAdvancement<AABB<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_AABB][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<AABB<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_OBB][GEOM_BOX] = &BVHShapeConservativeAdvancement<OBB<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBB][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<OBB<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -871,8 +839,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_OBB][GEOM_CONE] = &BVHShapeConservativeAdvancement<OBB<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBB][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<OBB<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBB][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<OBB<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_OBB][GEOM_PLANE] = &BVHShapeConservativeAdvancement<OBB<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_OBB][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<OBB<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_OBBRSS][GEOM_BOX] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBBRSS][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -880,8 +846,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_OBBRSS][GEOM_CONE] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBBRSS][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBBRSS][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_OBBRSS][GEOM_PLANE] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_OBBRSS][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<OBBRSS<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_RSS][GEOM_BOX] = &BVHShapeConservativeAdvancement<RSS<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_RSS][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<RSS<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -889,8 +853,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_RSS][GEOM_CONE] = &BVHShapeConservativeAdvancement<RSS<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_RSS][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<RSS<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_RSS][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<RSS<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_RSS][GEOM_PLANE] = &BVHShapeConservativeAdvancement<RSS<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_RSS][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<RSS<S>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_KDOP16][GEOM_BOX] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP16][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Sphere<S>, NarrowPhaseSolver>;
@@ -898,8 +860,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_KDOP16][GEOM_CONE] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP16][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP16][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_KDOP16][GEOM_PLANE] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_KDOP16][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<KDOP<S, 16>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_KDOP18][GEOM_BOX] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP18][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Sphere<S>, NarrowPhaseSolver>;
@@ -907,8 +867,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_KDOP18][GEOM_CONE] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP18][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP18][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_KDOP18][GEOM_PLANE] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_KDOP18][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<KDOP<S, 18>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_KDOP24][GEOM_BOX] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP24][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Sphere<S>, NarrowPhaseSolver>;
@@ -916,8 +874,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_KDOP24][GEOM_CONE] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP24][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_KDOP24][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_KDOP24][GEOM_PLANE] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_KDOP24][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<KDOP<S, 24>, Halfspace<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_kIOS][GEOM_BOX] = &BVHShapeConservativeAdvancement<kIOS<S>, Box<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_kIOS][GEOM_SPHERE] = &BVHShapeConservativeAdvancement<kIOS<S>, Sphere<S>, NarrowPhaseSolver>;
@@ -925,9 +881,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[BV_kIOS][GEOM_CONE] = &BVHShapeConservativeAdvancement<kIOS<S>, Cone<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_kIOS][GEOM_CYLINDER] = &BVHShapeConservativeAdvancement<kIOS<S>, Cylinder<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_kIOS][GEOM_CONVEX] = &BVHShapeConservativeAdvancement<kIOS<S>, Convex<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_kIOS][GEOM_PLANE] = &BVHShapeConservativeAdvancement<kIOS<S>, Plane<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[BV_kIOS][GEOM_HALFSPACE] = &BVHShapeConservativeAdvancement<kIOS<S>, Halfspace<S>, NarrowPhaseSolver>;
-
 
   conservative_advancement_matrix[GEOM_BOX][BV_AABB] = &ShapeBVHConservativeAdvancement<Box<S>, AABB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_AABB] = &ShapeBVHConservativeAdvancement<Sphere<S>, AABB<S>, NarrowPhaseSolver>;
@@ -935,8 +888,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_AABB] = &ShapeBVHConservativeAdvancement<Cone<S>, AABB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_AABB] = &ShapeBVHConservativeAdvancement<Cylinder<S>, AABB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_AABB] = &ShapeBVHConservativeAdvancement<Convex<S>, AABB<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_AABB] = &ShapeBVHConservativeAdvancement<Plane<S>, AABB<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_AABB] = &ShapeBVHConservativeAdvancement<Halfspace<S>, AABB<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_OBB] = &ShapeBVHConservativeAdvancement<Box<S>, OBB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_OBB] = &ShapeBVHConservativeAdvancement<Sphere<S>, OBB<S>, NarrowPhaseSolver>;
@@ -944,8 +895,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_OBB] = &ShapeBVHConservativeAdvancement<Cone<S>, OBB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_OBB] = &ShapeBVHConservativeAdvancement<Cylinder<S>, OBB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_OBB] = &ShapeBVHConservativeAdvancement<Convex<S>, OBB<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_OBB] = &ShapeBVHConservativeAdvancement<Plane<S>, OBB<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_OBB] = &ShapeBVHConservativeAdvancement<Halfspace<S>, OBB<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_RSS] = &ShapeBVHConservativeAdvancement<Box<S>, RSS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_RSS] = &ShapeBVHConservativeAdvancement<Sphere<S>, RSS<S>, NarrowPhaseSolver>;
@@ -953,8 +902,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_RSS] = &ShapeBVHConservativeAdvancement<Cone<S>, RSS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_RSS] = &ShapeBVHConservativeAdvancement<Cylinder<S>, RSS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_RSS] = &ShapeBVHConservativeAdvancement<Convex<S>, RSS<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_RSS] = &ShapeBVHConservativeAdvancement<Plane<S>, RSS<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_RSS] = &ShapeBVHConservativeAdvancement<Halfspace<S>, RSS<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Box<S>, OBBRSS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Sphere<S>, OBBRSS<S>, NarrowPhaseSolver>;
@@ -962,8 +909,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Cone<S>, OBBRSS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Cylinder<S>, OBBRSS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Convex<S>, OBBRSS<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Plane<S>, OBBRSS<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_OBBRSS] = &ShapeBVHConservativeAdvancement<Halfspace<S>, OBBRSS<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Box<S>, KDOP<S, 16>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Sphere<S>, KDOP<S, 16>, NarrowPhaseSolver>;
@@ -971,8 +916,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Cone<S>, KDOP<S, 16>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Cylinder<S>, KDOP<S, 16>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Convex<S>, KDOP<S, 16>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Plane<S>, KDOP<S, 16>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_KDOP16] = &ShapeBVHConservativeAdvancement<Halfspace<S>, KDOP<S, 16>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Box<S>, KDOP<S, 18>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Sphere<S>, KDOP<S, 18>, NarrowPhaseSolver>;
@@ -980,8 +923,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Cone<S>, KDOP<S, 18>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Cylinder<S>, KDOP<S, 18>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Convex<S>, KDOP<S, 18>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Plane<S>, KDOP<S, 18>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_KDOP18] = &ShapeBVHConservativeAdvancement<Halfspace<S>, KDOP<S, 18>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Box<S>, KDOP<S, 24>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Sphere<S>, KDOP<S, 24>, NarrowPhaseSolver>;
@@ -989,8 +930,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Cone<S>, KDOP<S, 24>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Cylinder<S>, KDOP<S, 24>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Convex<S>, KDOP<S, 24>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Plane<S>, KDOP<S, 24>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_KDOP24] = &ShapeBVHConservativeAdvancement<Halfspace<S>, KDOP<S, 24>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[GEOM_BOX][BV_kIOS] = &ShapeBVHConservativeAdvancement<Box<S>, kIOS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_SPHERE][BV_kIOS] = &ShapeBVHConservativeAdvancement<Sphere<S>, kIOS<S>, NarrowPhaseSolver>;
@@ -998,8 +937,6 @@ ConservativeAdvancementFunctionMatrix<NarrowPhaseSolver>::ConservativeAdvancemen
   conservative_advancement_matrix[GEOM_CONE][BV_kIOS] = &ShapeBVHConservativeAdvancement<Cone<S>, kIOS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CYLINDER][BV_kIOS] = &ShapeBVHConservativeAdvancement<Cylinder<S>, kIOS<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[GEOM_CONVEX][BV_kIOS] = &ShapeBVHConservativeAdvancement<Convex<S>, kIOS<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_PLANE][BV_kIOS] = &ShapeBVHConservativeAdvancement<Plane<S>, kIOS<S>, NarrowPhaseSolver>;
-  conservative_advancement_matrix[GEOM_HALFSPACE][BV_kIOS] = &ShapeBVHConservativeAdvancement<Halfspace<S>, kIOS<S>, NarrowPhaseSolver>;
 
   conservative_advancement_matrix[BV_AABB][BV_AABB] = &BVHConservativeAdvancement<AABB<S>, NarrowPhaseSolver>;
   conservative_advancement_matrix[BV_OBB][BV_OBB] = &BVHConservativeAdvancement<OBB<S>, NarrowPhaseSolver>;
-- 
2.43.0


From 8ce849ce612ad8f56a86d43cfa0242e02531ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:17 +0000
Subject: [PATCH 111/120] fix: contacts without geometry left uninitialised

---
 include/fcl/narrowphase/contact-inl.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fcl/narrowphase/contact-inl.h b/include/fcl/narrowphase/contact-inl.h
index e0b93dc..c77f7bb 100644
--- a/include/fcl/narrowphase/contact-inl.h
+++ b/include/fcl/narrowphase/contact-inl.h
@@ -53,7 +53,10 @@ Contact<S>::Contact()
   : o1(nullptr),
     o2(nullptr),
     b1(NONE),
-    b2(NONE)
+    b2(NONE),
+    normal(Vector3<S>::Zero()),
+    pos(Vector3<S>::Zero()),
+    penetration_depth(0)
 {
   // Do nothing
 }
@@ -68,7 +71,10 @@ Contact<S>::Contact(
   : o1(o1_),
     o2(o2_),
     b1(b1_),
-    b2(b2_)
+    b2(b2_),
+    normal(Vector3<S>::Zero()),
+    pos(Vector3<S>::Zero()),
+    penetration_depth(0)
 {
   // Do nothing
 }
-- 
2.43.0


From cf88d899098973b97beb61ecc71bdeeb302e6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 112/120] fix: penetration depth of the libccd solver depended
 on heap addresses

---
 .../convexity_based_algorithm/gjk_libccd-inl.h       | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 6ebf30d..b3366bd 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -44,6 +44,7 @@
 #include <string>
 #include <unordered_map>
 #include <unordered_set>
+#include <vector>
 
 #include "fcl/common/unused.h"
 #include "fcl/common/warning.h"
@@ -1484,8 +1485,17 @@ static int expandPolytope(ccd_pt_t *polytope, ccd_pt_el_t *el,
   // on border_edges. map_vertex_to_new_edge maps a vertex on the silhouette
   // edges to a new edge, with one end being the new vertex, and the other end
   // being that vertex on the silhouette edges.
+  // The border edges are visited in the order in which the polytope stores them;
+  // the order within the set depends on the addresses of the edges, and with it
+  // the choice among equally good features and the result of the query would.
+  std::vector<ccd_pt_edge_t*> ordered_border_edges;
+  ordered_border_edges.reserve(border_edges.size());
+  ccd_pt_edge_t* edge;
+  ccdListForEachEntry(&polytope->edges, edge, ccd_pt_edge_t, list) {
+    if (border_edges.count(edge) > 0) ordered_border_edges.push_back(edge);
+  }
   std::unordered_map<ccd_pt_vertex_t*, ccd_pt_edge_t*> map_vertex_to_new_edge;
-  for (const auto& border_edge : border_edges) {
+  for (const auto& border_edge : ordered_border_edges) {
     ccd_pt_edge_t* e[2];  // The two new edges added by connecting new_vertex
                           // to the two vertices on border_edge.
     for (int i = 0; i < 2; ++i) {
-- 
2.43.0


From bf8fe6c1fce57aabc46df5ac8b69497aabdcb416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 113/120] fix: unlimited expansion of the penetration polytope
 of large shapes

---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h       | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index b3366bd..02deee6 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1818,7 +1818,9 @@ static int __ccdEPA(const void *obj1, const void *obj2,
         return -2;
     }
 
-    while (1) {
+    // The number of expansions is limited: the tolerance is absolute, and a large
+    // smooth shape would take more and more facets to get below it.
+    for (unsigned long iterations = 0UL; ; ++iterations) {
       // get triangle nearest to origin
       *nearest = ccdPtNearest(polytope);
       if (polytope->nearest_type == CCD_PT_EDGE) {
@@ -1830,6 +1832,8 @@ static int __ccdEPA(const void *obj1, const void *obj2,
         *nearest = ccdPtNearest(polytope);
       }
 
+      if (iterations >= ccd->max_iterations) break;
+
       // get next support point
       if (nextSupport(polytope, obj1, obj2, ccd, *nearest, &supp) != 0) {
         break;
-- 
2.43.0


From 1cf40ba326a972657466220611abc5097bf4534e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 114/120] fix: crash on a polytope that is not closed

---
 .../detail/convexity_based_algorithm/gjk_libccd-inl.h      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index 02deee6..dc48c35 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1013,6 +1013,13 @@ static bool triangle_area_is_zero(const ccd_vec3_t& a, const ccd_vec3_t& b,
  */
 static ccd_vec3_t faceNormalPointingOutward(const ccd_pt_t* polytope,
                                             const ccd_pt_face_t* face) {
+  // Degenerate configurations can leave an edge of the polytope with a single
+  // face.
+  if (face == nullptr) {
+    FCL_THROW_FAILED_AT_THIS_CONFIGURATION(
+        "Cannot compute the normal of a missing face; the polytope is not "
+        "closed");
+  }
   // This doesn't necessarily define a triangle; I don't know that the third
   // vertex added here is unique from the other two.
 #ifndef NDEBUG
-- 
2.43.0


From ba6668a70498ce27f678cb0329f569aab25a5c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:18 +0000
Subject: [PATCH 115/120] fix: edges of the penetration polytope shared by more
 than two faces

---
 .../convexity_based_algorithm/gjk_libccd-inl.h       | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
index dc48c35..fc2e561 100644
--- a/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
+++ b/include/fcl/narrowphase/detail/convexity_based_algorithm/gjk_libccd-inl.h
@@ -1501,6 +1501,18 @@ static int expandPolytope(ccd_pt_t *polytope, ccd_pt_el_t *el,
   ccdListForEachEntry(&polytope->edges, edge, ccd_pt_edge_t, list) {
     if (border_edges.count(edge) > 0) ordered_border_edges.push_back(edge);
   }
+  // The border has to pass through each of its vertices once. Otherwise, more
+  // than two of the new faces would share the edge to such a vertex, which the
+  // polytope cannot represent.
+  std::unordered_map<ccd_pt_vertex_t*, int> num_border_edges;
+  for (const auto& border_edge : ordered_border_edges) {
+    for (int i = 0; i < 2; ++i) {
+      if (++num_border_edges[border_edge->vertex[i]] > 2) {
+        FCL_THROW_FAILED_AT_THIS_CONFIGURATION(
+            "The border of the visible patch meets itself at a vertex");
+      }
+    }
+  }
   std::unordered_map<ccd_pt_vertex_t*, ccd_pt_edge_t*> map_vertex_to_new_edge;
   for (const auto& border_edge : ordered_border_edges) {
     ccd_pt_edge_t* e[2];  // The two new edges added by connecting new_vertex
-- 
2.43.0


From e5bf5b641b88975d1c968d9d429796c842353ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 116/120] fix: signed distance of meshes and octrees took the
 depth of one contact only

---
 include/fcl/narrowphase/distance-inl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 8c6a1ee..0a43f0a 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -155,6 +155,8 @@ typename NarrowPhaseSolver::S distance(
     }
 
     CollisionRequest<S> collision_request;
+    collision_request.num_max_contacts =
+        std::numeric_limits<std::size_t>::max();
     collision_request.enable_contact = true;
 
     CollisionResult<S> collision_result;
-- 
2.43.0


From 41ea5649c89f06e86f316d8fde8f078def7c2206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:30 +0000
Subject: [PATCH 117/120] fix: solver leaked by the signed distance of
 primitive shapes

---
 include/fcl/narrowphase/distance-inl.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/fcl/narrowphase/distance-inl.h b/include/fcl/narrowphase/distance-inl.h
index 0a43f0a..3ac363d 100644
--- a/include/fcl/narrowphase/distance-inl.h
+++ b/include/fcl/narrowphase/distance-inl.h
@@ -151,6 +151,9 @@ typename NarrowPhaseSolver::S distance(
     if (std::is_same<NarrowPhaseSolver, detail::GJKSolver_libccd<S>>::value
         && object_type1 == OT_GEOM && object_type2 == OT_GEOM)
     {
+      if(!nsolver_)
+        delete nsolver;
+
       return res;
     }
 
-- 
2.43.0


From f051765092e23dfecaae7032d7fb983b2f8f2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:16 +0000
Subject: [PATCH 118/120] fix: interval tree queries shared one recursion stack

---
 .../fcl/broadphase/detail/interval_tree-inl.h | 40 ++++++++-----------
 include/fcl/broadphase/detail/interval_tree.h |  6 +--
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/include/fcl/broadphase/detail/interval_tree-inl.h b/include/fcl/broadphase/detail/interval_tree-inl.h
index b7ae860..ffe378d 100644
--- a/include/fcl/broadphase/detail/interval_tree-inl.h
+++ b/include/fcl/broadphase/detail/interval_tree-inl.h
@@ -64,12 +64,6 @@ IntervalTree<S>::IntervalTree()
   root->key = root->high = root->max_high = std::numeric_limits<double>::max();
   root->red = false;
   root->stored_interval = nullptr;
-
-  /// the following are used for the query function
-  recursion_node_stack_size = 128;
-  recursion_node_stack = (it_recursion_node<S>*)malloc(recursion_node_stack_size*sizeof(it_recursion_node<S>));
-  recursion_node_stack_top = 1;
-  recursion_node_stack[0].start_node = nullptr;
 }
 
 //==============================================================================
@@ -108,7 +102,6 @@ IntervalTree<S>::~IntervalTree()
   }
   delete nil;
   delete root;
-  free(recursion_node_stack);
 }
 
 //==============================================================================
@@ -515,7 +508,11 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
   IntervalTreeNode<S>* x = root->left;
   bool run = (x != nil);
 
-  current_parent = 0;
+  // The stack belongs to the query: queries may run concurrently.
+  std::vector<it_recursion_node<S>> recursion_node_stack(1);
+  recursion_node_stack.reserve(128);
+  recursion_node_stack[0].start_node = nullptr;
+  unsigned int current_parent = 0;
 
   while(run)
   {
@@ -526,29 +523,26 @@ std::deque<SimpleInterval<S>*> IntervalTree<S>::query(S low, S high)
     }
     if((x->left != nil) && (x->left->max_high >= low))
     {
-      if(recursion_node_stack_top == recursion_node_stack_size)
-      {
-        recursion_node_stack_size *= 2;
-        recursion_node_stack = (it_recursion_node<S> *)realloc(recursion_node_stack, recursion_node_stack_size * sizeof(it_recursion_node<S>));
-        if(recursion_node_stack == nullptr)
-          abort();
-      }
-      recursion_node_stack[recursion_node_stack_top].start_node = x;
-      recursion_node_stack[recursion_node_stack_top].try_right_branch = false;
-      recursion_node_stack[recursion_node_stack_top].parent_index = current_parent;
-      current_parent = recursion_node_stack_top++;
+      it_recursion_node<S> node;
+      node.start_node = x;
+      node.try_right_branch = false;
+      node.parent_index = current_parent;
+      current_parent = recursion_node_stack.size();
+      recursion_node_stack.push_back(node);
       x = x->left;
     }
     else
       x = x->right;
 
     run = (x != nil);
-    while((!run) && (recursion_node_stack_top > 1))
+    while((!run) && (recursion_node_stack.size() > 1))
     {
-      if(recursion_node_stack[--recursion_node_stack_top].try_right_branch)
+      const it_recursion_node<S> node = recursion_node_stack.back();
+      recursion_node_stack.pop_back();
+      if(node.try_right_branch)
       {
-        x=recursion_node_stack[recursion_node_stack_top].start_node->right;
-        current_parent=recursion_node_stack[recursion_node_stack_top].parent_index;
+        x = node.start_node->right;
+        current_parent = node.parent_index;
         recursion_node_stack[current_parent].try_right_branch = true;
         run = (x != nil);
       }
diff --git a/include/fcl/broadphase/detail/interval_tree.h b/include/fcl/broadphase/detail/interval_tree.h
index 6573520..f5eec4d 100644
--- a/include/fcl/broadphase/detail/interval_tree.h
+++ b/include/fcl/broadphase/detail/interval_tree.h
@@ -42,6 +42,7 @@
 #include <limits>
 #include <cstdlib>
 #include <iostream>
+#include <vector>
 #include "fcl/broadphase/detail/interval_tree_node.h"
 
 namespace fcl {
@@ -124,11 +125,6 @@ protected:
 
   void deleteFixup(IntervalTreeNode<S>* node);
 
-private:
-  unsigned int recursion_node_stack_size;
-  it_recursion_node<S>* recursion_node_stack;
-  unsigned int current_parent;
-  unsigned int recursion_node_stack_top;
 };
 
 using IntervalTreef = IntervalTree<float>;
-- 
2.43.0


From a0a7c18fa417aaceb936b52bac7b6f0dc28f6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:50 +0000
Subject: [PATCH 119/120] fix: self-distance queries of managers shared one set
 of tested pairs

---
 include/fcl/broadphase/broadphase_SaP-inl.h   | 17 ++++------
 include/fcl/broadphase/broadphase_SaP.h       |  2 +-
 .../broadphase_collision_manager-inl.h        |  5 ++-
 .../broadphase/broadphase_collision_manager.h |  8 ++---
 .../broadphase/broadphase_interval_tree-inl.h | 31 +++++++++----------
 .../fcl/broadphase/broadphase_interval_tree.h |  5 +--
 .../broadphase/broadphase_spatialhash-inl.h   | 29 ++++++++---------
 .../fcl/broadphase/broadphase_spatialhash.h   |  5 +--
 8 files changed, 46 insertions(+), 56 deletions(-)

diff --git a/include/fcl/broadphase/broadphase_SaP-inl.h b/include/fcl/broadphase/broadphase_SaP-inl.h
index d208a50..f1f0dc9 100644
--- a/include/fcl/broadphase/broadphase_SaP-inl.h
+++ b/include/fcl/broadphase/broadphase_SaP-inl.h
@@ -531,7 +531,7 @@ void SaPCollisionManager<S>::collide(CollisionObject<S>* obj, void* cdata, Colli
 
 //==============================================================================
 template <typename S>
-bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
+bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const
 {
   Vector3<S> delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   AABB<S> aabb = obj->getAABB();
@@ -582,7 +582,7 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
         CollisionObject<S>* curr_obj = pos->aabb->obj;
         if(curr_obj != obj)
         {
-          if(!this->enable_tested_set_)
+          if(!tested_set)
           {
             if(pos->aabb->cached.distance(obj->getAABB()) < min_dist)
             {
@@ -592,7 +592,7 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
           }
           else
           {
-            if(!this->inTestedSet(curr_obj, obj))
+            if(!this->inTestedSet(*tested_set, curr_obj, obj))
             {
               if(pos->aabb->cached.distance(obj->getAABB()) < min_dist)
               {
@@ -600,7 +600,7 @@ bool SaPCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, Dis
                   return true;
               }
 
-              this->insertTestedSet(curr_obj, obj);
+              this->insertTestedSet(*tested_set, curr_obj, obj);
             }
           }
         }
@@ -683,19 +683,14 @@ void SaPCollisionManager<S>::distance(void* cdata, DistanceCallBack<S> callback)
 {
   if(size() == 0) return;
 
-  this->enable_tested_set_ = true;
-  this->tested_set.clear();
-
+  typename BroadPhaseCollisionManager<S>::TestedSet tested_set;
   S min_dist = std::numeric_limits<S>::max();
 
   for(auto it = AABB_arr.cbegin(), end = AABB_arr.cend(); it != end; ++it)
   {
-    if(distance_((*it)->obj, cdata, callback, min_dist))
+    if(distance_((*it)->obj, cdata, callback, min_dist, &tested_set))
       break;
   }
-
-  this->enable_tested_set_ = false;
-  this->tested_set.clear();
 }
 
 //==============================================================================
diff --git a/include/fcl/broadphase/broadphase_SaP.h b/include/fcl/broadphase/broadphase_SaP.h
index cb1c485..7eca5d9 100644
--- a/include/fcl/broadphase/broadphase_SaP.h
+++ b/include/fcl/broadphase/broadphase_SaP.h
@@ -152,7 +152,7 @@ protected:
 
   std::map<CollisionObject<S>*, SaPAABB*> obj_aabb_map;
 
-  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
+  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, typename BroadPhaseCollisionManager<S>::TestedSet* tested_set = nullptr) const;
 
   bool collide_(CollisionObject<S>* obj, void* cdata, CollisionCallBack<S> callback) const;
 
diff --git a/include/fcl/broadphase/broadphase_collision_manager-inl.h b/include/fcl/broadphase/broadphase_collision_manager-inl.h
index e69f86c..b72a0ee 100644
--- a/include/fcl/broadphase/broadphase_collision_manager-inl.h
+++ b/include/fcl/broadphase/broadphase_collision_manager-inl.h
@@ -51,7 +51,6 @@ class FCL_EXPORT BroadPhaseCollisionManager<double>;
 //==============================================================================
 template <typename S>
 BroadPhaseCollisionManager<S>::BroadPhaseCollisionManager()
-  : enable_tested_set_(false)
 {
   // Do nothing
 }
@@ -94,7 +93,7 @@ void BroadPhaseCollisionManager<S>::update(
 //==============================================================================
 template <typename S>
 bool BroadPhaseCollisionManager<S>::inTestedSet(
-    CollisionObject<S>* a, CollisionObject<S>* b) const
+    const TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b)
 {
   if(a < b) return tested_set.find(std::make_pair(a, b)) != tested_set.end();
   else return tested_set.find(std::make_pair(b, a)) != tested_set.end();
@@ -103,7 +102,7 @@ bool BroadPhaseCollisionManager<S>::inTestedSet(
 //==============================================================================
 template <typename S>
 void BroadPhaseCollisionManager<S>::insertTestedSet(
-    CollisionObject<S>* a, CollisionObject<S>* b) const
+    TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b)
 {
   if(a < b) tested_set.insert(std::make_pair(a, b));
   else tested_set.insert(std::make_pair(b, a));
diff --git a/include/fcl/broadphase/broadphase_collision_manager.h b/include/fcl/broadphase/broadphase_collision_manager.h
index c372c7a..5a80e6b 100644
--- a/include/fcl/broadphase/broadphase_collision_manager.h
+++ b/include/fcl/broadphase/broadphase_collision_manager.h
@@ -124,12 +124,12 @@ public:
 protected:
 
   /// @brief tools help to avoid repeating collision or distance callback for the pairs of objects tested before. It can be useful for some of the broadphase algorithms.
-  mutable std::set<std::pair<CollisionObject<S>*, CollisionObject<S>*> > tested_set;
-  mutable bool enable_tested_set_;
+  /// The set belongs to one query: queries of a manager may run concurrently.
+  using TestedSet = std::set<std::pair<CollisionObject<S>*, CollisionObject<S>*> >;
 
-  bool inTestedSet(CollisionObject<S>* a, CollisionObject<S>* b) const;
+  static bool inTestedSet(const TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b);
 
-  void insertTestedSet(CollisionObject<S>* a, CollisionObject<S>* b) const;
+  static void insertTestedSet(TestedSet& tested_set, CollisionObject<S>* a, CollisionObject<S>* b);
 
 };
 
diff --git a/include/fcl/broadphase/broadphase_interval_tree-inl.h b/include/fcl/broadphase/broadphase_interval_tree-inl.h
index 6af9917..bc1dce6 100644
--- a/include/fcl/broadphase/broadphase_interval_tree-inl.h
+++ b/include/fcl/broadphase/broadphase_interval_tree-inl.h
@@ -361,7 +361,7 @@ void IntervalTreeCollisionManager<S>::distance(CollisionObject<S>* obj, void* cd
 
 //==============================================================================
 template <typename S>
-bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
+bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const
 {
   static const unsigned int CUTOFF = 100;
 
@@ -398,20 +398,20 @@ bool IntervalTreeCollisionManager<S>::distance_(CollisionObject<S>* obj, void* c
           int d3 = results2.size();
 
           if(d1 >= d2 && d1 >= d3)
-            dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist);
+            dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist, tested_set);
           else if(d2 >= d1 && d2 >= d3)
-            dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist);
+            dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist, tested_set);
           else
-            dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist);
+            dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist, tested_set);
         }
         else
-          dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist);
+          dist_res = checkDist(results2.begin(), results2.end(), obj, cdata, callback, min_dist, tested_set);
       }
       else
-        dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist);
+        dist_res = checkDist(results1.begin(), results1.end(), obj, cdata, callback, min_dist, tested_set);
     }
     else
-      dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist);
+      dist_res = checkDist(results0.begin(), results0.end(), obj, cdata, callback, min_dist, tested_set);
 
     if(dist_res) return true;
 
@@ -531,15 +531,11 @@ void IntervalTreeCollisionManager<S>::distance(void* cdata, DistanceCallBack<S>
 {
   if(size() == 0) return;
 
-  this->enable_tested_set_ = true;
-  this->tested_set.clear();
+  typename BroadPhaseCollisionManager<S>::TestedSet tested_set;
   S min_dist = std::numeric_limits<S>::max();
 
   for(size_t i = 0; i < endpoints[0].size(); ++i)
-    if(distance_(endpoints[0][i].obj, cdata, callback, min_dist)) break;
-
-  this->enable_tested_set_ = false;
-  this->tested_set.clear();
+    if(distance_(endpoints[0][i].obj, cdata, callback, min_dist, &tested_set)) break;
 }
 
 //==============================================================================
@@ -659,14 +655,15 @@ bool IntervalTreeCollisionManager<S>::checkDist(
     CollisionObject<S>* obj,
     void* cdata,
     DistanceCallBack<S> callback,
-    S& min_dist) const
+    S& min_dist,
+    typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const
 {
   while(pos_start < pos_end)
   {
     SAPInterval* ivl = static_cast<SAPInterval*>(*pos_start);
     if(ivl->obj != obj)
     {
-      if(!this->enable_tested_set_)
+      if(!tested_set)
       {
         if(ivl->obj->getAABB().distance(obj->getAABB()) < min_dist)
         {
@@ -676,7 +673,7 @@ bool IntervalTreeCollisionManager<S>::checkDist(
       }
       else
       {
-        if(!this->inTestedSet(ivl->obj, obj))
+        if(!this->inTestedSet(*tested_set, ivl->obj, obj))
         {
           if(ivl->obj->getAABB().distance(obj->getAABB()) < min_dist)
           {
@@ -684,7 +681,7 @@ bool IntervalTreeCollisionManager<S>::checkDist(
               return true;
           }
 
-          this->insertTestedSet(ivl->obj, obj);
+          this->insertTestedSet(*tested_set, ivl->obj, obj);
         }
       }
     }
diff --git a/include/fcl/broadphase/broadphase_interval_tree.h b/include/fcl/broadphase/broadphase_interval_tree.h
index 79c5467..bc161cb 100644
--- a/include/fcl/broadphase/broadphase_interval_tree.h
+++ b/include/fcl/broadphase/broadphase_interval_tree.h
@@ -124,11 +124,12 @@ protected:
       CollisionObject<S>* obj,
       void* cdata,
       DistanceCallBack<S> callback,
-      S& min_dist) const;
+      S& min_dist,
+      typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const;
 
   bool collide_(CollisionObject<S>* obj, void* cdata, CollisionCallBack<S> callback) const;
 
-  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
+  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, typename BroadPhaseCollisionManager<S>::TestedSet* tested_set = nullptr) const;
 
   /// @brief vector stores all the end points
   std::vector<EndPoint> endpoints[3];
diff --git a/include/fcl/broadphase/broadphase_spatialhash-inl.h b/include/fcl/broadphase/broadphase_spatialhash-inl.h
index d6bf034..43c4910 100644
--- a/include/fcl/broadphase/broadphase_spatialhash-inl.h
+++ b/include/fcl/broadphase/broadphase_spatialhash-inl.h
@@ -377,7 +377,8 @@ bool SpatialHashingCollisionManager<S, HashTable>::collide_(
 //==============================================================================
 template<typename S, typename HashTable>
 bool SpatialHashingCollisionManager<S, HashTable>::distance_(
-    CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const
+    CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist,
+    typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const
 {
   auto delta = (obj->getAABB().max_ - obj->getAABB().min_) * 0.5;
   auto aabb = obj->getAABB();
@@ -399,7 +400,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     if(scene_limit.overlap(aabb, overlap_aabb))
     {
       if (distanceObjectToObjects(
-            obj, hash_table->query(overlap_aabb), cdata, callback, min_dist))
+            obj, hash_table->query(overlap_aabb), cdata, callback, min_dist, tested_set))
       {
         return true;
       }
@@ -407,7 +408,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
       if(!scene_limit.contain(aabb))
       {
         if (distanceObjectToObjects(
-              obj, objs_outside_scene_limit, cdata, callback, min_dist))
+              obj, objs_outside_scene_limit, cdata, callback, min_dist, tested_set))
         {
           return true;
         }
@@ -416,13 +417,13 @@ bool SpatialHashingCollisionManager<S, HashTable>::distance_(
     else
     {
       if (distanceObjectToObjects(
-            obj, objs_partially_penetrating_scene_limit, cdata, callback, min_dist))
+            obj, objs_partially_penetrating_scene_limit, cdata, callback, min_dist, tested_set))
       {
         return true;
       }
 
       if (distanceObjectToObjects(
-            obj, objs_outside_scene_limit, cdata, callback, min_dist))
+            obj, objs_outside_scene_limit, cdata, callback, min_dist, tested_set))
       {
         return true;
       }
@@ -541,19 +542,14 @@ void SpatialHashingCollisionManager<S, HashTable>::distance(
   if(size() == 0)
     return;
 
-  this->enable_tested_set_ = true;
-  this->tested_set.clear();
-
+  typename BroadPhaseCollisionManager<S>::TestedSet tested_set;
   S min_dist = std::numeric_limits<S>::max();
 
   for(const auto& obj : objs)
   {
-    if(distance_(obj, cdata, callback, min_dist))
+    if(distance_(obj, cdata, callback, min_dist, &tested_set))
       break;
   }
-
-  this->enable_tested_set_ = false;
-  this->tested_set.clear();
 }
 
 //==============================================================================
@@ -653,14 +649,15 @@ bool SpatialHashingCollisionManager<S, HashTable>::distanceObjectToObjects(
     const Container& objs,
     void* cdata,
     DistanceCallBack<S> callback,
-    S& min_dist) const
+    S& min_dist,
+    typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const
 {
   for(auto& obj2 : objs)
   {
     if(obj == obj2)
       continue;
 
-    if(!this->enable_tested_set_)
+    if(!tested_set)
     {
       if(obj->getAABB().distance(obj2->getAABB()) < min_dist)
       {
@@ -670,7 +667,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distanceObjectToObjects(
     }
     else
     {
-      if(!this->inTestedSet(obj, obj2))
+      if(!this->inTestedSet(*tested_set, obj, obj2))
       {
         if(obj->getAABB().distance(obj2->getAABB()) < min_dist)
         {
@@ -678,7 +675,7 @@ bool SpatialHashingCollisionManager<S, HashTable>::distanceObjectToObjects(
             return true;
         }
 
-        this->insertTestedSet(obj, obj2);
+        this->insertTestedSet(*tested_set, obj, obj2);
       }
     }
   }
diff --git a/include/fcl/broadphase/broadphase_spatialhash.h b/include/fcl/broadphase/broadphase_spatialhash.h
index a21d041..63c7a10 100644
--- a/include/fcl/broadphase/broadphase_spatialhash.h
+++ b/include/fcl/broadphase/broadphase_spatialhash.h
@@ -121,7 +121,7 @@ protected:
   bool collide_(CollisionObject<S>* obj, void* cdata, CollisionCallBack<S> callback) const;
 
   /// @brief perform distance computation between one object and all the objects belonging ot the manager
-  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist) const;
+  bool distance_(CollisionObject<S>* obj, void* cdata, DistanceCallBack<S> callback, S& min_dist, typename BroadPhaseCollisionManager<S>::TestedSet* tested_set = nullptr) const;
 
   /// @brief all objects in the scene
   std::list<CollisionObject<S>*> objs;
@@ -157,7 +157,8 @@ private:
       const Container& objs,
       void* cdata,
       DistanceCallBack<S> callback,
-      S& min_dist) const;
+      S& min_dist,
+      typename BroadPhaseCollisionManager<S>::TestedSet* tested_set) const;
 
 };
 
-- 
2.43.0


From fdeccef1f98cdbe837cb7560c14533aca01f66f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:05 +0000
Subject: [PATCH 120/120] fix: copies of a mesh model shared the working state
 of tree construction

---
 include/fcl/geometry/bvh/BVH_model-inl.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/fcl/geometry/bvh/BVH_model-inl.h b/include/fcl/geometry/bvh/BVH_model-inl.h
index 7ac1166..73ff9eb 100644
--- a/include/fcl/geometry/bvh/BVH_model-inl.h
+++ b/include/fcl/geometry/bvh/BVH_model-inl.h
@@ -91,6 +91,14 @@ BVHModel<BV>::BVHModel(const BVHModel<BV>& other)
     num_vertices_allocated(other.num_vertices),
     num_vertex_updated(other.num_vertex_updated)
 {
+  // The splitter and the fitter keep working state while a tree is built. The
+  // standard ones are copied, so that copies of a model can be built
+  // concurrently.
+  if(auto splitter = dynamic_cast<const detail::BVSplitter<BV>*>(bv_splitter.get()))
+    bv_splitter.reset(new detail::BVSplitter<BV>(*splitter));
+  if(auto fitter = dynamic_cast<const detail::BVFitter<BV>*>(bv_fitter.get()))
+    bv_fitter.reset(new detail::BVFitter<BV>(*fitter));
+
   if(other.vertices)
   {
     vertices = new Vector3<S>[num_vertices];
-- 
2.43.0

