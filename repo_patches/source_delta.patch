From bd55fffb1c0341d1b898943ec297ac234cd277ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:51 +0000
Subject: [PATCH 01/17] fix: detect parallel vectors of opposite sense and
 tolerate rounding in isParallel

---
 frackit/geometry/vector.hh | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/frackit/geometry/vector.hh b/frackit/geometry/vector.hh
index cbecf47..2633c34 100644
--- a/frackit/geometry/vector.hh
+++ b/frackit/geometry/vector.hh
@@ -126,12 +126,20 @@ public:
             return true;
 
         // we assume non-degenerate vectors!
-        const auto thisNorm = length();
-        const auto otherNorm = other.length();
-
-        using std::acos; using std::abs;
-        const auto angle = abs(acos( (*this)*other/thisNorm/otherNorm ));
-        return angle < angularEps || abs(angularEps - M_PI) < angularEps;
+        // The angle is computed from the component of the other vector orthogonal to
+        // this one, since the arc cosine is ill-conditioned for (nearly) parallel vectors
+        const auto scalarProduct = (*this)*other;
+        const auto factor = scalarProduct/squaredLength();
+
+        ctype orthogonalSquaredLength = 0.0;
+        for (int i = 0; i < wd; ++i)
+        {
+            const auto component = other[i] - factor*coordinates_[i];
+            orthogonalSquaredLength += component*component;
+        }
+
+        using std::sqrt; using std::abs; using std::atan2;
+        return atan2(sqrt(orthogonalSquaredLength), abs(scalarProduct)/length()) < angularEps;
     }
 
     //! Scalar product with another vector
-- 
2.43.0


From a6e9803d8910d2e07a3ef2140e06847bdf721046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 02/17] fix: include the second corner in the convexity check
 of polygons

---
 frackit/geometry/polygon.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/polygon.hh b/frackit/geometry/polygon.hh
index ea9855e..f9ef811 100644
--- a/frackit/geometry/polygon.hh
+++ b/frackit/geometry/polygon.hh
@@ -232,7 +232,7 @@ private:
                                              Vector(edge(0).direction()));
 
         // check if normals around the other edges point in the same direction
-        for (std::size_t i = 1; i < numEdges()-1; ++i)
+        for (std::size_t i = 0; i < numEdges()-1; ++i)
         {
             const auto n = crossProduct(Vector(edge(i).direction()),
                                         Vector(edge(i+1).direction()));
-- 
2.43.0


From f0bada99fa854c34a04635419676df66ff8c805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:35 +0000
Subject: [PATCH 03/17] fix: do not read a fourth corner in the default
 containment query of triangles

---
 frackit/geometry/triangle.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frackit/geometry/triangle.hh b/frackit/geometry/triangle.hh
index 60684d1..4817c73 100644
--- a/frackit/geometry/triangle.hh
+++ b/frackit/geometry/triangle.hh
@@ -169,8 +169,8 @@ public:
     bool contains(const Point& p,  bool checkIfOnPlane = true) const
     {
         auto eps = Precision<ctype>::confusion();
-        eps *= Vector(corner(0), corner(3)).length();
-        return contains(p, eps);
+        eps *= Vector(corner(0), center_).length();
+        return contains(p, eps, checkIfOnPlane);
     }
 
 private:
-- 
2.43.0


From b3ea938f9c475facb7447f4076464a13ccec8dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 04/17] fix: points of a disk lie between its center and its
 boundary

---
 frackit/geometry/disk.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/geometry/disk.hh b/frackit/geometry/disk.hh
index 122a008..4eaaaf6 100644
--- a/frackit/geometry/disk.hh
+++ b/frackit/geometry/disk.hh
@@ -134,7 +134,7 @@ public:
         const auto p = boundingEllipse().getPoint(param1);
         Vector d(this->center(), p);
         d *= param2;
-        return p + d;
+        return this->center() + d;
     }
 
     //! Returns the ellipse describing the disk's boundary
-- 
2.43.0


From 9175173fb81f3787f6a697749d52c93278441081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:01 +0000
Subject: [PATCH 05/17] fix: arcs describing a full ellipse contain all of its
 points

---
 frackit/geometry/ellipsearc.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/frackit/geometry/ellipsearc.hh b/frackit/geometry/ellipsearc.hh
index 5cada80..24f99e4 100644
--- a/frackit/geometry/ellipsearc.hh
+++ b/frackit/geometry/ellipsearc.hh
@@ -133,6 +133,10 @@ public:
             if (!ParentType::contains(p, eps))
                 return false;
 
+        // a full ellipse contains all points, whatever the angle it starts at
+        if (isFullEllipse_)
+            return true;
+
         const auto angle = this->getAngle(p, checkIfOnEllipse);
         if (sourceAngle_ > targetAngle_)
             return angle >= sourceAngle_ - eps || angle <= targetAngle_ + eps;
-- 
2.43.0


From ee9f756ebe85e4aaf80d6bc0254659b0bee98c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:59 +0000
Subject: [PATCH 06/17] fix: pointOnGeometryBoundary for faces uses the given
 tolerance

---
 frackit/distance/pointonboundary.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/distance/pointonboundary.hh b/frackit/distance/pointonboundary.hh
index cc8a94b..129d65a 100644
--- a/frackit/distance/pointonboundary.hh
+++ b/frackit/distance/pointonboundary.hh
@@ -143,7 +143,7 @@ template<class ctype1, class ctype2>
 bool pointOnGeometryBoundary(const Point<ctype1, 3>& p,
                              const TopoDS_Face& face,
                              ctype2 eps)
-{ return pointOnGeometry(p, BRepTools::OuterWire(face)); }
+{ return pointOnGeometry(p, BRepTools::OuterWire(face), eps); }
 
 /*!
  * \ingroup Distance
-- 
2.43.0


From 354959af7836a1828c9d70a22d6ca76ab50e3feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 07/17] fix: collinear segments that touch intersect in a point

---
 .../intersection/algorithms/algo_segment_segment.hh  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/frackit/intersection/algorithms/algo_segment_segment.hh b/frackit/intersection/algorithms/algo_segment_segment.hh
index cb8ec48..aa1024d 100644
--- a/frackit/intersection/algorithms/algo_segment_segment.hh
+++ b/frackit/intersection/algorithms/algo_segment_segment.hh
@@ -84,11 +84,15 @@ intersect_segment_segment(const Segment<ctype, wd>& segment1,
         const bool t1On2 = segment2.contains(t1, eps, false);
         if (s1On2 && t1On2) return ResultType( segment1 );
 
-        if (s2On1 && s1On2) return ResultType( Segment(s2, s1) );
-        if (s2On1 && t1On2) return ResultType( Segment(s2, t1) );
+        // segments that only touch at a common end intersect in that point
+        const auto makeOverlap = [eps] (const auto& p, const auto& q)
+        { return p.isEqual(q, eps) ? ResultType( p ) : ResultType( Segment(p, q) ); };
 
-        if (t2On1 && s1On2) return ResultType( Segment(t2, s1) );
-        if (t2On1 && t1On2) return ResultType( Segment(t2, t1) );
+        if (s2On1 && s1On2) return makeOverlap(s2, s1);
+        if (s2On1 && t1On2) return makeOverlap(s2, t1);
+
+        if (t2On1 && s1On2) return makeOverlap(t2, s1);
+        if (t2On1 && t1On2) return makeOverlap(t2, t1);
     }
 
     // Fragment the lines to find the intersection point
-- 
2.43.0


From f4aeb23671a641a23eb05bcdab78a41d527f22f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:02 +0000
Subject: [PATCH 08/17] fix: MultiGeometryEntitySet::addEntity constructs the
 id of a new set

---
 frackit/entitynetwork/multigeometryentityset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/entitynetwork/multigeometryentityset.hh b/frackit/entitynetwork/multigeometryentityset.hh
index 8c03ed7..452d15a 100644
--- a/frackit/entitynetwork/multigeometryentityset.hh
+++ b/frackit/entitynetwork/multigeometryentityset.hh
@@ -96,7 +96,7 @@ public:
         }
 
         // define a new entity set
-        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id.get()) );
+        entityIdVectors.push_back( GeometryVectorIdPair<Entity>({}, id) );
         entityIdVectors.back().first.push_back(entity);
         entitySetGeometries_[id.get()] = geometryName(entity);
     }
-- 
2.43.0


From 0b8648a2e91e561595ba4fb8ae15789d9e7ea675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 09/17] fix: querying or resetting the counter of an unknown id
 does not break finished()

---
 frackit/sampling/status.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index f96e3f9..95e98e7 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -85,7 +85,8 @@ public:
      */
     void resetCounter(const Id& id)
     {
-        count_[id.get()] = 0;
+        auto it = count_.find(id.get());
+        if (it != count_.end()) it->second = 0;
     }
 
     /*!
@@ -134,7 +135,10 @@ public:
      * \brief Returns the entity count for the given id.
      */
     std::size_t getCount(const Id& id)
-    { return count_[id.get()]; }
+    {
+        auto it = count_.find(id.get());
+        return it != count_.end() ? it->second : 0;
+    }
 
     /*!
      * \brief Returns the overall entity count.
-- 
2.43.0


From 133630deeeea11599df5c5958cc180b8d964eeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:40 +0000
Subject: [PATCH 10/17] fix: printing the status does not fail for missing
 targets or long numbers

---
 frackit/sampling/status.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/frackit/sampling/status.hh b/frackit/sampling/status.hh
index 95e98e7..cbe288d 100644
--- a/frackit/sampling/status.hh
+++ b/frackit/sampling/status.hh
@@ -170,8 +170,10 @@ public:
         for (const auto& pair : count_) curCount += pair.second;
         for (const auto& pair : targetCount_) curTargetCount += pair.second;
 
-        const auto ratio = 100.0*double(double(curCount)/double(curCount+rejectedCount_));
-        const auto progress = 100.0*double(curCount)/double(curTargetCount);
+        const auto ratio = curCount+rejectedCount_ == 0 ? 100.0
+                           : 100.0*double(double(curCount)/double(curCount+rejectedCount_));
+        const auto progress = curTargetCount == 0 ? 100.0
+                              : 100.0*double(curCount)/double(curTargetCount);
 
         std::cout << std::setprecision(2) << std::fixed;
         const auto ratioNumChars = std::to_string(int(ratio)).size() + 3;
@@ -180,12 +182,13 @@ public:
         const auto countString = std::to_string(curCount);
         const auto rejectedCountString = std::to_string(rejectedCount_);
 
-        using std::max;
-        const std::size_t zero = 0;
-        const std::size_t paddingCount    = max(zero, 13 - countString.size());
-        const std::size_t paddingRejected = max(zero, 13 - rejectedCountString.size());
-        const std::size_t paddingRatio    = max(zero, 16 - ratioNumChars);
-        const std::size_t paddingProgess  = max(zero, 8  - progressNumChars);
+        // left padding up to the given width, if the text is shorter than that
+        auto padding = [] (std::size_t width, std::size_t size) -> std::size_t
+        { return width > size ? width - size : 0; };
+        const std::size_t paddingCount    = padding(13, countString.size());
+        const std::size_t paddingRejected = padding(13, rejectedCountString.size());
+        const std::size_t paddingRatio    = padding(16, ratioNumChars);
+        const std::size_t paddingProgess  = padding(8,  progressNumChars);
 
         std::cout << "  "      << std::string( paddingCount, ' ')    << countString + ' '
                   << "   |   " << std::string( paddingRejected, ' ') << rejectedCountString + ' '
-- 
2.43.0


From c1409a279b07ee9bfd2967dedf0949eeba654aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 11/17] fix: polygon sampler rejects the lengths and corner
 counts it failed to sample, and only those

---
 frackit/sampling/polygonsampler.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/frackit/sampling/polygonsampler.hh b/frackit/sampling/polygonsampler.hh
index c726dc5..309a623 100644
--- a/frackit/sampling/polygonsampler.hh
+++ b/frackit/sampling/polygonsampler.hh
@@ -166,7 +166,7 @@ public:
         while (numCorners < 3 && count < 100)
         { numCorners = p_num_corners_(generator_); count++; };
 
-        if (count == 100)
+        if (numCorners < 3)
         {
             std::string msg = "Did not obtain a value >= 3 for the number of corners after 100 tries. ";
             msg += "Please revisit your choice of distribution for that parameter.";
@@ -249,15 +249,15 @@ public:
         auto dipLength = p_dip_length_(generator_);
 
         int countStrike = 0;
-        while (strikeLength < 0.0 && countStrike < 100)
+        while (strikeLength <= 0.0 && countStrike < 100)
         { strikeLength = p_strike_length_(generator_); countStrike++; }
-        if (countStrike == 100)
+        if (strikeLength <= 0.0)
             throw std::runtime_error("Could not sample positive strike length in 100 tries");
 
         int countDip = 0;
-        while (dipLength < 0.0 && countDip < 100)
+        while (dipLength <= 0.0 && countDip < 100)
         { dipLength = p_dip_length_(generator_); countDip++; }
-        if (countStrike == 100)
+        if (dipLength <= 0.0)
             throw std::runtime_error("Could not sample positive dip length in 100 tries");
 
         std::vector<Vector> edgeVectors;
-- 
2.43.0


From d5df03064bf42c021d980c0df6c477bd442ec84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:31 +0000
Subject: [PATCH 12/17] fix: resample edge lengths below the minimum in the
 deprecated quadrilateral sampler

---
 frackit/sampling/quadrilateralsampler.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/frackit/sampling/quadrilateralsampler.hh b/frackit/sampling/quadrilateralsampler.hh
index 008a6c0..026adbb 100644
--- a/frackit/sampling/quadrilateralsampler.hh
+++ b/frackit/sampling/quadrilateralsampler.hh
@@ -252,10 +252,10 @@ public:
         rotate(axes[0], Direction(axes[1]), dip);
 
         // sample edge lengths until all are admissible
-        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) p_edge_(generator_);
-        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) p_edge_(generator_);
-        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) p_edge_(generator_);
-        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) p_edge_(generator_);
+        auto dx1 = p_edge_(generator_); while (dx1 < minEdgeLength_) dx1 = p_edge_(generator_);
+        auto dx2 = p_edge_(generator_); while (dx2 < minEdgeLength_) dx2 = p_edge_(generator_);
+        auto dy1 = p_edge_(generator_); while (dy1 < minEdgeLength_) dy1 = p_edge_(generator_);
+        auto dy2 = p_edge_(generator_); while (dy2 < minEdgeLength_) dy2 = p_edge_(generator_);
 
         auto dxVec1 = axes[0]; dxVec1 *= dx1/2.0;
         auto dxVec2 = axes[0]; dxVec2 *= dx2/2.0;
-- 
2.43.0


From 6b8050057db7036813e1aea7a820d9ff70db05c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:07 +0000
Subject: [PATCH 13/17] fix: entities of different sub-domains do not share an
 index when some were removed by the confinement

---
 frackit/entitynetwork/networkbuilder.hh | 6 +++++-
 frackit/io/brepwriter.hh                | 7 +++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index 601c8d8..fa9cfc2 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -589,7 +589,11 @@ public:
             const auto& indexMap = dataPair.second;
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
                 fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
-            entityIndexOffset += indexMap.Extent();
+
+            // entities without fragments are not in the map, but use up an index
+            const auto networkIt = this->networks_.find(dataPair.first);
+            if (networkIt != this->networks_.end())
+                entityIndexOffset += networkIt->second.Extent();
         }
 
         // create the network
diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index 8d097c2..baf19d0 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -25,6 +25,7 @@
 #define FRACKIT_BREP_WRITER_HH
 
 #include <string>
+#include <algorithm>
 #include <stdexcept>
 #include <unordered_map>
 
@@ -135,15 +136,17 @@ private:
             // the map maps to the entity index within the sub-domain network
             // Therefore, we add the offset in order to ensure that we don't add
             // entities from another network to the same primary entity index
+            std::size_t maxIndex = 0;
             const auto& map = network.subDomainEntityFragmentsIndexMap(id);
             for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(map); it.More(); it.Next())
             {
                 allEntities_.Append(it.Key());
                 allEntitiesIndexMap_.Bind(it.Key(), it.Value() + subNetworkOffset);
+                maxIndex = std::max(maxIndex, static_cast<std::size_t>(it.Value()));
             }
 
-            // the next sub-domain
-            subNetworkOffset += map.Extent();
+            // the next sub-domain (indices of entities without fragments are not in the map)
+            subNetworkOffset += maxIndex;
         }
     }
 
-- 
2.43.0


From ea7625cb370a3c0e3fabf825df22c0b3ce93f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 14/17] fix: intersection angle of planar geometries and faces
 at the point, not at another one

---
 frackit/intersection/intersectionangle.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index 050791f..dbdd062 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -380,7 +380,7 @@ public:
         // construct the tangent plane of the face in the point
         gp_Pnt p;
         gp_Vec baseVec1, baseVec2;
-        geomSurface->D1(projection, paramV, p, baseVec1, baseVec2);
+        geomSurface->D1(paramU, paramV, p, baseVec1, baseVec2);
 
         const auto base1 = OCCUtilities::vector(baseVec1);
         const auto base2 = OCCUtilities::vector(baseVec2);
-- 
2.43.0


From 1c1acf5d714bb6e1a51b39c6a225a6356cb220cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:11 +0000
Subject: [PATCH 15/17] fix: intersection angle of parallel planes is zero and
 not undefined

---
 frackit/intersection/intersectionangle.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/frackit/intersection/intersectionangle.hh b/frackit/intersection/intersectionangle.hh
index dbdd062..be8e46e 100644
--- a/frackit/intersection/intersectionangle.hh
+++ b/frackit/intersection/intersectionangle.hh
@@ -114,7 +114,9 @@ public:
         using std::abs;
         using std::acos;
         using Vector = Vector<ctype, wd>;
-        return acos( abs(Vector(plane1.normal())*Vector(plane2.normal())) );
+        using std::min;
+        // the product of unit vectors may exceed 1.0 by rounding
+        return acos( min(ctype(1.0), abs(Vector(plane1.normal())*Vector(plane2.normal()))) );
     }
 
     /*!
-- 
2.43.0


From 5211e0dac9f2927ecbbb402d5f7e55761f121bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:32 +0000
Subject: [PATCH 16/17] fix: lines in which entities meet are found for any
 orientation of the edges

---
 frackit/io/brepwriter.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/frackit/io/brepwriter.hh b/frackit/io/brepwriter.hh
index baf19d0..e445d3f 100644
--- a/frackit/io/brepwriter.hh
+++ b/frackit/io/brepwriter.hh
@@ -164,6 +164,16 @@ private:
         }
     }
 
+    /*!
+     * \brief Returns true if a list contains the given
+     *        shape, independent of its orientation.
+     */
+    static bool containsShape_(const TopTools_ListOfShape& list, const TopoDS_Shape& shape)
+    {
+        return std::any_of(list.begin(), list.end(),
+                           [&] (const auto& s) { return s.IsSame(shape); });
+    }
+
     /*!
      * \brief Determins the shapes that describe intersections of entities.
      */
@@ -184,7 +194,7 @@ private:
                 std::vector<std::size_t> handled;
                 for (unsigned int eIdx = 0; eIdx < edges.size(); ++eIdx)
                     for (const auto& isList : entityIntersections_)
-                        if (isList.Contains(edges[eIdx]))
+                        if (containsShape_(isList, edges[eIdx]))
                             handled.push_back(eIdx);
 
                 if (handled.size() != edges.size())
@@ -324,7 +334,7 @@ private:
 
                 // start from index 1 in the map
                 for (std::size_t isIdx = 0; isIdx < entityIntersections_.size(); ++isIdx)
-                    if (entityIntersections_[isIdx].Contains(edge))
+                    if (containsShape_(entityIntersections_[isIdx], edge))
                         entityIntersectionsToFragmentsMap_[isIdx+1].push_back(curEntityIdx);
 
                 addVertices_(edgeExp.Current());
-- 
2.43.0


From 58bff018e544dd9fe665ec55da6e0bca76243f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 17/17] fix: pieces that entities of a network share are listed
 once

---
 frackit/entitynetwork/networkbuilder.hh | 36 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/frackit/entitynetwork/networkbuilder.hh b/frackit/entitynetwork/networkbuilder.hh
index fa9cfc2..1f8468b 100644
--- a/frackit/entitynetwork/networkbuilder.hh
+++ b/frackit/entitynetwork/networkbuilder.hh
@@ -264,13 +264,15 @@ protected:
                 }
                 for (const auto& fragment : generated)
                 {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
+                    if (newIndexMap.IsBound(fragment)) continue;
+                    newIndexMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
                 }
                 for (const auto& fragment : modified)
                 {
-                    if (!newIndexMap.IsBound(fragment)) newIndexMap.Bind(fragment, entityIdx);
-                    if (!newList.Contains(fragment)) newList.Append(fragment);
+                    if (newIndexMap.IsBound(fragment)) continue;
+                    newIndexMap.Bind(fragment, entityIdx);
+                    newList.Append(fragment);
                 }
             }
 
@@ -359,13 +361,15 @@ protected:
             }
             for (const auto& fragment : generated)
             {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
+                if (newMap.IsBound(fragment)) continue;
+                newMap.Bind(fragment, entityIdx);
+                newList.Append(fragment);
             }
             for (const auto& fragment : modified)
             {
-                if (!newMap.IsBound(fragment)) newMap.Bind(fragment, entityIdx);
-                if (!newList.Contains(fragment)) newList.Append(fragment);
+                if (newMap.IsBound(fragment)) continue;
+                newMap.Bind(fragment, entityIdx);
+                newList.Append(fragment);
             }
         }
 
@@ -576,19 +580,19 @@ public:
         // Then fragment the network entities
         this->fragment_(/*fragmentNetworkOnly*/true);
 
-        // merge all fragments into one list
-        TopTools_ListOfShape fragmentList;
-        for (auto& sdFragmentDataPair : this->networkFragmentLists_)
-            fragmentList.Append(sdFragmentDataPair.second);
-
-        // merge all index maps into one
+        // merge all fragments and index maps into one (fragments may be shared)
         std::size_t entityIndexOffset = 0;
+        TopTools_ListOfShape fragmentList;
         TopTools_DataMapOfShapeInteger fragmentIndexMap;
         for (auto& dataPair : this->networkFragmentMaps_)
         {
             const auto& indexMap = dataPair.second;
-            for (TopTools_DataMapIteratorOfDataMapOfShapeInteger it(indexMap); it.More(); it.Next())
-                fragmentIndexMap.Bind(it.Key(), it.Value() + entityIndexOffset);
+            for (const auto& fragment : this->networkFragmentLists_[dataPair.first])
+            {
+                if (fragmentIndexMap.IsBound(fragment)) continue;
+                fragmentIndexMap.Bind(fragment, indexMap.Find(fragment) + entityIndexOffset);
+                fragmentList.Append(fragment);
+            }
 
             // entities without fragments are not in the map, but use up an index
             const auto networkIt = this->networks_.find(dataPair.first);
-- 
2.43.0

