From 48447e323d50eabcce92f61856c4c9e8eb0587c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 01/73] fix: copy constructor of Deque placed the elements at
 the wrong location of the buffer

---
 include/reactphysics3d/containers/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..0a978b2 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -280,11 +280,14 @@ class Deque {
 
             if (deque.mSize > 0) {
 
+                // Use the same location in the buffer as in the other deque
+                mFirstItemIndex = deque.mFirstItemIndex;
+
                 // Add the items into the deque
                 for(uint64 i=0; i < deque.mSize; i++) {
 
                     // Construct the element at its location in the buffer
-                    new (static_cast<void*>(&(mBuffer[deque.mFirstItemIndex + i]))) T(deque.mBuffer[deque.mFirstItemIndex + i]);
+                    new (static_cast<void*>(&(mBuffer[mFirstItemIndex + i]))) T(deque.mBuffer[deque.mFirstItemIndex + i]);
                 }
 
                 mSize = deque.mSize;
-- 
2.43.0


From e9771bb41cde3a09fc23dd2dc2e54d96e5eee087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 02/73] fix: assignment of a Deque could write past the end of
 its buffer

---
 include/reactphysics3d/containers/Deque.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 0a978b2..f53a092 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -468,6 +468,10 @@ class Deque {
 
                 if (deque.mSize > 0) {
 
+                    // Use the same location in the buffer as in the other deque (the items are
+                    // guaranteed to fit there)
+                    mFirstItemIndex = deque.mFirstItemIndex;
+
                     // Add the items into the deque
                     for(uint64 i=0; i < deque.mSize; i++) {
 
-- 
2.43.0


From 491ffe03f79fbec14ae252fa298c81ced9915e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 03/73] fix: elements of a Stack were never destroyed when the
 stack grew

---
 include/reactphysics3d/containers/Stack.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..aeaf967 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -74,6 +74,11 @@ class Stack {
 
                     // Copy the previous items in the new array
                     std::uninitialized_copy(mArray, mArray + mNbElements, newArray);
+
+                    // Destruct the previous items
+                    for (uint64 i = 0; i < mNbElements; i++) {
+                        mArray[i].~T();
+                    }
                 }
 
                 // Release memory of the previous array
-- 
2.43.0


From 3ea6c253159cb39c527194549f6d0a4ca4b0242c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 04/73] fix: adding to a Map or Set after clear(true) used a
 stale free list

---
 include/reactphysics3d/containers/Map.h | 1 +
 include/reactphysics3d/containers/Set.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..e21a918 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -520,6 +520,7 @@ class Map {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..aae3134 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -519,6 +519,7 @@ class Set {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
-- 
2.43.0


From ef6f5c862fdf30865e9fc8bdc8f178f45ec6df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:29 +0000
Subject: [PATCH 05/73] fix: elements of a LinkedList were never destroyed

---
 include/reactphysics3d/containers/LinkedList.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/reactphysics3d/containers/LinkedList.h b/include/reactphysics3d/containers/LinkedList.h
index 3910738..8a723d1 100644
--- a/include/reactphysics3d/containers/LinkedList.h
+++ b/include/reactphysics3d/containers/LinkedList.h
@@ -117,6 +117,7 @@ RP3D_FORCE_INLINE void LinkedList<T>::reset() {
     ListElement* element = mListHead;
     while (element != nullptr) {
         ListElement* nextElement = element->next;
+        element->~ListElement();
         mAllocator.release(element, mElementAllocationSize);
         element = nextElement;
     }
-- 
2.43.0


From 2879dc929e34c51506c0f2704e9f1407605b1a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:55 +0000
Subject: [PATCH 06/73] fix: clipping of a segment or polygon nearly parallel
 to the clipping plane lost vertices

---
 .../mathematics/mathematics_functions.h       | 39 ++++---------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 1c1aca7..b0277f2 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -289,14 +289,8 @@ RP3D_FORCE_INLINE Array<Vector3> clipSegmentWithPlanes(const Vector3& segA, cons
             if (v1DotN < decimal(0.0)) {
 
                 // The second point we keep is the intersection between the segment v1, v2 and the clipping plane
-                decimal t = computePlaneSegmentIntersection(v1, v2, planesNormals[p].dot(planesPoints[p]), planesNormals[p]);
-
-                if (t >= decimal(0) && t <= decimal(1.0)) {
-                    outputVertices.add(v1 + t * (v2 - v1));
-                }
-                else {
-                    outputVertices.add(v2);
-                }
+                const decimal t = v1DotN / (v1DotN - v2DotN);
+                outputVertices.add(v1 + t * (v2 - v1));
             }
             else {
                 outputVertices.add(v1);
@@ -313,11 +307,8 @@ RP3D_FORCE_INLINE Array<Vector3> clipSegmentWithPlanes(const Vector3& segA, cons
                 outputVertices.add(v1);
 
                 // The first point we keep is the intersection between the segment v1, v2 and the clipping plane
-                decimal t = computePlaneSegmentIntersection(v1, v2, -planesNormals[p].dot(planesPoints[p]), -planesNormals[p]);
-
-                if (t >= decimal(0.0) && t <= decimal(1.0)) {
-                    outputVertices.add(v1 + t * (v2 - v1));
-                }
+                const decimal t = v1DotN / (v1DotN - v2DotN);
+                outputVertices.add(v1 + t * (v2 - v1));
             }
         }
 
@@ -338,8 +329,6 @@ RP3D_FORCE_INLINE void clipPolygonWithPlane(const Array<Vector3>& polygonVertice
 
     uint32 vStartIndex = nbInputVertices - 1;
 
-    const decimal planeNormalDotPlanePoint = planeNormal.dot(planePoint);
-
     decimal vStartDotN = (polygonVertices[vStartIndex] - planePoint).dot(planeNormal);
 
     // For each edge of the polygon
@@ -357,14 +346,8 @@ RP3D_FORCE_INLINE void clipPolygonWithPlane(const Array<Vector3>& polygonVertice
             if (vStartDotN < decimal(0.0)) {
 
                 // The second point we keep is the intersection between the segment v1, v2 and the clipping plane
-                const decimal t = computePlaneSegmentIntersection(vStart, vEnd, planeNormalDotPlanePoint, planeNormal);
-
-                if (t >= decimal(0) && t <= decimal(1.0)) {
-                    outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
-                }
-                else {
-                    outClippedPolygonVertices.add(vEnd);
-                }
+                const decimal t = vStartDotN / (vStartDotN - vEndDotN);
+                outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
             }
 
             // Add the second vertex
@@ -376,14 +359,8 @@ RP3D_FORCE_INLINE void clipPolygonWithPlane(const Array<Vector3>& polygonVertice
             if (vStartDotN >= decimal(0.0)) {
 
                 // The first point we keep is the intersection between the segment v1, v2 and the clipping plane
-                const decimal t = computePlaneSegmentIntersection(vStart, vEnd, -planeNormalDotPlanePoint, -planeNormal);
-
-                if (t >= decimal(0.0) && t <= decimal(1.0)) {
-                    outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
-                }
-                else {
-                    outClippedPolygonVertices.add(vStart);
-                }
+                const decimal t = vStartDotN / (vStartDotN - vEndDotN);
+                outClippedPolygonVertices.add(vStart + t * (vEnd - vStart));
             }
         }
 
-- 
2.43.0


From c5e04d59c8279bfeb5256ff8ae0f8ecea18065e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:25 +0000
Subject: [PATCH 07/73] fix: box query on an empty AABB tree tripped an
 assertion

---
 src/collision/broadphase/DynamicAABBTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/broadphase/DynamicAABBTree.cpp b/src/collision/broadphase/DynamicAABBTree.cpp
index 5804567..234e08a 100644
--- a/src/collision/broadphase/DynamicAABBTree.cpp
+++ b/src/collision/broadphase/DynamicAABBTree.cpp
@@ -652,12 +652,12 @@ void DynamicAABBTree::reportAllShapesOverlappingWithAABB(const AABB& aabb, Array
         // Get the next node ID to visit
         const int32 nodeIDToVisit = stack.pop();
 
-        assert(nodeIDToVisit >= 0);
-        assert(nodeIDToVisit < mNbAllocatedNodes);
-
         // Skip it if it is a null node
         if (nodeIDToVisit == TreeNode::NULL_TREE_NODE) continue;
 
+        assert(nodeIDToVisit >= 0);
+        assert(nodeIDToVisit < mNbAllocatedNodes);
+
         // Get the corresponding node
         const TreeNode* nodeToVisit = mNodes + nodeIDToVisit;
 
-- 
2.43.0


From bd3f9142d873d89d22ef77bffe068d3fff7996c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 08/73] fix: raycast on a body changed the hit found on an
 earlier collider when a later collider is missed

---
 src/collision/Collider.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 53bc137..8a3fdce 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -183,10 +183,13 @@ bool Collider::raycast(const Ray& ray, RaycastInfo& raycastInfo) {
     const CollisionShape* collisionShape = mBody->mWorld.mCollidersComponents.getCollisionShape(mEntity);
     bool isHit = collisionShape->raycast(rayLocal, raycastInfo, this, mMemoryManager.getPoolAllocator());
 
-    // Convert the raycast info into world-space
-    raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
-    raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
-    raycastInfo.worldNormal.normalize();
+    if (isHit) {
+
+        // Convert the raycast info into world-space
+        raycastInfo.worldPoint = localToWorldTransform * raycastInfo.worldPoint;
+        raycastInfo.worldNormal = localToWorldTransform.getOrientation() * raycastInfo.worldNormal;
+        raycastInfo.worldNormal.normalize();
+    }
 
     return isHit;
 }
-- 
2.43.0


From dd512265e1fc8b3a1bfd008d4c7a7a79f66af64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 09/73] fix: support point of a convex mesh ignored the scale
 of the shape

---
 src/collision/shapes/ConvexMeshShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..30be61c 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -86,7 +86,7 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
         // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i) * mScale);
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
-- 
2.43.0


From 5d59d0a77352fda0109256c5433c49471d20b53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 10/73] fix: raycast and point test of a scaled convex mesh
 used the unscaled faces

---
 src/collision/shapes/ConvexMeshShape.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index 30be61c..af4bc63 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -122,7 +122,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -192,7 +192,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0


From 1c12f2ad5925f1cd0bfb7a4688fa72713ce2b609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:29 +0000
Subject: [PATCH 11/73] fix: raycast on a scaled height field returned the
 normal of the unscaled one

---
 src/collision/shapes/HeightFieldShape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collision/shapes/HeightFieldShape.cpp b/src/collision/shapes/HeightFieldShape.cpp
index 2765732..3e21d4d 100644
--- a/src/collision/shapes/HeightFieldShape.cpp
+++ b/src/collision/shapes/HeightFieldShape.cpp
@@ -86,6 +86,7 @@ bool HeightFieldShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collide
 
         // Scale back the contact point because we used a ray scale with inverse height-field scale
         raycastInfo.worldPoint = raycastInfo.worldPoint * mScale;
+        raycastInfo.worldNormal = (raycastInfo.worldNormal * inverseScale).getUnit();
 
         return true;
     }
-- 
2.43.0


From 04ac5ff14db74ab65b274fc062ca206eb408c97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:45 +0000
Subject: [PATCH 12/73] fix: raycast along a grid axis on the border of a
 height field never ended

---
 src/collision/HeightField.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index 4ee2700..76a9f32 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -280,10 +280,10 @@ bool HeightField::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
         decimal nextJ = static_cast<decimal>(stepJ >= 0 ? j + 1 : j);
         decimal sizeI = aabbSize.x / nbCellsI;
         decimal sizeJ = aabbSize.z / nbCellsJ;
-        decimal tMaxI = ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x;
-        decimal tMaxJ = ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z;
-        decimal tDeltaI = sizeI / std::abs(rayDirection.x);
-        decimal tDeltaJ = sizeJ / std::abs(rayDirection.z);
+        decimal tMaxI = stepI == 0 ? DECIMAL_LARGEST : ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x;
+        decimal tMaxJ = stepJ == 0 ? DECIMAL_LARGEST : ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z;
+        decimal tDeltaI = stepI == 0 ? decimal(0.0) : sizeI / std::abs(rayDirection.x);
+        decimal tDeltaJ = stepJ == 0 ? decimal(0.0) : sizeJ / std::abs(rayDirection.z);
 
         decimal smallestHitFraction = ray.maxFraction;
 
-- 
2.43.0


From 4c2d913da42f98a5e6cd105c7355082203be2337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 13/73] fix: raycast took rays as parallel to the axis of a
 capsule when the ray or the capsule is small

---
 src/collision/shapes/CapsuleShape.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..e226426 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,6 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -123,7 +122,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal c = dDotD * k - mDotD * mDotD;
 
     // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    if (std::abs(a) < decimal(100.0) * MACHINE_EPSILON * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
-- 
2.43.0


From 303bab085758aad0eb48af139e807a4999e790c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 14/73] fix: raycast missed a capsule located after the second
 point of a ray with a maximum fraction larger than one

---
 src/collision/shapes/CapsuleShape.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index e226426..c7f9a3c 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -110,9 +110,10 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     // Test if the segment is outside the cylinder
     decimal vec1DotD = (ray.point1 - Vector3(decimal(0.0), -mHalfHeight - mMargin, decimal(0.0))).dot(d);
-    if (vec1DotD < decimal(0.0) && vec1DotD + nDotD < decimal(0.0)) return false;
+    const decimal maxNDotD = ray.maxFraction * nDotD;
+    if (vec1DotD < decimal(0.0) && vec1DotD + maxNDotD < decimal(0.0)) return false;
     decimal ddotDExtraCaps = decimal(2.0) * mMargin * d.y;
-    if (vec1DotD > dDotD + ddotDExtraCaps && vec1DotD + nDotD > dDotD + ddotDExtraCaps) return false;
+    if (vec1DotD > dDotD + ddotDExtraCaps && vec1DotD + maxNDotD > dDotD + ddotDExtraCaps) return false;
 
     decimal nDotN = n.dot(n);
     decimal mDotN = m.dot(n);
-- 
2.43.0


From 95f3a1fa546aee239d290fdb08bd3e6a385f4de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:49 +0000
Subject: [PATCH 15/73] fix: moving or resizing a collider with a disabled
 overlapping pair accessed a missing pair

---
 include/reactphysics3d/engine/OverlappingPairs.h | 13 ++++---------
 src/engine/OverlappingPairs.cpp                  |  4 ++++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..9b5901c 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,10 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
-
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    // The pair might be disabled
+    OverlappingPair* pair = getOverlappingPair(pairId);
+    assert(pair != nullptr);
+    pair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 4f94da2..59026d8 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -316,6 +316,7 @@ void OverlappingPairs::enableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, true);
     mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeDisabledConvexPairWithIndex(pairIndex, false);
@@ -340,6 +341,7 @@ void OverlappingPairs::disableConvexPairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, false);
     mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the convex array
     removeConvexPairWithIndex(pairIndex, false);
@@ -364,6 +366,7 @@ void OverlappingPairs::enableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, true);
     mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeDisabledConcavePairWithIndex(pairIndex, false);
@@ -388,6 +391,7 @@ void OverlappingPairs::disableConcavePairWithIndex(uint64 pairIndex) {
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, false, false);
     mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
+    mDisabledConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
 
     // Remove the previous overlapping pair from the concave array
     removeConcavePairWithIndex(pairIndex, false);
-- 
2.43.0


From 931f842bb53343dabdce83ec58e3e14eda08900a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:11 +0000
Subject: [PATCH 16/73] fix: resizing a shape did not refresh the broad-phase
 bounds of its static or sleeping bodies

---
 src/collision/Collider.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 8a3fdce..4865290 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -213,6 +213,12 @@ unsigned short Collider::getCollideWithMaskBits() const {
 // Notify the collider that the size of the collision shape has been changed by the user
 void Collider::setHasCollisionShapeChangedSize(bool hasCollisionShapeChangedSize) {
     mBody->mWorld.mCollidersComponents.setHasCollisionShapeChangedSize(mEntity, hasCollisionShapeChangedSize);
+
+    // Update the broad-phase now because the colliders of the disabled (sleeping or static) bodies are
+    // not updated at each frame
+    if (hasCollisionShapeChangedSize) {
+        mBody->mWorld.mCollisionDetection.updateCollider(mEntity);
+    }
 }
 
 // Set a new material for this rigid body
-- 
2.43.0


From 9cb777959299e90a5642f004a9d38a87a3fa5ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:52 +0000
Subject: [PATCH 17/73] fix: two-sided raycast reported hits outside of a
 triangle on the line of one of its edges

---
 src/collision/shapes/TriangleShape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 349ef87..671b4c8 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -179,7 +179,8 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (w > decimal(0.0)) return false;
     }
     else if (mRaycastTestType == TriangleRaycastSide::FRONT_AND_BACK) {
-        if (!sameSign(u, w)) return false;
+        // If u is zero, the signs of v and w also have to be compared
+        if (!sameSign(u, w) || !sameSign(v, w)) return false;
     }
 
     // If the line PQ is in the triangle plane (case where u=v=w=0)
-- 
2.43.0


From 4d1b3a71ad971f1348ae4be1858e980f122fefeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 18/73] fix: overlap and collision queries on bodies reported
 colliders that are not world query colliders

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..1b0024c 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -489,6 +489,9 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(collider2Entity) != -1);
         assert(mCollidersComponents.getBroadPhaseId(collider1Entity) != mCollidersComponents.getBroadPhaseId(collider2Entity));
 
+        // Skip the colliders that are not world query colliders
+        if (!mCollidersComponents.mIsWorldQueryCollider[collider1Index] || !mCollidersComponents.mIsWorldQueryCollider[collider2Index]) continue;
+
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
@@ -514,6 +517,10 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
         assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
 
+        // Skip the colliders that are not world query colliders
+        if (!mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider1) ||
+            !mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider2)) continue;
+
         computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
-- 
2.43.0


From 62139556ca71ce3d1977a387f4ae15963baf81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:31 +0000
Subject: [PATCH 19/73] fix: collision queries with trigger colliders tripped
 assertions

---
 src/systems/CollisionDetectionSystem.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 1b0024c..79de2e3 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -497,12 +497,15 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
 
+        // There are no contacts to report with a trigger
+        const bool isTrigger = mCollidersComponents.mIsTrigger[collider1Index] || mCollidersComponents.mIsTrigger[collider2Index];
+
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTrigger, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -1034,7 +1037,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.isTrigger || contactPair.nbPotentialContactManifolds > 0);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From 013481f9172e496bab0d0b5fc0bb89933b125235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 20/73] fix: overlap and collision queries ignored the pairs of
 sleeping or static bodies

---
 .../systems/CollisionDetectionSystem.h        |   3 +
 src/engine/OverlappingPairs.cpp               |   3 +
 src/systems/CollisionDetectionSystem.cpp      | 104 +++++++++++++++---
 3 files changed, 97 insertions(+), 13 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index ed91dc9..4a6c947 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -300,6 +300,9 @@ class CollisionDetectionSystem {
         /// Filter the overlapping pairs to keep only the pairs where two given bodies are involved
         void filterOverlappingPairs(Entity body1Entity, Entity body2Entity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const;
 
+        /// Get the pairs that are disabled (because both bodies are sleeping or static)
+        void getDisabledOverlappingPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs) const;
+
         /// Remove an element in an array (and replace it by the last one in the array)
         void removeItemAtInArray(uint array[], uint8 index, uint8& arraySize) const;
 
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 59026d8..26f4ce3 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -153,6 +153,9 @@ void OverlappingPairs::removeDisabledConcavePairWithIndex(uint64 pairIndex, bool
     assert(mMapDisabledConcavePairIdToPairIndex[mDisabledConcavePairs[pairIndex].pairID] == pairIndex);
     mMapDisabledConcavePairIdToPairIndex.remove(mDisabledConcavePairs[pairIndex].pairID);
 
+    // Destroy all the LastFrameCollisionInfo objects (that might have been created by a query)
+    mDisabledConcavePairs[pairIndex].destroyLastFrameCollisionInfos();
+
     const uint64 nbDisabledPairs = mDisabledConcavePairs.size();
 
     // Change the mapping between the pairId and the index in the disabled pairs array if we swap the last item with the one to remove
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 79de2e3..0988263 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -476,11 +476,11 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         const uint64 pairId = convexPairs[p];
 
-        const uint64 pairIndex = mOverlappingPairs.mMapConvexPairIdToPairIndex[pairId];
-        assert(pairIndex < mOverlappingPairs.mConvexPairs.size());
+        // Note that the pair might be disabled (both bodies are sleeping or static)
+        OverlappingPairs::ConvexOverlappingPair& overlappingPair = static_cast<OverlappingPairs::ConvexOverlappingPair&>(*mOverlappingPairs.getOverlappingPair(pairId));
 
-        const Entity collider1Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider1;
-        const Entity collider2Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider2;
+        const Entity collider1Entity = overlappingPair.collider1;
+        const Entity collider2Entity = overlappingPair.collider2;
 
         const uint32 collider1Index = mCollidersComponents.getEntityIndex(collider1Entity);
         const uint32 collider2Index = mCollidersComponents.getEntityIndex(collider2Entity);
@@ -495,7 +495,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
-        NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
+        NarrowPhaseAlgorithmType algorithmType = overlappingPair.narrowPhaseAlgorithmType;
 
         // There are no contacts to report with a trigger
         const bool isTrigger = mCollidersComponents.mIsTrigger[collider1Index] || mCollidersComponents.mIsTrigger[collider2Index];
@@ -505,7 +505,7 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts && !isTrigger, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTrigger, &overlappingPair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -514,17 +514,19 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     for (uint32 p=0; p < nbConcavePairs; p++) {
 
         const uint64 pairId = concavePairs[p];
-        const uint64 pairIndex = mOverlappingPairs.mMapConcavePairIdToPairIndex[pairId];
 
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
+        // Note that the pair might be disabled (both bodies are sleeping or static)
+        OverlappingPairs::ConcaveOverlappingPair& overlappingPair = static_cast<OverlappingPairs::ConcaveOverlappingPair&>(*mOverlappingPairs.getOverlappingPair(pairId));
+
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider2) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != mCollidersComponents.getBroadPhaseId(overlappingPair.collider2));
 
         // Skip the colliders that are not world query colliders
-        if (!mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider1) ||
-            !mCollidersComponents.getIsWorldQueryCollider(mOverlappingPairs.mConcavePairs[pairIndex].collider2)) continue;
+        if (!mCollidersComponents.getIsWorldQueryCollider(overlappingPair.collider1) ||
+            !mCollidersComponents.getIsWorldQueryCollider(overlappingPair.collider2)) continue;
 
-        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
 
@@ -1817,6 +1819,12 @@ void CollisionDetectionSystem::testOverlap(OverlapCallback& callback) {
     // Compute the middle-phase collision detection
     computeMiddlePhase(narrowPhaseInput, false, true);
 
+    // Also take into account the pairs of bodies that are both sleeping or static
+    Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+    Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+    getDisabledOverlappingPairs(convexPairs, concavePairs);
+    computeMiddlePhaseCollisionSnapshot(convexPairs, concavePairs, narrowPhaseInput, false);
+
     // Compute the narrow-phase collision detection and report overlapping shapes
     computeNarrowPhaseOverlapSnapshot(narrowPhaseInput, &callback);
 }
@@ -1901,6 +1909,12 @@ void CollisionDetectionSystem::testCollision(CollisionCallback& callback) {
     // Compute the middle-phase collision detection
     computeMiddlePhase(narrowPhaseInput, true, true);
 
+    // Also take into account the pairs of bodies that are both sleeping or static
+    Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+    Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+    getDisabledOverlappingPairs(convexPairs, concavePairs);
+    computeMiddlePhaseCollisionSnapshot(convexPairs, concavePairs, narrowPhaseInput, true);
+
     // Compute the narrow-phase collision detection and report contacts
     computeNarrowPhaseCollisionSnapshot(narrowPhaseInput, callback);
 }
@@ -1919,6 +1933,17 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
         }
     }
 
+    // For each disabled convex pairs
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbDisabledConvexPairs; i++) {
+
+        if (mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider1) == bodyEntity ||
+            mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider2) == bodyEntity) {
+
+            convexPairs.add(mOverlappingPairs.mDisabledConvexPairs[i].pairID);
+        }
+    }
+
     // For each concave pairs
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
     for (uint32 i=0; i < nbConcavePairs; i++) {
@@ -1929,6 +1954,17 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<u
             concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
         }
     }
+
+    // For each disabled concave pairs
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbDisabledConcavePairs; i++) {
+
+        if (mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider1) == bodyEntity ||
+            mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider2) == bodyEntity) {
+
+            concavePairs.add(mOverlappingPairs.mDisabledConcavePairs[i].pairID);
+        }
+    }
 }
 
 // Filter the overlapping pairs to keep only the pairs where two given bodies are involved
@@ -1948,6 +1984,20 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
         }
     }
 
+    // For each disabled convex pair
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbDisabledConvexPairs; i++) {
+
+        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConvexPairs[i].collider2);
+
+        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
+            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+
+            convexPairs.add(mOverlappingPairs.mDisabledConvexPairs[i].pairID);
+        }
+    }
+
     // For each concave pair
     const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
     for (uint32 i=0; i < nbConcavePairs; i++) {
@@ -1961,6 +2011,34 @@ void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity
             concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
         }
     }
+
+    // For each disabled concave pair
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbDisabledConcavePairs; i++) {
+
+        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider1);
+        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mDisabledConcavePairs[i].collider2);
+
+        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
+            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+
+            concavePairs.add(mOverlappingPairs.mDisabledConcavePairs[i].pairID);
+        }
+    }
+}
+
+// Get the pairs that are disabled (because both bodies are sleeping or static)
+void CollisionDetectionSystem::getDisabledOverlappingPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
+
+    const uint32 nbDisabledConvexPairs = static_cast<uint32>(mOverlappingPairs.mDisabledConvexPairs.size());
+    for (uint32 i=0; i < nbDisabledConvexPairs; i++) {
+        convexPairs.add(mOverlappingPairs.mDisabledConvexPairs[i].pairID);
+    }
+
+    const uint32 nbDisabledConcavePairs = static_cast<uint32>(mOverlappingPairs.mDisabledConcavePairs.size());
+    for (uint32 i=0; i < nbDisabledConcavePairs; i++) {
+        concavePairs.add(mOverlappingPairs.mDisabledConcavePairs[i].pairID);
+    }
 }
 
 // Return the world event listener
-- 
2.43.0


From ce2d068726519373092ff1b6d3e48d54640a79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 21/73] fix: putting a body to sleep or making it static
 tripped an assertion when one of its pairs is already disabled

---
 src/body/RigidBody.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..20b24c4 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1139,7 +1139,7 @@ void RigidBody::checkForDisabledOverlappingPairs() {
             const bool isBody2Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body2Entity);
 
             // If both bodies of the pair are disabled, we disable the overlapping pair
-            if (isBody1Disabled && isBody2Disabled) {
+            if (isBody1Disabled && isBody2Disabled && pair->isEnabled) {
 
                 mWorld.mCollisionDetection.disableOverlappingPair(overlappingPairs[j]);
             }
-- 
2.43.0


From fa072abe0f3f0c5f1dd27b69a7f5004d011840d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 22/73] fix: a body that is activated again stayed asleep

---
 src/body/RigidBody.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 20b24c4..13ff916 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1187,7 +1187,11 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
+    // An inactive body is sleeping
+    if (!isActive) setIsSleeping(true);
 
     Body::setIsActive(isActive);
+
+    // Awake the body (this can only be done once the body is active)
+    if (isActive) setIsSleeping(false);
 }
-- 
2.43.0


From 59fd7ff5a88fc3273f39794988f696344c5bda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 23/73] fix: changing the type of a static or inactive body
 left its overlapping pairs disabled or simulated the inactive body

---
 src/body/RigidBody.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 13ff916..2a904c4 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -108,17 +108,35 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
 
-    // Awake the body
-    setIsSleeping(false);
+    // Disable/Enable the body if necessary (components of static and inactive bodies are disabled)
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
 
     if (type == BodyType::STATIC) {
 
+        // A static body is always awake
+        mWorld.mRigidBodyComponents.setIsSleeping(mEntity, false);
+
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else if (isActive) {
+
+        // Awake the body
+        setIsSleeping(false);
+
+        // If the body was static, some of its overlapping pairs might be disabled
+        enableOverlappingPairs();
+
+        // Make sure the broad-phase will recompute the overlapping pairs with this body
+        askForBroadPhaseCollisionCheck();
+    }
+    else {
+
+        // An inactive body is sleeping
+        mWorld.mRigidBodyComponents.setIsSleeping(mEntity, true);
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
-- 
2.43.0


From 7f8dd473d60be8451055d1a8ef1262046722f16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 24/73] fix: changing the category or mask bits of a collider
 did not affect its existing overlapping pairs

---
 src/systems/CollisionDetectionSystem.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 0988263..ab9060c 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -306,17 +306,20 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
 
                     // Check if the overlapping pair already exists
                     OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
-                    if (overlappingPair == nullptr) {
 
-                        const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
-                        const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+                    const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
+                    const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+
+                    const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
+                    const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+
+                    // Check if the collision filtering allows collision between the two shapes
+                    const bool isCollisionAllowed = (shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
+                                                    (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0;
 
-                        const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
-                        const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+                    if (overlappingPair == nullptr) {
 
-                        // Check if the collision filtering allows collision between the two shapes
-                        if ((shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
-                            (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0) {
+                        if (isCollisionAllowed) {
 
                             Collider* shape1 = mCollidersComponents.mColliders[collider1Index];
                             Collider* shape2 = mCollidersComponents.mColliders[collider2Index];
@@ -331,6 +334,11 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
+                    else if (!isCollisionAllowed) {
+
+                        // The collision filtering has changed, the pair must be removed
+                        removeOverlappingPair(pairId, true);
+                    }
                     else {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
-- 
2.43.0


From db04c71ad7f094aa4caf2720b3054bc07d416f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:48 +0000
Subject: [PATCH 25/73] fix: destroying a joint that disables collision ignored
 other such joints and did not restore the collision of overlapping bodies

---
 src/engine/PhysicsWorld.cpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..a54f20a 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -613,8 +613,29 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     // If the collision between the two bodies of the constraint was disabled
     if (!joint->isCollisionEnabled()) {
 
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
+        const Entity body1Entity = joint->getBody1()->getEntity();
+        const Entity body2Entity = joint->getBody2()->getEntity();
+
+        // Check if another joint also disables the collision between the two bodies
+        bool isCollisionStillDisabled = false;
+        const Array<Entity>& joints = mRigidBodyComponents.getJoints(body1Entity);
+        for (uint32 i=0; i < joints.size(); i++) {
+
+            const Joint* otherJoint = mJointsComponents.getJoint(joints[i]);
+            if (otherJoint != joint && !otherJoint->isCollisionEnabled() &&
+                (otherJoint->getBody1()->getEntity() == body2Entity || otherJoint->getBody2()->getEntity() == body2Entity)) {
+                isCollisionStillDisabled = true;
+            }
+        }
+
+        if (!isCollisionStillDisabled) {
+
+            // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+            mCollisionDetection.removeNoCollisionPair(body1Entity, body2Entity);
+
+            // The two bodies might already be overlapping and need to be tested again in the broad-phase
+            joint->getBody1()->askForBroadPhaseCollisionCheck();
+        }
     }
 
     RigidBody* body1 = joint->getBody1();
-- 
2.43.0


From 1b33197c0691a425df31b1e04e0df0faa6829244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 26/73] fix: areParallelVectors() depended on the length of the
 vectors, short edges were all treated as parallel

---
 include/reactphysics3d/mathematics/mathematics_functions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index b0277f2..30c78ae 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -74,7 +74,7 @@ RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
 
 // Return true if two vectors are parallel
 RP3D_FORCE_INLINE bool areParallelVectors(const Vector3& vector1, const Vector3& vector2) {
-    return vector1.cross(vector2).lengthSquare() < decimal(0.00001);
+    return vector1.cross(vector2).lengthSquare() < decimal(0.00001) * vector1.lengthSquare() * vector2.lengthSquare();
 }
 
 
-- 
2.43.0


From af1566ddfc00359199c9eb3581a1c16306a48406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 27/73] fix: GJK simplex used absolute tolerances and gave
 wrong distances for small or thin features

---
 .../narrowphase/GJK/VoronoiSimplex.h          |  3 --
 .../narrowphase/GJK/VoronoiSimplex.cpp        | 37 ++++++++++++-------
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h b/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
index b3c21f9..f7d845c 100644
--- a/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
+++ b/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
@@ -84,9 +84,6 @@ class VoronoiSimplex {
         /// True if the last computed closest point is valid
         bool mIsClosestPointValid;
 
-        /// Epsilon value
-        static decimal epsilon;
-
         // -------------------- Methods -------------------- //
 
         /// Private copy-constructor
diff --git a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
index a8ec4ee..687ee81 100644
--- a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
+++ b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
@@ -30,8 +30,6 @@
 // We want to use the ReactPhysics3D namespace
 using namespace reactphysics3d;
 
-decimal VoronoiSimplex::epsilon = decimal(0.0001);
-
 // Constructor
 VoronoiSimplex::VoronoiSimplex() : mNbPoints(0), mRecomputeClosestPoint(false), mIsClosestPointValid(false) {
 
@@ -98,7 +96,7 @@ bool VoronoiSimplex::isPointInSimplex(const Vector3& point) const {
         decimal distanceSquare = (mPoints[i] - point).lengthSquare();
 
         // If the point is very close
-        if (distanceSquare <= epsilon) {
+        if (distanceSquare <= MACHINE_EPSILON * point.lengthSquare()) {
             return true;
         }
     }
@@ -131,15 +129,26 @@ bool VoronoiSimplex::isAffinelyDependent() const {
         case 0: return false;
         case 1: return false;
 
-        // Two points are independent if there distance is larger than zero
-        case 2: return (mPoints[1] - mPoints[0]).lengthSquare() <= epsilon;
+        // Two points are independent if there distance is larger than zero (compared to the size of the simplex)
+        case 2: return (mPoints[1] - mPoints[0]).lengthSquare() <= MACHINE_EPSILON * getMaxLengthSquareOfAPoint();
 
-        // Three points are independent if the triangle area is larger than zero
-        case 3: return (mPoints[1] - mPoints[0]).cross(mPoints[2] - mPoints[0]).lengthSquare() <= epsilon;
+        // Three points are independent if the triangle area is larger than zero (compared to the length of its edges)
+        case 3:
+        {
+            const Vector3 edge1 = mPoints[1] - mPoints[0];
+            const Vector3 edge2 = mPoints[2] - mPoints[0];
+            return edge1.cross(edge2).lengthSquare() <= MACHINE_EPSILON * edge1.lengthSquare() * edge2.lengthSquare();
+        }
 
-        // Four points are independent if the tetrahedron volume is larger than zero
-        // Test in three different ways (for more robustness)
-        case 4: return std::abs((mPoints[1] - mPoints[0]).dot((mPoints[2] - mPoints[0]).cross(mPoints[3] - mPoints[0]))) <= epsilon;
+        // Four points are independent if the tetrahedron volume is larger than zero (compared to the length of its edges)
+        case 4:
+        {
+            const Vector3 edge1 = mPoints[1] - mPoints[0];
+            const Vector3 edge2 = mPoints[2] - mPoints[0];
+            const Vector3 edge3 = mPoints[3] - mPoints[0];
+            const decimal volume = edge1.dot(edge2.cross(edge3));
+            return volume * volume <= MACHINE_EPSILON * edge1.lengthSquare() * edge2.lengthSquare() * edge3.lengthSquare();
+        }
     }
 
     return false;
@@ -377,7 +386,7 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
 
         // The origin is in the Voronoi region of edge AB
         // We return the projection of the origin on the edge AB
-        assert(std::abs(d1 - d3) > MACHINE_EPSILON);
+        assert(std::abs(d1 - d3) > decimal(0.0));
         decimal v = d1 / (d1 - d3);
 
         // Set the barycentric coords of the closest point on the triangle
@@ -408,7 +417,7 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
 
         // The origin is in the Voronoi region of edge AC
         // We return the projection of the origin on the edge AC
-        assert(std::abs(d2 - d6) > MACHINE_EPSILON);
+        assert(std::abs(d2 - d6) > decimal(0.0));
         decimal w = d2 / (d2 - d6);
 
         // Set the barycentric coords of the closest point on the triangle
@@ -424,7 +433,7 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
 
         // The origin is in the Voronoi region of edge BC
         // We return the projection of the origin on the edge BC
-        assert(std::abs((d4 - d3) + (d5 - d6)) > MACHINE_EPSILON);
+        assert(std::abs((d4 - d3) + (d5 - d6)) > decimal(0.0));
         decimal w = (d4 - d3) / ((d4 - d3) + (d5 - d6));
 
         // Set the barycentric coords of the closest point on the triangle
@@ -602,7 +611,7 @@ int VoronoiSimplex::testOriginOutsideOfPlane(const Vector3& a, const Vector3& b,
     // This should never happen because after a point is added into the simplex, the user
     // of this class must check that the simplex is not affinely dependent using the
     // isAffinelyDependent() method
-    if(signd * signd < epsilon * epsilon) {
+    if(signd * signd <= MACHINE_EPSILON * MACHINE_EPSILON * n.lengthSquare() * (d-a).lengthSquare()) {
         return -1;
     }
 
-- 
2.43.0


From 826ba77966d97a76290a229fb4457a65ca13a466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 28/73] fix: deep capsule vs polyhedron contact was dropped
 when clipping the segment with the face found no point

---
 .../narrowphase/SAT/SATAlgorithm.cpp          | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 841f190..f2ee1e7 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -280,10 +280,34 @@ bool SATAlgorithm::testCollisionCapsuleVsConvexPolyhedron(NarrowPhaseInfoBatch&
         // If we need to report contacts
         if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
 
-            return computeCapsulePolyhedronFaceContactPoints(minFaceIndex, capsuleRadius, polyhedron, minPenetrationDepth,
+            const bool contactsFound = computeCapsulePolyhedronFaceContactPoints(minFaceIndex, capsuleRadius, polyhedron, minPenetrationDepth,
                                                       polyhedronToCapsuleTransform, normalWorld, separatingAxisCapsuleSpace,
                                                       capsuleSegAPolyhedronSpace, capsuleSegBPolyhedronSpace,
                                                       narrowPhaseInfoBatch, batchIndex, isCapsuleShape1);
+
+            // If there are no clipping points (numerical issue when the capsule inner segment is close to the border of the face),
+            // the shapes are still overlapping. Therefore, we use the deepest point of the capsule as the contact point
+            if (!contactsFound) {
+
+                const Vector3 faceNormal = polyhedron->getFaceNormal(minFaceIndex);
+                const Vector3 deepestSegmentPoint = capsuleSegAPolyhedronSpace.dot(faceNormal) < capsuleSegBPolyhedronSpace.dot(faceNormal) ?
+                                                    capsuleSegAPolyhedronSpace : capsuleSegBPolyhedronSpace;
+
+                Vector3 contactPointPolyhedron = deepestSegmentPoint + faceNormal * (minPenetrationDepth - capsuleRadius);
+                Vector3 contactPointCapsule = (polyhedronToCapsuleTransform * deepestSegmentPoint) - separatingAxisCapsuleSpace * capsuleRadius;
+
+                // Compute smooth triangle mesh contact if one of the two collision shapes is a triangle
+                TriangleShape::computeSmoothTriangleMeshContact(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2,
+                                                            isCapsuleShape1 ? contactPointCapsule : contactPointPolyhedron,
+                                                            isCapsuleShape1 ? contactPointPolyhedron : contactPointCapsule,
+                                                            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform,
+                                                            minPenetrationDepth, normalWorld);
+
+                // Create the contact point
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, minPenetrationDepth,
+                                                 isCapsuleShape1 ? contactPointCapsule : contactPointPolyhedron,
+                                                 isCapsuleShape1 ? contactPointPolyhedron : contactPointCapsule);
+            }
         }
     }
     else {   // The separating axis is the cross product of a polyhedron edge and the inner capsule segment
-- 
2.43.0


From ae0e774efd7d71d1ea6da346c3a798be36a9a94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:25 +0000
Subject: [PATCH 29/73] fix: overlapping polyhedra were reported as separated
 when the most anti-parallel face does not contain the deepest vertex

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  5 ++
 .../narrowphase/SAT/SATAlgorithm.cpp          | 56 ++++++++++++++++---
 2 files changed, 53 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 74e3bf2..7daa34e 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -135,6 +135,11 @@ class SATAlgorithm {
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
                                                             NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
 
+        /// Create a contact point between the deepest vertex of a polyhedron and a face of the other polyhedron
+        void computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
+                                                                    const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
+                                                                    const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
+                                                                    NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
 
     public :
 
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index f2ee1e7..cdd1156 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -856,16 +856,13 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
                                                                                 minFaceIndex, narrowPhaseInfoBatch, batchIndex);
 
-            // There should be clipping points here. If it is not the case, it might be
-            // because of a numerical issue
+            // If there are no clipping points, the deepest vertex of the incident polyhedron is not part of its most
+            // anti-parallel face. The shapes are overlapping, therefore we use this vertex as the contact point
             if (!contactsFound) {
 
-                lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
-                lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
-                lastFrameCollisionInfo->satMinAxisFaceIndex = minFaceIndex;
-
-                // Return no collision
-                continue;
+                computePolyhedronVsPolyhedronDeepestVertexContactPoint(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
+                                                                       polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
+                                                                       narrowPhaseInfoBatch, batchIndex);
             }
 
             lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
@@ -1060,6 +1057,49 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
 }
 
 
+// Create a contact point between the deepest vertex of the incident polyhedron and the reference face of the other polyhedron
+void SATAlgorithm::computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1,
+                                                                          const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
+                                                                          const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
+                                                                          uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch,
+                                                                          uint32 batchIndex) const {
+
+    // If we do not need to report contacts
+    if (!narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) return;
+
+    const ConvexPolyhedronShape* referencePolyhedron = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1 : polyhedron2;
+    const ConvexPolyhedronShape* incidentPolyhedron = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron2 : polyhedron1;
+    const Transform& referenceToIncidentTransform = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1ToPolyhedron2 : polyhedron2ToPolyhedron1;
+    const Transform& incidentToReferenceTransform = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron2ToPolyhedron1 : polyhedron1ToPolyhedron2;
+
+    const Vector3 axisReferenceSpace = referencePolyhedron->getFaceNormal(minFaceIndex);
+    const Vector3 referenceFaceVertex = referencePolyhedron->getVertexPosition(referencePolyhedron->getFace(minFaceIndex).faceVertices[0]);
+
+    // Compute the world normal
+    Vector3 normalWorld = isMinPenetrationFaceNormalPolyhedron1 ? narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform.getOrientation() * axisReferenceSpace :
+                                    -(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform.getOrientation() * axisReferenceSpace);
+
+    // Get the deepest vertex of the incident polyhedron and project it onto the reference face
+    Vector3 contactPointIncidentPolyhedron = incidentPolyhedron->getLocalSupportPointWithoutMargin(-(referenceToIncidentTransform.getOrientation() * axisReferenceSpace));
+    const Vector3 deepestVertexReferenceSpace = incidentToReferenceTransform * contactPointIncidentPolyhedron;
+    Vector3 contactPointReferencePolyhedron = projectPointOntoPlane(deepestVertexReferenceSpace, axisReferenceSpace, referenceFaceVertex);
+
+    // Compute the penetration depth of the vertex
+    const decimal penetrationDepth = (referenceFaceVertex - deepestVertexReferenceSpace).dot(axisReferenceSpace);
+
+    Vector3& contactPointPolyhedron1 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointReferencePolyhedron : contactPointIncidentPolyhedron;
+    Vector3& contactPointPolyhedron2 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointIncidentPolyhedron : contactPointReferencePolyhedron;
+
+    // Compute smooth triangle mesh contact if one of the two collision shapes is a triangle
+    TriangleShape::computeSmoothTriangleMeshContact(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2,
+                                                    contactPointPolyhedron1, contactPointPolyhedron2,
+                                                    narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform,
+                                                    penetrationDepth, normalWorld);
+
+    // Create the contact point
+    narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth, contactPointPolyhedron1, contactPointPolyhedron2);
+}
+
 // Compute and return the distance between the two edges in the direction of the candidate separating axis
 decimal SATAlgorithm::computeDistanceBetweenEdges(const Vector3& edge1A, const Vector3& edge2A,
                                                   const Vector3& polyhedron1Centroid, const Vector3& polyhedron2Centroid,
-- 
2.43.0


From eb080d6b22d7fb62476c9f154231e9ae9136f635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 30/73] fix: the two contact points of concentric spheres were
 on the same side

---
 src/collision/narrowphase/SphereVsSphereAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
index 3a8a6c9..d6148e8 100755
--- a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
@@ -96,7 +96,7 @@ bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInf
                         normal.setAllValues(0, 1, 0);
 
                         intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
-                        intersectionOnBody2 = sphere2Radius * (transform2Inverse.getOrientation() * normal);
+                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
                     }
 
                     // Create the contact info object
-- 
2.43.0


From bd811995ed6f0edcd447c913a2834a524ab7d3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:57 +0000
Subject: [PATCH 31/73] fix: contact normal of a capsule and a sphere centered
 on its inner segment was inverted

---
 src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index 5f90af9..7b55fc8 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -128,6 +128,10 @@ bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseIn
                     // Compute the two local contact points
                     contactPointSphereLocal = sphereToCapsuleSpaceTransform.getInverse() * (sphereCenter + normalCapsuleSpace * sphereRadius);
                     contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
+
+                    if (!isSphereShape1) {
+                        normalWorld = -normalWorld;
+                    }
                 }
 
                 if (penetrationDepth <= decimal(0.0)) {
-- 
2.43.0


From b1b793588d95b46711b5047e1b69f0e529043127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:35 +0000
Subject: [PATCH 32/73] fix: parallel capsules with opposite orientations were
 not clipped and got a wrong contact

---
 src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
index 73fa141..0ef9e56 100755
--- a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
@@ -68,9 +68,15 @@ bool CapsuleVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseI
         const Vector3 capsule2SegA(0, -capsule2HalfHeight, 0);
         const Vector3 capsule2SegB(0, capsule2HalfHeight, 0);
 
+        const Vector3 seg2 = capsule2SegB - capsule2SegA;
+
+        // Make sure the two inner segments have the same orientation (needed to clip the inner segments of parallel capsules)
+        if ((capsule1SegB - capsule1SegA).dot(seg2) < decimal(0.0)) {
+            std::swap(capsule1SegA, capsule1SegB);
+        }
+
         // The two inner capsule segments
         const Vector3 seg1 = capsule1SegB - capsule1SegA;
-        const Vector3 seg2 = capsule2SegB - capsule2SegA;
 
         // Compute the sum of the radius of the two capsules (virtual spheres)
         const decimal sumRadius = capsule1Radius + capsule2Radius;
-- 
2.43.0


From 90aae2655df372b147ef3d3526ead9ed65d983e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 33/73] fix: contact normal of nearly coaxial capsules was made
 of rounding errors

---
 src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
index 0ef9e56..f61f72e 100755
--- a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
@@ -122,7 +122,7 @@ bool CapsuleVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseI
                     Vector3 segment1ToSegment2;
 
                     // If the inner capsule segments perpendicular distance is not zero (the inner segments are not overlapping)
-                    if (segmentsPerpendicularDistance > MACHINE_EPSILON) {
+                    if (segmentsPerpendicularDistance * segmentsPerpendicularDistance > MACHINE_EPSILON) {
 
                         // Compute a perpendicular vector from segment 1 to segment 2
                         segment1ToSegment2 = (capsule2SegA - pointOnInnerSegCapsule1);
-- 
2.43.0


From b1a5a6d92e53d4cb3d75a6fadd8eef7e1b895381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 34/73] fix: GJK reported a shallow contact with a meaningless
 normal for deeply overlapping shapes

---
 src/collision/narrowphase/GJK/GJKAlgorithm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
index e447c52..463da35 100644
--- a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
+++ b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
@@ -184,7 +184,9 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
             continue;
         }
 
-        if (contactFound && distSquare > MACHINE_EPSILON) {
+        // If the last support point is not on the positive side of v, the distance is only due to rounding errors and the
+        // shapes (without margins) are overlapping
+        if (contactFound && distSquare > MACHINE_EPSILON && vDotw > decimal(0.0)) {
 
             // Compute the closet points of both objects (without the margins)
             simplex.computeClosestPointsOfAandB(pA, pB);
-- 
2.43.0


From 4bc2b1e66550786f88d5605838b0bce8659f434e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:35 +0000
Subject: [PATCH 35/73] fix: closest point on a segment of the GJK simplex had
 single precision in the double precision build

---
 .../reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h | 2 +-
 src/collision/narrowphase/GJK/VoronoiSimplex.cpp              | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h b/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
index f7d845c..7002979 100644
--- a/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
+++ b/include/reactphysics3d/collision/narrowphase/GJK/VoronoiSimplex.h
@@ -103,7 +103,7 @@ class VoronoiSimplex {
 
         /// Compute point of a line segment that is closest to the origin
         void computeClosestPointOnSegment(const Vector3& a, const Vector3& b, int& bitUsedVertices,
-                                          float& t) const;
+                                          decimal& t) const;
 
         /// Compute point of a triangle that is closest to the origin
         void computeClosestPointOnTriangle(const Vector3& a, const Vector3& b,
diff --git a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
index 687ee81..8b1c13f 100644
--- a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
+++ b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
@@ -202,7 +202,7 @@ bool VoronoiSimplex::recomputeClosestPoint() {
 
                 {
                     int bitsUsedPoints = 0;
-                    float t;
+                    decimal t;
 
                     // The simplex is a line AB (where A=mPoints[0] and B=mPoints[1].
                     // We need to find the point of that line closest to the origin
@@ -310,7 +310,7 @@ bool VoronoiSimplex::recomputeClosestPoint() {
 
 // Compute point of a line segment that is closest to the origin
 void VoronoiSimplex::computeClosestPointOnSegment(const Vector3& a, const Vector3& b, int& bitUsedVertices,
-                                                  float& t) const {
+                                                  decimal& t) const {
 
     Vector3 AP = -a;
     Vector3 AB = b - a;
-- 
2.43.0


From 09776cc32ed2bf6e3a4e79fad5910e45ea013292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 36/73] fix: depth of a deepest vertex contact could be zero
 because of rounding errors

---
 src/collision/narrowphase/SAT/SATAlgorithm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index cdd1156..2e96004 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -1084,8 +1084,8 @@ void SATAlgorithm::computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool i
     const Vector3 deepestVertexReferenceSpace = incidentToReferenceTransform * contactPointIncidentPolyhedron;
     Vector3 contactPointReferencePolyhedron = projectPointOntoPlane(deepestVertexReferenceSpace, axisReferenceSpace, referenceFaceVertex);
 
-    // Compute the penetration depth of the vertex
-    const decimal penetrationDepth = (referenceFaceVertex - deepestVertexReferenceSpace).dot(axisReferenceSpace);
+    // Compute the penetration depth of the vertex (always positive because the shapes are overlapping)
+    const decimal penetrationDepth = std::max((referenceFaceVertex - deepestVertexReferenceSpace).dot(axisReferenceSpace), MACHINE_EPSILON);
 
     Vector3& contactPointPolyhedron1 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointReferencePolyhedron : contactPointIncidentPolyhedron;
     Vector3& contactPointPolyhedron2 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointIncidentPolyhedron : contactPointReferencePolyhedron;
-- 
2.43.0


From 2dea1e200a5ba133782b223c6b26e134f36019e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 37/73] fix: destroying a body could destroy the joints of
 another body and leave its own

---
 src/engine/PhysicsWorld.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index a54f20a..0410384 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -453,10 +453,10 @@ void PhysicsWorld::destroyRigidBody(RigidBody* rigidBody) {
     // Remove all the collision shapes of the body
     rigidBody->removeAllColliders();
 
-    // Destroy all the joints in which the rigid body to be destroyed is involved
-    const Array<Entity>& joints = mRigidBodyComponents.getJoints(rigidBody->getEntity());
-    while (joints.size() > 0) {
-        destroyJoint(mJointsComponents.getJoint(joints[0]));
+    // Destroy all the joints in which the rigid body to be destroyed is involved. Note that destroying a joint
+    // wakes up its bodies and that this might move the components (with the array of joints) of the body.
+    while (mRigidBodyComponents.getJoints(rigidBody->getEntity()).size() > 0) {
+        destroyJoint(mJointsComponents.getJoint(mRigidBodyComponents.getJoints(rigidBody->getEntity())[0]));
     }
 
     // Destroy the corresponding entity and its components
-- 
2.43.0


From d2c6d4df632ef08292ffe6fda58d09c98eff0899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 38/73] fix: waking up the neighbors of a sleeping body used
 colliders of another body

---
 src/body/RigidBody.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 2a904c4..b5067fa 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -1101,8 +1101,9 @@ void RigidBody::enableOverlappingPairs() {
 // Awake the disabled neighbor bodies
 void RigidBody::awakeNeighborDisabledBodies() {
 
-    // For each collider of the body
-    const Array<Entity>& colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
+    // For each collider of the body (we use a copy because the components of the body
+    // might be moved when another body is awaken)
+    const Array<Entity> colliderEntities = mWorld.mBodyComponents.getColliders(mEntity);
     for (uint32 i=0; i < colliderEntities.size(); i++) {
 
         // Get the currently overlapping pairs for this collider
-- 
2.43.0


From c3a63e7220462feb9c73d6e49573f6197d26c577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 39/73] fix: polyhedra that are separated after touching in the
 last update were still reported as colliding along the previous axis

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  6 ++-
 .../narrowphase/SAT/SATAlgorithm.cpp          | 53 +++++++++++++++++--
 2 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 7daa34e..6371a9c 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -133,7 +133,11 @@ class SATAlgorithm {
         bool computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
                                                             const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
-                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
+                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                            bool checkOverlap) const;
+
+        /// Return true if a point (in local-space of the polyhedron) is inside a polyhedron
+        bool isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const;
 
         /// Create a contact point between the deepest vertex of a polyhedron and a face of the other polyhedron
         void computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 2e96004..8fa0791 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -569,7 +569,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, true)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -609,7 +609,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     // Compute the contact points between two faces of two convex polyhedra.
                     if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, true)) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -676,7 +676,11 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         const decimal edge2LengthSquare = edge2Direction.lengthSquare();
                         decimal t1 = vec1.dot(edge2Direction) / edge2LengthSquare;
                         decimal t2 = vec2.dot(edge1Direction) / edge1LengthSquare;
-                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0)) {
+
+                        // We also check that the polyhedra really overlap (they might now be separated along another axis)
+                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0) &&
+                            (isPointInsidePolyhedron(polyhedron2, closestPointPolyhedron1Edge) ||
+                             isPointInsidePolyhedron(polyhedron1, polyhedron2ToPolyhedron1 * closestPointPolyhedron2Edge))) {
 
                             // If we need to report contact points
                             if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
@@ -854,7 +858,7 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
             // Compute the contact points between two faces of two convex polyhedra.
             bool contactsFound = computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1,
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
-                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex);
+                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex, false);
 
             // If there are no clipping points, the deepest vertex of the incident polyhedron is not part of its most
             // anti-parallel face. The shapes are overlapping, therefore we use this vertex as the contact point
@@ -914,7 +918,8 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
 bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1,
                                                                   const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
                                                                   const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
-                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const {
+                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                                  bool checkOverlap) const {
 
     RP3D_PROFILE("SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints", mProfiler);
 
@@ -1016,6 +1021,30 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     const Vector3 referenceFaceVertex = referencePolyhedron->getVertexPosition(referencePolyhedron->getHalfEdge(firstEdgeIndex).vertexIndex);
     bool contactPointsFound = false;
     const uint32 nbClipPolygonVertices = static_cast<uint32>(clippedPolygonVertices.size());
+
+    // If we do not know yet whether the two polyhedra really overlap (they might be separated along another axis), we check
+    // that the center of the clipped points below the reference face (or its projection on this face) is inside both of them
+    if (checkOverlap) {
+
+        Vector3 center(0, 0, 0);
+        uint32 nbPointsBelow = 0;
+        for (uint32 i=0; i < nbClipPolygonVertices; i++) {
+            if ((referenceFaceVertex - clippedPolygonVertices[i]).dot(axisReferenceSpace) > decimal(0.0)) {
+                center += clippedPolygonVertices[i];
+                nbPointsBelow++;
+            }
+        }
+
+        if (nbPointsBelow == 0) return false;
+
+        center /= decimal(nbPointsBelow);
+
+        if (!isPointInsidePolyhedron(referencePolyhedron, center) &&
+            !isPointInsidePolyhedron(incidentPolyhedron, referenceToIncidentTransform * projectPointOntoPlane(center, axisReferenceSpace, referenceFaceVertex))) {
+            return false;
+        }
+    }
+
     for (uint32 i=0; i < nbClipPolygonVertices; i++) {
 
         // Compute the penetration depth of this contact point (can be different from the minPenetration depth which is
@@ -1056,6 +1085,20 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     return contactPointsFound;
 }
 
+// Return true if a point (in local-space of the polyhedron) is inside a polyhedron
+bool SATAlgorithm::isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const {
+
+    // A triangle has no inside
+    if (polyhedron->getName() == CollisionShapeName::TRIANGLE) return false;
+
+    for (uint32 f=0; f < polyhedron->getNbFaces(); f++) {
+
+        const Vector3 faceVertex = polyhedron->getVertexPosition(polyhedron->getFace(f).faceVertices[0]);
+        if ((point - faceVertex).dot(polyhedron->getFaceNormal(f)) > decimal(0.0)) return false;
+    }
+
+    return true;
+}
 
 // Create a contact point between the deepest vertex of the incident polyhedron and the reference face of the other polyhedron
 void SATAlgorithm::computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1,
-- 
2.43.0


From b5cfb4799e9af59299bca5bcfc50c521d463de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:44 +0000
Subject: [PATCH 40/73] fix: overlap and collision queries changed the contact
 events of bodies that are woken up later

---
 .../systems/CollisionDetectionSystem.h        |  4 +--
 src/systems/CollisionDetectionSystem.cpp      | 29 ++++++++++---------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index 4a6c947..ca0787e 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -240,12 +240,12 @@ class CollisionDetectionSystem {
 
         /// Convert the potential contact into actual contacts
         void processPotentialContacts(NarrowPhaseInfoBatch& narrowPhaseInfoBatch,
-                                      bool updateLastFrameInfo, Array<ContactPointInfo>& potentialContactPoints,
+                                      bool updateLastFrameInfo, bool isWorldQuery, Array<ContactPointInfo>& potentialContactPoints,
                                       Array<ContactManifoldInfo>& potentialContactManifolds,
                                       Map<uint64, uint>& mapPairIdToContactPairIndex, Array<ContactPair>* contactPairs);
 
         /// Process the potential contacts after narrow-phase collision detection
-        void processAllPotentialContacts(NarrowPhaseInput& narrowPhaseInput, bool updateLastFrameInfo, Array<ContactPointInfo>& potentialContactPoints,
+        void processAllPotentialContacts(NarrowPhaseInput& narrowPhaseInput, bool updateLastFrameInfo, bool isWorldQuery, Array<ContactPointInfo>& potentialContactPoints,
                                          Array<ContactManifoldInfo>& potentialContactManifolds, Array<ContactPair>* contactPairs);
 
         /// Reduce the potential contact manifolds and contact points of the overlapping pair contacts
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index ab9060c..e7e47be 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -394,7 +394,8 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isCollider1SimulationColliderOrTrigger = isCollider1SimulationCollider || isCollider1Trigger;
         const bool isCollider2SimulationColliderOrTrigger = isCollider2SimulationCollider || isCollider2Trigger;
 
-        overlappingPair.collidingInCurrentFrame = false;
+        // A world query must not change the state of the pair in the simulation
+        if (!isWorldQuery) overlappingPair.collidingInCurrentFrame = false;
 
         const bool isBody1Enabled = collider1Index < nbEnabledColliderComponents;
         const bool isBody2Enabled = collider2Index < nbEnabledColliderComponents;
@@ -446,7 +447,8 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isCollider1SimulationColliderOrTrigger = isCollider1SimulationCollider || isCollider1Trigger;
         const bool isCollider2SimulationColliderOrTrigger = isCollider2SimulationCollider || isCollider2Trigger;
 
-        overlappingPair.collidingInCurrentFrame = false;
+        // A world query must not change the state of the pair in the simulation
+        if (!isWorldQuery) overlappingPair.collidingInCurrentFrame = false;
 
         // Only test for collision for a world query and both colliders are world query colliders or
         // if it is not a world query and both colliders are either triggers or simulation colliders
@@ -680,7 +682,7 @@ bool CollisionDetectionSystem::testNarrowPhaseCollision(NarrowPhaseInput& narrow
 }
 
 // Process the potential contacts after narrow-phase collision detection
-void CollisionDetectionSystem::processAllPotentialContacts(NarrowPhaseInput& narrowPhaseInput, bool updateLastFrameInfo,
+void CollisionDetectionSystem::processAllPotentialContacts(NarrowPhaseInput& narrowPhaseInput, bool updateLastFrameInfo, bool isWorldQuery,
                                                      Array<ContactPointInfo>& potentialContactPoints,
                                                      Array<ContactManifoldInfo>& potentialContactManifolds,
                                                      Array<ContactPair>* contactPairs) {
@@ -698,12 +700,12 @@ void CollisionDetectionSystem::processAllPotentialContacts(NarrowPhaseInput& nar
     NarrowPhaseInfoBatch& convexPolyhedronVsConvexPolyhedronBatch = narrowPhaseInput.getConvexPolyhedronVsConvexPolyhedronBatch();
 
     // Process the potential contacts
-    processPotentialContacts(sphereVsSphereBatch, updateLastFrameInfo, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
-    processPotentialContacts(sphereVsCapsuleBatch, updateLastFrameInfo, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
-    processPotentialContacts(capsuleVsCapsuleBatch, updateLastFrameInfo, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
-    processPotentialContacts(sphereVsConvexPolyhedronBatch, updateLastFrameInfo, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
-    processPotentialContacts(capsuleVsConvexPolyhedronBatch, updateLastFrameInfo, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
-    processPotentialContacts(convexPolyhedronVsConvexPolyhedronBatch, updateLastFrameInfo, potentialContactPoints,
+    processPotentialContacts(sphereVsSphereBatch, updateLastFrameInfo, isWorldQuery, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
+    processPotentialContacts(sphereVsCapsuleBatch, updateLastFrameInfo, isWorldQuery, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
+    processPotentialContacts(capsuleVsCapsuleBatch, updateLastFrameInfo, isWorldQuery, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
+    processPotentialContacts(sphereVsConvexPolyhedronBatch, updateLastFrameInfo, isWorldQuery, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
+    processPotentialContacts(capsuleVsConvexPolyhedronBatch, updateLastFrameInfo, isWorldQuery, potentialContactPoints, potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
+    processPotentialContacts(convexPolyhedronVsConvexPolyhedronBatch, updateLastFrameInfo, isWorldQuery, potentialContactPoints,
                              potentialContactManifolds, mapPairIdToContactPairIndex, contactPairs);
 }
 
@@ -724,7 +726,7 @@ void CollisionDetectionSystem::computeNarrowPhase() {
     testNarrowPhaseCollision(mNarrowPhaseInput, true, allocator);
 
     // Process all the potential contacts after narrow-phase collision
-    processAllPotentialContacts(mNarrowPhaseInput, true, mPotentialContactPoints,
+    processAllPotentialContacts(mNarrowPhaseInput, true, false, mPotentialContactPoints,
                                 mPotentialContactManifolds, mCurrentContactPairs);
 
     // Reduce the number of contact points in the manifolds
@@ -882,7 +884,7 @@ bool CollisionDetectionSystem::computeNarrowPhaseCollisionSnapshot(NarrowPhaseIn
         Array<ContactPoint> contactPoints(allocator);
 
         // Process all the potential contacts after narrow-phase collision
-        processAllPotentialContacts(narrowPhaseInput, true, potentialContactPoints, potentialContactManifolds, &contactPairs);
+        processAllPotentialContacts(narrowPhaseInput, true, true, potentialContactPoints, potentialContactManifolds, &contactPairs);
 
         // Reduce the number of contact points in the manifolds
         reducePotentialContactManifolds(&contactPairs, potentialContactManifolds, potentialContactPoints);
@@ -1215,7 +1217,7 @@ void CollisionDetectionSystem::raycast(RaycastCallback* raycastCallback, const R
 }
 
 // Convert the potential contact into actual contacts
-void CollisionDetectionSystem::processPotentialContacts(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, bool updateLastFrameInfo,
+void CollisionDetectionSystem::processPotentialContacts(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, bool updateLastFrameInfo, bool isWorldQuery,
                                                         Array<ContactPointInfo>& potentialContactPoints,
                                                         Array<ContactManifoldInfo>& potentialContactManifolds,
                                                         Map<uint64, uint>& mapPairIdToContactPairIndex,
@@ -1247,7 +1249,8 @@ void CollisionDetectionSystem::processPotentialContacts(NarrowPhaseInfoBatch& na
             OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
             assert(overlappingPair != nullptr);
 
-            overlappingPair->collidingInCurrentFrame = true;
+            // A world query must not change the state of the pair in the simulation
+            if (!isWorldQuery) overlappingPair->collidingInCurrentFrame = true;
 
 
             const Entity collider1Entity = narrowPhaseInfoBatch.narrowPhaseInfos[i].colliderEntity1;
-- 
2.43.0


From 2b2bbecf5df1a168dbc240f8459521a94f52cb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:11 +0000
Subject: [PATCH 41/73] fix: lost contacts waiting to be reported were kept
 when their collider was destroyed

---
 src/systems/CollisionDetectionSystem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index e7e47be..600b235 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -1198,6 +1198,15 @@ void CollisionDetectionSystem::removeCollider(Collider* collider) {
         removeOverlappingPair(overlappingPairs[0], false);
     }
 
+    // Remove the lost contact pairs of this collider that are waiting to be reported in the next update
+    for (uint64 i=0; i < mLostContactPairs.size(); i++) {
+
+        if (mLostContactPairs[i].collider1Entity == collider->getEntity() || mLostContactPairs[i].collider2Entity == collider->getEntity()) {
+            mLostContactPairs.removeAt(i);
+            i--;
+        }
+    }
+
     mMapBroadPhaseIdToColliderEntity.remove(colliderBroadPhaseId);
 
     // Remove the body from the broad-phase
-- 
2.43.0


From 90203d0e7d113700f218541b6c2441838e062788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 42/73] fix: position correction of hinge limits used the mass
 matrix of the previous iteration and became infinite for two non-dynamic
 bodies

---
 src/systems/SolveHingeJointSystem.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index f96e28a..7cb13b0 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -542,9 +542,10 @@ void SolveHingeJointSystem::solvePositionConstraint() {
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
-                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
-                                          decimal(1.0) / mHingeJointComponents.mInverseMassMatrixLimitMotor[i] : decimal(0.0);
+                inverseMassMatrixLimitMotor = a1.dot(mHingeJointComponents.mI1[i] * a1) + a1.dot(mHingeJointComponents.mI2[i] * a1);
+                inverseMassMatrixLimitMotor = (inverseMassMatrixLimitMotor > decimal(0.0)) ?
+                                          decimal(1.0) / inverseMassMatrixLimitMotor : decimal(0.0);
+                mHingeJointComponents.mInverseMassMatrixLimitMotor[i] = inverseMassMatrixLimitMotor;
             }
 
             // If the lower limit is violated
-- 
2.43.0


From 3b63f9c078cc61483ad9b4be2087813b1da3cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:39 +0000
Subject: [PATCH 43/73] fix: position correction of slider joints stopped at
 the first joint that uses the Baumgarte technique

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3f8a721..599acb4 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -524,7 +524,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // If the error position correction technique is not the non-linear-gauss-seidel, we do
         // do not execute this method
-        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) return;
+        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) continue;
 
         // Get the bodies entities
         const Entity body1Entity = mJointComponents.mBody1Entities[jointIndex];
-- 
2.43.0


From 6015b63f45125a6ce6afe5d2ea7303aba32ca3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:33 +0000
Subject: [PATCH 44/73] fix: a body that becomes static kept the velocities of
 its last update in the solvers and pushed other bodies

---
 src/body/RigidBody.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index b5067fa..8539c31 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -79,6 +79,12 @@ void RigidBody::setType(BodyType type) {
         const Transform& transform = getTransform();
         mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
+
+        // The solvers still read those velocities but they are not updated anymore for a static body
+        mWorld.mRigidBodyComponents.setConstrainedLinearVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setConstrainedAngularVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setSplitLinearVelocity(mEntity, Vector3::zero());
+        mWorld.mRigidBodyComponents.setSplitAngularVelocity(mEntity, Vector3::zero());
     }
 
     // If it is a static or a kinematic body
-- 
2.43.0


From 0200104207444fc87ede21db9d73a03fa131b1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 45/73] fix: quick hull refused hulls with faces smaller than
 1e-5 in builds with assertions

---
 src/utils/quickhull/QHHalfEdgeStructure.cpp | 2 +-
 src/utils/quickhull/QuickHull.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index 124f28d..cf8440d 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -340,7 +340,7 @@ bool QHHalfEdgeStructure::isValid() const {
        isValid &= (face->previousFace == nullptr || face->previousFace == previousFace);
        isValid &= (previousFace == nullptr || previousFace->nextFace == face);
        isValid &= face->isValid();
-       isValid &= face->area > 0.00001;
+       isValid &= face->area > decimal(0.0);
        nbFaces++;
     };
     isValid &= nbFaces > 0 || mFaces == nullptr;
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index f45a55f..c1a4bcd 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -148,7 +148,7 @@ void QuickHull::computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convex
     // For each face of the convex hull
     for (const QHHalfEdgeStructure::Face* face = convexHull.getFaces(); face != nullptr; face = face->nextFace) {
 
-        assert(face->area > 0.00001);
+        assert(face->area > decimal(0.0));
 
         PolygonVertexArray::PolygonFace polygonFace;
         polygonFace.nbVertices = 0;
-- 
2.43.0


From bb540f8e842fa7093f1bf9bb5766401c68e69170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:45 +0000
Subject: [PATCH 46/73] fix: quick hull lost track of half-edges when it merged
 the two edges of a redundant vertex

---
 .../utils/quickhull/QHHalfEdgeStructure.h            |  3 +++
 src/utils/quickhull/QHHalfEdgeStructure.cpp          | 12 ++++++++++++
 src/utils/quickhull/QuickHull.cpp                    |  4 ++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
index a7a86b0..4432326 100644
--- a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
+++ b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
@@ -321,6 +321,9 @@ class QHHalfEdgeStructure {
         /// Delete the face
         void deleteFace(Face* face);
 
+        /// Change the two vertices of an half-edge
+        void setEdgeVertices(Edge* edge, Vertex* startVertex, Vertex* endVertex);
+
         /// Remove an half-edge
         void removeHalfEdge(Edge* edge);
 
diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index cf8440d..13566ea 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -255,6 +255,18 @@ void QHHalfEdgeStructure::removeFaceFromLinkedList(Face* face) {
     }
 }
 
+// Change the two vertices of an half-edge
+void QHHalfEdgeStructure::setEdgeVertices(Edge* edge, Vertex* startVertex, Vertex* endVertex) {
+
+    mMapVerticesToEdge.remove(EdgeVertices(edge->startVertex, edge->endVertex));
+
+    edge->startVertex = startVertex;
+    edge->endVertex = endVertex;
+
+    assert(!mMapVerticesToEdge.containsKey(EdgeVertices(startVertex, endVertex)));
+    mMapVerticesToEdge.add(Pair<EdgeVertices, Edge*>(EdgeVertices(startVertex, endVertex), edge));
+}
+
 // Remove an half-edge
 void QHHalfEdgeStructure::removeHalfEdge(Edge* edge) {
 
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index c1a4bcd..413aec2 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -729,11 +729,11 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
         QHHalfEdgeStructure::Vertex* vertexToRemove = inEdge->endVertex;
         QHHalfEdgeStructure::Edge* outEdgeToRemove = inEdge->nextFaceEdge;
 
-        inEdge->twinEdge->startVertex = outEdgeToRemove->endVertex;
+        convexHull.setEdgeVertices(inEdge->twinEdge, outEdgeToRemove->endVertex, inEdge->twinEdge->endVertex);
         outEdgeToRemove->twinEdge->previousFaceEdge->nextFaceEdge = inEdge->twinEdge;
         inEdge->twinEdge->previousFaceEdge = outEdgeToRemove->twinEdge->previousFaceEdge;
 
-        inEdge->endVertex = outEdgeToRemove->endVertex;
+        convexHull.setEdgeVertices(inEdge, inEdge->startVertex, outEdgeToRemove->endVertex);
         inEdge->nextFaceEdge = outEdgeToRemove->nextFaceEdge;
         inEdge->nextFaceEdge->previousFaceEdge = inEdge;
 
-- 
2.43.0


From 2956b8a77fcd2e627ace05f77b253c482c3e6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 47/73] fix: computing the convex hull of an empty vertex array
 divided by zero

---
 src/utils/quickhull/QuickHull.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index 413aec2..7d05c4c 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -765,7 +765,9 @@ void QuickHull::removeDuplicatedVertices(Array<Vector3>& points, MemoryAllocator
     for (uint32 i=0; i < points.size(); i++) {
         center += points[i];
     }
-    center /= points.size();
+    if (points.size() > 0) {
+        center /= points.size();
+    }
 
     // For each input point
     for (uint32 i=0; i < points.size(); i++) {
-- 
2.43.0


From 090094bb08e0d073e8e1be4471c4abb7e49130aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 48/73] fix: creating a convex mesh from invalid faces read out
 of bounds instead of being rejected

---
 src/collision/ConvexMesh.cpp | 61 +++++++++++++++++++++++++++++++++---
 1 file changed, 56 insertions(+), 5 deletions(-)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index e301ea6..395e811 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -52,6 +52,12 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
 
     bool isValid = true;
 
+    // If the mesh does not have any vertices or faces
+    if (polygonVertexArray.getNbVertices() == 0 || polygonVertexArray.getNbFaces() == 0) {
+        errors.push_back(Message("The mesh does not have any vertices or faces"));
+        return false;
+    }
+
     // Reserve memory for the vertices, faces and edges
     mVertices.reserve(polygonVertexArray.getNbVertices());
     mFacesNormals.reserve(polygonVertexArray.getNbFaces());
@@ -64,13 +70,20 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
     // Create the half-edge structure of the mesh
     isValid &= createHalfEdgeStructure(polygonVertexArray, errors);
 
+    // If the input data is not valid, there is nothing more we can compute
+    if (!isValid) {
+        return false;
+    }
+
     // Compute the faces normals
-    isValid &= computeFacesNormals(errors);
+    if (!computeFacesNormals(errors)) {
+        return false;
+    }
 
     // Compute the volume of the mesh
     computeVolume();
 
-   return isValid;
+   return true;
 }
 
 // Copy the vertices into the mesh
@@ -126,6 +139,10 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
 
     uint32 nbEdges = 0;
 
+    // Directed edges of the faces
+    Set<Pair<uint32, uint32>> edges(mMemoryAllocator);
+    bool areEdgesValid = true;
+
     // For each polygon face of the mesh
     const uint32 nbFaces = polygonVertexArray.getNbFaces();
     for (uint32 f=0; f < nbFaces; f++) {
@@ -137,7 +154,28 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
 
         // For each vertex of the face
         for (uint32 v=0; v < face->nbVertices; v++) {
-            faceVertices.add(polygonVertexArray.getVertexIndexInFace(f, v));
+
+            const uint32 vertexIndex = polygonVertexArray.getVertexIndexInFace(f, v);
+
+            // If the face uses a vertex that does not exist
+            if (vertexIndex >= nbVertices) {
+
+                // Create a new error
+                errors.push_back(Message("The face with index " + std::to_string(f) + " has an out of bounds vertex index"));
+
+                isValid = false;
+            }
+
+            faceVertices.add(vertexIndex);
+        }
+
+        // For each directed edge of the face
+        for (uint32 v=0; v < face->nbVertices; v++) {
+
+            const Pair<uint32, uint32> edge(faceVertices[v], faceVertices[v == face->nbVertices - 1 ? 0 : v + 1]);
+
+            // A directed edge must be part of a single face
+            areEdgesValid &= edge.first != edge.second && edges.add(edge);
         }
 
         nbEdges += face->nbVertices;
@@ -172,11 +210,24 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
-    //if (isValid) {
+    // Each directed edge must have a twin edge in another face
+    for (auto it = edges.begin(); it != edges.end(); ++it) {
+        areEdgesValid &= edges.contains(Pair<uint32, uint32>(it->second, it->first));
+    }
+
+    if (!areEdgesValid) {
+
+        // Create a new error
+        errors.push_back(Message("The faces of the Convex Mesh do not form a closed mesh"));
+
+        isValid = false;
+    }
+
+    if (isValid) {
 
         // Initialize the half-edge structure
         mHalfEdgeStructure.computeHalfEdges();
-    //}
+    }
 
     return isValid;
 }
-- 
2.43.0


From acd8ec1c0faa9cef35edfc9249945e78cf3f9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 49/73] fix: the first vertex of a triangle mesh was kept when
 no triangle uses it

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 7c3029d..c2c44dc 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -217,7 +217,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 void TriangleMesh::removeUnusedVertices(Array<bool>& areUsedVertices) {
 
     // For each vertex of the user mesh
-    for (uint32 i=mVertices.size() - 1; i > 0; i--) {
+    for (uint32 i=static_cast<uint32>(mVertices.size()); i-- > 0; ) {
 
         // If the vertex is not used
         if (!areUsedVertices[i]) {
-- 
2.43.0


From 4c6d0d7758e68072c1795dd9968e4f67283c5df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:32 +0000
Subject: [PATCH 50/73] fix: computed vertex normals of triangle meshes
 weighted obtuse angles as right angles

---
 src/collision/TriangleMesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index c2c44dc..281e7a2 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -306,7 +306,7 @@ void TriangleMesh::computeVerticesNormals() {
             assert(lengthATimesLengthB * lengthATimesLengthB >= mEpsilon * mEpsilon);
 
             decimal cosA = dotProduct / lengthATimesLengthB;
-            cosA = std::min(std::max(cosA, decimal(0.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
+            cosA = std::min(std::max(cosA, decimal(-1.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
             const decimal angle = std::acos(cosA);
             assert(angle >= decimal(0.0));
 
-- 
2.43.0


From adb7922a10fb74d7c537c08ca85bd3d8dc56dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 51/73] fix: creating a triangle mesh without vertices or with
 all vertices at the origin failed assertions instead of being refused

---
 src/collision/TriangleMesh.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 281e7a2..4380c9a 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -92,8 +92,6 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
     bool isValid = true;
 
-    assert(mEpsilon > 0);
-
     const decimal epsilonSquare = mEpsilon * mEpsilon;
 
     Array<bool> areUserVerticesUsed(mAllocator);
@@ -135,7 +133,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             const Vector3 v2 = triangleVertexArray.getVertex(vertexIndices[1]);
             const Vector3 v3 = triangleVertexArray.getVertex(vertexIndices[2]);
             const Vector3 faceNormal = (v3 - v1).cross(v2 - v1);
-            const bool isFaceZeroArea = faceNormal.lengthSquare() < epsilonSquare;
+            const bool isFaceZeroArea = faceNormal.lengthSquare() <= epsilonSquare;
             if (isFaceZeroArea) {
 
                 // Add a warning message for the user
@@ -148,8 +146,8 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             edgesLengthsSquare[0] = (v2 - v1).lengthSquare();
             edgesLengthsSquare[1] = (v3 - v2).lengthSquare();
             edgesLengthsSquare[2] = (v1 - v3).lengthSquare();
-            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] < epsilonSquare || edgesLengthsSquare[1] < epsilonSquare ||
-                                         edgesLengthsSquare[2] < epsilonSquare;
+            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] <= epsilonSquare || edgesLengthsSquare[1] <= epsilonSquare ||
+                                         edgesLengthsSquare[2] <= epsilonSquare;
             if (hasFaceZeroLengthEdge) {
 
                 // Add a warning message for the user
-- 
2.43.0


From 84f016549d27bc3d99a778e0dd90889f558ca47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 52/73] fix: height fields were allocated with the size of
 triangle meshes

---
 src/engine/PhysicsCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index fa536d6..b030554 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -484,7 +484,7 @@ HeightField* PhysicsCommon::createHeightField(int nbGridColumns, int nbGridRows,
                                               decimal integerHeightScale) {
 
     // Create the height-field
-    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(TriangleMesh))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
+    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(HeightField))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
 
     // Initialize the height-field
     bool isValid = heightField->init(nbGridColumns, nbGridRows, heightFieldData, dataType, messages,
-- 
2.43.0


From f5fc9a58adf70b966613fe0c2c65bb84b8bc5f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 53/73] fix: contact pairs lost between updates were kept in
 frame memory that another world's update recycles

---
 src/systems/CollisionDetectionSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 600b235..5a5fc6e 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -66,7 +66,7 @@ CollisionDetectionSystem::CollisionDetectionSystem(PhysicsWorld* world, Collider
                      mNarrowPhaseInput(mMemoryManager.getSingleFrameAllocator(), mOverlappingPairs), mPotentialContactPoints(mMemoryManager.getSingleFrameAllocator()),
                      mPotentialContactManifolds(mMemoryManager.getSingleFrameAllocator()), mContactPairs1(mMemoryManager.getPoolAllocator()),
                      mContactPairs2(mMemoryManager.getPoolAllocator()), mPreviousContactPairs(&mContactPairs1), mCurrentContactPairs(&mContactPairs2),
-                     mLostContactPairs(mMemoryManager.getSingleFrameAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
+                     mLostContactPairs(mMemoryManager.getHeapAllocator()), mPreviousMapPairIdToContactPairIndex(mMemoryManager.getHeapAllocator()),
                      mContactManifolds1(mMemoryManager.getPoolAllocator()), mContactManifolds2(mMemoryManager.getPoolAllocator()),
                      mPreviousContactManifolds(&mContactManifolds1), mCurrentContactManifolds(&mContactManifolds2),
                      mContactPoints1(mMemoryManager.getPoolAllocator()), mContactPoints2(mMemoryManager.getPoolAllocator()),
-- 
2.43.0


From 084732969981a24228b1f78179a6669ef9213ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 54/73] Hook: RP3D_VERIF_PLAIN_ALLOCATORS takes every block
 from the base allocator

---
 .../memory/SingleFrameAllocator.h             |  9 ++++++++
 src/memory/HeapAllocator.cpp                  | 10 +++++++++
 src/memory/PoolAllocator.cpp                  | 10 +++++++++
 src/memory/SingleFrameAllocator.cpp           | 21 +++++++++++++++++++
 4 files changed, 50 insertions(+)

diff --git a/include/reactphysics3d/memory/SingleFrameAllocator.h b/include/reactphysics3d/memory/SingleFrameAllocator.h
index 9455bb3..2ac200b 100644
--- a/include/reactphysics3d/memory/SingleFrameAllocator.h
+++ b/include/reactphysics3d/memory/SingleFrameAllocator.h
@@ -30,6 +30,10 @@
 #include <reactphysics3d/memory/MemoryAllocator.h>
 #include <reactphysics3d/configuration.h>
 #include <mutex>
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+#include <utility>
+#include <vector>
+#endif
 
 /// ReactPhysics3D namespace
 namespace reactphysics3d {
@@ -68,6 +72,11 @@ class SingleFrameAllocator : public MemoryAllocator {
         /// True if we need to allocate more memory in the next reset() call
         bool mNeedToAllocatedMore;
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+        /// Verification hook: blocks of the current frame, taken directly from the base allocator
+        std::vector<std::pair<void*, size_t>> mFrameBlocks;
+#endif
+
     public :
 
         // -------------------- Methods -------------------- //
diff --git a/src/memory/HeapAllocator.cpp b/src/memory/HeapAllocator.cpp
index 8f317eb..3ea526a 100644
--- a/src/memory/HeapAllocator.cpp
+++ b/src/memory/HeapAllocator.cpp
@@ -136,6 +136,11 @@ void* HeapAllocator::allocate(size_t size) {
         mNbTimesAllocateMethodCalled++;
 #endif
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    // Verification hook: every block comes directly from the base allocator, such that tools can watch it
+    return mBaseAllocator.allocate(size);
+#endif
+
     MemoryUnitHeader* currentUnit = mFreeUnits;
 
     // For each free memory unit
@@ -226,6 +231,11 @@ void HeapAllocator::release(void* pointer, size_t size) {
         mNbTimesAllocateMethodCalled--;
 #endif
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    mBaseAllocator.release(pointer, size);
+    return;
+#endif
+
     // Read the alignment offset in order to compute the initial allocated
     // raw address (instead of the aligned address)
     const uint8* pAlignedMemory = reinterpret_cast<const uint8*>(pointer);
diff --git a/src/memory/PoolAllocator.cpp b/src/memory/PoolAllocator.cpp
index df04b8e..c03c424 100644
--- a/src/memory/PoolAllocator.cpp
+++ b/src/memory/PoolAllocator.cpp
@@ -112,6 +112,11 @@ void* PoolAllocator::allocate(size_t size) {
         mNbTimesAllocateMethodCalled++;
 #endif
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    // Verification hook: every block comes directly from the base allocator, such that tools can watch it
+    return mBaseAllocator.allocate(size);
+#endif
+
     // If we need to allocate more than the maximum memory unit size
     if (size > MAX_UNIT_SIZE) {
 
@@ -206,6 +211,11 @@ void PoolAllocator::release(void* pointer, size_t size) {
         mNbTimesAllocateMethodCalled--;
 #endif
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    mBaseAllocator.release(pointer, size);
+    return;
+#endif
+
     // If the size is larger than the maximum memory unit size
     if (size > MAX_UNIT_SIZE) {
 
diff --git a/src/memory/SingleFrameAllocator.cpp b/src/memory/SingleFrameAllocator.cpp
index 00ff8e6..e5eef1b 100644
--- a/src/memory/SingleFrameAllocator.cpp
+++ b/src/memory/SingleFrameAllocator.cpp
@@ -50,6 +50,10 @@ SingleFrameAllocator::SingleFrameAllocator(MemoryAllocator& baseAllocator) : mBa
 // Destructor
 SingleFrameAllocator::~SingleFrameAllocator() {
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    reset();
+#endif
+
     // Release the memory allocated at the beginning
     mBaseAllocator.release(mMemoryBufferStart, mTotalSizeBytes);
 }
@@ -61,6 +65,12 @@ void* SingleFrameAllocator::allocate(size_t size) {
     // Lock the method with a mutex
     std::lock_guard<std::mutex> lock(mMutex);
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    // Verification hook: every block comes directly from the base allocator, such that tools can watch it
+    mFrameBlocks.emplace_back(mBaseAllocator.allocate(size), size);
+    return mFrameBlocks.back().first;
+#endif
+
     // Allocate a little bit more memory to make sure we can return an aligned address
     const size_t totalSize = size + GLOBAL_ALIGNMENT;
 
@@ -96,6 +106,10 @@ void SingleFrameAllocator::release(void* pointer, size_t size) {
     // Lock the method with a mutex
     std::lock_guard<std::mutex> lock(mMutex);
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    return;     // Released all together at the end of the frame
+#endif
+
     // If allocated memory is not within the single frame allocation range
     char* p = static_cast<char*>(pointer);
     if (p < mMemoryBufferStart || p > mMemoryBufferStart + mTotalSizeBytes) {
@@ -111,6 +125,13 @@ void SingleFrameAllocator::reset() {
     // Lock the method with a mutex
     std::lock_guard<std::mutex> lock(mMutex);
 
+#ifdef RP3D_VERIF_PLAIN_ALLOCATORS
+    for (auto& block : mFrameBlocks) {
+        mBaseAllocator.release(block.first, block.second);
+    }
+    mFrameBlocks.clear();
+#endif
+
     // If we need to allocate more memory
     if (mNeedToAllocatedMore) {
 
-- 
2.43.0


From c14b345daface9411cf67f74d3819b146180b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 55/73] fix: sleep times kept from before sleeping was disabled
 made bodies fall asleep too early afterwards

---
 src/engine/PhysicsWorld.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 0410384..71a2a82 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -964,6 +964,9 @@ void PhysicsWorld::enableSleeping(bool isSleepingEnabled) {
 
             // Wake up the rigid body
             (*it)->setIsSleeping(false);
+
+            // Reset its sleep time (the sleep times are not updated while the sleeping technique is disabled)
+            mRigidBodyComponents.setSleepTime((*it)->getEntity(), decimal(0.0));
         }
     }
 
-- 
2.43.0


From 7ad26b45fb2a525b285d76aeb2ba6a17c62dc394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 56/73] fix: the debug renderer left parts of convex mesh faces
 with four or more vertices uncovered

---
 src/utils/DebugRenderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index cc32900..4ab2d57 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -314,7 +314,7 @@ void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshS
         const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
         for (uint32 v = 2; v < nbFaceVertices; v++) {
 
-            uint32 v1Index = face.faceVertices[v - 2];
+            uint32 v1Index = face.faceVertices[0];
             uint32 v2Index = face.faceVertices[v - 1];
             uint32 v3Index = face.faceVertices[v];
 
-- 
2.43.0


From b0526858511339efd4221fc8deb4bd3a52c3aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:11 +0000
Subject: [PATCH 57/73] fix: the debug renderer drew spheres and capsules when
 only the shape normals were selected

---
 src/utils/DebugRenderer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index 4ab2d57..7a48737 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -444,13 +444,17 @@ void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
         case CollisionShapeName::SPHERE:
         {
             const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CAPSULE:
         {
             const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CONVEX_MESH:
-- 
2.43.0


From 8543ca34d5664fec24f30458104cf76f346adf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:09 +0000
Subject: [PATCH 58/73] fix: warm starting applied the twist friction impulse
 of persistent contacts twice

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From e81ed5dfc8779d522719cbbd5eb49821fd7ce4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:53 +0000
Subject: [PATCH 59/73] fix: the friction directions of a contact were not
 tangential when hardly any tangential velocity was left

---
 src/systems/ContactSolverSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index 797a984..2213c88 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -792,9 +792,10 @@ void ContactSolverSystem::computeFrictionVectors(const Vector3& deltaVelocity, C
     Vector3 tangentVelocity(deltaVelocity.x - normalVelocity.x, deltaVelocity.y - normalVelocity.y,
                             deltaVelocity.z - normalVelocity.z);
 
-    // If the velocty difference in the tangential plane is not zero
+    // If the velocty difference in the tangential plane is not zero (when it is tiny compared to the velocity
+    // difference, only rounding errors are left of it and its direction is meaningless)
     const decimal lengthTangentVelocity = tangentVelocity.length();
-    if (lengthTangentVelocity > MACHINE_EPSILON) {
+    if (lengthTangentVelocity > MACHINE_EPSILON * std::max(decimal(1.0), decimal(1000.0) * deltaVelocity.length())) {
 
         // Compute the first friction vector in the direction of the tangent
         // velocity difference
-- 
2.43.0


From 8942c715fc99b01c4d9a3cfe899759777d98d2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:33 +0000
Subject: [PATCH 60/73] fix: joints between heavy bodies were not solved
 because their mass matrix was taken for singular

---
 include/reactphysics3d/mathematics/Matrix2x2.h | 8 ++++++++
 include/reactphysics3d/mathematics/Matrix3x3.h | 8 ++++++++
 src/mathematics/Matrix2x2.cpp                  | 2 +-
 src/systems/SolveBallAndSocketJointSystem.cpp  | 4 ++--
 src/systems/SolveFixedJointSystem.cpp          | 8 ++++----
 src/systems/SolveHingeJointSystem.cpp          | 8 ++++----
 src/systems/SolveSliderJointSystem.cpp         | 8 ++++----
 7 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Matrix2x2.h b/include/reactphysics3d/mathematics/Matrix2x2.h
index 6410012..27ba806 100644
--- a/include/reactphysics3d/mathematics/Matrix2x2.h
+++ b/include/reactphysics3d/mathematics/Matrix2x2.h
@@ -80,6 +80,9 @@ class Matrix2x2 {
         /// Return the trace of the matrix
         decimal getTrace() const;
 
+        /// Return true if the matrix is invertible, whatever the scale of its elements
+        bool isInvertible(decimal determinant) const;
+
         /// Return the inverse matrix
         Matrix2x2 getInverse() const;
 
@@ -228,6 +231,11 @@ RP3D_FORCE_INLINE Matrix2x2 Matrix2x2::zero() {
     return Matrix2x2(0.0, 0.0, 0.0, 0.0);
 }
 
+// Return true if the matrix is invertible, whatever the scale of its elements
+RP3D_FORCE_INLINE bool Matrix2x2::isInvertible(decimal determinant) const {
+    return std::abs(determinant) > MACHINE_EPSILON * std::abs(mRows[0][0] * mRows[1][1]);
+}
+
 // Return the inverse matrix
 RP3D_FORCE_INLINE Matrix2x2 Matrix2x2::getInverse() const {
 
diff --git a/include/reactphysics3d/mathematics/Matrix3x3.h b/include/reactphysics3d/mathematics/Matrix3x3.h
index 9ea7b80..f901e5b 100644
--- a/include/reactphysics3d/mathematics/Matrix3x3.h
+++ b/include/reactphysics3d/mathematics/Matrix3x3.h
@@ -83,6 +83,9 @@ class Matrix3x3 {
         /// Return the trace of the matrix
         decimal getTrace() const;
 
+        /// Return true if the matrix is invertible, whatever the scale of its elements
+        bool isInvertible(decimal determinant) const;
+
         /// Return the inverse matrix
         Matrix3x3 getInverse() const;
 
@@ -240,6 +243,11 @@ RP3D_FORCE_INLINE Matrix3x3 Matrix3x3::zero() {
     return Matrix3x3(0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0);
 }
 
+// Return true if the matrix is invertible, whatever the scale of its elements
+RP3D_FORCE_INLINE bool Matrix3x3::isInvertible(decimal determinant) const {
+    return std::abs(determinant) > MACHINE_EPSILON * std::abs(mRows[0][0] * mRows[1][1] * mRows[2][2]);
+}
+
 // Return the inverse matrix
 RP3D_FORCE_INLINE Matrix3x3 Matrix3x3::getInverse() const {
 
diff --git a/src/mathematics/Matrix2x2.cpp b/src/mathematics/Matrix2x2.cpp
index 9dd03e5..2cba10a 100644
--- a/src/mathematics/Matrix2x2.cpp
+++ b/src/mathematics/Matrix2x2.cpp
@@ -32,7 +32,7 @@ using namespace reactphysics3d;
 Matrix2x2 Matrix2x2::getInverse(decimal determinant) const {
 
     // Check if the determinant is equal to zero
-    assert(std::abs(determinant) > MACHINE_EPSILON);
+    assert(determinant != decimal(0.0));
 
     decimal invDeterminant = decimal(1.0) / determinant;
 
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 70c851d..6853b77 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -100,7 +100,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mBallAndSocketJointComponents.mInverseMassMatrix[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -398,7 +398,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mBallAndSocketJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 048da03..4387f31 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -93,7 +93,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1 for the 3 translation constraints
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -116,7 +116,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse of the mass matrix K=JM^-1J^t for the 3 rotation contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mInverseMassMatrixRotation[i].getInverse(massMatrixRotationDeterminant);
@@ -342,7 +342,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mFixedJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
@@ -389,7 +389,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 7cb13b0..d9dc9c1 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -110,7 +110,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         Matrix3x3& inverseMassMatrixTranslation = mHingeJointComponents.mInverseMassMatrixTranslation[i];
         inverseMassMatrixTranslation.setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -144,7 +144,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixKRotationDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixKRotationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixKRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixKRotationDeterminant);
@@ -621,7 +621,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixDeterminant);
@@ -667,7 +667,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mHingeJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mHingeJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         matrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(matrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 599acb4..788bb40 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -185,7 +185,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -197,7 +197,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = i1 + i2;
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -700,7 +700,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = mSliderJointComponents.mI1[i] + mSliderJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -784,7 +784,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
-- 
2.43.0


From 56950bc6cd0be6b2b5f7d4bccf8a6de2ba163817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 61/73] fix: the hinge angle was wrong when both bodies had
 rotated since the joint was created

---
 src/constraint/HingeJoint.cpp         | 9 +++++----
 src/systems/SolveHingeJointSystem.cpp | 8 ++------
 2 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/constraint/HingeJoint.cpp b/src/constraint/HingeJoint.cpp
index 1743034..bdd180f 100644
--- a/src/constraint/HingeJoint.cpp
+++ b/src/constraint/HingeJoint.cpp
@@ -74,11 +74,12 @@ HingeJoint::HingeJoint(Entity entity, PhysicsWorld &world, const HingeJointInfo&
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody1(mEntity, hingeLocalAxisBody1);
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody2(mEntity, hingeLocalAxisBody2);
 
-    // Compute the inverse of the initial orientation difference between the two bodies
-    Quaternion initOrientationDifferenceInv = transform2.getOrientation() *
-                                    transform1.getOrientation().getInverse();
+    // Store inverse of initial rotation from body 1 to body 2 in body 1 space:
+    //
+    // q20 = q10 r0
+    // <=> r0^-1 = q20^-1 q10
+    Quaternion initOrientationDifferenceInv = transform2.getOrientation().getInverse() * transform1.getOrientation();
     initOrientationDifferenceInv.normalize();
-    initOrientationDifferenceInv.inverse();
     mWorld.mHingeJointsComponents.setInitOrientationDifferenceInv(mEntity, initOrientationDifferenceInv);
 }
 
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index d9dc9c1..09b2f6a 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -761,12 +761,8 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
 
     decimal hingeAngle;
 
-    // Compute the current orientation difference between the two bodies
-    Quaternion currentOrientationDiff = orientationBody2 * orientationBody1.getInverse();
-    currentOrientationDiff.normalize();
-
-    // Compute the relative rotation considering the initial orientation difference
-    Quaternion relativeRotation = currentOrientationDiff * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity);
+    // Compute the relative rotation (in world-space) considering the initial orientation difference
+    Quaternion relativeRotation = orientationBody2 * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity) * orientationBody1.getInverse();
     relativeRotation.normalize();
 
     // A quaternion q = [cos(theta/2); sin(theta/2) * rotAxis] where rotAxis is a unit
-- 
2.43.0


From 0549bcaa41c0b35625d029f25f83ea31df64321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 62/73] fix: the cone limit of the ball-and-socket joint was
 corrected too far because its axis was not normalized

---
 src/systems/SolveBallAndSocketJointSystem.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 6853b77..00e620a 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -119,6 +119,9 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         const Vector3 r1WorldUnit = r1World.getUnit();
         const Vector3 r2WorldUnit = r2World.getUnit();
         mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+        const decimal lengthACrossB = mBallAndSocketJointComponents.mConeLimitACrossB[i].length();
+        mBallAndSocketJointComponents.mConeLimitACrossB[i] = (lengthACrossB > MACHINE_EPSILON) ?
+                                  mBallAndSocketJointComponents.mConeLimitACrossB[i] / lengthACrossB : Vector3::zero();
 
         // Compute the current angle around the hinge axis
         decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
@@ -349,6 +352,9 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
             mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+            const decimal lengthACrossB = mBallAndSocketJointComponents.mConeLimitACrossB[i].length();
+            mBallAndSocketJointComponents.mConeLimitACrossB[i] = (lengthACrossB > MACHINE_EPSILON) ?
+                                      mBallAndSocketJointComponents.mConeLimitACrossB[i] / lengthACrossB : Vector3::zero();
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
             mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
-- 
2.43.0


From 6a8a858341a6409485d260e0b9d7b73c579edfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:19 +0000
Subject: [PATCH 63/73] fix: the mass of the slider limit used the lever arm of
 the previous update

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 788bb40..2b3f133 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -97,6 +97,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(mSliderJointComponents.mN2[i]);
         mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
@@ -155,7 +156,6 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN1[i]);
         mSliderJointComponents.mR2CrossN2[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mN2[i]);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = mSliderJointComponents.mR2[i].cross(mSliderJointComponents.mSliderAxisWorld[i]);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
-- 
2.43.0


From 4862e989c942e94b389fdb82716d453368a5e9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 64/73] fix: the cone half angle was not a number when rounding
 put the cosine outside [-1, 1]

---
 include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
index 84441fd..c129f97 100644
--- a/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
+++ b/include/reactphysics3d/systems/SolveBallAndSocketJointSystem.h
@@ -150,7 +150,7 @@ RP3D_FORCE_INLINE void SolveBallAndSocketJointSystem::setIsWarmStartingActive(bo
 RP3D_FORCE_INLINE decimal SolveBallAndSocketJointSystem::computeCurrentConeHalfAngle(const Vector3& coneLimitWorldAxisBody1,
                                                                                      const Vector3& coneLimitWorldAxisBody2) {
 
-    return std::acos(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2));
+    return std::acos(clamp(coneLimitWorldAxisBody1.dot(coneLimitWorldAxisBody2), decimal(-1.0), decimal(1.0)));
 }
 
 }
-- 
2.43.0


From 279a1b7d9367dfadcc1e556e944420dd0c785247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:42 +0000
Subject: [PATCH 65/73] fix: reaction force and torque of slider and hinge
 joints were expressed with the axes of the position correction

---
 src/systems/SolveHingeJointSystem.cpp  | 19 ++++-----------
 src/systems/SolveSliderJointSystem.cpp | 32 ++++++++++++--------------
 2 files changed, 20 insertions(+), 31 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 09b2f6a..36fdc0d 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -504,23 +504,16 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
 
 
-        Vector3& b2CrossA1 = mHingeJointComponents.mB2CrossA1[i];
-        Vector3& c2CrossA1 = mHingeJointComponents.mC2CrossA1[i];
-
-        Vector3& a1 = mHingeJointComponents.mA1[i];
-
-        // Compute vectors needed in the Jacobian
-        a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
+        // Compute vectors needed in the Jacobian. The impulses of the velocity constraints are relative to
+        // the vectors of the components. Therefore, we do not change those here.
+        Vector3 a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
         Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
         a1.normalize();
-        mHingeJointComponents.mA1[i] = a1;
         a2.normalize();
         const Vector3 b2 = a2.getOneUnitOrthogonalVector();
         const Vector3 c2 = a2.cross(b2);
-        b2CrossA1 = b2.cross(a1);
-        mHingeJointComponents.mB2CrossA1[i] = b2CrossA1;
-        c2CrossA1 = c2.cross(a1);
-        mHingeJointComponents.mC2CrossA1[i] = c2CrossA1;
+        const Vector3 b2CrossA1 = b2.cross(a1);
+        const Vector3 c2CrossA1 = c2.cross(a1);
 
         // Compute the current angle around the hinge axis
         const decimal hingeAngle = computeCurrentHingeAngle(jointEntity, q1, q2);
@@ -537,8 +530,6 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
             decimal inverseMassMatrixLimitMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i];
 
-            Vector3& a1 = mHingeJointComponents.mA1[i];
-
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 2b3f133..08ca342 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -554,23 +554,21 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         const Vector3& r1 = mSliderJointComponents.mR1[i];
         const Vector3& r2 = mSliderJointComponents.mR2[i];
 
-        const Vector3& n1 = mSliderJointComponents.mN1[i];
-        const Vector3& n2 = mSliderJointComponents.mN2[i];
-
         Vector3& x1 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody1];
         Vector3& x2 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody2];
 
         // Compute the vector u (difference between anchor points)
         const Vector3 u = x2 + r2 - x1 - r1;
 
-        // Compute the two orthogonal vectors to the slider axis in world-space
-        mSliderJointComponents.mSliderAxisWorld[i] = q1 * mSliderJointComponents.mSliderAxisBody1[i];
-        mSliderJointComponents.mSliderAxisWorld[i].normalize();
-        mSliderJointComponents.mN1[i] = mSliderJointComponents.mSliderAxisWorld[i].getOneUnitOrthogonalVector();
-        mSliderJointComponents.mN2[i] = mSliderJointComponents.mSliderAxisWorld[i].cross(n1);
+        // Compute the two orthogonal vectors to the slider axis in world-space. The impulses of the velocity
+        // constraints are relative to the vectors of the components. Therefore, we do not change those here.
+        Vector3 sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
+        sliderAxisWorld.normalize();
+        const Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
+        const Vector3 n2 = sliderAxisWorld.cross(n1);
 
         // Check if the limit constraints are violated or not
-        decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+        decimal uDotSliderAxis = u.dot(sliderAxisWorld);
         decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.getLowerLimit(jointEntity);
         decimal upperLimitError = mSliderJointComponents.getUpperLimit(jointEntity) - uDotSliderAxis;
         mSliderJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= 0;
@@ -579,11 +577,11 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
         mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(sliderAxisWorld);
         const Vector3 r1PlusU = r1 + u;
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
-        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(sliderAxisWorld);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
@@ -621,14 +619,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
                 const Vector3 u = x2 + r2 - x1 - r1;
-                decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+                decimal uDotSliderAxis = u.dot(sliderAxisWorld);
                 decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.mLowerLimit[i];
 
                 // Compute the Lagrange multiplier lambda for the lower limit constraint
                 decimal lambdaLowerLimit = mSliderJointComponents.mInverseMassMatrixLimit[i] * (-lowerLimitError);
 
                 // Compute the impulse P=J^T * lambda for the lower limit constraint of body 1
-                const Vector3 linearImpulseBody1 = -lambdaLowerLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody1 = -lambdaLowerLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody1 = -lambdaLowerLimit * r1PlusUCrossSliderAxis;
 
                 // Apply the impulse to the body 1
@@ -641,7 +639,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda for the lower limit constraint of body 2
-                const Vector3 linearImpulseBody2 = lambdaLowerLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody2 = lambdaLowerLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody2 = lambdaLowerLimit * r2CrossSliderAxis;
 
                 // Apply the impulse to the body 2
@@ -660,14 +658,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
                 const Vector3 u = x2 + r2 - x1 - r1;
-                decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+                decimal uDotSliderAxis = u.dot(sliderAxisWorld);
                 decimal upperLimitError = mSliderJointComponents.mUpperLimit[i] - uDotSliderAxis;
 
                 // Compute the Lagrange multiplier lambda for the upper limit constraint
                 decimal lambdaUpperLimit = mSliderJointComponents.mInverseMassMatrixLimit[i] * (-upperLimitError);
 
                 // Compute the impulse P=J^T * lambda for the upper limit constraint of body 1
-                const Vector3 linearImpulseBody1 = lambdaUpperLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody1 = lambdaUpperLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody1 = lambdaUpperLimit * r1PlusUCrossSliderAxis;
 
                 // Apply the impulse to the body 1
@@ -680,7 +678,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda for the upper limit constraint of body 2
-                const Vector3 linearImpulseBody2 = -lambdaUpperLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody2 = -lambdaUpperLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody2 = -lambdaUpperLimit * r2CrossSliderAxis;
 
                 // Apply the impulse to the body 2
-- 
2.43.0


From dcb61b471610c9fe33ea7f4ccd88a9deb90a0e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:10 +0000
Subject: [PATCH 66/73] fix: joints to a static body ignored its center of mass
 when correcting positions

---
 src/body/RigidBody.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 8539c31..73c071d 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -77,7 +77,7 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
 
         const Transform& transform = getTransform();
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
 
         // The solvers still read those velocities but they are not updated anymore for a static body
@@ -362,6 +362,7 @@ void RigidBody::setLocalCenterOfMass(const Vector3& centerOfMass) {
 
     // Compute the center of mass in world-space coordinates
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, mWorld.mTransformComponents.getTransform(mEntity) * centerOfMass);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
 
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
@@ -399,6 +400,7 @@ void RigidBody::updateLocalCenterOfMassFromColliders() {
     // Set the center of mass
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
 
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
@@ -581,6 +583,7 @@ void RigidBody::updateMassPropertiesFromColliders() {
     // Set the center of mass
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
 
     // If it is a dynamic body
     const BodyType type = mWorld.mRigidBodyComponents.getBodyType(mEntity);
@@ -875,7 +878,7 @@ void RigidBody::setTransform(const Transform& transform) {
 
     if (getType() == BodyType::STATIC) {
 
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
-- 
2.43.0


From 279d6b642b76e36b612543da0594a6f6ae08a23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:09 +0000
Subject: [PATCH 67/73] fix: the motor of the hinge joint accelerated the
 bodies away from the motor speed

---
 src/systems/SolveHingeJointSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 36fdc0d..12855f0 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -390,11 +390,11 @@ void SolveHingeJointSystem::solveVelocityConstraint() {
         if (mHingeJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = a1.dot(w1 - w2);
+            const decimal JvMotor = a1.dot(w2 - w1);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mHingeJointComponents.mMaxMotorTorque[i] * mTimeStep;
-            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor - mHingeJointComponents.mMotorSpeed[i]);
+            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor + mHingeJointComponents.mMotorSpeed[i]);
             decimal lambdaTemp = mHingeJointComponents.mImpulseMotor[i];
             mHingeJointComponents.mImpulseMotor[i] = clamp(mHingeJointComponents.mImpulseMotor[i] + deltaLambdaMotor, -maxMotorImpulse, maxMotorImpulse);
             deltaLambdaMotor = mHingeJointComponents.mImpulseMotor[i] - lambdaTemp;
-- 
2.43.0


From d11c1a888508bad40598ec0dfa8e45837a0b84c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 68/73] fix: the motor of the slider joint created angular
 momentum and missed the rotation of the bodies

---
 src/systems/SolveSliderJointSystem.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 08ca342..cbf4ba2 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -220,7 +220,11 @@ void SolveSliderJointSystem::initBeforeSolve() {
             const decimal sumInverseMass = body1MassInverse + body2MassInverse;
 
             // Compute the inverse of mass matrix K=JM^-1J^t for the motor (1x1 matrix)
-            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass;
+            const Vector3& r1PlusUCrossSliderAxis = mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
+            const Vector3& r2CrossSliderAxis = mSliderJointComponents.mR2CrossSliderAxis[i];
+            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass +
+                        r1PlusUCrossSliderAxis.dot(mSliderJointComponents.mI1[i] * r1PlusUCrossSliderAxis) +
+                        r2CrossSliderAxis.dot(mSliderJointComponents.mI2[i] * r2CrossSliderAxis);
             mSliderJointComponents.mInverseMassMatrixMotor[i] = (mSliderJointComponents.mInverseMassMatrixMotor[i] > decimal(0.0)) ?
                         decimal(1.0) / mSliderJointComponents.mInverseMassMatrixMotor[i] : decimal(0.0);
         }
@@ -292,6 +296,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 1
         linearImpulseBody1 += impulseMotor;
+        angularImpulseBody1 += mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
 
         // Apply the impulse to the body 1
         v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
@@ -311,6 +316,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 2
         linearImpulseBody2 += -impulseMotor;
+        angularImpulseBody2 += -mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR2CrossSliderAxis[i];
 
         // Apply the impulse to the body 2
         v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
@@ -436,7 +442,10 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
         if (mSliderJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = sliderAxisWorld.dot(v1) - sliderAxisWorld.dot(v2);
+            const Vector3& r1PlusUCrossSliderAxis = mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
+            const Vector3& r2CrossSliderAxis = mSliderJointComponents.mR2CrossSliderAxis[i];
+            const decimal JvMotor = sliderAxisWorld.dot(v1) + r1PlusUCrossSliderAxis.dot(w1) -
+                                    sliderAxisWorld.dot(v2) - r2CrossSliderAxis.dot(w2);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mSliderJointComponents.mMaxMotorForce[i] * mTimeStep;
@@ -447,15 +456,19 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
 
             // Compute the impulse P=J^T * lambda for the motor of body 1
             const Vector3 linearImpulseBody1 = deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody1 = deltaLambdaMotor * r1PlusUCrossSliderAxis;
 
             // Apply the impulse to the body 1
             v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
+            w1 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody1] * (i1 * angularImpulseBody1);
 
             // Compute the impulse P=J^T * lambda for the motor of body 2
             const Vector3 linearImpulseBody2 = -deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody2 = -deltaLambdaMotor * r2CrossSliderAxis;
 
             // Apply the impulse to the body 2
             v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
+            w2 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody2] * (i2 * angularImpulseBody2);
         }
 
         // --------------- Rotation Constraints --------------- //
-- 
2.43.0


From f5202456d20b5cdcf03fad7723d78f19df10bb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:08 +0000
Subject: [PATCH 69/73] fix: the hinge angle had the wrong sign when body 1 had
 been turned since the last update

---
 src/systems/SolveHingeJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 12855f0..6b341b3 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -767,7 +767,7 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
     decimal sinHalfAngleAbs = relativeRotation.getVectorV().length();
 
     // Compute the dot product of the relative rotation axis and the hinge axis
-    decimal dotProduct = relativeRotation.getVectorV().dot(mHingeJointComponents.getA1(jointEntity));
+    decimal dotProduct = relativeRotation.getVectorV().dot(orientationBody1 * mHingeJointComponents.getHingeLocalAxisBody1(jointEntity));
 
     // If the relative rotation axis and the hinge axis are pointing the same direction
     if (dotProduct >= decimal(0.0)) {
-- 
2.43.0


From fa319d75e1484cf56e706fe1fe56c9110bb130d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:51 +0000
Subject: [PATCH 70/73] fix: the constructors of HingeJointInfo with a motor
 left the motor disabled

---
 include/reactphysics3d/constraint/HingeJoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/constraint/HingeJoint.h b/include/reactphysics3d/constraint/HingeJoint.h
index 71b4b24..0fcf2a7 100644
--- a/include/reactphysics3d/constraint/HingeJoint.h
+++ b/include/reactphysics3d/constraint/HingeJoint.h
@@ -145,7 +145,7 @@ struct HingeJointInfo : public JointInfo {
                                 isUsingLocalSpaceAnchors(false),
                                 anchorPointWorldSpace(initAnchorPointWorldSpace),
                                 rotationAxisWorld(initRotationAxisWorld), isLimitEnabled(true),
-                                isMotorEnabled(false), minAngleLimit(initMinAngleLimit),
+                                isMotorEnabled(true), minAngleLimit(initMinAngleLimit),
                                 maxAngleLimit(initMaxAngleLimit), motorSpeed(initMotorSpeed),
                                 maxMotorTorque(initMaxMotorTorque) {}
 
@@ -228,7 +228,7 @@ struct HingeJointInfo : public JointInfo {
                                 rotationAxisBody1Local(rotationBody1AxisLocal),
                                 rotationAxisBody2Local(rotationBody2AxisLocal),
                                 isLimitEnabled(true),
-                                isMotorEnabled(false), minAngleLimit(initMinAngleLimit),
+                                isMotorEnabled(true), minAngleLimit(initMinAngleLimit),
                                 maxAngleLimit(initMaxAngleLimit), motorSpeed(initMotorSpeed),
                                 maxMotorTorque(initMaxMotorTorque) {}
 };
-- 
2.43.0


From 0ceb0cc87be551edf3b84f076adf2dc3b29c42f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:07 +0000
Subject: [PATCH 71/73] fix: the position correction of hinges and sliders with
 active limits diverged

The errors of the limits, the rotation and the translation were all computed before the first
correction, such that three corrections of the same error were applied at once. Hinges at a limit
with an offset anchor and an anisotropic inertia blew up.
---
 src/systems/SolveHingeJointSystem.cpp  | 38 +++++++++++++----------
 src/systems/SolveSliderJointSystem.cpp | 43 +++++++++++++++-----------
 2 files changed, 46 insertions(+), 35 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 6b341b3..f8c0580 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -495,25 +495,10 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         RigidBody::computeWorldInertiaTensorInverse(q2.getMatrix(), mRigidBodyComponents.mInverseInertiaTensorsLocal[componentIndexBody2],
                                                     mHingeJointComponents.mI2[i]);
 
-        // Compute the vector from body center to the anchor point in world-space
-        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
-        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
-
-        // Compute the corresponding skew-symmetric matrices
-        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
-        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
-
-
-        // Compute vectors needed in the Jacobian. The impulses of the velocity constraints are relative to
-        // the vectors of the components. Therefore, we do not change those here.
+        // Compute the hinge axis. The impulses of the velocity constraints are relative to the vectors of
+        // the components. Therefore, we do not change those here.
         Vector3 a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
-        Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
         a1.normalize();
-        a2.normalize();
-        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
-        const Vector3 c2 = a2.cross(b2);
-        const Vector3 b2CrossA1 = b2.cross(a1);
-        const Vector3 c2CrossA1 = c2.cross(a1);
 
         // Compute the current angle around the hinge axis
         const decimal hingeAngle = computeCurrentHingeAngle(jointEntity, q1, q2);
@@ -596,6 +581,16 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Rotation Constraints --------------- //
 
+        // Compute vectors needed in the Jacobian (the limits constraints might have rotated the bodies)
+        a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
+        Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
+        a1.normalize();
+        a2.normalize();
+        const Vector3 b2 = a2.getOneUnitOrthogonalVector();
+        const Vector3 c2 = a2.cross(b2);
+        const Vector3 b2CrossA1 = b2.cross(a1);
+        const Vector3 c2CrossA1 = c2.cross(a1);
+
         // Compute the inverse mass matrix K=JM^-1J^t for the 2 rotation constraints (2x2 matrix)
         Vector3 I1B2CrossA1 = mHingeJointComponents.mI1[i] * b2CrossA1;
         Vector3 I1C2CrossA1 = mHingeJointComponents.mI1[i] * c2CrossA1;
@@ -647,6 +642,15 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
         // --------------- Translation Constraints --------------- //
 
+        // Compute the vector from body center to the anchor point in world-space (the limits and
+        // rotation constraints might have rotated the bodies)
+        mHingeJointComponents.mR1World[i] = q1 * (mHingeJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        mHingeJointComponents.mR2World[i] = q2 * (mHingeJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+
+        // Compute the corresponding skew-symmetric matrices
+        Matrix3x3 skewSymmetricMatrixU1 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR1World[i]);
+        Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
+
         // Compute the matrix K=JM^-1J^t (3x3 matrix) for the 3 translation constraints
         const decimal body1InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal body2InverseMass = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index cbf4ba2..a67c5f0 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -564,21 +564,19 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         const decimal inverseMassBody1 = mRigidBodyComponents.mInverseMasses[componentIndexBody1];
         const decimal inverseMassBody2 = mRigidBodyComponents.mInverseMasses[componentIndexBody2];
 
-        const Vector3& r1 = mSliderJointComponents.mR1[i];
-        const Vector3& r2 = mSliderJointComponents.mR2[i];
+        Vector3& r1 = mSliderJointComponents.mR1[i];
+        Vector3& r2 = mSliderJointComponents.mR2[i];
 
         Vector3& x1 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody1];
         Vector3& x2 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody2];
 
         // Compute the vector u (difference between anchor points)
-        const Vector3 u = x2 + r2 - x1 - r1;
+        Vector3 u = x2 + r2 - x1 - r1;
 
-        // Compute the two orthogonal vectors to the slider axis in world-space. The impulses of the velocity
-        // constraints are relative to the vectors of the components. Therefore, we do not change those here.
+        // Compute the slider axis in world-space. The impulses of the velocity constraints are relative
+        // to the vectors of the components. Therefore, we do not change those here.
         Vector3 sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
         sliderAxisWorld.normalize();
-        const Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
-        const Vector3 n2 = sliderAxisWorld.cross(n1);
 
         // Check if the limit constraints are violated or not
         decimal uDotSliderAxis = u.dot(sliderAxisWorld);
@@ -588,18 +586,8 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         mSliderJointComponents.mIsUpperLimitViolated[i] = upperLimitError <= 0;
 
         // Compute the cross products used in the Jacobians
-        mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
-        mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
         mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(sliderAxisWorld);
-        const Vector3 r1PlusU = r1 + u;
-        mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
-        mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
-        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(sliderAxisWorld);
-
-        const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
-        const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
-        const Vector3& r1PlusUCrossN1 = mSliderJointComponents.mR1PlusUCrossN1[i];
-        const Vector3& r1PlusUCrossN2 = mSliderJointComponents.mR1PlusUCrossN2[i];
+        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = (r1 + u).cross(sliderAxisWorld);
 
         // --------------- Limits Constraints --------------- //
 
@@ -772,6 +760,25 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // --------------- Translation Constraints --------------- //
 
+        // Recompute the vectors needed in the Jacobian (the limits and rotation constraints might have moved the bodies)
+        r1 = q1 * (mSliderJointComponents.mLocalAnchorPointBody1[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody1]);
+        r2 = q2 * (mSliderJointComponents.mLocalAnchorPointBody2[i] - mRigidBodyComponents.mCentersOfMassLocal[componentIndexBody2]);
+        u = x2 + r2 - x1 - r1;
+        sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
+        sliderAxisWorld.normalize();
+        const Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
+        const Vector3 n2 = sliderAxisWorld.cross(n1);
+        mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
+        mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
+        const Vector3 r1PlusU = r1 + u;
+        mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
+        mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
+
+        const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
+        const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
+        const Vector3& r1PlusUCrossN1 = mSliderJointComponents.mR1PlusUCrossN1[i];
+        const Vector3& r1PlusUCrossN2 = mSliderJointComponents.mR1PlusUCrossN2[i];
+
         const Matrix3x3& i1 = mSliderJointComponents.getI1(jointEntity);
         const Matrix3x3& i2 = mSliderJointComponents.getI2(jointEntity);
 
-- 
2.43.0


From f33c4c18e6e02535cfe80e4406bb31128a29d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:52 +0000
Subject: [PATCH 72/73] fix: the deepest vertex of a polyhedron could be
 missing from the contact points of a face contact

---
 .../collision/shapes/ConvexPolyhedronShape.h  | 46 +++++++++++++++++++
 .../narrowphase/SAT/SATAlgorithm.cpp          |  4 +-
 2 files changed, 48 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h b/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h
index 3c89130..dbb0bb3 100644
--- a/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h
+++ b/include/reactphysics3d/collision/shapes/ConvexPolyhedronShape.h
@@ -91,6 +91,10 @@ class ConvexPolyhedronShape : public ConvexShape {
         /// Find and return the index of the polyhedron face with the most anti-parallel face
         /// normal given a direction vector
         uint32 findMostAntiParallelFace(const Vector3& direction) const;
+
+        /// Find and return the index of the face with the most anti-parallel face normal among the
+        /// faces around the vertex that is the furthest in the direction opposite to a given direction
+        uint32 findIncidentFace(const Vector3& direction) const;
 };
 
 // Return true if the collision shape is a polyhedron
@@ -122,6 +126,48 @@ RP3D_FORCE_INLINE uint32 ConvexPolyhedronShape::findMostAntiParallelFace(const V
     return mostAntiParallelFace;
 }
 
+// Find and return the index of the face with the most anti-parallel face normal among the
+// faces around the vertex that is the furthest in the direction opposite to a given direction.
+// This is used to find the incident face on a polyhedron of a given reference face of another
+// polyhedron (the most anti-parallel face of the whole polyhedron might not contain its deepest vertex)
+RP3D_FORCE_INLINE uint32 ConvexPolyhedronShape::findIncidentFace(const Vector3& direction) const {
+
+    // Find the deepest vertex
+    decimal minVertexDotProduct = DECIMAL_LARGEST;
+    uint32 deepestVertex = 0;
+    const uint32 nbVertices = getNbVertices();
+    for (uint32 i=0; i < nbVertices; i++) {
+
+        const decimal dotProduct = getVertexPosition(i).dot(direction);
+        if (dotProduct < minVertexDotProduct) {
+            minVertexDotProduct = dotProduct;
+            deepestVertex = i;
+        }
+    }
+
+    // For each face around the deepest vertex
+    decimal minDotProduct = DECIMAL_LARGEST;
+    uint32 incidentFace = 0;
+    const uint32 firstEdgeIndex = getVertex(deepestVertex).edgeIndex;
+    uint32 edgeIndex = firstEdgeIndex;
+    do {
+
+        const HalfEdgeStructure::Edge& edge = getHalfEdge(edgeIndex);
+
+        const decimal dotProduct = getFaceNormal(edge.faceIndex).dot(direction);
+        if (dotProduct < minDotProduct) {
+            minDotProduct = dotProduct;
+            incidentFace = edge.faceIndex;
+        }
+
+        // Go to the next edge that starts at the vertex
+        edgeIndex = getHalfEdge(edge.twinEdgeIndex).nextEdgeIndex;
+
+    } while (edgeIndex != firstEdgeIndex);
+
+    return incidentFace;
+}
+
 }
 
 #endif
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 8fa0791..03fe641 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -947,8 +947,8 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     // Get the reference face
     const HalfEdgeStructure::Face& referenceFace = referencePolyhedron->getFace(minFaceIndex);
 
-    // Find the incident face on the other polyhedron (most anti-parallel face)
-    uint32 incidentFaceIndex = incidentPolyhedron->findMostAntiParallelFace(axisIncidentSpace);
+    // Find the incident face on the other polyhedron (most anti-parallel face around the deepest vertex)
+    uint32 incidentFaceIndex = incidentPolyhedron->findIncidentFace(axisIncidentSpace);
 
     // Get the incident face
     const HalfEdgeStructure::Face& incidentFace = incidentPolyhedron->getFace(incidentFaceIndex);
-- 
2.43.0


From dc28420a6e2910a453d8ac1a7bf01dabcc429f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 73/73] fix: contacts with a triangle pulled through it when
 the penetration axis was parallel to the triangle

---
 .../reactphysics3d/collision/shapes/TriangleShape.h |  8 ++++++--
 src/collision/shapes/TriangleShape.cpp              | 13 +++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/TriangleShape.h b/include/reactphysics3d/collision/shapes/TriangleShape.h
index 584eb4b..7249dec 100644
--- a/include/reactphysics3d/collision/shapes/TriangleShape.h
+++ b/include/reactphysics3d/collision/shapes/TriangleShape.h
@@ -104,7 +104,7 @@ class TriangleShape : public ConvexPolyhedronShape {
 
         /// This method implements the technique described in Game Physics Pearl book
         void computeSmoothMeshContact(Vector3 localContactPointTriangle, const Transform& triangleShapeToWorldTransform,
-                                      const Transform& worldToOtherShapeTransform, decimal penetrationDepth, bool isTriangleShape1,
+                                      const Transform& worldToOtherShapeTransform, const Vector3& otherShapeWorldCenter, decimal penetrationDepth, bool isTriangleShape1,
                                       Vector3& outNewLocalContactPointOtherShape, Vector3& outSmoothWorldContactTriangleNormal) const;
 
         /// Constructor
@@ -353,11 +353,15 @@ RP3D_FORCE_INLINE void TriangleShape::computeSmoothTriangleMeshContact(const Col
         const TriangleShape* triangleShape = isShape1Triangle ? static_cast<const TriangleShape*>(shape1):
                                                                 static_cast<const TriangleShape*>(shape2);
 
+        // Compute the center of the other shape
+        const Vector3 otherShapeWorldCenter = isShape1Triangle ? shape2ToWorld * shape2->getLocalBounds().getCenter() :
+                                                                 shape1ToWorld * shape1->getLocalBounds().getCenter();
+
         // Compute the smooth triangle mesh contact normal and recompute the local contact point on the other shape
         triangleShape->computeSmoothMeshContact(isShape1Triangle ? localContactPointShape1 : localContactPointShape2,
                                                 isShape1Triangle ? shape1ToWorld : shape2ToWorld,
                                                 isShape1Triangle ? shape2ToWorld.getInverse() : shape1ToWorld.getInverse(),
-                                                penetrationDepth, isShape1Triangle,
+                                                otherShapeWorldCenter, penetrationDepth, isShape1Triangle,
                                                 isShape1Triangle ? localContactPointShape2 : localContactPointShape1,
                                                 outSmoothVertexNormal);
     }
diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 671b4c8..f79ffe4 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -88,7 +88,8 @@ TriangleShape::TriangleShape(const Vector3* vertices, uint32 shapeId, HalfEdgeSt
 // stay aligned with the new contact normal. This method will return the new smooth world contact
 // normal of the triangle and the the local contact point on the other shape.
 void TriangleShape::computeSmoothMeshContact(Vector3 localContactPointTriangle, const Transform& triangleShapeToWorldTransform,
-                                             const Transform& worldToOtherShapeTransform, decimal penetrationDepth, bool isTriangleShape1,
+                                             const Transform& worldToOtherShapeTransform, const Vector3& otherShapeWorldCenter,
+                                             decimal penetrationDepth, bool isTriangleShape1,
                                              Vector3& outNewLocalContactPointOtherShape, Vector3& outSmoothWorldContactTriangleNormal) const {
 
     // Get the smooth contact normal of the mesh at the contact point on the triangle
@@ -100,8 +101,16 @@ void TriangleShape::computeSmoothMeshContact(Vector3 localContactPointTriangle,
     // Penetration axis with direction from triangle to other shape
     Vector3 triangleToOtherShapePenAxis = isTriangleShape1 ? outSmoothWorldContactTriangleNormal : -outSmoothWorldContactTriangleNormal;
 
+    decimal cosAngle = triangleWorldNormal.dot(triangleToOtherShapePenAxis);
+
+    // If the penetration axis is almost parallel to the triangle, its direction does not tell which face of the triangle
+    // is colliding, we use the side of the triangle where the center of the other shape is instead
+    if (std::abs(cosAngle) < decimal(0.2)) {
+        cosAngle = triangleWorldNormal.dot(otherShapeWorldCenter - triangleShapeToWorldTransform * mPoints[0]);
+    }
+
     // The triangle normal should be the one in the direction out of the current colliding face of the triangle
-    if (triangleWorldNormal.dot(triangleToOtherShapePenAxis) < decimal(0.0)) {
+    if (cosAngle < decimal(0.0)) {
         triangleWorldNormal = -triangleWorldNormal;
         triangleLocalNormal = -triangleLocalNormal;
     }
-- 
2.43.0

