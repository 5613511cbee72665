From 6c20b90423da3e75d1a7aa49baf101ccf5785f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 01/51] fix: reset the free entries list of Map and Set when
 clear() releases the memory

---
 include/reactphysics3d/containers/Map.h | 1 +
 include/reactphysics3d/containers/Set.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/reactphysics3d/containers/Map.h b/include/reactphysics3d/containers/Map.h
index 4aaee4b..e21a918 100755
--- a/include/reactphysics3d/containers/Map.h
+++ b/include/reactphysics3d/containers/Map.h
@@ -520,6 +520,7 @@ class Map {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
diff --git a/include/reactphysics3d/containers/Set.h b/include/reactphysics3d/containers/Set.h
index ea894ab..aae3134 100755
--- a/include/reactphysics3d/containers/Set.h
+++ b/include/reactphysics3d/containers/Set.h
@@ -519,6 +519,7 @@ class Set {
 
                 mNbAllocatedEntries = 0;
                 mHashSize = 0;
+                mFreeIndex = INVALID_INDEX;
             }
 
             mNbEntries = 0;
-- 
2.43.0


From 1faf3751822f03f0bb484e0d55a95f96dd790bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 02/51] fix: copy the items of a Deque inside the storage of
 the destination

---
 include/reactphysics3d/containers/Deque.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/containers/Deque.h b/include/reactphysics3d/containers/Deque.h
index 2a7977b..0a9da4a 100644
--- a/include/reactphysics3d/containers/Deque.h
+++ b/include/reactphysics3d/containers/Deque.h
@@ -278,13 +278,16 @@ class Deque {
             // Allocate memory
             reserve(deque.mCapacity);
 
+            // Use the same location in the buffer as the copied deque
+            mFirstItemIndex = deque.mFirstItemIndex;
+
             if (deque.mSize > 0) {
 
                 // Add the items into the deque
                 for(uint64 i=0; i < deque.mSize; i++) {
 
                     // Construct the element at its location in the buffer
-                    new (static_cast<void*>(&(mBuffer[deque.mFirstItemIndex + i]))) T(deque.mBuffer[deque.mFirstItemIndex + i]);
+                    new (static_cast<void*>(&(mBuffer[mFirstItemIndex + i]))) T(deque.mBuffer[deque.mFirstItemIndex + i]);
                 }
 
                 mSize = deque.mSize;
@@ -465,6 +468,11 @@ class Deque {
 
                 if (deque.mSize > 0) {
 
+                    // Make sure all the items fit in the buffer after the first one
+                    if (mFirstItemIndex + deque.mSize > mCapacity) {
+                        mFirstItemIndex = (mCapacity - deque.mSize) / 2;
+                    }
+
                     // Add the items into the deque
                     for(uint64 i=0; i < deque.mSize; i++) {
 
-- 
2.43.0


From fb87c39c655ba1be031681457277801a4d9e7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 03/51] fix: destroy the elements of Stack and LinkedList when
 their storage is given up

---
 include/reactphysics3d/containers/LinkedList.h | 1 +
 include/reactphysics3d/containers/Stack.h      | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/reactphysics3d/containers/LinkedList.h b/include/reactphysics3d/containers/LinkedList.h
index 3910738..8a723d1 100644
--- a/include/reactphysics3d/containers/LinkedList.h
+++ b/include/reactphysics3d/containers/LinkedList.h
@@ -117,6 +117,7 @@ RP3D_FORCE_INLINE void LinkedList<T>::reset() {
     ListElement* element = mListHead;
     while (element != nullptr) {
         ListElement* nextElement = element->next;
+        element->~ListElement();
         mAllocator.release(element, mElementAllocationSize);
         element = nextElement;
     }
diff --git a/include/reactphysics3d/containers/Stack.h b/include/reactphysics3d/containers/Stack.h
index cdbe26f..aeaf967 100644
--- a/include/reactphysics3d/containers/Stack.h
+++ b/include/reactphysics3d/containers/Stack.h
@@ -74,6 +74,11 @@ class Stack {
 
                     // Copy the previous items in the new array
                     std::uninitialized_copy(mArray, mArray + mNbElements, newArray);
+
+                    // Destruct the previous items
+                    for (uint64 i = 0; i < mNbElements; i++) {
+                        mArray[i].~T();
+                    }
                 }
 
                 // Release memory of the previous array
-- 
2.43.0


From 582a45a3c16e1141bf91441cb686ad9d301b413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 04/51] fix: release the buffer of the component tables with
 the size it was allocated with

---
 src/components/BallAndSocketJointComponents.cpp | 2 +-
 src/components/BodyComponents.cpp               | 2 +-
 src/components/ColliderComponents.cpp           | 2 +-
 src/components/Components.cpp                   | 2 +-
 src/components/FixedJointComponents.cpp         | 2 +-
 src/components/HingeJointComponents.cpp         | 2 +-
 src/components/JointComponents.cpp              | 2 +-
 src/components/RigidBodyComponents.cpp          | 2 +-
 src/components/SliderJointComponents.cpp        | 2 +-
 src/components/TransformComponents.cpp          | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/components/BallAndSocketJointComponents.cpp b/src/components/BallAndSocketJointComponents.cpp
index 0850edb..8261bdc 100644
--- a/src/components/BallAndSocketJointComponents.cpp
+++ b/src/components/BallAndSocketJointComponents.cpp
@@ -122,7 +122,7 @@ void BallAndSocketJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newConeLimitACrossB, mConeLimitACrossB, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/BodyComponents.cpp b/src/components/BodyComponents.cpp
index 8aae023..2f38a0a 100644
--- a/src/components/BodyComponents.cpp
+++ b/src/components/BodyComponents.cpp
@@ -82,7 +82,7 @@ void BodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newHasSimulationCollider, mHasSimulationCollider, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/ColliderComponents.cpp b/src/components/ColliderComponents.cpp
index 7b0fefe..5d61fe8 100644
--- a/src/components/ColliderComponents.cpp
+++ b/src/components/ColliderComponents.cpp
@@ -111,7 +111,7 @@ void ColliderComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(materials, mMaterials, mNbComponents * sizeof(Material));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/Components.cpp b/src/components/Components.cpp
index a920a78..691a324 100644
--- a/src/components/Components.cpp
+++ b/src/components/Components.cpp
@@ -50,7 +50,7 @@ Components::~Components() {
         }
 
         // Size for the data of a single component (in bytes)
-        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize;
+        const size_t totalSizeBytes = mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize;
 
         // Release the allocated memory
         mMemoryAllocator.release(mBuffer, totalSizeBytes);
diff --git a/src/components/FixedJointComponents.cpp b/src/components/FixedJointComponents.cpp
index 18ddf65..06b4ed0 100644
--- a/src/components/FixedJointComponents.cpp
+++ b/src/components/FixedJointComponents.cpp
@@ -111,7 +111,7 @@ void FixedJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newInitOrientationDifferenceInv, mInitOrientationDifferenceInv, mNbComponents * sizeof(Quaternion));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 2bd3247..287f136 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -176,7 +176,7 @@ void HingeJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newMaxMotorTorque, mMaxMotorTorque, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/JointComponents.cpp b/src/components/JointComponents.cpp
index 571d567..15716e5 100644
--- a/src/components/JointComponents.cpp
+++ b/src/components/JointComponents.cpp
@@ -87,7 +87,7 @@ void JointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsAlreadyInIsland, mIsAlreadyInIsland, mNbComponents * sizeof(bool));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/RigidBodyComponents.cpp b/src/components/RigidBodyComponents.cpp
index 6b5a065..bee0d04 100644
--- a/src/components/RigidBodyComponents.cpp
+++ b/src/components/RigidBodyComponents.cpp
@@ -165,7 +165,7 @@ void RigidBodyComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newAngularLockAxisFactors, mAngularLockAxisFactors, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 9f8787f..3742a09 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -193,7 +193,7 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
diff --git a/src/components/TransformComponents.cpp b/src/components/TransformComponents.cpp
index eb59fa2..a3ace0d 100644
--- a/src/components/TransformComponents.cpp
+++ b/src/components/TransformComponents.cpp
@@ -70,7 +70,7 @@ void TransformComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newEntities, mBodies, mNbComponents * sizeof(Entity));
 
         // Deallocate previous memory
-        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize);
+        mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
     }
 
     mBuffer = newBuffer;
-- 
2.43.0


From 00b027a59df7e2987c9c65facf3b6bebcb5466a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:05 +0000
Subject: [PATCH 05/51] fix: keep the upper limit bias of hinge and slider
 joints when components are swapped

---
 src/components/HingeJointComponents.cpp  | 2 +-
 src/components/SliderJointComponents.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/HingeJointComponents.cpp b/src/components/HingeJointComponents.cpp
index 287f136..941af76 100644
--- a/src/components/HingeJointComponents.cpp
+++ b/src/components/HingeJointComponents.cpp
@@ -354,7 +354,7 @@ void HingeJointComponents::swapComponents(uint32 index1, uint32 index2) {
     decimal inverseMassMatrixLimitMotor(mInverseMassMatrixLimitMotor[index1]);
     decimal inverseMassMatrixMotor(mInverseMassMatrixMotor[index1]);
     decimal bLowerLimit(mBLowerLimit[index1]);
-    decimal bUpperLimit(mUpperLimit[index1]);
+    decimal bUpperLimit(mBUpperLimit[index1]);
     bool isLimitEnabled(mIsLimitEnabled[index1]);
     bool isMotorEnabled(mIsMotorEnabled[index1]);
     decimal lowerLimit(mLowerLimit[index1]);
diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index 3742a09..b48fbea 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -385,7 +385,7 @@ void SliderJointComponents::swapComponents(uint32 index1, uint32 index2) {
     decimal inverseMassMatrixLimit(mInverseMassMatrixLimit[index1]);
     decimal inverseMassMatrixMotor(mInverseMassMatrixMotor[index1]);
     decimal bLowerLimit(mBLowerLimit[index1]);
-    decimal bUpperLimit(mUpperLimit[index1]);
+    decimal bUpperLimit(mBUpperLimit[index1]);
     bool isLimitEnabled(mIsLimitEnabled[index1]);
     bool isMotorEnabled(mIsMotorEnabled[index1]);
     decimal lowerLimit(mLowerLimit[index1]);
-- 
2.43.0


From 4c6b75bbe785d281b54012816a8d234d9cde8998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 06/51] fix: rays that lie exactly on a plane of a bounding box
 no longer miss it

---
 .../reactphysics3d/collision/shapes/AABB.h    | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/include/reactphysics3d/collision/shapes/AABB.h b/include/reactphysics3d/collision/shapes/AABB.h
index e180706..081f32f 100644
--- a/include/reactphysics3d/collision/shapes/AABB.h
+++ b/include/reactphysics3d/collision/shapes/AABB.h
@@ -289,29 +289,27 @@ RP3D_FORCE_INLINE bool AABB::testRayIntersect(const Vector3& rayOrigin, const Ve
     // t1 = -t2 = +- INFINITY. Since max(n, -INFINITY) = min(n, INFINITY) = n for all n, tMin and tMax will stay unchanged. Secondly, if the i
     // coordinate of the ray's origin is outside the box (rayOrigin[i] < mMinCoordinates[i] or rayOrigin[i] > mMaxCoordinates[i]) we have
     // t1 = t2 = +- INFINITY and therefore either tMin = +INFINITY or tMax = -INFINITY. One of those values will stay until the end and make the
-    // method to return false. Unfortunately, if the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
-    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN which is a problem for the remaining of the algorithm.
-    // This will cause the method to return true when the ray is not intersecting the AABB and therefore cause to traverse more nodes than necessary in
-    // the BVH tree. Because this should be rare, it is not really a big issue.
+    // method to return false. If the ray lies exactly on a slab (rayOrigin[i] = mMinCoordinates[i] or rayOrigin[i] = mMaxCoordinates[i]) we
+    // have t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i] = 0 * INFINITY = NaN. In this case, the ray is inside the slab for
+    // all its points and the slab does not change tMin and tMax.
     // Reference: https://tavianator.com/2011/ray_box.html
 
-    decimal t1 = (mMinCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
-    decimal t2 = (mMaxCoordinates[0] - rayOrigin[0]) * rayDirectionInverse[0];
+    decimal tMin = decimal(0.0);
+    decimal tMax = rayMaxFraction;
 
-    decimal tMin = std::min(t1, t2);
-    decimal tMax = std::max(t1, t2);
-    tMax = std::min(tMax, rayMaxFraction);
+    for (int i = 0; i < 3; i++) {
 
-    for (int i = 1; i < 3; i++) {
+        const decimal t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        const decimal t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
 
-        t1 = (mMinCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
-        t2 = (mMaxCoordinates[i] - rayOrigin[i]) * rayDirectionInverse[i];
+        // If the ray lies exactly on a slab
+        if (std::isnan(t1) || std::isnan(t2)) continue;
 
         tMin = std::max(tMin, std::min(t1, t2));
         tMax = std::min(tMax, std::max(t1, t2));
     }
 
-    return tMax >= std::max(tMin, decimal(0.0));
+    return tMax >= tMin;
 }
 
 // Compute the intersection of a ray and the AABB
-- 
2.43.0


From 841324ea1075eccd13e8b2500ef9e2323468120e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:10 +0000
Subject: [PATCH 07/51] fix: heap allocator asks the base allocator for aligned
 sizes when it grows

---
 src/memory/HeapAllocator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/memory/HeapAllocator.cpp b/src/memory/HeapAllocator.cpp
index 8f317eb..43b5635 100644
--- a/src/memory/HeapAllocator.cpp
+++ b/src/memory/HeapAllocator.cpp
@@ -129,8 +129,9 @@ void* HeapAllocator::allocate(size_t size) {
     // We cannot allocate zero bytes
     if (size == 0) return nullptr;
 
-    // Allocate a little bit more memory to make sure we can return an aligned address
-    const size_t totalSize = size + GLOBAL_ALIGNMENT;
+    // Allocate a little bit more memory to make sure we can return an aligned address (the size of a memory
+    // unit is a multiple of the alignment such that the base allocator only gets requests with aligned sizes)
+    const size_t totalSize = ((size + GLOBAL_ALIGNMENT - 1) / GLOBAL_ALIGNMENT) * GLOBAL_ALIGNMENT + GLOBAL_ALIGNMENT;
 
 #ifndef NDEBUG
         mNbTimesAllocateMethodCalled++;
-- 
2.43.0


From e5a299b6c514f8509fc6af0244747f9ac043023f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 08/51] fix: querying an empty dynamic AABB tree with a box
 reports nothing instead of asserting

---
 src/collision/broadphase/DynamicAABBTree.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/broadphase/DynamicAABBTree.cpp b/src/collision/broadphase/DynamicAABBTree.cpp
index 5804567..234e08a 100644
--- a/src/collision/broadphase/DynamicAABBTree.cpp
+++ b/src/collision/broadphase/DynamicAABBTree.cpp
@@ -652,12 +652,12 @@ void DynamicAABBTree::reportAllShapesOverlappingWithAABB(const AABB& aabb, Array
         // Get the next node ID to visit
         const int32 nodeIDToVisit = stack.pop();
 
-        assert(nodeIDToVisit >= 0);
-        assert(nodeIDToVisit < mNbAllocatedNodes);
-
         // Skip it if it is a null node
         if (nodeIDToVisit == TreeNode::NULL_TREE_NODE) continue;
 
+        assert(nodeIDToVisit >= 0);
+        assert(nodeIDToVisit < mNbAllocatedNodes);
+
         // Get the corresponding node
         const TreeNode* nodeToVisit = mNodes + nodeIDToVisit;
 
-- 
2.43.0


From 5610e1d6c779346b884e0480836195710516693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:41 +0000
Subject: [PATCH 09/51] fix: short vectors are not always considered parallel
 (small capsules and boxes)

---
 include/reactphysics3d/mathematics/mathematics_functions.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 1c1aca7..a42e702 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -74,7 +74,9 @@ RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
 
 // Return true if two vectors are parallel
 RP3D_FORCE_INLINE bool areParallelVectors(const Vector3& vector1, const Vector3& vector2) {
-    return vector1.cross(vector2).lengthSquare() < decimal(0.00001);
+    // The threshold is scaled down for short vectors (otherwise any two short vectors would be considered parallel)
+    const decimal lengthsSquare = vector1.lengthSquare() * vector2.lengthSquare();
+    return vector1.cross(vector2).lengthSquare() <= decimal(0.00001) * std::min(decimal(1.0), lengthsSquare);
 }
 
 
-- 
2.43.0


From 1fab300ecdaf11c93f2de89bd67805819ac4aef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:42 +0000
Subject: [PATCH 10/51] fix: contact points and normal of concentric
 sphere-sphere and sphere-capsule pairs agree with each other

---
 src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp | 9 +++++----
 src/collision/narrowphase/SphereVsSphereAlgorithm.cpp  | 2 +-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
index 5f90af9..43da293 100755
--- a/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp
@@ -100,10 +100,6 @@ bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseIn
                     normalWorld = capsuleToWorldTransform.getOrientation() * sphereCenterToSegment;
 
                     penetrationDepth = sumRadius - sphereSegmentDistance;
-
-                    if (!isSphereShape1) {
-                        normalWorld = -normalWorld;
-                    }
                 }
                 else {  // If the sphere center is on the capsule inner segment (degenerate case)
 
@@ -130,6 +126,11 @@ bool SphereVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseIn
                     contactPointCapsuleLocal = sphereCenter - normalCapsuleSpace * capsuleRadius;
                 }
 
+                // The contact normal must point from the first to the second shape
+                if (!isSphereShape1) {
+                    normalWorld = -normalWorld;
+                }
+
                 if (penetrationDepth <= decimal(0.0)) {
 
                     // No collision
diff --git a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
index 3a8a6c9..d6148e8 100755
--- a/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
+++ b/src/collision/narrowphase/SphereVsSphereAlgorithm.cpp
@@ -96,7 +96,7 @@ bool SphereVsSphereAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInf
                         normal.setAllValues(0, 1, 0);
 
                         intersectionOnBody1 = sphere1Radius * (transform1Inverse.getOrientation() * normal);
-                        intersectionOnBody2 = sphere2Radius * (transform2Inverse.getOrientation() * normal);
+                        intersectionOnBody2 = -sphere2Radius * (transform2Inverse.getOrientation() * normal);
                     }
 
                     // Create the contact info object
-- 
2.43.0


From 753c4008b19554b6792e9e898105b7748bf7808d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:42 +0000
Subject: [PATCH 11/51] fix: collision between capsules with inner segments of
 opposite directions

---
 src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
index 73fa141..fdbb833 100755
--- a/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
+++ b/src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp
@@ -69,8 +69,13 @@ bool CapsuleVsCapsuleAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseI
         const Vector3 capsule2SegB(0, capsule2HalfHeight, 0);
 
         // The two inner capsule segments
-        const Vector3 seg1 = capsule1SegB - capsule1SegA;
         const Vector3 seg2 = capsule2SegB - capsule2SegA;
+        if ((capsule1SegB - capsule1SegA).dot(seg2) < decimal(0.0)) {
+
+            // Make sure both segments point toward the same side (the clipping of parallel segments relies on it)
+            std::swap(capsule1SegA, capsule1SegB);
+        }
+        const Vector3 seg1 = capsule1SegB - capsule1SegA;
 
         // Compute the sum of the radius of the two capsules (virtual spheres)
         const decimal sumRadius = capsule1Radius + capsule2Radius;
-- 
2.43.0


From 697568d0442d780ee0967b582b645ac8167ba02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:11 +0000
Subject: [PATCH 12/51] fix: allocate a height field with its own size

---
 src/engine/PhysicsCommon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/PhysicsCommon.cpp b/src/engine/PhysicsCommon.cpp
index fa536d6..b030554 100644
--- a/src/engine/PhysicsCommon.cpp
+++ b/src/engine/PhysicsCommon.cpp
@@ -484,7 +484,7 @@ HeightField* PhysicsCommon::createHeightField(int nbGridColumns, int nbGridRows,
                                               decimal integerHeightScale) {
 
     // Create the height-field
-    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(TriangleMesh))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
+    HeightField* heightField = new (mMemoryManager.allocate(MemoryManager::AllocationType::Pool, sizeof(HeightField))) HeightField(mMemoryManager.getHeapAllocator(), mTriangleShapeHalfEdgeStructure);
 
     // Initialize the height-field
     bool isValid = heightField->init(nbGridColumns, nbGridRows, heightFieldData, dataType, messages,
-- 
2.43.0


From 4242060ff9d3d51fa425f5c9ffdfb0034b4f4fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:16 +0000
Subject: [PATCH 13/51] fix: apply the scale of a convex mesh shape in its
 support, ray cast and point tests

---
 src/collision/shapes/ConvexMeshShape.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index ee6c33e..af4bc63 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -86,7 +86,7 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
     for (uint32 i=0; i<mConvexMesh->getNbVertices(); i++) {
 
         // Compute the dot product of the current vertex
-        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i));
+        decimal dotProduct = direction.dot(mConvexMesh->getVertex(i) * mScale);
 
         // If the current dot product is larger than the maximum one
         if (dotProduct > maxDotProduct) {
@@ -122,7 +122,7 @@ bool ConvexMeshShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
         decimal denom = faceNormal.dot(direction);
         decimal planeD = faceNormal.dot(facePoint);
         decimal dist = planeD -  faceNormal.dot(ray.point1);
@@ -192,7 +192,7 @@ bool ConvexMeshShape::testPointInside(const Vector3& localPoint, Collider* /*col
         const HalfEdgeStructure::Face& face = halfEdgeStructure.getFace(f);
         const Vector3& faceNormal = getFaceNormal(f);
         const HalfEdgeStructure::Vertex& faceVertex = halfEdgeStructure.getVertex(face.faceVertices[0]);
-        const Vector3& facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex);
+        const Vector3 facePoint = mConvexMesh->getVertex(faceVertex.vertexPointIndex) * mScale;
 
         // If the point is out of the face plane, it is outside of the convex mesh
         if (computePointToPlaneDistance(localPoint, faceNormal, facePoint) > decimal(0.0)) return false;
-- 
2.43.0


From 3ecc08246801923eace65c354bfc595430ce1cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 14/51] fix: capsule ray cast misses with short rays, small
 capsules or a maximum fraction above one

---
 src/collision/shapes/CapsuleShape.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/collision/shapes/CapsuleShape.cpp b/src/collision/shapes/CapsuleShape.cpp
index c774ca3..45482d8 100644
--- a/src/collision/shapes/CapsuleShape.cpp
+++ b/src/collision/shapes/CapsuleShape.cpp
@@ -98,7 +98,7 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     const Vector3 n = ray.point2 - ray.point1;
 
-    const decimal epsilon = decimal(0.01);
+    const decimal epsilon = decimal(0.00001);
     Vector3 p(decimal(0), -mHalfHeight, decimal(0));
     Vector3 q(decimal(0), mHalfHeight, decimal(0));
     Vector3 d = q - p;
@@ -111,9 +111,10 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
 
     // Test if the segment is outside the cylinder
     decimal vec1DotD = (ray.point1 - Vector3(decimal(0.0), -mHalfHeight - mMargin, decimal(0.0))).dot(d);
-    if (vec1DotD < decimal(0.0) && vec1DotD + nDotD < decimal(0.0)) return false;
+    const decimal segmentDotD = ray.maxFraction * nDotD;
+    if (vec1DotD < decimal(0.0) && vec1DotD + segmentDotD < decimal(0.0)) return false;
     decimal ddotDExtraCaps = decimal(2.0) * mMargin * d.y;
-    if (vec1DotD > dDotD + ddotDExtraCaps && vec1DotD + nDotD > dDotD + ddotDExtraCaps) return false;
+    if (vec1DotD > dDotD + ddotDExtraCaps && vec1DotD + segmentDotD > dDotD + ddotDExtraCaps) return false;
 
     decimal nDotN = n.dot(n);
     decimal mDotN = m.dot(n);
@@ -122,8 +123,8 @@ bool CapsuleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* c
     decimal k = m.dot(m) - mMargin * mMargin;
     decimal c = dDotD * k - mDotD * mDotD;
 
-    // If the ray is parallel to the capsule axis
-    if (std::abs(a) < epsilon) {
+    // If the ray is parallel to the capsule axis (relative to the lengths of the ray and the capsule)
+    if (std::abs(a) <= epsilon * dDotD * nDotN) {
 
         // If the origin is outside the surface of the capusle's cylinder, we return no hit
         if (c > decimal(0.0)) return false;
-- 
2.43.0


From 01dc53903dadea53094f25c3b5918c1a37dfa10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:25 +0000
Subject: [PATCH 15/51] fix: scale the hit normal of a height field ray cast

---
 src/collision/shapes/HeightFieldShape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/collision/shapes/HeightFieldShape.cpp b/src/collision/shapes/HeightFieldShape.cpp
index 2765732..3e21d4d 100644
--- a/src/collision/shapes/HeightFieldShape.cpp
+++ b/src/collision/shapes/HeightFieldShape.cpp
@@ -86,6 +86,7 @@ bool HeightFieldShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collide
 
         // Scale back the contact point because we used a ray scale with inverse height-field scale
         raycastInfo.worldPoint = raycastInfo.worldPoint * mScale;
+        raycastInfo.worldNormal = (raycastInfo.worldNormal * inverseScale).getUnit();
 
         return true;
     }
-- 
2.43.0


From a7061b1f6e030a587dc4df16e519ff9b4ffdcc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:45 +0000
Subject: [PATCH 16/51] fix: endless loop in the height field ray cast with a
 ray along the border

---
 src/collision/HeightField.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index 4ee2700..e035dc3 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -280,8 +280,8 @@ bool HeightField::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider* co
         decimal nextJ = static_cast<decimal>(stepJ >= 0 ? j + 1 : j);
         decimal sizeI = aabbSize.x / nbCellsI;
         decimal sizeJ = aabbSize.z / nbCellsJ;
-        decimal tMaxI = ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x;
-        decimal tMaxJ = ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z;
+        decimal tMaxI = stepI != 0 ? ((nextI * sizeI) - outHitGridPoint.x) / rayDirection.x : DECIMAL_LARGEST;
+        decimal tMaxJ = stepJ != 0 ? ((nextJ * sizeJ) - outHitGridPoint.z) / rayDirection.z : DECIMAL_LARGEST;
         decimal tDeltaI = sizeI / std::abs(rayDirection.x);
         decimal tDeltaJ = sizeJ / std::abs(rayDirection.z);
 
-- 
2.43.0


From 885a8f42e2d514828c73171d336928f00e84c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:02 +0000
Subject: [PATCH 17/51] fix: two-sided triangle ray cast reports hits outside
 the triangle when the ray meets the line of an edge

---
 src/collision/shapes/TriangleShape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collision/shapes/TriangleShape.cpp b/src/collision/shapes/TriangleShape.cpp
index 349ef87..448e377 100644
--- a/src/collision/shapes/TriangleShape.cpp
+++ b/src/collision/shapes/TriangleShape.cpp
@@ -179,7 +179,7 @@ bool TriangleShape::raycast(const Ray& ray, RaycastInfo& raycastInfo, Collider*
         if (w > decimal(0.0)) return false;
     }
     else if (mRaycastTestType == TriangleRaycastSide::FRONT_AND_BACK) {
-        if (!sameSign(u, w)) return false;
+        if (!sameSign(u, w) || !sameSign(v, w)) return false;
     }
 
     // If the line PQ is in the triangle plane (case where u=v=w=0)
-- 
2.43.0


From 0d4b7ac803e94ca86f7e3c3daea670b1fe8b2301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:42 +0000
Subject: [PATCH 18/51] fix: clipping a segment that is almost parallel to a
 plane keeps both end points

---
 include/reactphysics3d/mathematics/mathematics_functions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index a42e702..ff8d351 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -320,6 +320,9 @@ RP3D_FORCE_INLINE Array<Vector3> clipSegmentWithPlanes(const Vector3& segA, cons
                 if (t >= decimal(0.0) && t <= decimal(1.0)) {
                     outputVertices.add(v1 + t * (v2 - v1));
                 }
+                else {
+                    outputVertices.add(v1);
+                }
             }
         }
 
-- 
2.43.0


From a5dfa5c7b2411ad1b938a4c79b2b901b70e6304d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 19/51] fix: sameSign() of two small values with different
 signs

---
 include/reactphysics3d/mathematics/mathematics_functions.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index ff8d351..3791444 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -69,7 +69,8 @@ RP3D_FORCE_INLINE decimal max3(decimal a, decimal b, decimal c) {
 
 /// Return true if two values have the same sign
 RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
-    return a * b >= decimal(0.0);
+    // Note that the product of the two values is not used here because it can underflow to zero
+    return !((a < decimal(0.0) && b > decimal(0.0)) || (a > decimal(0.0) && b < decimal(0.0)));
 }
 
 // Return true if two vectors are parallel
-- 
2.43.0


From cafd457c7cc359ecb9c993096733060a74d481d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 20/51] fix: resizing the shape of a static or sleeping body
 updates its box in the broad phase

---
 src/collision/Collider.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/collision/Collider.cpp b/src/collision/Collider.cpp
index 53bc137..3d2f08a 100644
--- a/src/collision/Collider.cpp
+++ b/src/collision/Collider.cpp
@@ -210,6 +210,11 @@ unsigned short Collider::getCollideWithMaskBits() const {
 // Notify the collider that the size of the collision shape has been changed by the user
 void Collider::setHasCollisionShapeChangedSize(bool hasCollisionShapeChangedSize) {
     mBody->mWorld.mCollidersComponents.setHasCollisionShapeChangedSize(mEntity, hasCollisionShapeChangedSize);
+
+    // Update the broad-phase AABB of the collider (a static or sleeping body is not updated during the simulation steps)
+    if (hasCollisionShapeChangedSize) {
+        mBody->mWorld.mCollisionDetection.updateCollider(mEntity);
+    }
 }
 
 // Set a new material for this rigid body
-- 
2.43.0


From 09ca4872f3d6163815c18072a4267202155539b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 21/51] fix: collision filtering bits changed on colliders that
 already overlap take effect

---
 .../systems/CollisionDetectionSystem.h        |  6 +++
 src/systems/CollisionDetectionSystem.cpp      | 37 +++++++++++++------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index ed91dc9..29015fb 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -210,6 +210,12 @@ class CollisionDetectionSystem {
         /// Take an array of overlapping nodes in the broad-phase and create new overlapping pairs if necessary
         void updateOverlappingPairs(const Array<Pair<int32, int32> >& overlappingNodes);
 
+        /// Return true if the collision filtering (category and mask bits) allows collision between two colliders
+        bool isCollisionFilteringAccepted(uint32 collider1Index, uint32 collider2Index) const;
+
+        /// Return true if the collision filtering (category and mask bits) allows collision between the two colliders of a pair
+        bool isCollisionFilteringAccepted(const OverlappingPairs::OverlappingPair& overlappingPair) const;
+
         /// Remove pairs that are not overlapping anymore
         void removeNonOverlappingPairs();
 
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index d2a3b83..a78787d 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -120,6 +120,26 @@ void CollisionDetectionSystem::computeBroadPhase() {
     mBroadPhaseOverlappingNodes.clear();
 }
 
+// Return true if the collision filtering (category and mask bits) allows collision between two colliders
+bool CollisionDetectionSystem::isCollisionFilteringAccepted(uint32 collider1Index, uint32 collider2Index) const {
+
+    const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
+    const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
+
+    const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
+    const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
+
+    return (shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
+           (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0;
+}
+
+// Return true if the collision filtering (category and mask bits) allows collision between the two colliders of a pair
+bool CollisionDetectionSystem::isCollisionFilteringAccepted(const OverlappingPairs::OverlappingPair& overlappingPair) const {
+
+    return isCollisionFilteringAccepted(mCollidersComponents.getEntityIndex(overlappingPair.collider1),
+                                        mCollidersComponents.getEntityIndex(overlappingPair.collider2));
+}
+
 // Remove pairs that are not overlapping anymore
 void CollisionDetectionSystem::removeNonOverlappingPairs() {
 
@@ -134,7 +154,8 @@ void CollisionDetectionSystem::removeNonOverlappingPairs() {
         // Otherwise, we destroy the overlapping pair
         if (overlappingPair.needToTestOverlap) {
 
-            if(mBroadPhaseSystem.testOverlappingShapes(overlappingPair.broadPhaseId1, overlappingPair.broadPhaseId2)) {
+            if(isCollisionFilteringAccepted(overlappingPair) &&
+               mBroadPhaseSystem.testOverlappingShapes(overlappingPair.broadPhaseId1, overlappingPair.broadPhaseId2)) {
                 overlappingPair.needToTestOverlap = false;
             }
             else {
@@ -154,7 +175,8 @@ void CollisionDetectionSystem::removeNonOverlappingPairs() {
         // Otherwise, we destroy the overlapping pair
         if (overlappingPair.needToTestOverlap) {
 
-            if(mBroadPhaseSystem.testOverlappingShapes(overlappingPair.broadPhaseId1, overlappingPair.broadPhaseId2)) {
+            if(isCollisionFilteringAccepted(overlappingPair) &&
+               mBroadPhaseSystem.testOverlappingShapes(overlappingPair.broadPhaseId1, overlappingPair.broadPhaseId2)) {
                 overlappingPair.needToTestOverlap = false;
             }
             else {
@@ -308,15 +330,8 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                     OverlappingPairs::OverlappingPair* overlappingPair = mOverlappingPairs.getOverlappingPair(pairId);
                     if (overlappingPair == nullptr) {
 
-                        const unsigned short shape1CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider1Index];
-                        const unsigned short shape2CollideWithMaskBits = mCollidersComponents.mCollideWithMaskBits[collider2Index];
-
-                        const unsigned short shape1CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider1Index];
-                        const unsigned short shape2CollisionCategoryBits = mCollidersComponents.mCollisionCategoryBits[collider2Index];
-
                         // Check if the collision filtering allows collision between the two shapes
-                        if ((shape1CollideWithMaskBits & shape2CollisionCategoryBits) != 0 &&
-                            (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0) {
+                        if (isCollisionFilteringAccepted(collider1Index, collider2Index)) {
 
                             Collider* shape1 = mCollidersComponents.mColliders[collider1Index];
                             Collider* shape2 = mCollidersComponents.mColliders[collider2Index];
@@ -331,7 +346,7 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
-                    else {
+                    else if (isCollisionFilteringAccepted(*overlappingPair)) {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
                         overlappingPair->needToTestOverlap = false;
-- 
2.43.0


From 977aaf819046250a539c84a302de5913a106efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 22/51] fix: pairs of sleeping or static bodies are tested
 again for overlap once one of the bodies wakes up

---
 include/reactphysics3d/engine/OverlappingPairs.h | 12 ++++--------
 src/engine/OverlappingPairs.cpp                  |  4 ++++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/reactphysics3d/engine/OverlappingPairs.h b/include/reactphysics3d/engine/OverlappingPairs.h
index b1c0ed3..ffe27b3 100644
--- a/include/reactphysics3d/engine/OverlappingPairs.h
+++ b/include/reactphysics3d/engine/OverlappingPairs.h
@@ -458,15 +458,11 @@ RP3D_FORCE_INLINE bodypair OverlappingPairs::computeBodiesIndexPair(Entity body1
 // Set if we need to test a given pair for overlap
 RP3D_FORCE_INLINE void OverlappingPairs::setNeedToTestOverlap(uint64 pairId, bool needToTestOverlap) {
 
-    assert(mMapConvexPairIdToPairIndex.containsKey(pairId) || mMapConcavePairIdToPairIndex.containsKey(pairId));
+    // Note that the pair might be disabled
+    OverlappingPair* overlappingPair = getOverlappingPair(pairId);
+    assert(overlappingPair != nullptr);
 
-    auto it = mMapConvexPairIdToPairIndex.find(pairId);
-    if (it != mMapConvexPairIdToPairIndex.end()) {
-        mConvexPairs[static_cast<uint32>(it->second)].needToTestOverlap = needToTestOverlap;
-    }
-    else {
-        mConcavePairs[static_cast<uint32>(mMapConcavePairIdToPairIndex[pairId])].needToTestOverlap = needToTestOverlap;
-    }
+    overlappingPair->needToTestOverlap = needToTestOverlap;
 }
 
 // Return a reference to an overlapping pair
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index 4f94da2..f01ed6a 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -314,6 +314,7 @@ void OverlappingPairs::enableConvexPairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of pairs
     mConvexPairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, true);
+    mConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
     mConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
 
@@ -338,6 +339,7 @@ void OverlappingPairs::disableConvexPairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of disable pairs
     mDisabledConvexPairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, false);
+    mDisabledConvexPairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
     mDisabledConvexPairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConvexPairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
 
@@ -362,6 +364,7 @@ void OverlappingPairs::enableConcavePairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of disable pairs
     mConcavePairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, true);
+    mConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
     mConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
 
@@ -386,6 +389,7 @@ void OverlappingPairs::disableConcavePairWithIndex(uint64 pairIndex) {
     // Create a new pair to be added into the array of disable pairs
     mDisabledConcavePairs.emplace(pair->pairID, pair->broadPhaseId1, pair->broadPhaseId2, pair->collider1, pair->collider2,
                             pair->narrowPhaseAlgorithmType, pair->isShape1Convex, mPoolAllocator, mHeapAllocator, false, false);
+    mDisabledConcavePairs[newPairIndex].needToTestOverlap = pair->needToTestOverlap;
     mDisabledConcavePairs[newPairIndex].collidingInCurrentFrame = pair->collidingInCurrentFrame;
     mDisabledConcavePairs[newPairIndex].collidingInPreviousFrame = pair->collidingInPreviousFrame;
 
-- 
2.43.0


From 7c1e390e78144959ef9867ef39408162f8e00f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:52 +0000
Subject: [PATCH 23/51] fix: collision queries with a trigger collider

---
 src/systems/CollisionDetectionSystem.cpp | 28 ++++++++++++++----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index a78787d..2c1852d 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -491,11 +491,11 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
 
         const uint64 pairId = convexPairs[p];
 
-        const uint64 pairIndex = mOverlappingPairs.mMapConvexPairIdToPairIndex[pairId];
-        assert(pairIndex < mOverlappingPairs.mConvexPairs.size());
+        // Note that the pair might be disabled
+        OverlappingPairs::ConvexOverlappingPair& overlappingPair = *static_cast<OverlappingPairs::ConvexOverlappingPair*>(mOverlappingPairs.getOverlappingPair(pairId));
 
-        const Entity collider1Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider1;
-        const Entity collider2Entity = mOverlappingPairs.mConvexPairs[pairIndex].collider2;
+        const Entity collider1Entity = overlappingPair.collider1;
+        const Entity collider2Entity = overlappingPair.collider2;
 
         const uint32 collider1Index = mCollidersComponents.getEntityIndex(collider1Entity);
         const uint32 collider2Index = mCollidersComponents.getEntityIndex(collider2Entity);
@@ -507,14 +507,16 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
         CollisionShape* collisionShape1 = mCollidersComponents.mCollisionShapes[collider1Index];
         CollisionShape* collisionShape2 = mCollidersComponents.mCollisionShapes[collider2Index];
 
-        NarrowPhaseAlgorithmType algorithmType = mOverlappingPairs.mConvexPairs[pairIndex].narrowPhaseAlgorithmType;
+        NarrowPhaseAlgorithmType algorithmType = overlappingPair.narrowPhaseAlgorithmType;
+
+        const bool isTrigger = mCollidersComponents.mIsTrigger[collider1Index] || mCollidersComponents.mIsTrigger[collider2Index];
 
         // No middle-phase is necessary, simply create a narrow phase info
         // for the narrow-phase collision detection
         narrowPhaseInput.addNarrowPhaseTest(pairId, collider1Entity, collider2Entity, collisionShape1, collisionShape2,
                                                   mCollidersComponents.mLocalToWorldTransforms[collider1Index],
                                                   mCollidersComponents.mLocalToWorldTransforms[collider2Index],
-                                                  algorithmType, reportContacts, &mOverlappingPairs.mConvexPairs[pairIndex].lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
+                                                  algorithmType, reportContacts && !isTrigger, &overlappingPair.lastFrameCollisionInfo, mMemoryManager.getSingleFrameAllocator());
 
     }
 
@@ -523,13 +525,15 @@ void CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot(Array<uint64>
     for (uint32 p=0; p < nbConcavePairs; p++) {
 
         const uint64 pairId = concavePairs[p];
-        const uint64 pairIndex = mOverlappingPairs.mMapConcavePairIdToPairIndex[pairId];
 
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2) != -1);
-        assert(mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider1) != mCollidersComponents.getBroadPhaseId(mOverlappingPairs.mConcavePairs[pairIndex].collider2));
+        // Note that the pair might be disabled
+        OverlappingPairs::ConcaveOverlappingPair& overlappingPair = *static_cast<OverlappingPairs::ConcaveOverlappingPair*>(mOverlappingPairs.getOverlappingPair(pairId));
+
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider2) != -1);
+        assert(mCollidersComponents.getBroadPhaseId(overlappingPair.collider1) != mCollidersComponents.getBroadPhaseId(overlappingPair.collider2));
 
-        computeConvexVsConcaveMiddlePhase(mOverlappingPairs.mConcavePairs[pairIndex], mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
+        computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, reportContacts);
     }
 }
 
@@ -1042,7 +1046,7 @@ void CollisionDetectionSystem::createSnapshotContacts(Array<ContactPair>& contac
     for (uint32 p=0; p < nbContactPairs; p++) {
 
         ContactPair& contactPair = contactPairs[p];
-        assert(contactPair.nbPotentialContactManifolds > 0);
+        assert(contactPair.nbPotentialContactManifolds > 0 || contactPair.isTrigger);
 
         contactPair.contactManifoldsIndex = static_cast<uint32>(contactManifolds.size());
         contactPair.nbContactManifolds = contactPair.nbPotentialContactManifolds;
-- 
2.43.0


From 5764b058c4fe72d649e75f20b115ed778f746c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 24/51] fix: overlap and collision queries see sleeping bodies
 and the query flag of colliders in all forms, and do not change the reported
 events

---
 .../systems/CollisionDetectionSystem.h        |  16 +-
 src/engine/OverlappingPairs.cpp               |   3 +
 src/systems/CollisionDetectionSystem.cpp      | 144 +++++++++---------
 3 files changed, 93 insertions(+), 70 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index 29015fb..2e1892f 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -185,7 +185,7 @@ class CollisionDetectionSystem {
         void computeBroadPhase();
 
         /// Compute the middle-phase collision detection
-        void computeMiddlePhase(NarrowPhaseInput& narrowPhaseInput, bool needToReportContacts, bool isWorldQuery);
+        void computeMiddlePhase(NarrowPhaseInput& narrowPhaseInput, bool needToReportContacts);
 
         // Compute the middle-phase collision detection
         void computeMiddlePhaseCollisionSnapshot(Array<uint64>& convexPairs, Array<uint64>& concavePairs, NarrowPhaseInput& narrowPhaseInput,
@@ -300,6 +300,20 @@ class CollisionDetectionSystem {
         /// Process the potential contacts where one collion is a concave shape
         void processSmoothMeshContacts(OverlappingPair* pair);
 
+        /// Return true if a given overlapping pair can be reported by a query on the world
+        bool isWorldQueryPair(const OverlappingPairs::OverlappingPair& overlappingPair) const;
+
+        /// Filter an array of overlapping pairs to keep only the pairs that can be reported by a query and for which a given condition holds
+        template<typename PairType, typename Condition>
+        void filterPairs(const Array<PairType>& overlappingPairs, Array<uint64>& pairs, const Condition& condition) const;
+
+        /// Filter all the (enabled and disabled) overlapping pairs to keep only the pairs that can be reported by a query and for which a given condition holds
+        template<typename Condition>
+        void filterAllPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs, const Condition& condition) const;
+
+        /// Filter the overlapping pairs to keep only the pairs that can be reported by a query on the world
+        void filterOverlappingPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs) const;
+
         /// Filter the overlapping pairs to keep only the pairs where a given body is involved
         void filterOverlappingPairs(Entity bodyEntity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const;
 
diff --git a/src/engine/OverlappingPairs.cpp b/src/engine/OverlappingPairs.cpp
index f01ed6a..17bd76c 100644
--- a/src/engine/OverlappingPairs.cpp
+++ b/src/engine/OverlappingPairs.cpp
@@ -153,6 +153,9 @@ void OverlappingPairs::removeDisabledConcavePairWithIndex(uint64 pairIndex, bool
     assert(mMapDisabledConcavePairIdToPairIndex[mDisabledConcavePairs[pairIndex].pairID] == pairIndex);
     mMapDisabledConcavePairIdToPairIndex.remove(mDisabledConcavePairs[pairIndex].pairID);
 
+    // Destroy all the LastFrameCollisionInfo objects
+    mDisabledConcavePairs[pairIndex].destroyLastFrameCollisionInfos();
+
     const uint64 nbDisabledPairs = mDisabledConcavePairs.size();
 
     // Change the mapping between the pairId and the index in the disabled pairs array if we swap the last item with the one to remove
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index 2c1852d..dd98bfd 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -92,8 +92,11 @@ void CollisionDetectionSystem::computeCollisionDetection() {
     // Compute the broad-phase collision detection
     computeBroadPhase();
 
+    // Remove non overlapping pairs
+    removeNonOverlappingPairs();
+
     // Compute the middle-phase collision detection
-    computeMiddlePhase(mNarrowPhaseInput, true, false);
+    computeMiddlePhase(mNarrowPhaseInput, true);
     
     // Compute the narrow-phase collision detection
     computeNarrowPhase();
@@ -114,9 +117,6 @@ void CollisionDetectionSystem::computeBroadPhase() {
     // Create new overlapping pairs if necessary
     updateOverlappingPairs(mBroadPhaseOverlappingNodes);
 
-    // Remove non overlapping pairs
-    removeNonOverlappingPairs();
-
     mBroadPhaseOverlappingNodes.clear();
 }
 
@@ -358,7 +358,7 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
 }
 
 // Compute the middle-phase collision detection
-void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseInput, bool needToReportContacts, bool isWorldQuery) {
+void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseInput, bool needToReportContacts) {
 
     RP3D_PROFILE("CollisionDetectionSystem::computeMiddlePhase()", mProfiler);
 
@@ -393,8 +393,6 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
 
         const bool isCollider1Trigger = mCollidersComponents.mIsTrigger[collider1Index];
         const bool isCollider2Trigger = mCollidersComponents.mIsTrigger[collider2Index];
-        const bool isWorldQueryCollider1 = mCollidersComponents.mIsWorldQueryCollider[collider1Index];
-        const bool isWorldQueryCollider2 = mCollidersComponents.mIsWorldQueryCollider[collider2Index];
         const bool isCollider1SimulationCollider = mCollidersComponents.mIsSimulationCollider[collider1Index];
         const bool isCollider2SimulationCollider = mCollidersComponents.mIsSimulationCollider[collider2Index];
 
@@ -406,13 +404,11 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
         const bool isBody1Enabled = collider1Index < nbEnabledColliderComponents;
         const bool isBody2Enabled = collider2Index < nbEnabledColliderComponents;
 
-        // Only test for collision for a world query and both colliders are world query colliders or
-        // if it is not a world query and both colliders are either triggers or simulation colliders
-        if ((isWorldQuery && isWorldQueryCollider1 && isWorldQueryCollider2) ||
-            (!isWorldQuery && isCollider1SimulationColliderOrTrigger && isCollider2SimulationColliderOrTrigger)) {
+        // Only test for collision if both colliders are either triggers or simulation colliders
+        if (isCollider1SimulationColliderOrTrigger && isCollider2SimulationColliderOrTrigger) {
 
-            // If it is not a world query, we make sure that the two bodies are enabled
-            if (isWorldQuery || (!isWorldQuery && (isBody1Enabled || isBody2Enabled))) {
+            // We make sure that at least one of the two bodies is enabled
+            if (isBody1Enabled || isBody2Enabled) {
 
                 const bool reportContacts = needToReportContacts && !isCollider1Trigger && !isCollider2Trigger;
 
@@ -445,8 +441,6 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
 
         const bool isCollider1Trigger = mCollidersComponents.mIsTrigger[collider1Index];
         const bool isCollider2Trigger = mCollidersComponents.mIsTrigger[collider2Index];
-        const bool isWorldQueryCollider1 = mCollidersComponents.mIsWorldQueryCollider[collider1Index];
-        const bool isWorldQueryCollider2 = mCollidersComponents.mIsWorldQueryCollider[collider2Index];
         const bool isCollider1SimulationCollider = mCollidersComponents.mIsSimulationCollider[collider1Index];
         const bool isCollider2SimulationCollider = mCollidersComponents.mIsSimulationCollider[collider2Index];
 
@@ -455,16 +449,14 @@ void CollisionDetectionSystem::computeMiddlePhase(NarrowPhaseInput& narrowPhaseI
 
         overlappingPair.collidingInCurrentFrame = false;
 
-        // Only test for collision for a world query and both colliders are world query colliders or
-        // if it is not a world query and both colliders are either triggers or simulation colliders
-        if ((isWorldQuery && isWorldQueryCollider1 && isWorldQueryCollider2) ||
-            (!isWorldQuery && isCollider1SimulationColliderOrTrigger && isCollider2SimulationColliderOrTrigger)) {
+        // Only test for collision if both colliders are either triggers or simulation colliders
+        if (isCollider1SimulationColliderOrTrigger && isCollider2SimulationColliderOrTrigger) {
 
             const bool isBody1Enabled = collider1Index < nbEnabledColliderComponents;
             const bool isBody2Enabled = collider2Index < nbEnabledColliderComponents;
 
-            // If it is not a world query, we make sure that the two bodies are enabled
-            if (isWorldQuery || (!isWorldQuery && (isBody1Enabled || isBody2Enabled))) {
+            // We make sure that at least one of the two bodies is enabled
+            if (isBody1Enabled || isBody2Enabled) {
 
                 computeConvexVsConcaveMiddlePhase(overlappingPair, mMemoryManager.getSingleFrameAllocator(), narrowPhaseInput, needToReportContacts);
 
@@ -1823,11 +1815,19 @@ void CollisionDetectionSystem::testOverlap(OverlapCallback& callback) {
     // Compute the broad-phase collision detection
     computeBroadPhase();
 
-    // Compute the middle-phase collision detection
-    computeMiddlePhase(narrowPhaseInput, false, true);
+    // Filter the overlapping pairs to get only the ones that can be reported by a query
+    Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+    Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+    filterOverlappingPairs(convexPairs, concavePairs);
+
+    if (convexPairs.size() > 0 || concavePairs.size() > 0) {
 
-    // Compute the narrow-phase collision detection and report overlapping shapes
-    computeNarrowPhaseOverlapSnapshot(narrowPhaseInput, &callback);
+        // Compute the middle-phase collision detection
+        computeMiddlePhaseCollisionSnapshot(convexPairs, concavePairs, narrowPhaseInput, false);
+
+        // Compute the narrow-phase collision detection and report overlapping shapes
+        computeNarrowPhaseOverlapSnapshot(narrowPhaseInput, &callback);
+    }
 }
 
 // Report all the bodies that overlap (collide) with the body in parameter
@@ -1907,69 +1907,75 @@ void CollisionDetectionSystem::testCollision(CollisionCallback& callback) {
     // Compute the broad-phase collision detection
     computeBroadPhase();
 
-    // Compute the middle-phase collision detection
-    computeMiddlePhase(narrowPhaseInput, true, true);
+    // Filter the overlapping pairs to get only the ones that can be reported by a query
+    Array<uint64> convexPairs(mMemoryManager.getPoolAllocator());
+    Array<uint64> concavePairs(mMemoryManager.getPoolAllocator());
+    filterOverlappingPairs(convexPairs, concavePairs);
 
-    // Compute the narrow-phase collision detection and report contacts
-    computeNarrowPhaseCollisionSnapshot(narrowPhaseInput, callback);
-}
+    if (convexPairs.size() > 0 || concavePairs.size() > 0) {
 
-// Filter the overlapping pairs to keep only the pairs where a given body is involved
-void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
+        // Compute the middle-phase collision detection
+        computeMiddlePhaseCollisionSnapshot(convexPairs, concavePairs, narrowPhaseInput, true);
 
-    // For each convex pairs
-    const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
-    for (uint32 i=0; i < nbConvexPairs; i++) {
+        // Compute the narrow-phase collision detection and report contacts
+        computeNarrowPhaseCollisionSnapshot(narrowPhaseInput, callback);
+    }
+}
 
-        if (mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1) == bodyEntity ||
-            mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2) == bodyEntity) {
+// Return true if a given overlapping pair can be reported by a query on the world
+bool CollisionDetectionSystem::isWorldQueryPair(const OverlappingPairs::OverlappingPair& overlappingPair) const {
 
-            convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
-        }
-    }
+    return mCollidersComponents.getIsWorldQueryCollider(overlappingPair.collider1) &&
+           mCollidersComponents.getIsWorldQueryCollider(overlappingPair.collider2) &&
+           isCollisionFilteringAccepted(overlappingPair);
+}
 
-    // For each concave pairs
-    const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
-    for (uint32 i=0; i < nbConcavePairs; i++) {
+// Filter an array of overlapping pairs to keep only the pairs that can be reported by a query and for which a given condition holds
+template<typename PairType, typename Condition>
+void CollisionDetectionSystem::filterPairs(const Array<PairType>& overlappingPairs, Array<uint64>& pairs, const Condition& condition) const {
+
+    const uint64 nbPairs = overlappingPairs.size();
+    for (uint64 i=0; i < nbPairs; i++) {
 
-        if (mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1) == bodyEntity ||
-            mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2) == bodyEntity) {
+        if (isWorldQueryPair(overlappingPairs[i]) &&
+            condition(mCollidersComponents.getBody(overlappingPairs[i].collider1), mCollidersComponents.getBody(overlappingPairs[i].collider2))) {
 
-            concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
+            pairs.add(overlappingPairs[i].pairID);
         }
     }
 }
 
-// Filter the overlapping pairs to keep only the pairs where two given bodies are involved
-void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity body2Entity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
+// Filter all the (enabled and disabled) overlapping pairs to keep only the pairs that can be reported by a query and for which a given condition holds
+template<typename Condition>
+void CollisionDetectionSystem::filterAllPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs, const Condition& condition) const {
 
-    // For each convex pair
-    const uint32 nbConvexPairs = static_cast<uint32>(mOverlappingPairs.mConvexPairs.size());
-    for (uint32 i=0; i < nbConvexPairs; i++) {
-
-        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider1);
-        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConvexPairs[i].collider2);
+    filterPairs(mOverlappingPairs.mConvexPairs, convexPairs, condition);
+    filterPairs(mOverlappingPairs.mDisabledConvexPairs, convexPairs, condition);
+    filterPairs(mOverlappingPairs.mConcavePairs, concavePairs, condition);
+    filterPairs(mOverlappingPairs.mDisabledConcavePairs, concavePairs, condition);
+}
 
-        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
-            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+// Filter the overlapping pairs to keep only the pairs that can be reported by a query on the world
+void CollisionDetectionSystem::filterOverlappingPairs(Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
 
-            convexPairs.add(mOverlappingPairs.mConvexPairs[i].pairID);
-        }
-    }
+    filterAllPairs(convexPairs, concavePairs, [](Entity, Entity) { return true; });
+}
 
-    // For each concave pair
-    const uint32 nbConcavePairs = static_cast<uint32>(mOverlappingPairs.mConcavePairs.size());
-    for (uint32 i=0; i < nbConcavePairs; i++) {
+// Filter the overlapping pairs to keep only the pairs where a given body is involved
+void CollisionDetectionSystem::filterOverlappingPairs(Entity bodyEntity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
 
-        const Entity collider1Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider1);
-        const Entity collider2Body = mCollidersComponents.getBody(mOverlappingPairs.mConcavePairs[i].collider2);
+    filterAllPairs(convexPairs, concavePairs, [bodyEntity](Entity collider1Body, Entity collider2Body) {
+        return collider1Body == bodyEntity || collider2Body == bodyEntity;
+    });
+}
 
-        if ((collider1Body == body1Entity && collider2Body == body2Entity) ||
-            (collider1Body == body2Entity && collider2Body == body1Entity)) {
+// Filter the overlapping pairs to keep only the pairs where two given bodies are involved
+void CollisionDetectionSystem::filterOverlappingPairs(Entity body1Entity, Entity body2Entity, Array<uint64>& convexPairs, Array<uint64>& concavePairs) const {
 
-            concavePairs.add(mOverlappingPairs.mConcavePairs[i].pairID);
-        }
-    }
+    filterAllPairs(convexPairs, concavePairs, [body1Entity, body2Entity](Entity collider1Body, Entity collider2Body) {
+        return (collider1Body == body1Entity && collider2Body == body2Entity) ||
+               (collider1Body == body2Entity && collider2Body == body1Entity);
+    });
 }
 
 // Return the world event listener
-- 
2.43.0


From 5ba2e0e4eac62736712d3e7db252a095273107b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:12 +0000
Subject: [PATCH 25/51] fix: destroying a joint that disables collisions lets
 bodies that overlap collide again unless another joint forbids it

---
 src/engine/PhysicsWorld.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 80a425c..81db1e4 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -610,13 +610,6 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     RP3D_LOG(mConfig.worldName, Logger::Level::Information, Logger::Category::Joint,
              "Joint " + std::to_string(joint->getEntity().id) + ": joint destroyed",  __FILE__, __LINE__);
 
-    // If the collision between the two bodies of the constraint was disabled
-    if (!joint->isCollisionEnabled()) {
-
-        // Remove the pair of bodies from the set of body pairs that cannot collide with each other
-        mCollisionDetection.removeNoCollisionPair(joint->getBody1()->getEntity(), joint->getBody2()->getEntity());
-    }
-
     RigidBody* body1 = joint->getBody1();
     RigidBody* body2 = joint->getBody2();
 
@@ -628,6 +621,31 @@ void PhysicsWorld::destroyJoint(Joint* joint) {
     mRigidBodyComponents.removeJointFromBody(body1->getEntity(), joint->getEntity());
     mRigidBodyComponents.removeJointFromBody(body2->getEntity(), joint->getEntity());
 
+    // If the collision between the two bodies of the constraint was disabled
+    if (!joint->isCollisionEnabled()) {
+
+        // Check if the collision between the two bodies is also disabled by another joint
+        bool isCollisionDisabledByOtherJoint = false;
+        const Array<Entity>& joints = mRigidBodyComponents.getJoints(body1->getEntity());
+        for (uint32 i=0; i < joints.size(); i++) {
+
+            const Entity otherBody = mJointsComponents.getBody1Entity(joints[i]) == body1->getEntity() ? mJointsComponents.getBody2Entity(joints[i]) :
+                                                                                                          mJointsComponents.getBody1Entity(joints[i]);
+            if (otherBody == body2->getEntity() && !mJointsComponents.getIsCollisionEnabled(joints[i])) {
+                isCollisionDisabledByOtherJoint = true;
+            }
+        }
+
+        if (!isCollisionDisabledByOtherJoint) {
+
+            // Remove the pair of bodies from the set of body pairs that cannot collide with each other
+            mCollisionDetection.removeNoCollisionPair(body1->getEntity(), body2->getEntity());
+
+            // Ask the broad-phase to test the body again because the two bodies might already overlap
+            body1->askForBroadPhaseCollisionCheck();
+        }
+    }
+
     size_t nbBytes = joint->getSizeInBytes();
 
     Entity jointEntity = joint->getEntity();
-- 
2.43.0


From c2558611e3c1bf672f405b1f8bc394429ad4da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:06 +0000
Subject: [PATCH 26/51] fix: creating a joint that disables collisions does not
 report pairs of colliders destroyed or allowed again before the next step

---
 .../systems/CollisionDetectionSystem.h        |  4 +--
 src/systems/CollisionDetectionSystem.cpp      | 32 +++++++++----------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/reactphysics3d/systems/CollisionDetectionSystem.h b/include/reactphysics3d/systems/CollisionDetectionSystem.h
index 2e1892f..661f791 100644
--- a/include/reactphysics3d/systems/CollisionDetectionSystem.h
+++ b/include/reactphysics3d/systems/CollisionDetectionSystem.h
@@ -213,8 +213,8 @@ class CollisionDetectionSystem {
         /// Return true if the collision filtering (category and mask bits) allows collision between two colliders
         bool isCollisionFilteringAccepted(uint32 collider1Index, uint32 collider2Index) const;
 
-        /// Return true if the collision filtering (category and mask bits) allows collision between the two colliders of a pair
-        bool isCollisionFilteringAccepted(const OverlappingPairs::OverlappingPair& overlappingPair) const;
+        /// Return true if the two colliders of a pair are allowed to collide (collision filtering and set of bodies that cannot collide)
+        bool isCollisionAllowed(const OverlappingPairs::OverlappingPair& overlappingPair) const;
 
         /// Remove pairs that are not overlapping anymore
         void removeNonOverlappingPairs();
diff --git a/src/systems/CollisionDetectionSystem.cpp b/src/systems/CollisionDetectionSystem.cpp
index dd98bfd..9d163ac 100644
--- a/src/systems/CollisionDetectionSystem.cpp
+++ b/src/systems/CollisionDetectionSystem.cpp
@@ -133,11 +133,16 @@ bool CollisionDetectionSystem::isCollisionFilteringAccepted(uint32 collider1Inde
            (shape1CollisionCategoryBits & shape2CollideWithMaskBits) != 0;
 }
 
-// Return true if the collision filtering (category and mask bits) allows collision between the two colliders of a pair
-bool CollisionDetectionSystem::isCollisionFilteringAccepted(const OverlappingPairs::OverlappingPair& overlappingPair) const {
+// Return true if the two colliders of a pair are allowed to collide (collision filtering and set of bodies that cannot collide)
+bool CollisionDetectionSystem::isCollisionAllowed(const OverlappingPairs::OverlappingPair& overlappingPair) const {
 
-    return isCollisionFilteringAccepted(mCollidersComponents.getEntityIndex(overlappingPair.collider1),
-                                        mCollidersComponents.getEntityIndex(overlappingPair.collider2));
+    const uint32 collider1Index = mCollidersComponents.getEntityIndex(overlappingPair.collider1);
+    const uint32 collider2Index = mCollidersComponents.getEntityIndex(overlappingPair.collider2);
+
+    const bodypair bodiesIndex = OverlappingPairs::computeBodiesIndexPair(mCollidersComponents.mBodiesEntities[collider1Index],
+                                                                          mCollidersComponents.mBodiesEntities[collider2Index]);
+
+    return isCollisionFilteringAccepted(collider1Index, collider2Index) && !mNoCollisionPairs.contains(bodiesIndex);
 }
 
 // Remove pairs that are not overlapping anymore
@@ -154,7 +159,7 @@ void CollisionDetectionSystem::removeNonOverlappingPairs() {
         // Otherwise, we destroy the overlapping pair
         if (overlappingPair.needToTestOverlap) {
 
-            if(isCollisionFilteringAccepted(overlappingPair) &&
+            if(isCollisionAllowed(overlappingPair) &&
                mBroadPhaseSystem.testOverlappingShapes(overlappingPair.broadPhaseId1, overlappingPair.broadPhaseId2)) {
                 overlappingPair.needToTestOverlap = false;
             }
@@ -175,7 +180,7 @@ void CollisionDetectionSystem::removeNonOverlappingPairs() {
         // Otherwise, we destroy the overlapping pair
         if (overlappingPair.needToTestOverlap) {
 
-            if(isCollisionFilteringAccepted(overlappingPair) &&
+            if(isCollisionAllowed(overlappingPair) &&
                mBroadPhaseSystem.testOverlappingShapes(overlappingPair.broadPhaseId1, overlappingPair.broadPhaseId2)) {
                 overlappingPair.needToTestOverlap = false;
             }
@@ -261,8 +266,8 @@ void CollisionDetectionSystem::addLostContactPair(OverlappingPairs::OverlappingP
 void CollisionDetectionSystem::addNoCollisionPair(Entity body1Entity, Entity body2Entity) {
     mNoCollisionPairs.add(OverlappingPairs::computeBodiesIndexPair(body1Entity, body2Entity));
 
-    // If there already are OverlappingPairs involved, they should be removed; Or they will remain in collision state
-    Array<uint64> toBeRemoved(mMemoryManager.getPoolAllocator());
+    // If there already are OverlappingPairs involved, they need to be tested again in the next frame (they will be
+    // removed because the bodies cannot collide anymore)
     const Array<Entity>& colliderEntities = mWorld->mBodyComponents.getColliders(body1Entity);
     for (uint32 i = 0; i < colliderEntities.size(); ++i) {
 
@@ -277,15 +282,10 @@ void CollisionDetectionSystem::addNoCollisionPair(Entity body1Entity, Entity bod
             const Entity overlappingBody1 = mOverlappingPairs.mColliderComponents.getBody(pair->collider1);
             const Entity overlappingBody2 = mOverlappingPairs.mColliderComponents.getBody(pair->collider2);
             if (overlappingBody1 == body2Entity || overlappingBody2 == body2Entity) {
-                toBeRemoved.add(overlappingPairs[j]);
+                pair->needToTestOverlap = true;
             }
         }
     }
-
-    // Remove the overlapping pairs that needs to be removed
-    for (uint32 i = 0; i < toBeRemoved.size(); ++i) {
-        removeOverlappingPair(toBeRemoved[i], true);
-    }
 }
 
 // Take an array of overlapping nodes in the broad-phase and create new overlapping pairs if necessary
@@ -346,7 +346,7 @@ void CollisionDetectionSystem::updateOverlappingPairs(const Array<Pair<int32, in
                             }
                         }
                     }
-                    else if (isCollisionFilteringAccepted(*overlappingPair)) {
+                    else if (isCollisionAllowed(*overlappingPair)) {
 
                         // We do not need to test the pair for overlap because it has just been reported that they still overlap
                         overlappingPair->needToTestOverlap = false;
@@ -1927,7 +1927,7 @@ bool CollisionDetectionSystem::isWorldQueryPair(const OverlappingPairs::Overlapp
 
     return mCollidersComponents.getIsWorldQueryCollider(overlappingPair.collider1) &&
            mCollidersComponents.getIsWorldQueryCollider(overlappingPair.collider2) &&
-           isCollisionFilteringAccepted(overlappingPair);
+           isCollisionAllowed(overlappingPair);
 }
 
 // Filter an array of overlapping pairs to keep only the pairs that can be reported by a query and for which a given condition holds
-- 
2.43.0


From 967ea93684566b6e22473528147dd677d606758c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:39 +0000
Subject: [PATCH 27/51] fix: destroying a sleeping rigid body destroys all of
 its joints even if its components move when it wakes up

---
 src/engine/PhysicsWorld.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/engine/PhysicsWorld.cpp b/src/engine/PhysicsWorld.cpp
index 81db1e4..182f456 100644
--- a/src/engine/PhysicsWorld.cpp
+++ b/src/engine/PhysicsWorld.cpp
@@ -454,9 +454,9 @@ void PhysicsWorld::destroyRigidBody(RigidBody* rigidBody) {
     rigidBody->removeAllColliders();
 
     // Destroy all the joints in which the rigid body to be destroyed is involved
-    const Array<Entity>& joints = mRigidBodyComponents.getJoints(rigidBody->getEntity());
-    while (joints.size() > 0) {
-        destroyJoint(mJointsComponents.getJoint(joints[0]));
+    // Note that destroying a joint might wake up the body and therefore move its components in the arrays
+    while (mRigidBodyComponents.getJoints(rigidBody->getEntity()).size() > 0) {
+        destroyJoint(mJointsComponents.getJoint(mRigidBodyComponents.getJoints(rigidBody->getEntity())[0]));
     }
 
     // Destroy the corresponding entity and its components
-- 
2.43.0


From 320223e191b8c55ba0512c234c4d357c30a05a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:52 +0000
Subject: [PATCH 28/51] fix: changing the type or the activity of a body leaves
 its sleep state and its collision pairs as its new type and activity ask for

---
 src/body/RigidBody.cpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 7018701..333da45 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -108,17 +108,27 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setInverseInertiaTensorLocal(mEntity, inverseInertiaTensorLocal);
     }
 
-    // Disable/Enable the body if necessary (components of static bodies are disabled)
-    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC);
+    // Awake the body (a static body is never sleeping and an inactive body stays disabled)
+    const bool isActive = mWorld.mBodyComponents.getIsActive(mEntity);
+    mWorld.mRigidBodyComponents.setIsSleeping(mEntity, type != BodyType::STATIC && !isActive);
+    mWorld.mRigidBodyComponents.setSleepTime(mEntity, decimal(0.0));
 
-    // Awake the body
-    setIsSleeping(false);
+    // Disable/Enable the body if necessary (components of static bodies are disabled)
+    mWorld.setBodyDisabled(mEntity, type == BodyType::STATIC || !isActive);
 
     if (type == BodyType::STATIC) {
 
         // Disable overlapping pairs if both bodies are disabled (sleeping or static)
         checkForDisabledOverlappingPairs();
     }
+    else if (isActive) {
+
+        // We need to enable the currently disabled overlapping pairs
+        enableOverlappingPairs();
+
+        // Make sure the broad-phase will recompute the overlapping pairs with this body
+        askForBroadPhaseCollisionCheck();
+    }
 
     // Reset the force and torque on the body
     mWorld.mRigidBodyComponents.setExternalForce(mEntity, Vector3::zero());
@@ -1139,7 +1149,7 @@ void RigidBody::checkForDisabledOverlappingPairs() {
             const bool isBody2Disabled = mWorld.mRigidBodyComponents.getIsEntityDisabled(body2Entity);
 
             // If both bodies of the pair are disabled, we disable the overlapping pair
-            if (isBody1Disabled && isBody2Disabled) {
+            if (isBody1Disabled && isBody2Disabled && pair->isEnabled) {
 
                 mWorld.mCollisionDetection.disableOverlappingPair(overlappingPairs[j]);
             }
@@ -1187,7 +1197,11 @@ void RigidBody::setIsActive(bool isActive) {
     // If the state does not change
     if (mWorld.mBodyComponents.getIsActive(mEntity) == isActive) return;
 
-    setIsSleeping(!isActive);
+    // Put the body to sleep before it becomes inactive
+    if (!isActive) setIsSleeping(true);
 
     Body::setIsActive(isActive);
+
+    // Awake the body once it is active
+    if (isActive) setIsSleeping(false);
 }
-- 
2.43.0


From 663d6068cafb250549ce856384c9124bcdc967be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 29/51] fix: creating a convex mesh from inconsistent faces
 fails with a message instead of reading outside of its arrays

---
 src/collision/ConvexMesh.cpp | 56 ++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/collision/ConvexMesh.cpp b/src/collision/ConvexMesh.cpp
index e301ea6..09a50f0 100644
--- a/src/collision/ConvexMesh.cpp
+++ b/src/collision/ConvexMesh.cpp
@@ -30,6 +30,8 @@
 #include <reactphysics3d/utils/DefaultLogger.h>
 #include <reactphysics3d/engine/PhysicsCommon.h>
 #include <reactphysics3d/utils/Message.h>
+#include <reactphysics3d/containers/Set.h>
+#include <reactphysics3d/containers/Pair.h>
 #include <cstdlib>
 #include <vector>
 
@@ -64,6 +66,9 @@ bool ConvexMesh::init(const PolygonVertexArray& polygonVertexArray, std::vector<
     // Create the half-edge structure of the mesh
     isValid &= createHalfEdgeStructure(polygonVertexArray, errors);
 
+    // If the vertices and faces are not consistent
+    if (!isValid) return false;
+
     // Compute the faces normals
     isValid &= computeFacesNormals(errors);
 
@@ -126,6 +131,9 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
 
     uint32 nbEdges = 0;
 
+    // All the directed edges (start vertex, end vertex) of the faces
+    Set<Pair<uint32, uint32>> edges(mMemoryAllocator);
+
     // For each polygon face of the mesh
     const uint32 nbFaces = polygonVertexArray.getNbFaces();
     for (uint32 f=0; f < nbFaces; f++) {
@@ -154,12 +162,56 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
                      "Error when creating a ConvexMesh: Mesh has a face with less than three vertices.",  __FILE__, __LINE__);
         }
 
+        // For each edge of the face
+        for (uint32 v=0; v < faceVertices.size(); v++) {
+
+            const uint32 v1 = faceVertices[v];
+            const uint32 v2 = faceVertices[v == faceVertices.size() - 1 ? 0 : v + 1];
+
+            // If the index of the vertex is not valid
+            if (v1 >= nbVertices) {
+
+                errors.push_back(Message("The face with index " + std::to_string(f) + " has a vertex with index " + std::to_string(v1) +
+                                         " but the PolygonVertexArray only has " + std::to_string(nbVertices) + " vertices"));
+
+                isValid = false;
+            }
+
+            // If the edge is not valid or has already been used by a face with the same orientation
+            if (v1 == v2 || !edges.add(Pair<uint32, uint32>(v1, v2))) {
+
+                errors.push_back(Message("The face with index " + std::to_string(f) + " has an edge that is degenerated or that is used several times in the same direction"));
+
+                isValid = false;
+            }
+        }
+
         // Addd the face into the half-edge structure
         mHalfEdgeStructure.addFace(faceVertices);
     }
 
     nbEdges /= 2;
 
+    // If there are no faces
+    if (nbFaces == 0) {
+
+        errors.push_back(Message("The mesh does not have any faces"));
+
+        isValid = false;
+    }
+
+    // Each edge must be shared by two faces
+    for (auto it = edges.begin(); it != edges.end(); ++it) {
+
+        if (!edges.contains(Pair<uint32, uint32>(it->second, it->first))) {
+
+            errors.push_back(Message("The edge between the vertices with indices " + std::to_string(it->first) + " and " +
+                                     std::to_string(it->second) + " is not shared by two faces"));
+
+            isValid = false;
+        }
+    }
+
     // If the mesh is not valid (check Euler formula V + F - E = 2) (has duplicated vertices)
     if (2 + nbEdges - polygonVertexArray.getNbFaces() != polygonVertexArray.getNbVertices()) {
 
@@ -172,11 +224,11 @@ bool ConvexMesh::createHalfEdgeStructure(const PolygonVertexArray& polygonVertex
         isValid = false;
     }
 
-    //if (isValid) {
+    if (isValid) {
 
         // Initialize the half-edge structure
         mHalfEdgeStructure.computeHalfEdges();
-    //}
+    }
 
     return isValid;
 }
-- 
2.43.0


From 46c07218001bdc33c549309a7adbfb39889d9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:24 +0000
Subject: [PATCH 30/51] fix: a triangle mesh drops an unused first vertex,
 weights obtuse angles and opposite faces correctly, and refuses vertices that
 are all zero

---
 src/collision/TriangleMesh.cpp | 46 +++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/collision/TriangleMesh.cpp b/src/collision/TriangleMesh.cpp
index 7c3029d..3e8f7d5 100644
--- a/src/collision/TriangleMesh.cpp
+++ b/src/collision/TriangleMesh.cpp
@@ -92,8 +92,6 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
     bool isValid = true;
 
-    assert(mEpsilon > 0);
-
     const decimal epsilonSquare = mEpsilon * mEpsilon;
 
     Array<bool> areUserVerticesUsed(mAllocator);
@@ -135,7 +133,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             const Vector3 v2 = triangleVertexArray.getVertex(vertexIndices[1]);
             const Vector3 v3 = triangleVertexArray.getVertex(vertexIndices[2]);
             const Vector3 faceNormal = (v3 - v1).cross(v2 - v1);
-            const bool isFaceZeroArea = faceNormal.lengthSquare() < epsilonSquare;
+            const bool isFaceZeroArea = faceNormal.lengthSquare() <= epsilonSquare;
             if (isFaceZeroArea) {
 
                 // Add a warning message for the user
@@ -148,8 +146,8 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
             edgesLengthsSquare[0] = (v2 - v1).lengthSquare();
             edgesLengthsSquare[1] = (v3 - v2).lengthSquare();
             edgesLengthsSquare[2] = (v1 - v3).lengthSquare();
-            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] < epsilonSquare || edgesLengthsSquare[1] < epsilonSquare ||
-                                         edgesLengthsSquare[2] < epsilonSquare;
+            bool hasFaceZeroLengthEdge = edgesLengthsSquare[0] <= epsilonSquare || edgesLengthsSquare[1] <= epsilonSquare ||
+                                         edgesLengthsSquare[2] <= epsilonSquare;
             if (hasFaceZeroLengthEdge) {
 
                 // Add a warning message for the user
@@ -167,8 +165,8 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 
                         vertexNormal[v] = triangleVertexArray.getVertexNormal(vertexIndices[v]);
 
-                        // Check that the normal is not too small
-                        if (vertexNormal[v].lengthSquare() < epsilonSquare) {
+                        // Check that the normal is not too small (its length does not depend on the size of the mesh)
+                        if (vertexNormal[v].lengthSquare() < MACHINE_EPSILON * MACHINE_EPSILON) {
 
                             messages.push_back(Message("The length of the provided normal for vertex with index " + std::to_string(vertexIndices[v]) + " is too small"))  ;
                             isValid = false;
@@ -217,7 +215,7 @@ bool TriangleMesh::copyData(const TriangleVertexArray& triangleVertexArray, std:
 void TriangleMesh::removeUnusedVertices(Array<bool>& areUsedVertices) {
 
     // For each vertex of the user mesh
-    for (uint32 i=mVertices.size() - 1; i > 0; i--) {
+    for (uint32 i=mVertices.size(); i-- > 0; ) {
 
         // If the vertex is not used
         if (!areUsedVertices[i]) {
@@ -292,6 +290,11 @@ void TriangleMesh::computeVerticesNormals() {
         edgesLengths[1] = (triangleVertices[2] - triangleVertices[1]).length();
         edgesLengths[2] = (triangleVertices[0] - triangleVertices[2]).length();
 
+        // Normal of the face
+        Vector3 normal = (triangleVertices[1] - triangleVertices[0]).cross(triangleVertices[2] - triangleVertices[0]);
+        assert(normal.lengthSquare() > mEpsilon * mEpsilon);
+        normal /= normal.length();
+
         // For each vertex of the face
         for (uint32 v=0; v < 3; v++) {
 
@@ -303,17 +306,13 @@ void TriangleMesh::computeVerticesNormals() {
             // Weighted normal using angle
             const decimal dotProduct = a.dot(b);
             decimal lengthATimesLengthB = (edgesLengths[previousVertex] * edgesLengths[v]);
-            assert(lengthATimesLengthB * lengthATimesLengthB >= mEpsilon * mEpsilon);
+            assert(lengthATimesLengthB > decimal(0.0));
 
             decimal cosA = dotProduct / lengthATimesLengthB;
-            cosA = std::min(std::max(cosA, decimal(0.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
+            cosA = std::min(std::max(cosA, decimal(-1.0)), decimal(1.0));    // Angle inside a triangle should be in [0, pi]
             const decimal angle = std::acos(cosA);
             assert(angle >= decimal(0.0));
 
-            Vector3 normal = a.cross(b);
-            assert(normal.lengthSquare() > mEpsilon * mEpsilon);
-            normal.normalize();
-
             // Add the normal component of this vertex into the normals array
             mVerticesNormals[mTriangles[f * 3 + v]] += angle * normal;
         }
@@ -321,10 +320,27 @@ void TriangleMesh::computeVerticesNormals() {
 
     assert(mVertices.size() == mVerticesNormals.size());
 
+    // The normals of the faces around a vertex might cancel each other (with two faces back to back for instance).
+    // In this case, we use the normal of one of those faces
+    for (uint32 f=0; f < mTriangles.size() / 3; f++) {
+
+        for (uint32 v=0; v < 3; v++) {
+
+            Vector3& vertexNormal = mVerticesNormals[mTriangles[f * 3 + v]];
+
+            if (vertexNormal.lengthSquare() < MACHINE_EPSILON) {
+
+                const Vector3& vertex = mVertices[mTriangles[f * 3]];
+                vertexNormal = (mVertices[mTriangles[f * 3 + 1]] - vertex).cross(mVertices[mTriangles[f * 3 + 2]] - vertex);
+                vertexNormal /= vertexNormal.length();
+            }
+        }
+    }
+
     // Normalize the computed vertices normals
     for (uint32 v=0; v < mVertices.size(); v++) {
 
-        assert(mVerticesNormals[v].lengthSquare() >= mEpsilon * mEpsilon);
+        assert(mVerticesNormals[v].lengthSquare() >= MACHINE_EPSILON);
 
         // Normalize the normal
         mVerticesNormals[v].normalize();
-- 
2.43.0


From d933a073f8062dd2261c1be20f08f67b6a8f01b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:40 +0000
Subject: [PATCH 31/51] fix: convex hulls of points on edges, of flat or tiny
 point clouds and of no points

---
 .../utils/quickhull/QHHalfEdgeStructure.h     | 13 +++++++----
 .../utils/quickhull/QuickHull.h               |  2 +-
 src/utils/quickhull/QHHalfEdgeStructure.cpp   | 15 +++++++++++-
 src/utils/quickhull/QuickHull.cpp             | 23 ++++++++++++-------
 4 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
index a7a86b0..63e1ebc 100644
--- a/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
+++ b/include/reactphysics3d/utils/quickhull/QHHalfEdgeStructure.h
@@ -154,10 +154,12 @@ class QHHalfEdgeStructure {
                 // For each vertex of the face
                 const QHHalfEdgeStructure::Edge* firstFaceEdge = edge;
                 const QHHalfEdgeStructure::Edge* faceEdge = firstFaceEdge;
+                const Vector3 origin = points[firstFaceEdge->startVertex->externalIndex];
                 do {
 
-                    const Vector3 v1 = points[faceEdge->startVertex->externalIndex];
-                    const Vector3 v2 = points[faceEdge->endVertex->externalIndex];
+                    // We use coordinates relative to a vertex of the face (for better precision away from the origin)
+                    const Vector3 v1 = points[faceEdge->startVertex->externalIndex] - origin;
+                    const Vector3 v2 = points[faceEdge->endVertex->externalIndex] - origin;
                     centroid += v1;
                     normal += Vector3((v1.y - v2.y) * (v1.z + v2.z),
                                       (v1.z - v2.z) * (v1.x + v2.x),
@@ -171,10 +173,10 @@ class QHHalfEdgeStructure {
 
                 assert(nbVertices > 0);
 
-                centroid = centroid / nbVertices;
+                centroid = origin + centroid / nbVertices;
                 const decimal normalLength = normal.length();
                 assert(normalLength > 0);
-                normal = normal / normalLength;
+                normal *= decimal(1.0) / normalLength;
                 area = normalLength * decimal(0.5);
             }
 
@@ -324,6 +326,9 @@ class QHHalfEdgeStructure {
         /// Remove an half-edge
         void removeHalfEdge(Edge* edge);
 
+        /// Change the start and end vertices of an half-edge
+        void changeHalfEdgeVertices(Edge* edge, Vertex* startVertex, Vertex* endVertex);
+
         /// Remove a vertex
         void removeVertex(Vertex* vertex);
 
diff --git a/include/reactphysics3d/utils/quickhull/QuickHull.h b/include/reactphysics3d/utils/quickhull/QuickHull.h
index d393cba..040155c 100644
--- a/include/reactphysics3d/utils/quickhull/QuickHull.h
+++ b/include/reactphysics3d/utils/quickhull/QuickHull.h
@@ -77,7 +77,7 @@ class QuickHull {
         // Compute the initial tetrahedron convex hull
         static bool computeInitialHull(Array<Vector3>& points, QHHalfEdgeStructure& convexHull,
                                        Array<QHHalfEdgeStructure::Face*>& initialFaces,
-                                       Array<uint32>& orphanPointsIndices,
+                                       Array<uint32>& orphanPointsIndices, decimal epsilon,
                                        MemoryAllocator& allocator, std::vector<Message>& errors);
 
         /// Extract the points from the array
diff --git a/src/utils/quickhull/QHHalfEdgeStructure.cpp b/src/utils/quickhull/QHHalfEdgeStructure.cpp
index 124f28d..1415904 100644
--- a/src/utils/quickhull/QHHalfEdgeStructure.cpp
+++ b/src/utils/quickhull/QHHalfEdgeStructure.cpp
@@ -273,6 +273,19 @@ void QHHalfEdgeStructure::removeHalfEdge(Edge* edge) {
     mNbHalfEdges--;
 }
 
+// Change the start and end vertices of an half-edge
+void QHHalfEdgeStructure::changeHalfEdgeVertices(Edge* edge, Vertex* startVertex, Vertex* endVertex) {
+
+    assert(mMapVerticesToEdge.containsKey(EdgeVertices(edge->startVertex, edge->endVertex)));
+    mMapVerticesToEdge.remove(EdgeVertices(edge->startVertex, edge->endVertex));
+
+    edge->startVertex = startVertex;
+    edge->endVertex = endVertex;
+
+    assert(!mMapVerticesToEdge.containsKey(EdgeVertices(startVertex, endVertex)));
+    mMapVerticesToEdge.add(Pair<EdgeVertices, Edge*>(EdgeVertices(startVertex, endVertex), edge));
+}
+
 // Remove a face and all its edges
 void QHHalfEdgeStructure::removeFace(Face* face) {
 
@@ -340,7 +353,7 @@ bool QHHalfEdgeStructure::isValid() const {
        isValid &= (face->previousFace == nullptr || face->previousFace == previousFace);
        isValid &= (previousFace == nullptr || previousFace->nextFace == face);
        isValid &= face->isValid();
-       isValid &= face->area > 0.00001;
+       isValid &= face->area > decimal(0.0);
        nbFaces++;
     };
     isValid &= nbFaces > 0 || mFaces == nullptr;
diff --git a/src/utils/quickhull/QuickHull.cpp b/src/utils/quickhull/QuickHull.cpp
index f45a55f..9c96d5e 100644
--- a/src/utils/quickhull/QuickHull.cpp
+++ b/src/utils/quickhull/QuickHull.cpp
@@ -53,7 +53,9 @@ bool QuickHull::computeConvexHull(const VertexArray& vertexArray, PolygonVertexA
     extractPoints(vertexArray, points);
 
     // Remove the duplicated vertices from the points
-    removeDuplicatedVertices(points, allocator);
+    if (points.size() > 0) {
+        removeDuplicatedVertices(points, allocator);
+    }
 
     // If there are less than four vertices in the vertex array
     if (points.size() < 4) {
@@ -92,7 +94,7 @@ bool QuickHull::computeConvexHull(const VertexArray& vertexArray, PolygonVertexA
     Array<QHHalfEdgeStructure::Face*> initialFaces(allocator);
 
     // Compute the initial convex hull
-    isValid &= computeInitialHull(points, convexHull, initialFaces, orphanPointsIndices, allocator, errors);
+    isValid &= computeInitialHull(points, convexHull, initialFaces, orphanPointsIndices, epsilon, allocator, errors);
     if (!isValid) {
         return false;
     }
@@ -148,7 +150,7 @@ void QuickHull::computeFinalPolygonVertexArray(const QHHalfEdgeStructure& convex
     // For each face of the convex hull
     for (const QHHalfEdgeStructure::Face* face = convexHull.getFaces(); face != nullptr; face = face->nextFace) {
 
-        assert(face->area > 0.00001);
+        assert(face->area > decimal(0.0));
 
         PolygonVertexArray::PolygonFace polygonFace;
         polygonFace.nbVertices = 0;
@@ -729,11 +731,12 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
         QHHalfEdgeStructure::Vertex* vertexToRemove = inEdge->endVertex;
         QHHalfEdgeStructure::Edge* outEdgeToRemove = inEdge->nextFaceEdge;
 
-        inEdge->twinEdge->startVertex = outEdgeToRemove->endVertex;
+        // The incoming edge (and its twin) now ends (starts) at the end vertex of the outgoing edge
+        QHHalfEdgeStructure::Vertex* newEndVertex = outEdgeToRemove->endVertex;
+
         outEdgeToRemove->twinEdge->previousFaceEdge->nextFaceEdge = inEdge->twinEdge;
         inEdge->twinEdge->previousFaceEdge = outEdgeToRemove->twinEdge->previousFaceEdge;
 
-        inEdge->endVertex = outEdgeToRemove->endVertex;
         inEdge->nextFaceEdge = outEdgeToRemove->nextFaceEdge;
         inEdge->nextFaceEdge->previousFaceEdge = inEdge;
 
@@ -745,6 +748,9 @@ void QuickHull::fixTopologicalIssueAtEdge(QHHalfEdgeStructure& convexHull, QHHal
         convexHull.removeHalfEdge(outEdgeToRemove->twinEdge);
         convexHull.removeHalfEdge(outEdgeToRemove);
 
+        convexHull.changeHalfEdgeVertices(inEdge, inEdge->startVertex, newEndVertex);
+        convexHull.changeHalfEdgeVertices(inEdge->twinEdge, newEndVertex, inEdge->twinEdge->endVertex);
+
         // Remove the redundant vertex
         convexHull.removeVertex(vertexToRemove);
 
@@ -892,7 +898,7 @@ void QuickHull::findFarthestFaceForVertex(uint32 vertexIndex, Array<QHHalfEdgeSt
 // Compute the initial tetrahedron convex hull
 bool QuickHull::computeInitialHull(Array<Vector3>& points, QHHalfEdgeStructure& convexHull,
                                    Array<QHHalfEdgeStructure::Face*>& initialFaces,
-                                   Array<uint32>& orphanPointsIndices,
+                                   Array<uint32>& orphanPointsIndices, decimal epsilon,
                                    MemoryAllocator& allocator, std::vector<Message>& errors) {
 
     // Find the extreme points on each X, Y and Z axes
@@ -961,7 +967,7 @@ bool QuickHull::computeInitialHull(Array<Vector3>& points, QHHalfEdgeStructure&
         }
     }
 
-    if (maxLargestDistSquare < MACHINE_EPSILON) {
+    if (maxLargestDistSquare < MACHINE_EPSILON || maxLargestDistSquare <= epsilon * epsilon) {
         errors.push_back(Message("Error during initial hull creation in QuickHull: vertices too close to each other"));
         return false;
     }
@@ -982,7 +988,8 @@ bool QuickHull::computeInitialHull(Array<Vector3>& points, QHHalfEdgeStructure&
         }
     }
 
-    if (maxLargestDistSquare < MACHINE_EPSILON) {
+    // If all the points are (almost) in the plane of the three first points, there is no volume to enclose
+    if (maxLargestDistSquare < MACHINE_EPSILON || maxLargestDistSquare <= decimal(8.0) * epsilon * planeNormal.length()) {
         errors.push_back(Message("Error during initial hull creation in QuickHull: vertices too close to each other"));
         return false;
     }
-- 
2.43.0


From ea55020a2067a5e4ce21e1a889d0476cc3831662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 32/51] fix: the bounds of a height field contain its vertices
 in spite of rounding of large heights

---
 src/collision/HeightField.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/collision/HeightField.cpp b/src/collision/HeightField.cpp
index e035dc3..fbc87e1 100644
--- a/src/collision/HeightField.cpp
+++ b/src/collision/HeightField.cpp
@@ -70,15 +70,13 @@ bool HeightField::init(int nbGridColumns, int nbGridRows,
 
     assert(mMinHeight <= mMaxHeight);
 
-    const decimal halfHeight = (mMaxHeight - mMinHeight) * decimal(0.5);
-    assert(halfHeight >= 0);
-
     assert(mWidth >= 1);
     assert(mLength >= 1);
 
     // Compute the local AABB of the height field
-    mBounds.setMin(Vector3(-mWidth * decimal(0.5), -halfHeight, -mLength * decimal(0.5)));
-    mBounds.setMax(Vector3(mWidth * decimal(0.5), halfHeight, mLength * decimal(0.5)));
+    // (the vertical bounds are computed like the height of a vertex to contain all of them in spite of rounding errors)
+    mBounds.setMin(Vector3(-mWidth * decimal(0.5), mHeightOrigin + mMinHeight, -mLength * decimal(0.5)));
+    mBounds.setMax(Vector3(mWidth * decimal(0.5), mHeightOrigin + mMaxHeight, mLength * decimal(0.5)));
 
     assert(mHeightFieldData.size() == mNbRows * mNbColumns);
 
@@ -229,7 +227,7 @@ void HeightField::computeMinMaxGridCoordinates(uint32* minCoords, uint32* maxCoo
     // Translate the min/max points such that the we compute grid points from [0 ... mNbWidthGridPoints]
     // and from [0 ... mNbLengthGridPoints] because the AABB coordinates range are [-mWdith/2 ... mWidth/2]
     // and [-mLength/2 ... mLength/2]
-    const Vector3 translateVec = mBounds.getExtent() * decimal(0.5);
+    const Vector3 translateVec = -mBounds.getMin();
     minPoint += translateVec;
     maxPoint += translateVec;
 
-- 
2.43.0


From 241d9dd619ae97d15b29fcdcca035d6881ca4a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:06 +0000
Subject: [PATCH 33/51] fix: GJK on small or large shapes (thresholds relative
 to the simplex, no negative barycentric coordinates, keep the closest point
 when it gets worse)

---
 .../narrowphase/GJK/GJKAlgorithm.cpp          | 25 ++++++++---
 .../narrowphase/GJK/VoronoiSimplex.cpp        | 45 +++++++++++++------
 2 files changed, 49 insertions(+), 21 deletions(-)

diff --git a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
index e447c52..098b90d 100644
--- a/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
+++ b/src/collision/narrowphase/GJK/GJKAlgorithm.cpp
@@ -62,6 +62,8 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         Vector3 pB;                // Closest point of object B
         decimal vDotw;
         decimal prevDistSquare;
+        Vector3 prevV;
+        bool isPreviousPointCloser = false;
         bool contactFound = false;
 
         assert(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1->isConvex());
@@ -136,11 +138,16 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
             // If the objects intersect only in the margins
             if (simplex.isPointInSimplex(w) || distSquare - vDotw <= distSquare * REL_ERROR_SQUARE) {
 
-                // Contact point has been found
-                contactFound = true;
+                // Contact point has been found (unless rounding errors have produced a vector v that
+                // does not separate the objects, in which case the objects without margins intersect)
+                contactFound = vDotw > decimal(0.0);
                 break;
             }
 
+            // Keep the current closest point
+            prevV = v;
+            simplex.computeClosestPointsOfAandB(pA, pB);
+
             // Add the new support point to the simplex
             simplex.addPoint(w, suppA, suppB);
 
@@ -168,10 +175,12 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
             // If the distance to the closest point doesn't improve a lot
             if (prevDistSquare - distSquare <= MACHINE_EPSILON * prevDistSquare) {
 
-                simplex.backupClosestPointInSimplex(v);
-
-                // Get the new squared distance
-                distSquare = v.lengthSquare();
+                // If the distance has increased (rounding errors), we keep the previous closest point
+                isPreviousPointCloser = distSquare > prevDistSquare;
+                if (isPreviousPointCloser) {
+                    v = prevV;
+                    distSquare = prevDistSquare;
+                }
 
                 // Contact point has been found
                 contactFound = true;
@@ -187,7 +196,9 @@ void GJKAlgorithm::testCollision(NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uin
         if (contactFound && distSquare > MACHINE_EPSILON) {
 
             // Compute the closet points of both objects (without the margins)
-            simplex.computeClosestPointsOfAandB(pA, pB);
+            if (!isPreviousPointCloser) {
+                simplex.computeClosestPointsOfAandB(pA, pB);
+            }
 
             // Project those two points on the margins to have the closest points of both
             // object with the margins
diff --git a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
index a8ec4ee..b4bd5be 100644
--- a/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
+++ b/src/collision/narrowphase/GJK/VoronoiSimplex.cpp
@@ -91,6 +91,10 @@ void VoronoiSimplex::reduceSimplex(int bitsUsedPoints) {
 // Return true if the point is in the simplex
 bool VoronoiSimplex::isPointInSimplex(const Vector3& point) const {
 
+    // The threshold is scaled down for small simplices (otherwise all the points of small shapes would be close)
+    const decimal maxLengthSquare = std::max(getMaxLengthSquareOfAPoint(), point.lengthSquare());
+    const decimal threshold = std::min(epsilon, MACHINE_EPSILON * maxLengthSquare);
+
     // For each four possible points in the simplex
     for (int i=0; i<mNbPoints; i++) {
 
@@ -98,7 +102,7 @@ bool VoronoiSimplex::isPointInSimplex(const Vector3& point) const {
         decimal distanceSquare = (mPoints[i] - point).lengthSquare();
 
         // If the point is very close
-        if (distanceSquare <= epsilon) {
+        if (distanceSquare <= threshold) {
             return true;
         }
     }
@@ -122,24 +126,33 @@ int VoronoiSimplex::getSimplex(Vector3* suppPointsA, Vector3* suppPointsB,
 
 // Return true if the set is affinely dependent.
 /// A set if affinely dependent if a point of the set
-/// is an affine combination of other points in the set
+/// is an affine combination of other points in the set. The thresholds are scaled
+/// down for small simplices (otherwise all the simplices of small shapes would be dependent)
 bool VoronoiSimplex::isAffinelyDependent() const {
 
     assert(mNbPoints >= 0 && mNbPoints <= 4);
 
-    switch(mNbPoints) {
-        case 0: return false;
-        case 1: return false;
+    if (mNbPoints < 2) return false;
+
+    const Vector3 edge1 = mPoints[1] - mPoints[0];
 
-        // Two points are independent if there distance is larger than zero
-        case 2: return (mPoints[1] - mPoints[0]).lengthSquare() <= epsilon;
+    // Two points are independent if there distance is larger than zero
+    if (mNbPoints == 2) {
+        return edge1.lengthSquare() <= std::min(epsilon, MACHINE_EPSILON * getMaxLengthSquareOfAPoint());
+    }
 
-        // Three points are independent if the triangle area is larger than zero
-        case 3: return (mPoints[1] - mPoints[0]).cross(mPoints[2] - mPoints[0]).lengthSquare() <= epsilon;
+    const Vector3 edge2 = mPoints[2] - mPoints[0];
+    const decimal lengthsSquare = edge1.lengthSquare() * edge2.lengthSquare();
+
+    // Three points are independent if the triangle area is larger than zero
+    if (mNbPoints == 3) {
+        return edge1.cross(edge2).lengthSquare() <= std::min(epsilon, MACHINE_EPSILON * lengthsSquare);
+    }
 
-        // Four points are independent if the tetrahedron volume is larger than zero
-        // Test in three different ways (for more robustness)
-        case 4: return std::abs((mPoints[1] - mPoints[0]).dot((mPoints[2] - mPoints[0]).cross(mPoints[3] - mPoints[0]))) <= epsilon;
+    // Four points are independent if the tetrahedron volume is larger than zero
+    if (mNbPoints == 4) {
+        const Vector3 edge3 = mPoints[3] - mPoints[0];
+        return std::abs(edge1.dot(edge2.cross(edge3))) <= std::min(epsilon, decimal(10.0) * MACHINE_EPSILON * std::sqrt(lengthsSquare * edge3.lengthSquare()));
     }
 
     return false;
@@ -435,12 +448,16 @@ void VoronoiSimplex::computeClosestPointOnTriangle(const Vector3& a, const Vecto
     }
 
     // The origin is in the Voronoi region of the face ABC
+    // (none of the coordinates is negative because of rounding errors)
+    va = std::max(va, decimal(0.0));
+    vb = std::max(vb, decimal(0.0));
+    vc = std::max(vc, decimal(0.0));
     decimal denom = decimal(1.0) / (va + vb + vc);
     decimal v = vb * denom;
     decimal w = vc * denom;
 
     // Set the barycentric coords of the closest point on the triangle
-    baryCoordsABC.setAllValues(1 - v - w, v, w);
+    baryCoordsABC.setAllValues(va * denom, v, w);
 
     bitsUsedVertices = 7;    // 0111 (A, B and C are used)
     return;
@@ -602,7 +619,7 @@ int VoronoiSimplex::testOriginOutsideOfPlane(const Vector3& a, const Vector3& b,
     // This should never happen because after a point is added into the simplex, the user
     // of this class must check that the simplex is not affinely dependent using the
     // isAffinelyDependent() method
-    if(signd * signd < epsilon * epsilon) {
+    if(std::abs(signd) < std::min(epsilon, decimal(10.0) * MACHINE_EPSILON * std::sqrt((b-a).lengthSquare() * (c-a).lengthSquare() * (d-a).lengthSquare()))) {
         return -1;
     }
 
-- 
2.43.0


From c530fb62a81e0e2da976d4d6a30340ee9f0c1ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 34/51] fix: SAT does not lose deep collisions whose clipped
 face is empty nor take nearly parallel long edges as a separating axis

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  6 ++
 .../mathematics/mathematics_functions.h       |  4 +-
 .../narrowphase/SAT/SATAlgorithm.cpp          | 77 ++++++++++++++++++-
 3 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 74e3bf2..7a003e4 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -135,6 +135,12 @@ class SATAlgorithm {
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
                                                             NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
 
+        /// Compute the contact point between a face of a convex polyhedron and the deepest vertex of another one
+        bool computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
+                                                                    const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
+                                                                    const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
+                                                                    NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
+
 
     public :
 
diff --git a/include/reactphysics3d/mathematics/mathematics_functions.h b/include/reactphysics3d/mathematics/mathematics_functions.h
index 3791444..e6af3c9 100755
--- a/include/reactphysics3d/mathematics/mathematics_functions.h
+++ b/include/reactphysics3d/mathematics/mathematics_functions.h
@@ -76,8 +76,10 @@ RP3D_FORCE_INLINE bool sameSign(decimal a, decimal b) {
 // Return true if two vectors are parallel
 RP3D_FORCE_INLINE bool areParallelVectors(const Vector3& vector1, const Vector3& vector2) {
     // The threshold is scaled down for short vectors (otherwise any two short vectors would be considered parallel)
+    // and scaled up for long vectors (otherwise the cross product of parallel vectors could be above because of rounding errors)
     const decimal lengthsSquare = vector1.lengthSquare() * vector2.lengthSquare();
-    return vector1.cross(vector2).lengthSquare() <= decimal(0.00001) * std::min(decimal(1.0), lengthsSquare);
+    const decimal threshold = std::max(decimal(0.00001) * std::min(decimal(1.0), lengthsSquare), decimal(0.000000001) * lengthsSquare);
+    return vector1.cross(vector2).lengthSquare() <= threshold;
 }
 
 
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index 841f190..bd78832 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -280,10 +280,30 @@ bool SATAlgorithm::testCollisionCapsuleVsConvexPolyhedron(NarrowPhaseInfoBatch&
         // If we need to report contacts
         if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
 
-            return computeCapsulePolyhedronFaceContactPoints(minFaceIndex, capsuleRadius, polyhedron, minPenetrationDepth,
+            const bool contactsFound = computeCapsulePolyhedronFaceContactPoints(minFaceIndex, capsuleRadius, polyhedron, minPenetrationDepth,
                                                       polyhedronToCapsuleTransform, normalWorld, separatingAxisCapsuleSpace,
                                                       capsuleSegAPolyhedronSpace, capsuleSegBPolyhedronSpace,
                                                       narrowPhaseInfoBatch, batchIndex, isCapsuleShape1);
+
+            // If the deepest end-point of the inner segment is not above the face, no clipped point has been kept. The shapes
+            // are colliding and therefore, we need to create a contact at this deepest end-point
+            if (!contactsFound) {
+
+                const bool isDeepestA = capsuleSegA.dot(separatingAxisCapsuleSpace) < capsuleSegB.dot(separatingAxisCapsuleSpace);
+                Vector3 contactPointPolyhedron = (isDeepestA ? capsuleSegAPolyhedronSpace : capsuleSegBPolyhedronSpace) +
+                                                       polyhedron->getFaceNormal(minFaceIndex) * (minPenetrationDepth - capsuleRadius);
+                Vector3 contactPointCapsule = (isDeepestA ? capsuleSegA : capsuleSegB) - separatingAxisCapsuleSpace * capsuleRadius;
+
+                TriangleShape::computeSmoothTriangleMeshContact(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2,
+                                                            isCapsuleShape1 ? contactPointCapsule : contactPointPolyhedron,
+                                                            isCapsuleShape1 ? contactPointPolyhedron : contactPointCapsule,
+                                                            narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform,
+                                                            minPenetrationDepth, normalWorld);
+
+                narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, minPenetrationDepth,
+                                                isCapsuleShape1 ? contactPointCapsule : contactPointPolyhedron,
+                                                isCapsuleShape1 ? contactPointPolyhedron : contactPointCapsule);
+            }
         }
     }
     else {   // The separating axis is the cross product of a polyhedron edge and the inner capsule segment
@@ -332,7 +352,7 @@ decimal SATAlgorithm::computeEdgeVsCapsuleInnerSegmentPenetrationDepth(const Con
     outAxis = capsuleSegmentAxis.cross(edgeDirectionCapsuleSpace);
 
     // Skip separating axis test if polyhedron edge is parallel to the capsule inner segment
-    if (outAxis.lengthSquare() >= decimal(0.00001)) {
+    if (!areParallelVectors(capsuleSegmentAxis, edgeDirectionCapsuleSpace)) {
 
         const Vector3 polyhedronCentroid = polyhedronToCapsuleTransform * polyhedron->getCentroid();
         const Vector3 pointOnPolyhedronEdge = polyhedronToCapsuleTransform * edgeVertex1;
@@ -832,8 +852,16 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
                                                                                 minFaceIndex, narrowPhaseInfoBatch, batchIndex);
 
-            // There should be clipping points here. If it is not the case, it might be
-            // because of a numerical issue
+            // There should be clipping points here. If it is not the case (because of a numerical issue or because the
+            // incident face is not above the reference face), we create a contact at the deepest vertex
+            if (!contactsFound) {
+
+                contactsFound = computePolyhedronVsPolyhedronDeepestVertexContactPoint(isMinPenetrationFaceNormalPolyhedron1, polyhedron1,
+                                                                                       polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
+                                                                                       minFaceIndex, narrowPhaseInfoBatch, batchIndex);
+            }
+
+            // If the shapes are only touching
             if (!contactsFound) {
 
                 lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
@@ -1035,6 +1063,47 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     return contactPointsFound;
 }
 
+// Compute the contact point between a face of a convex polyhedron and the deepest vertex of another one
+/// The method returns true if this vertex is below the face
+bool SATAlgorithm::computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1,
+                                                                          const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
+                                                                          const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
+                                                                          uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const {
+
+    const Transform& shape1ToWorld = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape1ToWorldTransform;
+    const Transform& shape2ToWorld = narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].shape2ToWorldTransform;
+
+    const ConvexPolyhedronShape* referencePolyhedron = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1 : polyhedron2;
+    const ConvexPolyhedronShape* incidentPolyhedron = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron2 : polyhedron1;
+    const Transform& referenceToIncidentTransform = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1ToPolyhedron2 : polyhedron2ToPolyhedron1;
+    const Transform& incidentToReferenceTransform = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron2ToPolyhedron1 : polyhedron1ToPolyhedron2;
+
+    const Vector3 axis = referencePolyhedron->getFaceNormal(minFaceIndex);
+    const Vector3 referenceFaceVertex = referencePolyhedron->getVertexPosition(referencePolyhedron->getFace(minFaceIndex).faceVertices[0]);
+    Vector3 normalWorld = isMinPenetrationFaceNormalPolyhedron1 ? shape1ToWorld.getOrientation() * axis : -(shape2ToWorld.getOrientation() * axis);
+
+    // Deepest vertex of the incident polyhedron and its projection onto the reference face
+    Vector3 contactPointIncident = incidentPolyhedron->getLocalSupportPointWithoutMargin(-(referenceToIncidentTransform.getOrientation() * axis));
+    const Vector3 deepestVertexReferenceSpace = incidentToReferenceTransform * contactPointIncident;
+    Vector3 contactPointReference = projectPointOntoPlane(deepestVertexReferenceSpace, axis, referenceFaceVertex);
+    const decimal penetrationDepth = (referenceFaceVertex - deepestVertexReferenceSpace).dot(axis);
+
+    // If the vertex is not below the face or if we do not need to report contacts
+    if (penetrationDepth <= decimal(0.0) || !narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
+        return penetrationDepth > decimal(0.0);
+    }
+
+    Vector3& contactPoint1 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointReference : contactPointIncident;
+    Vector3& contactPoint2 = isMinPenetrationFaceNormalPolyhedron1 ? contactPointIncident : contactPointReference;
+
+    // Compute smooth triangle mesh contact if one of the two collision shapes is a triangle
+    TriangleShape::computeSmoothTriangleMeshContact(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2,
+                                                    contactPoint1, contactPoint2, shape1ToWorld, shape2ToWorld, penetrationDepth, normalWorld);
+
+    narrowPhaseInfoBatch.addContactPoint(batchIndex, normalWorld, penetrationDepth, contactPoint1, contactPoint2);
+
+    return true;
+}
 
 // Compute and return the distance between the two edges in the direction of the candidate separating axis
 decimal SATAlgorithm::computeDistanceBetweenEdges(const Vector3& edge1A, const Vector3& edge2A,
-- 
2.43.0


From 4ebd1e5527914e061ca2c5249be0d08a922175d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 35/51] fix: the axis of the previous frame is only reused when
 a contact point shows that the polyhedra still overlap

---
 .../collision/narrowphase/SAT/SATAlgorithm.h  |  5 +-
 .../narrowphase/SAT/SATAlgorithm.cpp          | 68 ++++++++++++++-----
 2 files changed, 56 insertions(+), 17 deletions(-)

diff --git a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
index 7a003e4..b703969 100644
--- a/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
+++ b/include/reactphysics3d/collision/narrowphase/SAT/SATAlgorithm.h
@@ -133,7 +133,10 @@ class SATAlgorithm {
         bool computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
                                                             const ConvexPolyhedronShape* polyhedron2, const Transform& polyhedron1ToPolyhedron2,
                                                             const Transform& polyhedron2ToPolyhedron1, uint32 minFaceIndex,
-                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const;
+                                                            NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex, bool& outIsOverlapFound) const;
+
+        /// Return true if a point (in the local-space of a polyhedron) is inside this polyhedron
+        bool isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const;
 
         /// Compute the contact point between a face of a convex polyhedron and the deepest vertex of another one
         bool computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1, const ConvexPolyhedronShape* polyhedron1,
diff --git a/src/collision/narrowphase/SAT/SATAlgorithm.cpp b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
index bd78832..af3c35a 100644
--- a/src/collision/narrowphase/SAT/SATAlgorithm.cpp
+++ b/src/collision/narrowphase/SAT/SATAlgorithm.cpp
@@ -563,9 +563,10 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     isMinPenetrationFaceNormalPolyhedron1 = true;
 
                     // Compute the contact points between two faces of two convex polyhedra.
-                    if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
+                    bool isOverlapFound = false;
+                    if (computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, isOverlapFound) && isOverlapFound) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -578,7 +579,9 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         continue;
                     }
 
-                    // The contact manifold is empty. Therefore, we have to run the whole SAT algorithm again
+                    // The contact manifold is empty or the shapes might be separated along another axis.
+                    // Therefore, we have to run the whole SAT algorithm again
+                    narrowPhaseInfoBatch.resetContactPoints(batchIndex);
                 }
             }
             else if (lastFrameCollisionInfo->satIsAxisFacePolyhedron2) { // If the previous separating axis (or axis with minimum penetration depth)
@@ -603,9 +606,10 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                     isMinPenetrationFaceNormalPolyhedron1 = false;
 
                     // Compute the contact points between two faces of two convex polyhedra.
-                    if(computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
+                    bool isOverlapFound = false;
+                    if (computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1, polyhedron2,
                                               polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1, minFaceIndex,
-                                              narrowPhaseInfoBatch, batchIndex)) {
+                                              narrowPhaseInfoBatch, batchIndex, isOverlapFound) && isOverlapFound) {
 
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron1 = isMinPenetrationFaceNormalPolyhedron1;
                         lastFrameCollisionInfo->satIsAxisFacePolyhedron2 = !isMinPenetrationFaceNormalPolyhedron1;
@@ -618,7 +622,9 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         continue;
                     }
 
-                    // The contact manifold is empty. Therefore, we have to run the whole SAT algorithm again
+                    // The contact manifold is empty or the shapes might be separated along another axis.
+                    // Therefore, we have to run the whole SAT algorithm again
+                    narrowPhaseInfoBatch.resetContactPoints(batchIndex);
                 }
             }
             else {   // If the previous separating axis (or axis with minimum penetration depth) was the cross product of two edges
@@ -672,7 +678,11 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
                         const decimal edge2LengthSquare = edge2Direction.lengthSquare();
                         decimal t1 = vec1.dot(edge2Direction) / edge2LengthSquare;
                         decimal t2 = vec2.dot(edge1Direction) / edge1LengthSquare;
-                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0)) {
+                        // We also need a point of an edge that is inside the other polyhedron. Otherwise, the shapes might be
+                        // separated along another axis
+                        if (t1 >= decimal(0.0) && t1 <= decimal(1) && t2 >= decimal(0.0) && t2 <= decimal(1.0) &&
+                            (isPointInsidePolyhedron(polyhedron2, closestPointPolyhedron1Edge) ||
+                             isPointInsidePolyhedron(polyhedron1, polyhedron2ToPolyhedron1 * closestPointPolyhedron2Edge))) {
 
                             // If we need to report contact points
                             if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
@@ -848,9 +858,10 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
         if (isMinPenetrationFaceNormal) {
 
             // Compute the contact points between two faces of two convex polyhedra.
+            bool isOverlapFound = false;
             bool contactsFound = computePolyhedronVsPolyhedronFaceContactPoints(isMinPenetrationFaceNormalPolyhedron1, polyhedron1,
                                                                                 polyhedron2, polyhedron1ToPolyhedron2, polyhedron2ToPolyhedron1,
-                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex);
+                                                                                minFaceIndex, narrowPhaseInfoBatch, batchIndex, isOverlapFound);
 
             // There should be clipping points here. If it is not the case (because of a numerical issue or because the
             // incident face is not above the reference face), we create a contact at the deepest vertex
@@ -917,14 +928,18 @@ bool SATAlgorithm::testCollisionConvexPolyhedronVsConvexPolyhedron(NarrowPhaseIn
 }
 
 // Compute the contact points between two faces of two convex polyhedra.
-/// The method returns true if contact points have been found
+/// The method returns true if contact points have been found. The value outIsOverlapFound is set to true
+/// if one of those points is inside both polyhedra
 bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPenetrationFaceNormalPolyhedron1,
                                                                   const ConvexPolyhedronShape* polyhedron1, const ConvexPolyhedronShape* polyhedron2,
                                                                   const Transform& polyhedron1ToPolyhedron2, const Transform& polyhedron2ToPolyhedron1,
-                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex) const {
+                                                                  uint32 minFaceIndex, NarrowPhaseInfoBatch& narrowPhaseInfoBatch, uint32 batchIndex,
+                                                                  bool& outIsOverlapFound) const {
 
     RP3D_PROFILE("SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints", mProfiler);
 
+    outIsOverlapFound = false;
+
     const ConvexPolyhedronShape* referencePolyhedron;
     const ConvexPolyhedronShape* incidentPolyhedron;
     const Transform& referenceToIncidentTransform = isMinPenetrationFaceNormalPolyhedron1 ? polyhedron1ToPolyhedron2 : polyhedron2ToPolyhedron1;
@@ -1034,17 +1049,20 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
 
             contactPointsFound = true;
 
+            // Convert the clip incident polyhedron vertex into the incident polyhedron local-space
+            Vector3 contactPointIncidentPolyhedron = referenceToIncidentTransform * clippedPolygonVertices[i];
+
+            // Project the contact point onto the reference face
+            Vector3 contactPointReferencePolyhedron = projectPointOntoPlane(clippedPolygonVertices[i], axisReferenceSpace, referenceFaceVertex);
+
+            outIsOverlapFound = outIsOverlapFound || isPointInsidePolyhedron(referencePolyhedron, clippedPolygonVertices[i]) ||
+                                isPointInsidePolyhedron(incidentPolyhedron, referenceToIncidentTransform * contactPointReferencePolyhedron);
+
             // If we need to report contacts
             if (narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].reportContacts) {
 
                 Vector3 outWorldNormal = normalWorld;
 
-                // Convert the clip incident polyhedron vertex into the incident polyhedron local-space
-                Vector3 contactPointIncidentPolyhedron = referenceToIncidentTransform * clippedPolygonVertices[i];
-
-                // Project the contact point onto the reference face
-                Vector3 contactPointReferencePolyhedron = projectPointOntoPlane(clippedPolygonVertices[i], axisReferenceSpace, referenceFaceVertex);
-
                 // Compute smooth triangle mesh contact if one of the two collision shapes is a triangle
                 TriangleShape::computeSmoothTriangleMeshContact(narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape1, narrowPhaseInfoBatch.narrowPhaseInfos[batchIndex].collisionShape2,
                                         isMinPenetrationFaceNormalPolyhedron1 ? contactPointReferencePolyhedron : contactPointIncidentPolyhedron,
@@ -1063,6 +1081,24 @@ bool SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints(bool isMinPene
     return contactPointsFound;
 }
 
+// Return true if a point (in the local-space of a polyhedron) is inside this polyhedron
+bool SATAlgorithm::isPointInsidePolyhedron(const ConvexPolyhedronShape* polyhedron, const Vector3& point) const {
+
+    // Points that are only outside because of rounding errors are inside
+    const decimal tolerance = decimal(0.0001);
+
+    for (uint32 f = 0; f < polyhedron->getNbFaces(); f++) {
+
+        const Vector3 faceVertex = polyhedron->getVertexPosition(polyhedron->getFace(f).faceVertices[0]);
+
+        if ((point - faceVertex).dot(polyhedron->getFaceNormal(f)) > tolerance) {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 // Compute the contact point between a face of a convex polyhedron and the deepest vertex of another one
 /// The method returns true if this vertex is below the face
 bool SATAlgorithm::computePolyhedronVsPolyhedronDeepestVertexContactPoint(bool isMinPenetrationFaceNormalPolyhedron1,
-- 
2.43.0


From 05eff4a25e33b2ff15d781f6eb87d9ce20dc3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:58 +0000
Subject: [PATCH 36/51] fix: remove the assertion that a support point of a
 convex mesh is in the half-space of the direction (meshes away from their
 origin)

---
 src/collision/shapes/ConvexMeshShape.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/collision/shapes/ConvexMeshShape.cpp b/src/collision/shapes/ConvexMeshShape.cpp
index af4bc63..6e6946d 100644
--- a/src/collision/shapes/ConvexMeshShape.cpp
+++ b/src/collision/shapes/ConvexMeshShape.cpp
@@ -95,8 +95,6 @@ Vector3 ConvexMeshShape::getLocalSupportPointWithoutMargin(const Vector3& direct
         }
     }
 
-    assert(maxDotProduct >= decimal(0.0));
-
     // Return the vertex with the largest dot product in the support direction
     return mConvexMesh->getVertex(indexMaxDotProduct) * mScale;
 }
-- 
2.43.0


From 52fa700d6ebe30be9622ceddc47c23c42b23100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 37/51] fix: twist friction impulse is warm started only once

---
 src/systems/ContactSolverSystem.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index a7ab187..797a984 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -458,12 +458,6 @@ void ContactSolverSystem::warmStart() {
 
             // Update the velocities of the body 2 by applying the impulse P
             mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody1Index] -= mContactConstraints[c].angularLockAxisFactorBody1 * (mContactConstraints[c].inverseInertiaTensorBody1 * angularImpulseBody2);
-
-            // Update the velocities of the body 1 by applying the impulse P
-            mRigidBodyComponents.mConstrainedAngularVelocities[rigidBody2Index] += mContactConstraints[c].angularLockAxisFactorBody2 * (mContactConstraints[c].inverseInertiaTensorBody2 * angularImpulseBody2);
         }
         else {  // If it is a new contact manifold
 
-- 
2.43.0


From f4e87d7b5463b4a0b071957d7b1bd9d48b5f5915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 38/51] fix: the mass matrix of a joint is judged invertible
 relative to its scale (joints between heavy bodies)

---
 include/reactphysics3d/mathematics/Matrix2x2.h | 12 ++++++++++++
 include/reactphysics3d/mathematics/Matrix3x3.h | 12 ++++++++++++
 src/systems/SolveBallAndSocketJointSystem.cpp  |  4 ++--
 src/systems/SolveFixedJointSystem.cpp          |  8 ++++----
 src/systems/SolveHingeJointSystem.cpp          |  8 ++++----
 src/systems/SolveSliderJointSystem.cpp         |  8 ++++----
 6 files changed, 38 insertions(+), 14 deletions(-)

diff --git a/include/reactphysics3d/mathematics/Matrix2x2.h b/include/reactphysics3d/mathematics/Matrix2x2.h
index 6410012..5367438 100644
--- a/include/reactphysics3d/mathematics/Matrix2x2.h
+++ b/include/reactphysics3d/mathematics/Matrix2x2.h
@@ -28,6 +28,7 @@
 
 // Libraries
 #include <cassert>
+#include <algorithm>
 #include <reactphysics3d/mathematics/Vector2.h>
 
 /// ReactPhysics3D namespace
@@ -86,6 +87,9 @@ class Matrix2x2 {
         /// Return the inverse matrix
         Matrix2x2 getInverse(decimal determinant) const;
 
+        /// Return true if this matrix (with the given determinant) can be inverted
+        bool isInvertible(decimal determinant) const;
+
         /// Return the matrix with absolute values
         Matrix2x2 getAbsoluteMatrix() const;
 
@@ -210,6 +214,14 @@ RP3D_FORCE_INLINE decimal Matrix2x2::getTrace() const {
     return (mRows[0][0] + mRows[1][1]);
 }
 
+// Return true if this matrix (with the given determinant) can be inverted
+/// The determinant is compared with the magnitude of the matrix because the determinant of an invertible
+/// matrix with small elements (mass matrix of heavy bodies for instance) is also very small
+RP3D_FORCE_INLINE bool Matrix2x2::isInvertible(decimal determinant) const {
+    const decimal scale = std::min(std::abs(getTrace()), decimal(1.0));
+    return std::abs(determinant) > MACHINE_EPSILON * scale * scale;
+}
+
 // Set the matrix to the identity matrix
 RP3D_FORCE_INLINE void Matrix2x2::setToIdentity() {
     mRows[0][0] = 1.0; mRows[0][1] = 0.0;
diff --git a/include/reactphysics3d/mathematics/Matrix3x3.h b/include/reactphysics3d/mathematics/Matrix3x3.h
index 9ea7b80..6cc0e84 100644
--- a/include/reactphysics3d/mathematics/Matrix3x3.h
+++ b/include/reactphysics3d/mathematics/Matrix3x3.h
@@ -29,6 +29,7 @@
 
 // Libraries
 #include <cassert>
+#include <algorithm>
 #include <reactphysics3d/mathematics/Vector3.h>
 
 /// ReactPhysics3D namespace
@@ -89,6 +90,9 @@ class Matrix3x3 {
         /// Return the inverse matrix
         Matrix3x3 getInverse(decimal determinant) const;
 
+        /// Return true if this matrix (with the given determinant) can be inverted
+        bool isInvertible(decimal determinant) const;
+
         /// Return the matrix with absolute values
         Matrix3x3 getAbsoluteMatrix() const;
 
@@ -223,6 +227,14 @@ RP3D_FORCE_INLINE decimal Matrix3x3::getTrace() const {
     return (mRows[0][0] + mRows[1][1] + mRows[2][2]);
 }
 
+// Return true if this matrix (with the given determinant) can be inverted
+/// The determinant is compared with the magnitude of the matrix because the determinant of an invertible
+/// matrix with small elements (mass matrix of heavy bodies for instance) is also very small
+RP3D_FORCE_INLINE bool Matrix3x3::isInvertible(decimal determinant) const {
+    const decimal scale = std::min(std::abs(getTrace()), decimal(1.0));
+    return std::abs(determinant) > MACHINE_EPSILON * scale * scale * scale;
+}
+
 // Set the matrix to the identity matrix
 RP3D_FORCE_INLINE void Matrix3x3::setToIdentity() {
     mRows[0][0] = 1.0; mRows[0][1] = 0.0; mRows[0][2] = 0.0;
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 70c851d..6853b77 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -100,7 +100,7 @@ void SolveBallAndSocketJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mBallAndSocketJointComponents.mInverseMassMatrix[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -398,7 +398,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mBallAndSocketJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mBallAndSocketJointComponents.mInverseMassMatrix[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 048da03..4387f31 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -93,7 +93,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse mass matrix K^-1 for the 3 translation constraints
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -116,7 +116,7 @@ void SolveFixedJointSystem::initBeforeSolve() {
         // Compute the inverse of the mass matrix K=JM^-1J^t for the 3 rotation contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mInverseMassMatrixRotation[i].getInverse(massMatrixRotationDeterminant);
@@ -342,7 +342,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mFixedJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mFixedJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
@@ -389,7 +389,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mFixedJointComponents.mInverseMassMatrixRotation[i] = mFixedJointComponents.mI1[i] + mFixedJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mFixedJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mFixedJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index f96e28a..7fd3614 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -110,7 +110,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         Matrix3x3& inverseMassMatrixTranslation = mHingeJointComponents.mInverseMassMatrixTranslation[i];
         inverseMassMatrixTranslation.setToZero();
         decimal massMatrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(massMatrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(massMatrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixTranslation[i] = massMatrix.getInverse(massMatrixDeterminant);
@@ -144,7 +144,7 @@ void SolveHingeJointSystem::initBeforeSolve() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixKRotationDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixKRotationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixKRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixKRotationDeterminant);
@@ -620,7 +620,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         const Matrix2x2 matrixKRotation(el11, el12, el21, el22);
         mHingeJointComponents.mInverseMassMatrixRotation[i].setToZero();
         decimal matrixDeterminant = matrixKRotation.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (matrixKRotation.isInvertible(matrixDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
                 mHingeJointComponents.mInverseMassMatrixRotation[i] = matrixKRotation.getInverse(matrixDeterminant);
@@ -666,7 +666,7 @@ void SolveHingeJointSystem::solvePositionConstraint() {
                                skewSymmetricMatrixU2 * mHingeJointComponents.mI2[i] * skewSymmetricMatrixU2.getTranspose();
         mHingeJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         matrixDeterminant = massMatrix.getDeterminant();
-        if (std::abs(matrixDeterminant) > MACHINE_EPSILON) {
+        if (massMatrix.isInvertible(matrixDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 3f8a721..02809f5 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -185,7 +185,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -197,7 +197,7 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = i1 + i2;
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC ||
                 mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -700,7 +700,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // contraints (3x3 matrix)
         mSliderJointComponents.mInverseMassMatrixRotation[i] = mSliderJointComponents.mI1[i] + mSliderJointComponents.mI2[i];
         decimal massMatrixRotationDeterminant = mSliderJointComponents.mInverseMassMatrixRotation[i].getDeterminant();
-        if (std::abs(massMatrixRotationDeterminant) > MACHINE_EPSILON) {
+        if (mSliderJointComponents.mInverseMassMatrixRotation[i].isInvertible(massMatrixRotationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
@@ -784,7 +784,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         Matrix2x2 matrixKTranslation(el11, el12, el21, el22);
         mSliderJointComponents.mInverseMassMatrixTranslation[i].setToZero();
         decimal matrixKTranslationDeterminant = matrixKTranslation.getDeterminant();
-        if (std::abs(matrixKTranslationDeterminant) > MACHINE_EPSILON) {
+        if (matrixKTranslation.isInvertible(matrixKTranslationDeterminant)) {
 
             if (mRigidBodyComponents.mBodyTypes[componentIndexBody1] == BodyType::DYNAMIC || mRigidBodyComponents.mBodyTypes[componentIndexBody2] == BodyType::DYNAMIC) {
 
-- 
2.43.0


From f2bb545a2e8db3167faf9d3e450c2506d0b82794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 39/51] fix: hinge angle of bodies with different initial
 orientations

---
 src/constraint/HingeJoint.cpp         | 6 ++----
 src/systems/SolveHingeJointSystem.cpp | 8 ++------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/constraint/HingeJoint.cpp b/src/constraint/HingeJoint.cpp
index 1743034..92568b6 100644
--- a/src/constraint/HingeJoint.cpp
+++ b/src/constraint/HingeJoint.cpp
@@ -74,11 +74,9 @@ HingeJoint::HingeJoint(Entity entity, PhysicsWorld &world, const HingeJointInfo&
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody1(mEntity, hingeLocalAxisBody1);
     mWorld.mHingeJointsComponents.setHingeLocalAxisBody2(mEntity, hingeLocalAxisBody2);
 
-    // Compute the inverse of the initial orientation difference between the two bodies
-    Quaternion initOrientationDifferenceInv = transform2.getOrientation() *
-                                    transform1.getOrientation().getInverse();
+    // Compute the inverse of the initial orientation difference between the two bodies (in the local-space of body 1)
+    Quaternion initOrientationDifferenceInv = transform2.getOrientation().getInverse() * transform1.getOrientation();
     initOrientationDifferenceInv.normalize();
-    initOrientationDifferenceInv.inverse();
     mWorld.mHingeJointsComponents.setInitOrientationDifferenceInv(mEntity, initOrientationDifferenceInv);
 }
 
diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 7fd3614..691fb46 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -760,12 +760,8 @@ decimal SolveHingeJointSystem::computeCurrentHingeAngle(Entity jointEntity, cons
 
     decimal hingeAngle;
 
-    // Compute the current orientation difference between the two bodies
-    Quaternion currentOrientationDiff = orientationBody2 * orientationBody1.getInverse();
-    currentOrientationDiff.normalize();
-
-    // Compute the relative rotation considering the initial orientation difference
-    Quaternion relativeRotation = currentOrientationDiff * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity);
+    // Compute the relative rotation (in world-space) considering the initial orientation difference
+    Quaternion relativeRotation = orientationBody2 * mHingeJointComponents.getInitOrientationDifferenceInv(jointEntity) * orientationBody1.getInverse();
     relativeRotation.normalize();
 
     // A quaternion q = [cos(theta/2); sin(theta/2) * rotAxis] where rotAxis is a unit
-- 
2.43.0


From a236185d42be104a3c15fd7ce19ce8d807e8e959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:31 +0000
Subject: [PATCH 40/51] fix: sign of the impulse of the hinge motor

---
 src/systems/SolveHingeJointSystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 691fb46..6d6669f 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -390,11 +390,11 @@ void SolveHingeJointSystem::solveVelocityConstraint() {
         if (mHingeJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = a1.dot(w1 - w2);
+            const decimal JvMotor = a1.dot(w2 - w1);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mHingeJointComponents.mMaxMotorTorque[i] * mTimeStep;
-            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor - mHingeJointComponents.mMotorSpeed[i]);
+            decimal deltaLambdaMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i] * (-JvMotor + mHingeJointComponents.mMotorSpeed[i]);
             decimal lambdaTemp = mHingeJointComponents.mImpulseMotor[i];
             mHingeJointComponents.mImpulseMotor[i] = clamp(mHingeJointComponents.mImpulseMotor[i] + deltaLambdaMotor, -maxMotorImpulse, maxMotorImpulse);
             deltaLambdaMotor = mHingeJointComponents.mImpulseMotor[i] - lambdaTemp;
-- 
2.43.0


From d06a215f3a48d334743eb4cc48b7f80489d607e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:37 +0000
Subject: [PATCH 41/51] fix: a slider joint with Baumgarte correction does not
 end the position correction of the others

---
 src/systems/SolveSliderJointSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 02809f5..788bb40 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -524,7 +524,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
 
         // If the error position correction technique is not the non-linear-gauss-seidel, we do
         // do not execute this method
-        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) return;
+        if (mJointComponents.mPositionCorrectionTechniques[jointIndex] != JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL) continue;
 
         // Get the bodies entities
         const Entity body1Entity = mJointComponents.mBody1Entities[jointIndex];
-- 
2.43.0


From 2fd8d9beb5820baab621a0d5688152b39a0f1d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:42 +0000
Subject: [PATCH 42/51] fix: whole vectors are copied when the table of slider
 joints grows

---
 src/components/SliderJointComponents.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/components/SliderJointComponents.cpp b/src/components/SliderJointComponents.cpp
index b48fbea..ef96de3 100644
--- a/src/components/SliderJointComponents.cpp
+++ b/src/components/SliderJointComponents.cpp
@@ -185,12 +185,12 @@ void SliderJointComponents::allocate(uint32 nbComponentsToAllocate) {
         memcpy(newIsUpperLimitViolated, mIsUpperLimitViolated, mNbComponents * sizeof(bool));
         memcpy(newMotorSpeed, mMotorSpeed, mNbComponents * sizeof(decimal));
         memcpy(newMaxMotorForce, mMaxMotorForce, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(decimal));
-        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(decimal));
+        memcpy(newR2CrossN1, mR2CrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossN2, mR2CrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR2CrossSliderAxis, mR2CrossSliderAxis, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN1, mR1PlusUCrossN1, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossN2, mR1PlusUCrossN2, mNbComponents * sizeof(Vector3));
+        memcpy(newR1PlusUCrossSliderAxis, mR1PlusUCrossSliderAxis, mNbComponents * sizeof(Vector3));
 
         // Deallocate previous memory
         mMemoryAllocator.release(mBuffer, mNbAllocatedComponents * mComponentDataSize + mAlignmentMarginSize);
-- 
2.43.0


From ffbfb3d411657b26420d802f9c2c381de59dbdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:47 +0000
Subject: [PATCH 43/51] fix: orientation error of fixed and slider joints takes
 the short way

---
 src/systems/SolveFixedJointSystem.cpp  | 4 +++-
 src/systems/SolveSliderJointSystem.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveFixedJointSystem.cpp b/src/systems/SolveFixedJointSystem.cpp
index 4387f31..c6d79cd 100644
--- a/src/systems/SolveFixedJointSystem.cpp
+++ b/src/systems/SolveFixedJointSystem.cpp
@@ -127,7 +127,8 @@ void SolveFixedJointSystem::initBeforeSolve() {
         mFixedJointComponents.mBiasRotation[i].setToZero();
 
         if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
-            const Quaternion qError = orientationBody2 * mFixedJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+            Quaternion qError = orientationBody2 * mFixedJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);    // q and -q are the same rotation
             mFixedJointComponents.mBiasRotation[i] = biasFactor * decimal(2.0) * qError.getVectorV();
         }
 
@@ -412,6 +413,7 @@ void SolveFixedJointSystem::solvePositionConstraint() {
             // q2 = current rotation of body 2
             // qError = error that needs to be reduced to zero
             Quaternion qError = q2 * mFixedJointComponents.mInitOrientationDifferenceInv[i] * q1.getInverse();
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);    // q and -q are the same rotation
 
             // A quaternion can be seen as:
             //
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 788bb40..a41244f 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -208,7 +208,8 @@ void SolveSliderJointSystem::initBeforeSolve() {
         // Compute the bias "b" of the rotation constraint
         mSliderJointComponents.mBiasRotation[i].setToZero();
         if (mJointComponents.mPositionCorrectionTechniques[jointIndex] == JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS) {
-            const Quaternion qError = orientationBody2 * mSliderJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+            Quaternion qError = orientationBody2 * mSliderJointComponents.mInitOrientationDifferenceInv[i] * orientationBody1.getInverse();
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);    // q and -q are the same rotation
             mSliderJointComponents.mBiasRotation[i] = biasFactor * decimal(2.0) * qError.getVectorV();
         }
 
@@ -723,6 +724,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
             // q2 = current rotation of body 2
             // qError = error that needs to be reduced to zero
             Quaternion qError = q2 * mSliderJointComponents.mInitOrientationDifferenceInv[i] * q1.getInverse();
+            if (qError.w < decimal(0.0)) qError = qError * decimal(-1.0);    // q and -q are the same rotation
 
             // A quaternion can be seen as:
             //
-- 
2.43.0


From 9cfae0c416dcfb6848681a094a7105fcb514a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 44/51] fix: joints to static bodies use the center of mass of
 the body in the position correction

---
 src/body/RigidBody.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/body/RigidBody.cpp b/src/body/RigidBody.cpp
index 333da45..729696e 100644
--- a/src/body/RigidBody.cpp
+++ b/src/body/RigidBody.cpp
@@ -77,7 +77,7 @@ void RigidBody::setType(BodyType type) {
         mWorld.mRigidBodyComponents.setAngularVelocity(mEntity, Vector3::zero());
 
         const Transform& transform = getTransform();
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
@@ -348,6 +348,7 @@ void RigidBody::setLocalCenterOfMass(const Vector3& centerOfMass) {
 
     // Compute the center of mass in world-space coordinates
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, mWorld.mTransformComponents.getTransform(mEntity) * centerOfMass);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, mWorld.mRigidBodyComponents.getCenterOfMassWorld(mEntity));
 
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
@@ -385,6 +386,7 @@ void RigidBody::updateLocalCenterOfMassFromColliders() {
     // Set the center of mass
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
 
     // Update the linear velocity of the center of mass
     Vector3 linearVelocity = mWorld.mRigidBodyComponents.getLinearVelocity(mEntity);
@@ -567,6 +569,7 @@ void RigidBody::updateMassPropertiesFromColliders() {
     // Set the center of mass
     mWorld.mRigidBodyComponents.setCenterOfMassLocal(mEntity, centerOfMassLocal);
     mWorld.mRigidBodyComponents.setCenterOfMassWorld(mEntity, centerOfMassWorld);
+    mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
 
     // If it is a dynamic body
     const BodyType type = mWorld.mRigidBodyComponents.getBodyType(mEntity);
@@ -861,7 +864,7 @@ void RigidBody::setTransform(const Transform& transform) {
 
     if (getType() == BodyType::STATIC) {
 
-        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, transform.getPosition());
+        mWorld.mRigidBodyComponents.setConstrainedPosition(mEntity, centerOfMassWorld);
         mWorld.mRigidBodyComponents.setConstrainedOrientation(mEntity, transform.getOrientation());
     }
 
-- 
2.43.0


From 260aed4b7679f668c04fb35b16ffef94a8791a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:04 +0000
Subject: [PATCH 45/51] fix: a hinge joint described with a motor has its motor
 enabled

---
 include/reactphysics3d/constraint/HingeJoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reactphysics3d/constraint/HingeJoint.h b/include/reactphysics3d/constraint/HingeJoint.h
index 71b4b24..0fcf2a7 100644
--- a/include/reactphysics3d/constraint/HingeJoint.h
+++ b/include/reactphysics3d/constraint/HingeJoint.h
@@ -145,7 +145,7 @@ struct HingeJointInfo : public JointInfo {
                                 isUsingLocalSpaceAnchors(false),
                                 anchorPointWorldSpace(initAnchorPointWorldSpace),
                                 rotationAxisWorld(initRotationAxisWorld), isLimitEnabled(true),
-                                isMotorEnabled(false), minAngleLimit(initMinAngleLimit),
+                                isMotorEnabled(true), minAngleLimit(initMinAngleLimit),
                                 maxAngleLimit(initMaxAngleLimit), motorSpeed(initMotorSpeed),
                                 maxMotorTorque(initMaxMotorTorque) {}
 
@@ -228,7 +228,7 @@ struct HingeJointInfo : public JointInfo {
                                 rotationAxisBody1Local(rotationBody1AxisLocal),
                                 rotationAxisBody2Local(rotationBody2AxisLocal),
                                 isLimitEnabled(true),
-                                isMotorEnabled(false), minAngleLimit(initMinAngleLimit),
+                                isMotorEnabled(true), minAngleLimit(initMinAngleLimit),
                                 maxAngleLimit(initMaxAngleLimit), motorSpeed(initMotorSpeed),
                                 maxMotorTorque(initMaxMotorTorque) {}
 };
-- 
2.43.0


From 4a5ecf05d59dbd6e7d7e167a75866a40eab4df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 46/51] fix: debug renderer draws the whole of polyhedral faces

---
 src/utils/DebugRenderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index cc32900..4ab2d57 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -314,7 +314,7 @@ void DebugRenderer::drawConvexMesh(const Transform& transform, const ConvexMeshS
         const uint32 nbFaceVertices = static_cast<uint32>(face.faceVertices.size());
         for (uint32 v = 2; v < nbFaceVertices; v++) {
 
-            uint32 v1Index = face.faceVertices[v - 2];
+            uint32 v1Index = face.faceVertices[0];
             uint32 v2Index = face.faceVertices[v - 1];
             uint32 v3Index = face.faceVertices[v];
 
-- 
2.43.0


From 6a8d2143e4f0ab68ecce78fb0548b849b3ceb831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:05 +0000
Subject: [PATCH 47/51] fix: debug renderer draws spheres and capsules only if
 collision shapes are displayed

---
 src/utils/DebugRenderer.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/DebugRenderer.cpp b/src/utils/DebugRenderer.cpp
index 4ab2d57..7a48737 100644
--- a/src/utils/DebugRenderer.cpp
+++ b/src/utils/DebugRenderer.cpp
@@ -444,13 +444,17 @@ void DebugRenderer::drawCollisionShapeOfCollider(const Collider* collider) {
         case CollisionShapeName::SPHERE:
         {
             const SphereShape* sphereShape = static_cast<const SphereShape*>(collider->getCollisionShape());
-            drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawSphere(collider->getLocalToWorldTransform().getPosition(), sphereShape->getRadius(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CAPSULE:
         {
             const CapsuleShape* capsuleShape = static_cast<const CapsuleShape*>(collider->getCollisionShape());
-            drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            if (getIsDebugItemDisplayed(DebugItem::COLLISION_SHAPE)) {
+                drawCapsule(collider->getLocalToWorldTransform(), capsuleShape->getRadius(), capsuleShape->getHeight(), colorShape);
+            }
             break;
         }
         case CollisionShapeName::CONVEX_MESH:
-- 
2.43.0


From 1af54bc0ec880c10bab45296016c87f89afda2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:39 +0000
Subject: [PATCH 48/51] fix: reaction torque of a ball and socket joint
 includes its cone limit

---
 .../components/BallAndSocketJointComponents.h          |  1 +
 src/constraint/BallAndSocketJoint.cpp                  |  7 ++++++-
 src/systems/SolveBallAndSocketJointSystem.cpp          | 10 +++++-----
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/reactphysics3d/components/BallAndSocketJointComponents.h b/include/reactphysics3d/components/BallAndSocketJointComponents.h
index 654662f..761253f 100644
--- a/include/reactphysics3d/components/BallAndSocketJointComponents.h
+++ b/include/reactphysics3d/components/BallAndSocketJointComponents.h
@@ -245,6 +245,7 @@ class BallAndSocketJointComponents : public Components {
         // -------------------- Friendship -------------------- //
 
         friend class BroadPhaseSystem;
+        friend class BallAndSocketJoint;
         friend class SolveBallAndSocketJointSystem;
 };
 
diff --git a/src/constraint/BallAndSocketJoint.cpp b/src/constraint/BallAndSocketJoint.cpp
index 1476b56..8dc0405 100644
--- a/src/constraint/BallAndSocketJoint.cpp
+++ b/src/constraint/BallAndSocketJoint.cpp
@@ -151,7 +151,12 @@ Vector3 BallAndSocketJoint::getReactionForce(decimal timeStep) const {
  */
 Vector3 BallAndSocketJoint::getReactionTorque(decimal timeStep) const {
     assert(timeStep > MACHINE_EPSILON);
-    return Vector3(0, 0, 0);
+
+    const uint32 jointIndex = mWorld.mBallAndSocketJointsComponents.getEntityIndex(mEntity);
+
+    // Only the cone limit applies a torque
+    return -mWorld.mBallAndSocketJointsComponents.mConeLimitImpulse[jointIndex] *
+            mWorld.mBallAndSocketJointsComponents.mConeLimitACrossB[jointIndex] / timeStep;
 }
 
 // Return a string representation
diff --git a/src/systems/SolveBallAndSocketJointSystem.cpp b/src/systems/SolveBallAndSocketJointSystem.cpp
index 6853b77..fba855f 100644
--- a/src/systems/SolveBallAndSocketJointSystem.cpp
+++ b/src/systems/SolveBallAndSocketJointSystem.cpp
@@ -348,7 +348,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             // Check if the cone limit constraints is violated or not
             const Vector3 r1WorldUnit = r1World.getUnit();
             const Vector3 r2WorldUnit = r2World.getUnit();
-            mBallAndSocketJointComponents.mConeLimitACrossB[i] = r1WorldUnit.cross(-r2WorldUnit);
+            const Vector3 coneLimitACrossB = r1WorldUnit.cross(-r2WorldUnit);
             decimal coneAngle = computeCurrentConeHalfAngle(r1WorldUnit, -r2WorldUnit);
             decimal coneLimitError = mBallAndSocketJointComponents.mConeLimitHalfAngle[i] - coneAngle;
             mBallAndSocketJointComponents.mIsConeLimitViolated[i] = coneLimitError < 0;
@@ -357,8 +357,8 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
             if (mBallAndSocketJointComponents.mIsConeLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the cone limit (1x1 matrix)
-                decimal inverseMassMatrixConeLimit = mBallAndSocketJointComponents.mConeLimitACrossB[i].dot(mBallAndSocketJointComponents.mI1[i] * mBallAndSocketJointComponents.mConeLimitACrossB[i]) +
-                                                 mBallAndSocketJointComponents.mConeLimitACrossB[i].dot(mBallAndSocketJointComponents.mI2[i] * mBallAndSocketJointComponents.mConeLimitACrossB[i]);
+                decimal inverseMassMatrixConeLimit = coneLimitACrossB.dot(mBallAndSocketJointComponents.mI1[i] * coneLimitACrossB) +
+                                                 coneLimitACrossB.dot(mBallAndSocketJointComponents.mI2[i] * coneLimitACrossB);
                 mBallAndSocketJointComponents.mInverseMassMatrixConeLimit[i] = (inverseMassMatrixConeLimit > decimal(0.0)) ?
                                                                                decimal(1.0) / inverseMassMatrixConeLimit : decimal(0.0);
 
@@ -366,7 +366,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                 decimal lambdaConeLimit = mBallAndSocketJointComponents.mInverseMassMatrixConeLimit[i] * (-coneLimitError );
 
                 // Compute the impulse P=J^T * lambda of body 1
-                const Vector3 angularImpulseBody1 = lambdaConeLimit * mBallAndSocketJointComponents.mConeLimitACrossB[i];
+                const Vector3 angularImpulseBody1 = lambdaConeLimit * coneLimitACrossB;
 
                 // Compute the pseudo velocity of body 1
                 const Vector3 w1 = mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody1] * (mBallAndSocketJointComponents.mI1[i] * angularImpulseBody1);
@@ -376,7 +376,7 @@ void SolveBallAndSocketJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda of body 2
-                const Vector3 angularImpulseBody2 = -lambdaConeLimit * mBallAndSocketJointComponents.mConeLimitACrossB[i];
+                const Vector3 angularImpulseBody2 = -lambdaConeLimit * coneLimitACrossB;
 
                 // Compute the pseudo velocity of body 2
                 const Vector3 w2 = mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody2] * (mBallAndSocketJointComponents.mI2[i] * angularImpulseBody2);
-- 
2.43.0


From 0d271b64c3919062cae3c98f9d0fad62fecdccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:43 +0000
Subject: [PATCH 49/51] fix: position correction of joints keeps the axes the
 reaction forces refer to

---
 src/systems/SolveHingeJointSystem.cpp  | 16 +++-----------
 src/systems/SolveSliderJointSystem.cpp | 29 ++++++++++++--------------
 2 files changed, 16 insertions(+), 29 deletions(-)

diff --git a/src/systems/SolveHingeJointSystem.cpp b/src/systems/SolveHingeJointSystem.cpp
index 6d6669f..428c78b 100644
--- a/src/systems/SolveHingeJointSystem.cpp
+++ b/src/systems/SolveHingeJointSystem.cpp
@@ -504,23 +504,15 @@ void SolveHingeJointSystem::solvePositionConstraint() {
         Matrix3x3 skewSymmetricMatrixU2 = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(mHingeJointComponents.mR2World[i]);
 
 
-        Vector3& b2CrossA1 = mHingeJointComponents.mB2CrossA1[i];
-        Vector3& c2CrossA1 = mHingeJointComponents.mC2CrossA1[i];
-
-        Vector3& a1 = mHingeJointComponents.mA1[i];
-
         // Compute vectors needed in the Jacobian
-        a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
+        Vector3 a1 = q1 * mHingeJointComponents.mHingeLocalAxisBody1[i];
         Vector3 a2 = q2 * mHingeJointComponents.mHingeLocalAxisBody2[i];
         a1.normalize();
-        mHingeJointComponents.mA1[i] = a1;
         a2.normalize();
         const Vector3 b2 = a2.getOneUnitOrthogonalVector();
         const Vector3 c2 = a2.cross(b2);
-        b2CrossA1 = b2.cross(a1);
-        mHingeJointComponents.mB2CrossA1[i] = b2CrossA1;
-        c2CrossA1 = c2.cross(a1);
-        mHingeJointComponents.mC2CrossA1[i] = c2CrossA1;
+        const Vector3 b2CrossA1 = b2.cross(a1);
+        const Vector3 c2CrossA1 = c2.cross(a1);
 
         // Compute the current angle around the hinge axis
         const decimal hingeAngle = computeCurrentHingeAngle(jointEntity, q1, q2);
@@ -537,8 +529,6 @@ void SolveHingeJointSystem::solvePositionConstraint() {
 
             decimal inverseMassMatrixLimitMotor = mHingeJointComponents.mInverseMassMatrixLimitMotor[i];
 
-            Vector3& a1 = mHingeJointComponents.mA1[i];
-
             if (mHingeJointComponents.mIsLowerLimitViolated[i] || mHingeJointComponents.mIsUpperLimitViolated[i]) {
 
                 // Compute the inverse of the mass matrix K=JM^-1J^t for the limits (1x1 matrix)
diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index a41244f..631bd10 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -555,9 +555,6 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         const Vector3& r1 = mSliderJointComponents.mR1[i];
         const Vector3& r2 = mSliderJointComponents.mR2[i];
 
-        const Vector3& n1 = mSliderJointComponents.mN1[i];
-        const Vector3& n2 = mSliderJointComponents.mN2[i];
-
         Vector3& x1 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody1];
         Vector3& x2 = mRigidBodyComponents.mConstrainedPositions[componentIndexBody2];
 
@@ -565,13 +562,13 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         const Vector3 u = x2 + r2 - x1 - r1;
 
         // Compute the two orthogonal vectors to the slider axis in world-space
-        mSliderJointComponents.mSliderAxisWorld[i] = q1 * mSliderJointComponents.mSliderAxisBody1[i];
-        mSliderJointComponents.mSliderAxisWorld[i].normalize();
-        mSliderJointComponents.mN1[i] = mSliderJointComponents.mSliderAxisWorld[i].getOneUnitOrthogonalVector();
-        mSliderJointComponents.mN2[i] = mSliderJointComponents.mSliderAxisWorld[i].cross(n1);
+        Vector3 sliderAxisWorld = q1 * mSliderJointComponents.mSliderAxisBody1[i];
+        sliderAxisWorld.normalize();
+        const Vector3 n1 = sliderAxisWorld.getOneUnitOrthogonalVector();
+        const Vector3 n2 = sliderAxisWorld.cross(n1);
 
         // Check if the limit constraints are violated or not
-        decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+        decimal uDotSliderAxis = u.dot(sliderAxisWorld);
         decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.getLowerLimit(jointEntity);
         decimal upperLimitError = mSliderJointComponents.getUpperLimit(jointEntity) - uDotSliderAxis;
         mSliderJointComponents.mIsLowerLimitViolated[i] = lowerLimitError <= 0;
@@ -580,11 +577,11 @@ void SolveSliderJointSystem::solvePositionConstraint() {
         // Compute the cross products used in the Jacobians
         mSliderJointComponents.mR2CrossN1[i] = r2.cross(n1);
         mSliderJointComponents.mR2CrossN2[i] = r2.cross(n2);
-        mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR2CrossSliderAxis[i] = r2.cross(sliderAxisWorld);
         const Vector3 r1PlusU = r1 + u;
         mSliderJointComponents.mR1PlusUCrossN1[i] = r1PlusU.cross(n1);
         mSliderJointComponents.mR1PlusUCrossN2[i] = r1PlusU.cross(n2);
-        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(mSliderJointComponents.mSliderAxisWorld[i]);
+        mSliderJointComponents.mR1PlusUCrossSliderAxis[i] = r1PlusU.cross(sliderAxisWorld);
 
         const Vector3& r2CrossN1 = mSliderJointComponents.mR2CrossN1[i];
         const Vector3& r2CrossN2 = mSliderJointComponents.mR2CrossN2[i];
@@ -622,14 +619,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
                 const Vector3 u = x2 + r2 - x1 - r1;
-                decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+                decimal uDotSliderAxis = u.dot(sliderAxisWorld);
                 decimal lowerLimitError = uDotSliderAxis - mSliderJointComponents.mLowerLimit[i];
 
                 // Compute the Lagrange multiplier lambda for the lower limit constraint
                 decimal lambdaLowerLimit = mSliderJointComponents.mInverseMassMatrixLimit[i] * (-lowerLimitError);
 
                 // Compute the impulse P=J^T * lambda for the lower limit constraint of body 1
-                const Vector3 linearImpulseBody1 = -lambdaLowerLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody1 = -lambdaLowerLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody1 = -lambdaLowerLimit * r1PlusUCrossSliderAxis;
 
                 // Apply the impulse to the body 1
@@ -642,7 +639,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda for the lower limit constraint of body 2
-                const Vector3 linearImpulseBody2 = lambdaLowerLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody2 = lambdaLowerLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody2 = lambdaLowerLimit * r2CrossSliderAxis;
 
                 // Apply the impulse to the body 2
@@ -661,14 +658,14 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 const Vector3& r1 = mSliderJointComponents.mR1[i];
                 const Vector3& r2 = mSliderJointComponents.mR2[i];
                 const Vector3 u = x2 + r2 - x1 - r1;
-                decimal uDotSliderAxis = u.dot(mSliderJointComponents.mSliderAxisWorld[i]);
+                decimal uDotSliderAxis = u.dot(sliderAxisWorld);
                 decimal upperLimitError = mSliderJointComponents.mUpperLimit[i] - uDotSliderAxis;
 
                 // Compute the Lagrange multiplier lambda for the upper limit constraint
                 decimal lambdaUpperLimit = mSliderJointComponents.mInverseMassMatrixLimit[i] * (-upperLimitError);
 
                 // Compute the impulse P=J^T * lambda for the upper limit constraint of body 1
-                const Vector3 linearImpulseBody1 = lambdaUpperLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody1 = lambdaUpperLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody1 = lambdaUpperLimit * r1PlusUCrossSliderAxis;
 
                 // Apply the impulse to the body 1
@@ -681,7 +678,7 @@ void SolveSliderJointSystem::solvePositionConstraint() {
                 q1.normalize();
 
                 // Compute the impulse P=J^T * lambda for the upper limit constraint of body 2
-                const Vector3 linearImpulseBody2 = -lambdaUpperLimit * mSliderJointComponents.mSliderAxisWorld[i];
+                const Vector3 linearImpulseBody2 = -lambdaUpperLimit * sliderAxisWorld;
                 const Vector3 angularImpulseBody2 = -lambdaUpperLimit * r2CrossSliderAxis;
 
                 // Apply the impulse to the body 2
-- 
2.43.0


From fa267449efe6678e4852810b0a6f1fe83632db49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:50 +0000
Subject: [PATCH 50/51] fix: motor of a slider joint acts along the slider
 axis, not on the centers of mass

---
 src/systems/SolveSliderJointSystem.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/systems/SolveSliderJointSystem.cpp b/src/systems/SolveSliderJointSystem.cpp
index 631bd10..913007f 100644
--- a/src/systems/SolveSliderJointSystem.cpp
+++ b/src/systems/SolveSliderJointSystem.cpp
@@ -221,7 +221,9 @@ void SolveSliderJointSystem::initBeforeSolve() {
             const decimal sumInverseMass = body1MassInverse + body2MassInverse;
 
             // Compute the inverse of mass matrix K=JM^-1J^t for the motor (1x1 matrix)
-            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass;
+            mSliderJointComponents.mInverseMassMatrixMotor[i] = sumInverseMass +
+                                    mSliderJointComponents.mR1PlusUCrossSliderAxis[i].dot(i1 * mSliderJointComponents.mR1PlusUCrossSliderAxis[i]) +
+                                    mSliderJointComponents.mR2CrossSliderAxis[i].dot(i2 * mSliderJointComponents.mR2CrossSliderAxis[i]);
             mSliderJointComponents.mInverseMassMatrixMotor[i] = (mSliderJointComponents.mInverseMassMatrixMotor[i] > decimal(0.0)) ?
                         decimal(1.0) / mSliderJointComponents.mInverseMassMatrixMotor[i] : decimal(0.0);
         }
@@ -293,6 +295,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 1
         linearImpulseBody1 += impulseMotor;
+        angularImpulseBody1 += mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR1PlusUCrossSliderAxis[i];
 
         // Apply the impulse to the body 1
         v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
@@ -312,6 +315,7 @@ void SolveSliderJointSystem::warmstart() {
 
         // Compute the impulse P=J^T * lambda for the motor constraint of body 2
         linearImpulseBody2 += -impulseMotor;
+        angularImpulseBody2 += -mSliderJointComponents.mImpulseMotor[i] * mSliderJointComponents.mR2CrossSliderAxis[i];
 
         // Apply the impulse to the body 2
         v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
@@ -437,7 +441,8 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
         if (mSliderJointComponents.mIsMotorEnabled[i]) {
 
             // Compute J*v for the motor
-            const decimal JvMotor = sliderAxisWorld.dot(v1) - sliderAxisWorld.dot(v2);
+            const decimal JvMotor = sliderAxisWorld.dot(v1) + r1PlusUCrossSliderAxis.dot(w1) -
+                                    sliderAxisWorld.dot(v2) - r2CrossSliderAxis.dot(w2);
 
             // Compute the Lagrange multiplier lambda for the motor
             const decimal maxMotorImpulse = mSliderJointComponents.mMaxMotorForce[i] * mTimeStep;
@@ -448,15 +453,19 @@ void SolveSliderJointSystem::solveVelocityConstraint() {
 
             // Compute the impulse P=J^T * lambda for the motor of body 1
             const Vector3 linearImpulseBody1 = deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody1 = deltaLambdaMotor * r1PlusUCrossSliderAxis;
 
             // Apply the impulse to the body 1
             v1 += inverseMassBody1 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody1] * linearImpulseBody1;
+            w1 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody1] * (i1 * angularImpulseBody1);
 
             // Compute the impulse P=J^T * lambda for the motor of body 2
             const Vector3 linearImpulseBody2 = -deltaLambdaMotor * sliderAxisWorld;
+            const Vector3 angularImpulseBody2 = -deltaLambdaMotor * r2CrossSliderAxis;
 
             // Apply the impulse to the body 2
             v2 += inverseMassBody2 * mRigidBodyComponents.mLinearLockAxisFactors[componentIndexBody2] * linearImpulseBody2;
+            w2 += mRigidBodyComponents.mAngularLockAxisFactors[componentIndexBody2] * (i2 * angularImpulseBody2);
         }
 
         // --------------- Rotation Constraints --------------- //
-- 
2.43.0


From b64d24b89efb225c9d49b873131cad52155f4418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:34 +0000
Subject: [PATCH 51/51] fix: take the friction directions of a contact from the
 sliding velocity only when it is more than rounding noise

---
 src/systems/ContactSolverSystem.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/systems/ContactSolverSystem.cpp b/src/systems/ContactSolverSystem.cpp
index 797a984..801984e 100644
--- a/src/systems/ContactSolverSystem.cpp
+++ b/src/systems/ContactSolverSystem.cpp
@@ -792,9 +792,10 @@ void ContactSolverSystem::computeFrictionVectors(const Vector3& deltaVelocity, C
     Vector3 tangentVelocity(deltaVelocity.x - normalVelocity.x, deltaVelocity.y - normalVelocity.y,
                             deltaVelocity.z - normalVelocity.z);
 
-    // If the velocty difference in the tangential plane is not zero
+    // If the velocty difference in the tangential plane is not zero (a tangential part that is tiny compared to the
+    // velocity difference is only rounding noise whose direction might not be orthogonal to the normal)
     const decimal lengthTangentVelocity = tangentVelocity.length();
-    if (lengthTangentVelocity > MACHINE_EPSILON) {
+    if (lengthTangentVelocity > MACHINE_EPSILON && lengthTangentVelocity > decimal(0.0001) * deltaVelocity.length()) {
 
         // Compute the first friction vector in the direction of the tangent
         // velocity difference
-- 
2.43.0

