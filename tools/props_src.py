#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script so that long texts stay readable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

prop("C01", "Memory allocators hand out disjoint, aligned, in-bounds blocks and give all back",
 "Whatever sequence of allocations, releases and frame resets is made on the library's allocators, every block handed out is 16-byte aligned, lies inside memory obtained from the base allocator, and overlaps no other live block. "
 "Releasing a block of the size it was requested with never disturbs other live blocks, memory that was released can be handed out again, and destroying the allocators returns to the base allocator exactly the blocks (with their sizes) that were taken from it.",
 ["histories", "inputs"], "every history of allocate/release/reset calls with every request size",
 "No existing test exercises the allocators; the property quantifies over histories and sizes (including the sizes at which free units split, merge or the arena grows).",
 ["src/memory/PoolAllocator.cpp", "src/memory/HeapAllocator.cpp", "src/memory/SingleFrameAllocator.cpp", "include/reactphysics3d/memory/DefaultAllocator.h"],
 [("pool: per-size free lists carved out of fixed blocks", "src/memory/PoolAllocator.cpp: allocate/release"),
  ("heap: splitting and merging of free memory units", "src/memory/HeapAllocator.cpp: allocate/splitMemoryUnit/mergeUnits/release"),
  ("single frame: bump pointer with fallback to the base allocator", "src/memory/SingleFrameAllocator.cpp")],
 ["addresses returned by allocate", "calls on the base allocator"])

prop("C02", "Containers behave like their abstract sequences, maps and sets",
 "For every history of operations, the array, map, set, deque, stack and linked list of the library hold exactly the elements a plain sequence / key-value map / set would hold, in the promised order, also after growing, copying, assigning and clearing (with or without releasing memory). "
 "No operation touches memory outside the container's own storage.",
 ["histories", "inputs"], "every history of operations (insert, erase, lookup, copy, assign, clear, reserve, both ends of a deque) with every element value",
 "Unit tests walk a few fixed histories with fixed values; hash collisions, growth points, wrap-around positions and clear-then-reuse histories are not reached.",
 ["include/reactphysics3d/containers/Array.h", "include/reactphysics3d/containers/Map.h", "include/reactphysics3d/containers/Set.h", "include/reactphysics3d/containers/Deque.h", "include/reactphysics3d/containers/Stack.h", "include/reactphysics3d/containers/LinkedList.h"],
 [("buckets, chained entries and free list", "Map.h / Set.h: add, remove, reserve, clear"),
  ("chunked ring buffer", "Deque.h: addFront/addBack/popFront/popBack, getItem"),
  ("contiguous growth", "Array.h: add, addRange, removeAt, reserve, operator=")],
 ["iteration order, size, find/contains, element access"])

prop("C03", "Bounding-box algebra is exact and conservative",
 "For every pair of well-formed axis-aligned boxes, the overlap test is symmetric and true exactly when the boxes share a point, merging yields the smallest box containing both, and containment, inflation, volume and centre/extent agree with the corner coordinates. "
 "A ray or triangle test against a box never answers 'no' when the segment or triangle really meets the box.",
 ["inputs"], "all finite corner coordinates, all triangles, all ray segments (including rays parallel to an axis that run along a face)",
 "Tests use a handful of boxes; equal coordinates, touching faces, degenerate boxes and axis-parallel rays on a face form the interesting set.",
 ["include/reactphysics3d/collision/shapes/AABB.h", "src/collision/shapes/AABB.cpp"],
 [("slab and comparison tests", "AABB.h: testCollision, testRayIntersect, contains; AABB.cpp: mergeTwoAABBs, createAABBForTriangle")])

prop("C04", "Broad phase tree never misses an overlapping object",
 "After every history of adding, moving and removing objects, a query of the broad-phase tree with a box reports each live object whose stored box overlaps the query box exactly once and no other object, and a ray query visits every live object whose stored box the ray segment crosses. "
 "Stored boxes always contain the box last given for the object, object handles stay valid until the object is removed, and each handle keeps its own user data.",
 ["histories", "inputs"], "every history of add/update/remove with every box, every query box and ray",
 "The tests build one small fixed tree; rotations, re-use of freed nodes and re-insertion depend on the history and on box geometry.",
 ["src/collision/broadphase/DynamicAABBTree.cpp", "include/reactphysics3d/collision/broadphase/DynamicAABBTree.h"],
 [("insertion/removal with rebalancing and refit of ancestors", "DynamicAABBTree.cpp: insertLeafNode, removeLeafNode, balanceSubTreeAtNode"),
  ("free node list", "DynamicAABBTree.cpp: allocateNode, releaseNode"),
  ("stack traversal", "DynamicAABBTree.cpp: reportAllShapesOverlappingWith*, raycast")],
 ["query results", "fat boxes"])

prop("C05", "Entity identifiers are unique among live entities and never confused after reuse",
 "An entity created by the entity manager is valid until destroyed and invalid afterwards, two live entities never have the same identifier, and a stale identifier of a destroyed entity is not mistaken for the entity that later reuses its slot as long as its slot has been reused fewer times than the generation counter can count.",
 ["histories"], "every history of entity creations and destructions, including ones that recycle slots",
 "There are no tests for entities; recycling only starts after a minimum number of free slots, which fixed short tests do not reach.",
 ["src/engine/EntityManager.cpp", "src/engine/Entity.cpp", "include/reactphysics3d/engine/Entity.h", "include/reactphysics3d/engine/EntityManager.h"],
 [("index + generation packed in 32 bits", "Entity.h: ENTITY_INDEX_BITS/ENTITY_GENERATION_BITS"),
  ("deferred recycling through a FIFO of free indices", "EntityManager.cpp: createEntity/destroyEntity")])

prop("C06", "Per-entity data stays attached to its entity and enabled entities stay in front",
 "After every history of adding and removing components and of enabling/disabling entities, each component table still returns for every entity exactly the data stored for that entity, and does so for all its fields together. "
 "The enabled entities occupy exactly the first part of the table and the counts of enabled and total entries are right.",
 ["histories", "inputs"], "every history of add/remove/enable/disable over every component table with every payload",
 "No test touches component tables; the fields are moved by hand-written code per table, so one forgotten field shows only after specific swap/move sequences.",
 ["src/components/Components.cpp", "src/components/TransformComponents.cpp", "src/components/BodyComponents.cpp", "src/components/RigidBodyComponents.cpp", "src/components/ColliderComponents.cpp", "src/components/JointComponents.cpp", "src/components/HingeJointComponents.cpp", "src/components/SliderJointComponents.cpp", "src/components/FixedJointComponents.cpp", "src/components/BallAndSocketJointComponents.cpp"],
 [("structure-of-arrays tables with swap/move/destroy primitives", "src/components/*Components.cpp: moveComponentToIndex, swapComponents, destroyComponent, allocate"),
  ("partition between enabled and disabled entries", "src/components/Components.cpp: prepareAddComponent, removeComponent, setIsEntityDisabled")])

prop("C07", "Collision filtering obeys category and mask bits of both colliders",
 "Two colliders on different bodies produce contact, trigger or overlap results only if each collider's category is accepted by the other's mask, whatever the 16-bit values are and whichever collider was created first; if both accept, both take part in the simulation and their shapes overlap, the pair is reported. "
 "Changing the bits takes effect on the next simulation step even for colliders that already touch.",
 ["inputs", "histories"], "all 16-bit category and mask values of both colliders, all creation orders, changes while overlapping or not",
 "The tests use a few constants; the 2^64 combinations and changes of filtering on an existing pair are not covered.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/collision/Collider.cpp", "src/engine/OverlappingPairs.cpp"],
 [("two-way mask test before creating a pair", "CollisionDetectionSystem.cpp: updateOverlappingPairs"),
  ("re-test request when bits change", "Collider.cpp: setCollisionCategoryBits/setCollideWithMaskBits")],
 ["EventListener::onContact/onTrigger", "testOverlap/testCollision callbacks"])

prop("C08", "Contact and trigger events follow the start / stay / exit protocol",
 "For each pair of colliders that take part in the simulation, the events reported over successive steps form the pattern start, stay, ..., exit: start is reported on the first step in which the shapes touch, stay on every following step in which they still touch, exit exactly once on the first step in which they no longer touch. "
 "Triggers are reported only as trigger events and never create contacts, other colliders only as contact events, and no event names a destroyed body or collider.",
 ["histories", "inputs"], "every history of steps, moves, teleports, sleeping, queries between steps, trigger flags and deletions",
 "No test listens to events at all.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "src/collision/CollisionCallback.cpp", "src/collision/OverlapCallback.cpp"],
 [("colliding-in-previous/current-frame flags per pair", "OverlappingPairs.h: OverlappingPair; CollisionDetectionSystem.cpp: processPotentialContacts, computeLostContactPairs, updateCollidingInPreviousFrame"),
  ("lost contact pairs", "CollisionDetectionSystem.cpp: addLostContactPair")],
 ["EventListener callbacks"])

prop("C09", "Sphere and capsule collision tests agree with geometry",
 "Two spheres, a sphere and a capsule, or two capsules are reported as colliding if their distance is smaller than the sum of their radii and not if it is larger, in both orders of the two colliders. "
 "When they collide the contact normal is a unit vector pointing from the first to the second, the penetration depth equals the sum of radii minus the distance, and the contact points lie on the two surfaces, all up to rounding.",
 ["inputs"], "all positions, radii and heights, including coincident centres, crossing axes and parallel capsules",
 "Tests probe a few configurations and mostly only whether a contact exists; degenerate configurations are the risky ones.",
 ["src/collision/narrowphase/SphereVsSphereAlgorithm.cpp", "src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp", "src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp", "include/reactphysics3d/mathematics/mathematics_functions.h"],
 [("closest points between segments and points", "mathematics_functions.h: computeClosestPointBetweenTwoSegments, computeClosestPointOnSegment"),
  ("contact generation", "the three algorithm files: testCollision")])

prop("C10", "Box and convex polyhedron collision tests agree with geometry",
 "For boxes and convex polyhedra against spheres, capsules and each other, shapes that are separated by a gap are never reported as colliding and shapes that penetrate are always reported, in both orders of the colliders and regardless of results cached from earlier frames. "
 "Reported contacts have unit normals and non-negative penetration. Unless an axis cached from an earlier frame is reused, the normal is a direction of least penetration: moving a sphere or capsule along it by the deepest penetration separates it from the polyhedron, and the overlap of two polyhedra along it is their smallest overlap (up to rounding and the preference for face normals over edge directions).",
 ["inputs", "histories"], "all relative positions of the shapes on a grid and all cached states from a previous frame",
 "Only hand-picked placements are tested; temporal-coherence shortcuts depend on the previous frame's state.",
 ["src/collision/narrowphase/SAT/SATAlgorithm.cpp", "src/collision/narrowphase/GJK/GJKAlgorithm.cpp", "src/collision/narrowphase/SphereVsConvexPolyhedronAlgorithm.cpp", "src/collision/narrowphase/CapsuleVsConvexPolyhedronAlgorithm.cpp", "src/collision/narrowphase/ConvexPolyhedronVsConvexPolyhedronAlgorithm.cpp"],
 [("separating axis tests with cached axis", "SATAlgorithm.cpp: testCollisionConvexPolyhedronVsConvexPolyhedron and others"),
  ("GJK on shapes without margins", "GJKAlgorithm.cpp: testCollision")])

prop("C11", "World overlap and collision queries report exactly the colliding bodies",
 "The world's overlap and collision queries (for two bodies, for one body, for the whole world) report a pair of bodies if and only if colliders of the two bodies that are enabled for world queries and allowed by filtering (mask bits, bodies kept apart by a joint) overlap at that moment, with no pair reported twice; the collision queries, which ask for contacts, leave out trigger colliders. "
 "The three forms agree with each other, do not depend on whether bodies are awake, sleeping or static, and running a query changes neither body states nor the events of the following steps.",
 ["inputs", "histories"], "all placements, filter settings, flags and awake/sleeping states of the bodies",
 "Query tests use two awake bodies in two or three fixed positions.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/engine/PhysicsWorld.cpp", "src/collision/OverlapCallback.cpp", "src/collision/CollisionCallback.cpp"],
 [("filtering of overlapping pairs by body", "CollisionDetectionSystem.cpp: filterOverlappingPairs"),
  ("snapshot narrow phase", "CollisionDetectionSystem.cpp: computeNarrowPhase*Snapshot")])

prop("C12", "Ray casts against shapes report a true surface hit",
 "When a ray cast against a sphere, box, capsule, triangle, convex mesh, concave mesh or height field reports a hit, the hit point lies on the surface and on the ray at the reported fraction, the fraction is between zero and the ray's maximum, and the normal faces against the ray for solid shapes. "
 "A ray that starts outside and passes through the inside of a solid shape within its maximum fraction is always reported as a hit at the first crossing, and one that stays clear of the shape never is.",
 ["inputs"], "all ray origins and directions on a grid, all maximum fractions",
 "Ray tests are point samples; parallel rays, rays through edges and limits on the fraction are unexplored.",
 ["src/collision/shapes/SphereShape.cpp", "src/collision/shapes/BoxShape.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/TriangleShape.cpp", "src/collision/shapes/ConvexMeshShape.cpp", "src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp"],
 [("analytic ray intersection per shape", "the shapes' raycast methods")])

prop("C13", "World ray casts honour callback control, filters and limits",
 "During a world ray cast the callback receives only hits on active bodies whose colliders are world-query enabled and whose category matches the ray's mask, each with a fraction not beyond the current limit. "
 "Returning the hit fraction clips the rest of the cast so that the last reported hit is the closest, returning one reports every hit once, returning zero stops the cast, a negative value ignores the collider, and results do not depend on creation order.",
 ["inputs", "histories", "configurations"], "all callback policies, masks, activity and query flags, ray positions and creation orders",
 "Tests use single-shape worlds and one policy.",
 ["src/engine/PhysicsWorld.cpp", "src/systems/BroadPhaseSystem.cpp", "src/collision/RaycastInfo.cpp", "src/collision/broadphase/DynamicAABBTree.cpp", "src/collision/Collider.cpp"],
 [("max fraction update in the tree traversal", "DynamicAABBTree.cpp: raycast; RaycastInfo.cpp: raycastAgainstShape")])

prop("C14", "Free rigid bodies move according to forces, gravity, damping and locked axes",
 "For every mass, velocity, force, gravity setting, damping and locked axis, one step of an unconstrained dynamic body changes its velocity and position by symplectic Euler integration with damping factor 1/(1+c*dt), locked axes receive no acceleration from forces or gravity, and accumulated forces are cleared after the step. "
 "Static bodies never move, kinematic bodies move only by their own velocity, and neither is affected by forces or gravity.",
 ["inputs", "histories"], "all masses, velocities, forces, points of application, damping values, lock factors, body types and time steps on a grid",
 "No test steps dynamics of bodies beyond checking getters.",
 ["src/systems/DynamicsSystem.cpp", "src/body/RigidBody.cpp"],
 [("velocity and position integration", "DynamicsSystem.cpp: integrateRigidBodiesVelocities/Positions, updateBodiesState"),
  ("force accumulation", "RigidBody.cpp: applyWorldForce..., resetForce")])

prop("C15", "Body type, activity and sleep transitions keep bodies consistent",
 "Whatever order of changing a body's type, activating/deactivating it, putting it to sleep or waking it is used, its enabled state, participation in the broad phase and collision pairs agree with its current type and activity: an inactive body does not move, collide or get hit, a reactivated or again dynamic body moves and collides as a newly created one would, and applying a force, a velocity or a teleport wakes a sleeping body.",
 ["histories"], "every history of type changes, (de)activation, sleeping, waking, steps and force applications",
 "Tests never combine these transitions with stepping.",
 ["src/body/RigidBody.cpp", "src/body/Body.cpp", "src/engine/PhysicsWorld.cpp", "src/engine/OverlappingPairs.cpp"],
 [("component enabling", "PhysicsWorld.cpp: setBodyDisabled; RigidBody.cpp: setIsSleeping, setType, setIsActive"),
  ("pair enabling", "RigidBody.cpp: enableOverlappingPairs, checkForDisabledOverlappingPairs")])

prop("C16", "Islands group exactly the bodies that touch or are jointed, and sleep as one",
 "A group of dynamic bodies connected through contacts or joints falls asleep exactly when every one of them has been slow enough and allowed to sleep for the required time, and then all of them sleep in the same step with zero velocity; bodies that are connected only through a static body do not influence each other's sleep. "
 "If any body of a sleeping group wakes, every body directly connected to it is awake after the next step, so that the whole group wakes link by link.",
 ["histories", "inputs"], "all contact/joint graphs over the bodies, all velocities, sleep thresholds and permissions",
 "No test involves sleeping or islands.",
 ["src/engine/PhysicsWorld.cpp", "include/reactphysics3d/engine/Islands.h"],
 [("depth-first search over contact pairs and joints", "PhysicsWorld.cpp: createIslands"),
  ("per-island minimum sleep time", "PhysicsWorld.cpp: updateSleepingBodies")])

prop("C17", "Contact response only pushes apart, obeys friction limits, conserves momentum",
 "In every step, contacts between bodies only ever push the bodies apart, tangential response is bounded by the friction coefficient times the normal response, and the total linear momentum of the bodies in contact is changed only by external forces and by static or kinematic partners. "
 "Bodies approaching at a contact no longer approach after the step (up to rounding and the allowed position correction), without bounciness they do not rebound, and a body at rest on a static floor does not sink through it.",
 ["inputs", "histories"], "all masses, velocities, penetrations, friction and bounciness coefficients on a grid",
 "No test steps a world with contacts and checks the outcome.",
 ["src/systems/ContactSolverSystem.cpp", "src/collision/ContactManifold.cpp", "src/constraint/ContactPoint.cpp"],
 [("sequential impulses with clamped accumulation", "ContactSolverSystem.cpp: solve"),
  ("warm starting from previous contacts", "ContactSolverSystem.cpp: warmStart; CollisionDetectionSystem.cpp: initContactsWithPreviousOnes")])

prop("C18", "Joints hold their constraint, respect limits and motors, and conserve momentum",
 "Every joint applies equal and opposite impulses to its two bodies, so the total linear momentum of two free jointed bodies is unaffected by the joint, and after a step the relative velocity at the joint satisfies the joint's constraint up to rounding and position correction. "
 "Limit impulses act only in the direction that enforces the limit, and motors never exceed their maximum force or torque. A joint never moves a body along, or (when its whole rotation is locked) about, an axis that is locked, and a load it carries at rest stays at rest. A joint has exactly the bodies, anchors, axes, limits and motor of its description, whichever way it is described, and its settings read back.",
 ["inputs", "configurations"], "all joint kinds, anchors, velocities, limit and motor settings on a grid",
 "No test creates a joint.",
 ["src/systems/SolveBallAndSocketJointSystem.cpp", "src/systems/SolveFixedJointSystem.cpp", "src/systems/SolveHingeJointSystem.cpp", "src/systems/SolveSliderJointSystem.cpp", "src/systems/ConstraintSolverSystem.cpp"],
 [("velocity constraint solving per joint type", "Solve*JointSystem.cpp: solveVelocityConstraint")])

prop("C19", "Joint lifetime: cascade on body destruction and collision disabling",
 "Creating and destroying joints and bodies in any order leaves no dangling reference: destroying a body destroys exactly its joints, the other body no longer lists them and wakes up. "
 "Two jointed bodies collide with each other if and only if no existing joint between them forbids it, and this takes effect on the next step even if the bodies already overlap.",
 ["histories"], "every history of joint and body creation and destruction, with collision enabled or disabled per joint",
 "No test creates a joint.",
 ["src/engine/PhysicsWorld.cpp", "src/components/RigidBodyComponents.cpp", "src/constraint/Joint.cpp", "src/systems/CollisionDetectionSystem.cpp"],
 [("joint arrays per body", "PhysicsWorld.cpp: createJoint, destroyJoint, destroyRigidBody"),
  ("no-collision pairs", "CollisionDetectionSystem.cpp: addNoCollisionPair/removeNoCollisionPair")])

prop("C20", "Polygon and triangle meshes are validated and represent their input faithfully",
 "Given any vertex and index data, mesh creation either fails with an error message and no mesh or succeeds with a structure that contains exactly the given vertices and faces; inconsistent data (indices out of range, faces with fewer than three vertices or without area, a surface that is not closed and consistently wound) is never accepted silently and never causes an invalid memory access; degenerate triangles of a triangle mesh are left out with a message. "
 "In a convex mesh created from a convex polyhedron with outward faces each half-edge's twin, next and face references are mutually consistent, face normals are unit vectors pointing outwards, all vertices lie behind every face plane, and volume, centroid and bounds match the geometry.",
 ["inputs"], "all vertex coordinates and index arrays within small sizes, all index/vertex data types and strides",
 "Tests build a cube and a few meshes; malformed data is hardly tried.",
 ["src/collision/HalfEdgeStructure.cpp", "src/collision/ConvexMesh.cpp", "src/collision/TriangleMesh.cpp", "src/collision/TriangleVertexArray.cpp", "src/collision/PolygonVertexArray.cpp", "src/collision/VertexArray.cpp", "src/engine/PhysicsCommon.cpp"],
 [("half-edge construction", "HalfEdgeStructure.cpp: computeHalfEdges"),
  ("validation", "ConvexMesh.cpp: init, TriangleMesh.cpp: copyVertices/copyData")])

prop("C21", "Convex hull construction encloses its points",
 "For any set of points, building a convex mesh from the points either fails with an error message or yields a closed convex mesh whose vertices are input points, whose faces have all input points behind them (up to tolerance), and whose extreme points along every axis equal those of the input (up to tolerance); well-spread points that enclose a volume are accepted.",
 ["inputs"], "all small point sets on a grid, including duplicates and collinear or coplanar points",
 "Tests use fixed point sets; degenerate sets are the hard ones.",
 ["src/utils/quickhull/QuickHull.cpp", "src/utils/quickhull/QHHalfEdgeStructure.cpp"],
 [("incremental hull", "QuickHull.cpp: computeConvexHull")])

prop("C22", "Height fields and concave meshes offer every triangle near a query box",
 "For a height field or concave mesh of any content, positive scaling and height type, asking for the triangles near a box returns every triangle whose own bounds meet the box, each triangle has the stored vertices (scaled), and all returned identifiers are distinct. "
 "The shape's bounds contain all its triangles.",
 ["inputs"], "all height values, grid sizes, scalings and query boxes within bounds",
 "Tests read back a few heights and vertices, with no box queries at grid boundaries.",
 ["src/collision/HeightField.cpp", "src/collision/shapes/HeightFieldShape.cpp", "src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/TriangleMesh.cpp"],
 [("grid range computation from a box", "HeightField/HeightFieldShape.cpp: computeMinMaxGridCoordinates, computeOverlappingTriangles"),
  ("tree over triangles", "TriangleMesh.cpp: initBVHTree; ConcaveMeshShape.cpp: computeOverlappingTriangles")])

prop("C23", "Mass, centre of mass and inertia from colliders match the shapes",
 "For every set of colliders (shapes, densities, local placements), the mass computed for a body is the sum of density times volume, the centre of mass is the mass-weighted mean of the collider centres, and the inertia follows from the shape formulas and the parallel axis theorem. "
 "Mass properties set by the user are kept until changed, and inverse mass and inertia always match the body's type.",
 ["inputs", "histories"], "all shape sizes, densities and placements on a grid, any order of adding/removing colliders and of type changes",
 "Tests cover a few single-collider configurations.",
 ["src/body/RigidBody.cpp", "src/collision/shapes/SphereShape.cpp", "src/collision/shapes/BoxShape.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/ConvexMeshShape.cpp"],
 [("mass property computation", "RigidBody.cpp: computeCenterOfMass, computeMassAndInertiaTensorLocal, updateMassPropertiesFromColliders")])

prop("C24", "Worlds are deterministic and independent of each other",
 "Two worlds built and stepped with the same operations produce bit-identical body states and the same events, regardless of memory reuse, of values left in memory by earlier work and of other worlds being created, stepped or destroyed in between. "
 "No result depends on uninitialised memory.",
 ["histories", "inputs"], "every history of operations, every interleaving with a second world, every content of fresh memory",
 "No test compares two runs; uninitialised reads usually go unnoticed.",
 ["src/engine/PhysicsWorld.cpp", "src/engine/PhysicsCommon.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/systems/ContactSolverSystem.cpp"],
 [("state kept per world only", "PhysicsWorld.h members"), ("initialisation of components and contacts", "src/components/*.cpp, src/constraint/ContactPoint.cpp")])

prop("C25", "Objects created through the engine's factory are released exactly once",
 "Whatever worlds, shapes, meshes, height fields, bodies, colliders and joints are created and destroyed through the public factory in any permitted order, destroying the factory releases everything that remains, returns every byte to the user's base allocator with the size it was requested with, and no operation touches an object that was already released.",
 ["histories"], "every permitted history of create/destroy calls",
 "Tests leak or clean up in one fixed order and never check the base allocator.",
 ["src/engine/PhysicsCommon.cpp", "src/engine/PhysicsWorld.cpp", "src/memory/MemoryManager.cpp"],
 [("sets of live objects per kind", "PhysicsCommon.cpp: create*/destroy*/release")])

prop("C26", "Collider and body bounds follow transforms and shape changes",
 "At every moment the box stored in the broad phase for a collider of an active body contains the exact bounds of its shape at its current placement, after any combination of body moves, local placement changes, shape resizing, activation and stepping; the bounds of a shape contain every point of the shape. "
 "World placement of a collider is always the body's placement combined with its local placement; points and vectors convert between body and world space accordingly, and tests against a given box answer for the shape's bounds.",
 ["inputs", "histories"], "all placements and sizes on a grid, every history of moves, resizes and steps",
 "Tests check a few bounds for identity or one rotated placement.",
 ["src/body/Body.cpp", "src/collision/Collider.cpp", "src/systems/BroadPhaseSystem.cpp", "src/collision/shapes/CollisionShape.cpp", "src/collision/shapes/BoxShape.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/SphereShape.cpp"],
 [("broad-phase update", "Body.cpp: updateBroadPhaseState; BroadPhaseSystem.cpp: updateCollidersComponents; CollisionShape.cpp: notifyColliderAboutChangedSize")])

prop("C27", "Vector, matrix, quaternion and transform algebra is consistent",
 "For every input, the algebraic operations agree with their definitions: matrix/vector products, transposes, determinants and inverses, quaternion products and rotation matrices, and composing a transform with its inverse gives the identity. "
 "Component-wise operations, minima, maxima, comparisons and closest-point/barycentric helpers return what their names promise for all finite values.",
 ["inputs"], "all values on dyadic grids (exact arithmetic) and all finite floats for comparison-only functions",
 "Unit tests compare a few literal values.",
 ["include/reactphysics3d/mathematics/Vector3.h", "include/reactphysics3d/mathematics/Matrix3x3.h", "include/reactphysics3d/mathematics/Quaternion.h", "include/reactphysics3d/mathematics/Transform.h", "include/reactphysics3d/mathematics/mathematics_functions.h", "src/mathematics/Quaternion.cpp", "src/mathematics/Transform.cpp"],
 [("operators", "the mathematics headers")])

prop("C28", "A point is inside a shape exactly when geometry says so",
 "The point-inside test of spheres, boxes, capsules and convex meshes answers true for every point strictly inside the placed shape and false for every point strictly outside, for every body and local placement, and a body contains a point if and only if one of its colliders does.",
 ["inputs"], "all points, sizes and placements on a grid",
 "Tests sample points around one placement.",
 ["src/collision/shapes/SphereShape.cpp", "src/collision/shapes/BoxShape.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/ConvexMeshShape.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp"],
 [("testPointInside per shape", "shapes' testPointInside")])

prop("C29", "Collision tests against concave meshes and height fields agree with geometry",
 "Between a concave mesh or height field and a sphere, capsule, box or convex mesh, a contact is reported if the solid shape penetrates one of the triangles and none if it is separated from all of them by a gap, whichever collider was created first and regardless of results cached from earlier frames. "
 "Every contact point on the surface lies on one of its triangles, its normal is of unit length, and its two points are apart by the reported, non-negative penetration depth along the normal; the deepest one is no deeper than the shape really penetrates the triangles (up to smoothed vertex normals).",
 ["inputs", "histories"], "all relative positions of solid and surface on a grid, all scalings and orientations of a set, first and later frames",
 "Tests place a few shapes on one concave mesh, never on a height field.",
 ["src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp", "src/collision/shapes/TriangleShape.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/collision/narrowphase/SAT/SATAlgorithm.cpp"],
 [("middle phase: triangles near the convex shape", "CollisionDetectionSystem.cpp: computeConvexVsConcaveMiddlePhase"),
  ("triangles of a height field in a box", "HeightFieldShape.cpp: computeOverlappingTriangles"),
  ("smoothed normals of a triangle", "TriangleShape.cpp: computeSmoothMeshContact")])

prop("C30", "Debug rendering shows exactly the selected items, where they really are",
 "With debug rendering enabled, the primitives after a step are, for every active body enabled for debugging and every item that is selected: the 12 edges of the bounds of each of its colliders, the 12 edges of a broad-phase box containing them, the complete surface of its shapes (closed and outward for solids, every triangle of meshes and height fields), the outward normals of faces, and one sphere and one normal line per contact point, in the colour of that item. "
 "Nothing is drawn for items not selected, for other bodies, or from earlier steps, and drawing does not change the motion.",
 ["inputs", "histories"], "all poses on a grid, all shapes, sets of items, short histories of switching, moving and destroying",
 "No test looks at debug primitives.",
 ["src/utils/DebugRenderer.cpp", "src/engine/PhysicsWorld.cpp"],
 [("drawing of polyhedra", "DebugRenderer.cpp: drawConvexMesh"),
  ("selection of bodies and items", "DebugRenderer.cpp: computeDebugRenderingPrimitives"),
  ("contacts are drawn from the contact listener of the step", "DebugRenderer.cpp: onContact")])

prop("C31", "Joints report the forces and torques that really acted",
 "After every step the reaction force of a joint times the time step is the linear impulse its second body received from it, and the opposite of what the first body received; the reaction torque together with the moment of that force at the anchor is the angular impulse. This includes limits, cones and motors, whatever was switched on or off before; the forces of several joints on a body add up to its change of momentum; and the forces scale with the inverse of the time step. A motor or limit leaves the total linear and angular momentum of the two bodies unchanged.",
 ["inputs", "histories"], "all velocities on a grid, every kind of joint, configurations of limits and motors changed between steps",
 "Tests do not call these functions.",
 ["src/constraint/BallAndSocketJoint.cpp", "src/constraint/HingeJoint.cpp", "src/constraint/SliderJoint.cpp", "src/constraint/FixedJoint.cpp", "src/systems/SolveSliderJointSystem.cpp", "src/systems/SolveHingeJointSystem.cpp", "src/systems/SolveBallAndSocketJointSystem.cpp", "src/systems/SolveFixedJointSystem.cpp"],
 [("reaction force of a slider", "SliderJoint.cpp: getReactionForce"),
  ("reaction torque of a hinge", "HingeJoint.cpp: getReactionTorque"),
  ("accumulated impulses and axes survive position correction", "SolveSliderJointSystem.cpp: solvePositionConstraint")])

prop("C32", "Settings of worlds, bodies, colliders and joints are kept, separate and effective",
 "What a user sets on a world, body, collider or joint, at creation or later, reads back unchanged and stays so until it is set again, whatever else happens: other objects being created, changed or destroyed, type, activity and sleep changes, colliders being added or removed, and simulation steps; setting one thing changes nothing else, on no other object and in no other world (a collider being a trigger excludes it from simulation contacts and the reverse). "
 "New bodies, colliders and joints start with the documented values or those of their world's settings or joint description. Settings given to a world take effect: bodies bounce with the larger bounciness of the two materials exactly above the world's velocity threshold, and the solvers run only when they have iterations.",
 ["inputs", "histories", "configurations"], "all setters with any values in their ranges, all short histories of other operations",
 "Tests set and read a value or two on one object right after creation.",
 ["src/body/Body.cpp", "src/body/RigidBody.cpp", "src/collision/Collider.cpp", "include/reactphysics3d/engine/Material.h", "src/engine/PhysicsWorld.cpp", "src/constraint/HingeJoint.cpp", "src/constraint/SliderJoint.cpp", "src/constraint/BallAndSocketJoint.cpp", "src/systems/ContactSolverSystem.cpp"],
 [("settings of the world", "PhysicsWorld.h: WorldSettings"),
  ("trigger and simulation flags exclude each other", "Collider.cpp: setIsTrigger, setIsSimulationCollider"),
  ("restitution above the threshold", "ContactSolverSystem.cpp: initializeForIsland")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
