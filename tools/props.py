# Source of properties.jsonl. Run tools/gen.py after editing.
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Containers behave like their mathematical models",
 "Any sequence of operations on Array, Deque, Stack, Map, Set and LinkedList leaves the container with exactly the content, order, size and lookup results of the ideal sequence, double-ended queue, stack, dictionary, set or list; copies, moves and comparisons behave as value semantics require. Every element constructed is destroyed exactly once and all memory goes back to the allocator.",
 ["histories", "inputs"], "all sequences of public container operations, for trivially-copyable and for owning element types, with arbitrary (also colliding) keys",
 "The container tests run a few short fixed sequences; rehash with removed entries in between, ring-buffer wrap during growth or reuse after clear are reached only by particular histories.",
 ["include/reactphysics3d/containers/Array.h", "include/reactphysics3d/containers/Deque.h", "include/reactphysics3d/containers/Map.h", "include/reactphysics3d/containers/Set.h", "include/reactphysics3d/containers/Stack.h", "include/reactphysics3d/containers/LinkedList.h"],
 [("bucketed open hash with free list", "Map.h / Set.h add, remove, reserve"), ("chunked ring with virtual indices", "Deque.h"), ("reserve/add/removeAt", "Array.h")],
 ["container contents, size(), iterators, operator==", "the MemoryAllocator passed in", "element constructor and destructor counts"])

prop("C02", "Memory allocators hand out aligned, disjoint, stable blocks",
 "Every block obtained from the pool, heap and single-frame allocators is 16-byte aligned, at least as large as asked for, overlaps no other live block, and keeps its content until it is released (or the frame is reset), whatever the order and sizes of allocations and releases. Everything an allocator, or a PhysicsCommon with all its worlds, shapes and meshes, took from the base allocator is given back with the same sizes when it is destroyed.",
 ["histories"], "all interleavings of allocate / release / reset with arbitrary sizes, and all API histories that end with destruction of the PhysicsCommon",
 "No existing test targets the allocators; corruption from a bad split/merge or size class appears only for particular sequences of sizes and releases.",
 ["src/memory/PoolAllocator.cpp", "src/memory/HeapAllocator.cpp", "src/memory/SingleFrameAllocator.cpp", "include/reactphysics3d/memory/MemoryAllocator.h", "src/engine/PhysicsCommon.cpp"],
 [("size classes and free lists", "PoolAllocator::allocate/release"), ("split and merge of memory units", "HeapAllocator"), ("bump pointer with overflow flag", "SingleFrameAllocator")],
 ["returned pointers", "block content", "calls made to a user-supplied base MemoryAllocator"])

prop("C03", "Linear algebra types obey the laws of linear algebra",
 "Vector, Matrix2x2, Matrix3x3, Quaternion and Transform operations agree with textbook linear algebra: matrix and quaternion forms of the same rotation act identically on every vector, products compose, inverses cancel, conversions round-trip, Euler and axis-angle construction give the documented rotation, and slerp or transform interpolation gives the endpoints at 0 and 1 and the constant-speed shortest rotation between.",
 ["inputs"], "all finite vectors, matrices (also near-singular), unit quaternions and transforms",
 "The math tests use a handful of hand-picked values; sign branches (matrix-to-quaternion, shortest arc) need specific regions of the rotation group.",
 ["include/reactphysics3d/mathematics/Vector2.h", "include/reactphysics3d/mathematics/Vector3.h", "include/reactphysics3d/mathematics/Matrix2x2.h", "include/reactphysics3d/mathematics/Matrix3x3.h", "include/reactphysics3d/mathematics/Quaternion.h", "src/mathematics/Quaternion.cpp", "include/reactphysics3d/mathematics/Transform.h"],
 [("branches on the largest diagonal element", "Quaternion(const Matrix3x3&)"), ("slerp", "Quaternion::slerp"), ("inverse by cofactors", "Matrix3x3::getInverse")],
 ["values returned by the public math API"])

prop("C04", "Geometric helper functions return the true geometric answer",
 "The closest point on a segment, the closest points of two segments, barycentric coordinates, plane-segment intersection, point-line and point-plane distance, projection on a plane, and clipping of a segment or convex polygon by planes return the true Euclidean answer for every input inside their domain, including degenerate and parallel ones.",
 ["inputs"], "all points, segments, triangles and planes, including parallel, touching and degenerate configurations",
 "The unit tests check fixed examples; the clamping branches of segment/segment distance and the in/out cases of clipping are a case split over the whole input space.",
 ["include/reactphysics3d/mathematics/mathematics_functions.h"],
 [("clamping case split", "computeClosestPointBetweenTwoSegments"), ("Sutherland-Hodgman step", "clipPolygonWithPlane")],
 ["values returned by the public helper functions"])

prop("C05", "AABB tree answers every query completely after any history",
 "After any sequence of insertions, removals and moves, the dynamic AABB tree reports for a query box, a set of moved objects or a ray every stored object whose box is touched, reports no object that was removed, gives back the stored user data, and each stored (fat) box still contains the last box given for that object. AABB operations (merge, contain, overlap, volume, ray test, scale, transform) agree with interval arithmetic.",
 ["histories", "inputs"], "all histories of addObject/removeObject/updateObject, all query boxes and rays",
 "The tree tests build one tree of four boxes; a stale ancestor box or a rotation error hides an object only after particular insert/remove/move orders.",
 ["src/collision/broadphase/DynamicAABBTree.cpp", "include/reactphysics3d/collision/shapes/AABB.h"],
 [("balance rotations and AABB refit", "DynamicAABBTree::balanceSubTreeAtNode / insertLeafNode / removeLeafNode"), ("fat AABB", "DynamicAABBTree::updateObject")],
 ["ids reported by the tree queries", "getFatAABB, getRootAABB, getNodeDataInt"])

prop("C06", "Reported bounds always enclose the shape",
 "At every moment of any history (creating bodies, adding and moving colliders, moving bodies, resizing or rescaling shapes, stepping the simulation) the world AABB of a collider and of its body, and the local bounds of its shape, contain every point of the shape placed at its current transform, and the AABB of a box, sphere, capsule or mesh is no larger than the transformed local bounds. Box overlap tests against bodies and colliders answer from these bounds.",
 ["histories", "inputs"], "all shapes, sizes, scales and transforms, and all histories of setters and steps",
 "Tests check a few shapes at fixed transforms; staleness after a setter or a step depends on the history.",
 ["src/collision/shapes/CollisionShape.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp", "src/collision/shapes/SphereShape.cpp", "src/collision/shapes/BoxShape.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/ConvexMeshShape.cpp", "src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp"],
 [("local bounds and transformed AABB", "getLocalBounds / computeTransformedAABB"), ("local to world transform cache", "ColliderComponents")],
 ["Collider::getWorldAABB, Body::getAABB, PhysicsWorld::getWorldAABB, CollisionShape::getLocalBounds, testAABBOverlap"])

prop("C07", "Point-inside tests match the geometry of the shape",
 "Collider::testPointInside and Body::testPointInside return true exactly for world points inside a convex collider's solid (sphere, box, capsule, convex mesh with any scale) at its current transform, false for points outside, and false for concave shapes; a body contains a point when one of its colliders does.",
 ["inputs", "histories"], "all convex shapes, sizes, scales, transforms and points not within rounding distance of the surface, also after resizing and moving",
 "Tests probe a few fixed points of fixed shapes at one transform with scale 1.",
 ["src/collision/Collider.cpp", "src/body/Body.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/ConvexMeshShape.cpp", "include/reactphysics3d/collision/shapes/BoxShape.h", "include/reactphysics3d/collision/shapes/SphereShape.h"],
 [("testPointInside", "each shape")], ["Collider::testPointInside", "Body::testPointInside"])

prop("C08", "Ray casts return the true first hit of a shape",
 "Casting a ray against a collider or body of any shape reports a hit exactly when the segment up to its maximum fraction enters the surface from outside (for triangle meshes and height fields: from a side the raycast side setting allows), with the smallest hit fraction, the world hit point on the surface at that fraction, and the outward unit surface normal there.",
 ["inputs", "histories"], "all rays (including axis-parallel, short, starting inside, clipped by maxFraction), all shapes, scales and transforms outside rounding distance of grazing",
 "Raycast tests use one instance per shape and rays towards the middle of faces; grid traversal, end caps and scaled shapes are sampled at a few points.",
 ["src/collision/shapes/SphereShape.cpp", "src/collision/shapes/BoxShape.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/ConvexMeshShape.cpp", "src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp", "src/collision/HeightField.cpp", "src/collision/shapes/TriangleShape.cpp", "src/collision/Collider.cpp", "src/body/Body.cpp"],
 [("per-shape raycast", "raycast()"), ("grid traversal", "HeightField::raycast"), ("tree traversal", "DynamicAABBTree::raycast")],
 ["RaycastInfo from Collider::raycast and Body::raycast"])

prop("C09", "World ray casts visit every hit and obey the callback",
 "PhysicsWorld::raycast calls the callback for exactly the active world-query colliders whose category matches the mask and that the ray hits, with the same hit data as casting against that collider alone; returning 0 stops, 1 continues, a fraction clips the ray to it, and a negative value ignores the collider, so that returning the hit fraction always yields the closest hit. This holds after any history of adding, removing, moving, (de)activating and reconfiguring bodies and colliders.",
 ["histories", "inputs"], "all worlds, histories, rays, masks and callback policies",
 "Tests cast at single bodies that never change; dropped hits depend on tree state, order of visits and clipping.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/systems/BroadPhaseSystem.cpp", "src/collision/RaycastInfo.cpp", "src/collision/broadphase/DynamicAABBTree.cpp"],
 [("max fraction clipping protocol", "DynamicAABBTree::raycast, RaycastTest::raycastAgainstShape"), ("category and query filter", "BroadPhaseRaycastCallback")],
 ["calls to RaycastCallback::notifyRaycastHit"])

prop("C10", "Overlap of convex shapes is decided correctly",
 "For any two convex colliders (sphere, capsule, box, convex mesh, with any size, scale and relative placement) the overlap query reports overlap exactly when the two solids intersect and the collision query reports contact points exactly when it reports overlap; the answer does not depend on the order of the bodies nor on moving both by the same rigid motion.",
 ["inputs"], "all pairs of convex shapes and placements outside rounding distance of touching, symmetric swap and common rigid motions",
 "The queries tests use a few placements per shape pair; GJK/SAT case analysis (vertex, edge and face regions, parallel axes, deep penetration) spans the whole configuration space.",
 ["src/collision/narrowphase/GJK/GJKAlgorithm.cpp", "src/collision/narrowphase/GJK/VoronoiSimplex.cpp", "src/collision/narrowphase/SAT/SATAlgorithm.cpp", "src/collision/narrowphase/SphereVsSphereAlgorithm.cpp", "src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp", "src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp", "src/collision/narrowphase/SphereVsConvexPolyhedronAlgorithm.cpp", "src/collision/narrowphase/CapsuleVsConvexPolyhedronAlgorithm.cpp", "src/collision/narrowphase/ConvexPolyhedronVsConvexPolyhedronAlgorithm.cpp", "src/collision/narrowphase/CollisionDispatch.cpp"],
 [("shallow/deep split GJK then SAT", "narrowphase algorithms"), ("algorithm dispatch and shape swapping", "CollisionDispatch")],
 ["PhysicsWorld::testOverlap", "PhysicsWorld::testCollision"])

prop("C11", "Meshes and height fields collide through all their triangles",
 "A convex collider overlaps a concave mesh or height field of any scale and placement exactly when the solid intersects at least one of its triangles, the collision query then reports contact points on that geometry; each contact lies on the mesh, with a unit normal and the two positions the depth apart along it.",
 ["inputs"], "all triangle meshes, height fields, scales, placements and convex shapes outside rounding distance of touching",
 "Tests place shapes at a few spots of one mesh and one flat field; a missed cell or triangle needs a specific spot, scale or border.",
 ["src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp", "src/collision/HeightField.cpp", "src/collision/TriangleMesh.cpp", "src/systems/CollisionDetectionSystem.cpp"],
 [("triangle middle phase", "computeConvexVsConcaveMiddlePhase, computeOverlappingTriangles")],
 ["PhysicsWorld::testOverlap / testCollision"])

prop("C12", "Contact points describe the real penetration",
 "Every contact point reported by the collision query has a unit normal pointing from the first to the second collider and a positive depth no larger than the real overlap of the solids along that normal; the normal is a direction of (nearly) least overlap; the two positions lie on the two surfaces and are the depth apart along the normal. For spheres and capsules the deepest contact has the full overlap as its depth, so that moving the bodies apart by it separates them. Tolerances: a face axis may be preferred by 0.2% + 0.5 mm and points closer than 1 cm are merged.",
 ["inputs"], "all overlapping pairs of convex shapes and placements",
 "Tests compare contact points for a few hand-computed placements.",
 ["src/collision/narrowphase/SAT/SATAlgorithm.cpp", "src/collision/narrowphase/GJK/GJKAlgorithm.cpp", "src/collision/narrowphase/SphereVsSphereAlgorithm.cpp", "src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp", "src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/collision/CollisionCallback.cpp"],
 [("minimum penetration axis", "SATAlgorithm"), ("contact clipping", "SATAlgorithm::computePolyhedronVsPolyhedronFaceContactPoints"), ("manifold reduction", "CollisionDetectionSystem::reduceContactPoints")],
 ["CollisionCallback::ContactPoint data"])

prop("C13", "All overlap and collision queries agree, at any moment of a history",
 "At any moment of any history (motion, sleeping, type changes, activation, collider changes, joints), the pair, one-body and whole-world forms of the overlap and collision queries report the same set of collider pairs: those of different active bodies (also static or sleeping ones) whose colliders are both world-query colliders, whose filters accept each other, whose bodies are not linked by a joint that disables collision, that are not both concave, and that currently intersect. Overlap queries include triggers; collision queries leave pairs with a trigger out.",
 ["histories"], "all histories of setters, steps and structural changes, all query forms",
 "Tests call queries on freshly created scenes; stale pairs, disabled pairs and filters show only after a history.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "src/systems/BroadPhaseSystem.cpp", "src/engine/PhysicsWorld.cpp"],
 [("overlapping pair cache and its disabled twin", "OverlappingPairs"), ("snapshot middle phase", "CollisionDetectionSystem::computeMiddlePhaseCollisionSnapshot"), ("pair filtering", "filterOverlappingPairs")],
 ["callbacks and return values of testOverlap / testCollision"])

prop("C14", "Contact and trigger events follow the begin-stay-end protocol",
 "Over any history, for each collider pair an event listener sees a well-formed sequence: a start when the pair begins touching, stays on every following update, and an exit when it stops, never two starts without an exit, never a stay or exit without a start, and exactly one event per update per touching pair of which at least one body is awake and not static (a pair that disappears because a collider is removed or its body deactivated owes no exit). Events agree with the geometry at the start of the update, queries between updates do not change them, contact and trigger pairs are reported through their own callbacks only, contact pairs carry their contact points, and only living colliders are named.",
 ["histories"], "all histories of motion, forces, teleports, sleeping and property changes; both contact and trigger pairs",
 "No existing test installs an event listener; the protocol is a property of traces.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/collision/CollisionCallback.cpp", "src/collision/OverlapCallback.cpp", "src/engine/OverlappingPairs.cpp", "include/reactphysics3d/engine/EventListener.h"],
 [("collidingInPreviousFrame / collidingInCurrentFrame", "OverlappingPairs"), ("lost contact pairs", "computeLostContactPairs"), ("reporting", "reportContactsAndTriggers")],
 ["EventListener::onContact, EventListener::onTrigger"])

prop("C15", "Filters, triggers and flags decide who reacts to whom",
 "Two bodies exchange a collision response only if both are simulation colliders, neither is a trigger, their category/mask bits accept each other in both directions, they are not both non-dynamic, and no joint between them disables collision; otherwise each moves exactly as if the other were absent. Changing any of these settings at any time takes effect from the next update.",
 ["histories", "configurations"], "all combinations and mid-history changes of the settings, all shapes",
 "Existing tests cover static filter settings of queries only; no test runs the dynamics with filters or changes them during contact.",
 ["src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "src/collision/Collider.cpp", "src/engine/PhysicsWorld.cpp", "src/body/RigidBody.cpp"],
 [("broad-phase filter", "updateOverlappingPairs"), ("no-collision pairs of joints", "addNoCollisionPair / removeNoCollisionPair"), ("trigger and simulation flags", "Collider::setIsTrigger, setIsSimulationCollider")],
 ["positions and velocities of the bodies", "EventListener"])

prop("C16", "Unobstructed bodies move by the documented integration rules",
 "A dynamic body that touches nothing and has no joints follows the semi-implicit Euler rules: gravity (if enabled), accumulated forces and torques (local or world, at a local or world point) divided by mass and rotated inertia, damping, and axis locks change its velocities, which move its centre of mass and orientation; forces act for one update only. Static bodies never move by themselves, kinematic bodies move exactly with the velocity set (less their damping) whatever forces or gravity act, and a body with isGravityEnabled off ignores gravity.",
 ["inputs", "histories"], "all masses, inertia tensors, centres of mass, velocities, forces, dampings, locks, time steps and orders of setter calls",
 "The rigid body tests check setters and mass properties; no test compares a trajectory with the equations of motion.",
 ["src/systems/DynamicsSystem.cpp", "src/body/RigidBody.cpp", "src/engine/PhysicsWorld.cpp"],
 [("velocity and position integration", "DynamicsSystem"), ("world inertia update", "updateBodiesInverseWorldInertiaTensors"), ("force accumulation", "RigidBody::apply*")],
 ["RigidBody transform, velocities, getForce, getTorque"])

prop("C17", "Mass properties follow from the colliders",
 "Volumes and local inertia tensors of spheres, capsules and boxes are those of the solid, a convex mesh has the volume of the polyhedron and the inertia of its bounding box, a concave shape the volume of its bounding box, all at the current size and scale; and updating mass, centre of mass and inertia from colliders gives the sum of density times volume, the mass-weighted centre, and the inertia by the parallel-axis theorem about the centre of mass, for every set of colliders; the velocities and world position stay consistent when the centre of mass moves. Mass and inertia set by hand are kept and used as given.",
 ["inputs", "histories"], "all sets of colliders, local transforms, densities, scales and orders of calls",
 "The rigid body tests check two or three colliders with fixed numbers.",
 ["src/body/RigidBody.cpp", "src/collision/ConvexMesh.cpp", "src/collision/shapes/CapsuleShape.cpp", "src/collision/shapes/BoxShape.cpp", "include/reactphysics3d/collision/shapes/ConvexMeshShape.h", "include/reactphysics3d/collision/shapes/SphereShape.h"],
 [("sum over colliders", "RigidBody::computeMassAndInertiaTensorLocal, computeCenterOfMass"), ("volume", "ConvexMesh::computeVolume")],
 ["getMass, getLocalCenterOfMass, getLocalInertiaTensor, getVolume, getLocalInertiaTensor(mass)"])

prop("C18", "Collisions conserve momentum and obey restitution and friction",
 "In a collision between dynamic bodies the total linear momentum changes only by gravity and the angular momentum not at all (up to the distance of the two points of a contact), and the system's centre of mass moves with its velocity. With enough solver iterations, every contact point ends non-approaching, or separating with the larger of the two bounciness values times the approach speed where that is above the velocity threshold, and no contact pulls or pushes further than that; friction (coefficient: geometric mean) never exceeds coefficient times normal impulse per direction and about the normal, never pushes along the sliding, and stops the sliding and spinning wherever it is not exhausted; without rebound no kinetic energy is gained. Static and kinematic bodies are not affected by contacts, and no velocity changes without a contact.",
 ["inputs", "histories"], "all masses, shapes, velocities, materials and impact geometries",
 "No existing test checks the result of the contact solver.",
 ["src/systems/ContactSolverSystem.cpp", "src/systems/DynamicsSystem.cpp", "src/engine/PhysicsWorld.cpp"],
 [("sequential impulses with accumulated clamping", "ContactSolverSystem::solve"), ("material mixing", "computeMixedRestitutionFactor, computeMixedFrictionCoefficient")],
 ["body velocities and positions before and after update"])

prop("C19", "Joints keep their degrees of freedom removed",
 "Under any forces, velocities and gravity within the solver's reach, bodies linked by a ball-and-socket, hinge, slider or fixed joint keep the anchors together and move relative to each other only along the joint's free degrees of freedom, whichever constructor (world or local anchors) created the joint and whichever body comes first; internal joint forces leave total momentum unchanged, and the reaction force and torque a joint reports are those that acted.",
 ["inputs", "histories"], "all joint types, anchors, axes, body placements, masses, orders of bodies and velocities",
 "No existing test creates a joint.",
 ["src/systems/SolveBallAndSocketJointSystem.cpp", "src/systems/SolveHingeJointSystem.cpp", "src/systems/SolveSliderJointSystem.cpp", "src/systems/SolveFixedJointSystem.cpp", "src/systems/ConstraintSolverSystem.cpp", "src/engine/PhysicsWorld.cpp", "src/constraint/Joint.cpp"],
 [("velocity constraints with warm starting", "Solve*JointSystem::solveVelocityConstraint"), ("position correction", "solvePositionConstraint")],
 ["body transforms and velocities"])

prop("C20", "Joint limits and motors act as documented",
 "An enabled hinge, slider or cone limit keeps the joint coordinate inside [min, max] up to solver tolerance, an enabled motor drives the joint to its speed without exceeding its maximum force or torque, disabled ones have no effect, the reported angle or translation is the true joint coordinate, and settings changed at any time take effect and are read back unchanged.",
 ["inputs", "histories"], "all limits, motor settings, speeds, joint geometries and mid-history changes",
 "No existing test creates a joint.",
 ["src/systems/SolveHingeJointSystem.cpp", "src/systems/SolveSliderJointSystem.cpp", "src/systems/SolveBallAndSocketJointSystem.cpp", "src/constraint/HingeJoint.cpp", "src/constraint/SliderJoint.cpp", "src/constraint/BallAndSocketJoint.cpp"],
 [("limit and motor rows with clamped impulses", "Solve*JointSystem")],
 ["getAngle, getTranslation, getMotorTorque, getMotorForce, body transforms"])

prop("C21", "Sleeping is invisible except for saving work",
 "A body falls asleep only when sleeping is enabled and allowed and it and all bodies it is linked to by contacts and joints have stayed below the velocity thresholds for the configured time; a sleeping body has zero velocity and does not move until something wakes it. When a whole group of linked bodies has been slow for that long, it does fall asleep. Forces, non-zero velocities or transform changes, an awake body it is linked to, destruction of a support, and changing or destroying one of its joints wake it, and after that it behaves as an awake body.",
 ["histories"], "all histories of stacks, chains, wake-up causes and threshold settings",
 "No existing test lets a body fall asleep.",
 ["src/engine/PhysicsWorld.cpp", "src/body/RigidBody.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp"],
 [("island sleep timer", "PhysicsWorld::updateSleepingBodies"), ("wake propagation", "RigidBody::setIsSleeping, awakeNeighborDisabledBodies, createIslands")],
 ["isSleeping, transforms, velocities"])

prop("C22", "Identical worlds evolve identically",
 "Two worlds built by the same calls in the same order, in the same or different PhysicsCommon instances, with any garbage in freshly allocated memory and any other worlds alive, have bit-identical body states, events and query results after any identical history; ray casts, point tests and getters called between updates do not change the evolution.",
 ["histories"], "all histories executed twice, with different memory content and interleaved read-only queries",
 "No existing test compares two runs.",
 ["src/engine/PhysicsWorld.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/engine/OverlappingPairs.cpp", "include/reactphysics3d/containers/Set.h", "include/reactphysics3d/containers/Map.h"],
 [("ordered containers and index-based iteration", "OverlappingPairs, Islands, Components")],
 ["body transforms and velocities, event sequences, query results"])

prop("C23", "Any legal API history is memory-safe and keeps the registries right",
 "After any legal sequence of creating, changing, stepping, querying and destroying worlds, bodies, colliders, shapes, meshes and joints, the library does not crash, trip an internal assertion or touch memory it does not own, the world lists exactly the living bodies, each body exactly its colliders in order, destroying a body destroys its joints and colliders only, and everything is released at the end.",
 ["histories"], "all legal API call sequences",
 "Tests create scenes and destroy them in one fixed order; component swaps on removal and pair clean-up depend on the order of operations.",
 ["src/engine/PhysicsWorld.cpp", "src/engine/PhysicsCommon.cpp", "src/components/Components.cpp", "src/components/ColliderComponents.cpp", "src/components/RigidBodyComponents.cpp", "src/components/JointComponents.cpp", "src/engine/OverlappingPairs.cpp", "src/body/Body.cpp"],
 [("dense component arrays with swap-removal", "src/components"), ("entity to index maps", "Components::mMapEntityToComponentIndex")],
 ["getNbRigidBodies/getRigidBody, getNbColliders/getCollider, sanitizer reports, base allocator"])

prop("C24", "Settings of one object never leak into another",
 "Every value set on a body, collider, material, joint, shape or world is returned unchanged by its getter until it is set again, whatever other objects are created, changed, slept, deactivated or destroyed in between, and objects start with the documented defaults and the world's settings.",
 ["histories"], "all interleavings of setters on one object with operations on others",
 "Tests set and read back on a single object; mix-ups occur when component storage is reordered by other objects' life cycle.",
 ["src/components/RigidBodyComponents.cpp", "src/components/ColliderComponents.cpp", "src/components/BodyComponents.cpp", "src/components/TransformComponents.cpp", "src/components/HingeJointComponents.cpp", "src/components/SliderJointComponents.cpp", "src/components/BallAndSocketJointComponents.cpp", "src/components/FixedJointComponents.cpp", "src/components/JointComponents.cpp"],
 [("moveComponentToIndex / swapComponents / destroyComponent", "src/components/*.cpp")],
 ["getters of RigidBody, Collider, Material, Joint classes, shapes and PhysicsWorld"])

prop("C25", "Convex mesh creation yields the convex hull or rejects cleanly",
 "Creating a convex mesh from well spread points (not within rounding of flat) gives a closed, consistently oriented polyhedron with outward unit face normals whose solid contains all input points and whose vertices are input points; creating it from faces keeps the given vertices and faces. Volume, centroid and bounds are those of the polyhedron, the result does not depend on vertex data type or stride, and invalid or degenerate input gives null plus an error message instead of a crash.",
 ["inputs"], "all point clouds (random, clustered, duplicated, coplanar, tiny), polyhedra, strides and data types",
 "QuickHull and ConvexMesh tests use a few fixed clouds; hull merging depends on near-coplanar configurations.",
 ["src/utils/quickhull/QuickHull.cpp", "src/utils/quickhull/QHHalfEdgeStructure.cpp", "src/collision/ConvexMesh.cpp", "src/collision/HalfEdgeStructure.cpp", "src/collision/PolygonVertexArray.cpp", "src/collision/VertexArray.cpp"],
 [("incremental hull with face merging", "QuickHull"), ("half-edge construction", "HalfEdgeStructure::computeHalfEdges")],
 ["ConvexMesh vertices, faces, half-edges, normals, volume, bounds; returned messages"])

prop("C26", "Triangle meshes and height fields represent the data given",
 "A triangle mesh keeps every non-degenerate triangle with its vertices and order, drops degenerate ones with a warning, uses given or angle-weighted unit vertex normals (where the weighted face normals do not cancel), and rejects out-of-range indices and meshes without triangles with an error; a height field has its samples at grid points centred on its bounding box. Vertices, normals and bounds of shapes built on them follow the scale, and the data type or stride of the source arrays makes no difference.",
 ["inputs"], "all vertex and index arrays, data types, strides, degenerate and unused elements, scales and height grids",
 "Tests build one mesh and one field; unused vertices, degenerate faces and obtuse triangles are sampled at a few points.",
 ["src/collision/TriangleMesh.cpp", "src/collision/TriangleVertexArray.cpp", "src/collision/HeightField.cpp", "src/collision/shapes/ConcaveMeshShape.cpp", "src/collision/shapes/HeightFieldShape.cpp"],
 [("copy and validation", "TriangleMesh::copyData, removeUnusedVertices"), ("normals", "computeVerticesNormals, computeScaledVerticesNormals")],
 ["TriangleMesh and HeightField getters, shape getters, returned messages"])

prop("C27", "Bodies come to rest on supports without sinking or jumping",
 "Bodies made of spheres, capsules, boxes or convex meshes dropped from a small height on a static box, and (except convex meshes) on a plane triangle mesh or height field, as well as piles of up to four boxes of similar masses, come to rest at a place the geometry allows: they never fall through, penetration stays within tolerance, they do not gain energy, boxes keep their place in the pile, and a body that has come to rest has its centre of mass above its base. This holds with both contact position correction techniques, with and without sleeping, for every direction of gravity.",
 ["inputs", "histories"], "all shapes, sizes, masses, materials, support types and stackings within the stated ratios",
 "helloworld runs one falling sphere; no test checks resting contact.",
 ["src/systems/ContactSolverSystem.cpp", "src/systems/CollisionDetectionSystem.cpp", "src/systems/DynamicsSystem.cpp", "src/engine/PhysicsWorld.cpp"],
 [("persistent manifolds and warm starting", "initContactsWithPreviousOnes"), ("penetration correction", "ContactSolverSystem (Baumgarte / split impulses)")],
 ["body transforms over time"])

prop("C28", "Debug renderer draws the actual scene",
 "After each update with debug rendering enabled, the debug renderer's lines and triangles are exactly those of the selected items: for the active bodies with debugging enabled their collider shapes at the current world placement (vertices on the surface, the whole surface covered), shape normals, collider AABBs and broad-phase AABBs; and, for the whole world, the points and normals of the contacts reported in that update. Nothing else is drawn, updates with debug rendering disabled leave the primitives untouched, and a reset removes them all.",
 ["histories", "configurations"], "all scenes, item selections and enable/disable histories",
 "No existing test uses the debug renderer.",
 ["src/utils/DebugRenderer.cpp", "src/engine/PhysicsWorld.cpp"],
 [("primitive generation", "DebugRenderer::computeDebugRenderingPrimitives")],
 ["getLines, getTriangles, getNbLines, getNbTriangles"])
