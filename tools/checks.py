# What each check builds and runs: (variant, harness source). Variants are defined in check.py.
import json, os
CHECKS = {
    "C01": dict(run=[("asan", "c01_containers.cpp")],
        technique="stateful property-based testing against std:: container models, under ASan/UBSan",
        note="Generated operation histories on every container, compared with an ideal model after each step; counts constructions, destructions and allocator traffic. Trusts the std:: models; keys have colliding and plain hashes. Undocumented uses are not generated: adding a reference into the container's own buffer, addRange of itself, non-relocatable elements."),
    "C02": dict(run=[("asan", "c02_allocators.cpp")],
        technique="stateful property-based testing of allocator histories against a shadow map of live blocks; API histories on a checking base allocator",
        note="Generated allocate/release/reset interleavings with content stamps, overlap, alignment and containment checks; the base allocator checks sizes and double releases and must be empty at the end."),
    "C03": dict(run=[("dbl", "c03_linear.cpp"), ("sgl", "c03_linear.cpp")],
        technique='property-based testing against long double linear algebra',
        note='Random and boundary-biased vectors, matrices, quaternions and transforms; results compared with textbook formulas in extended precision. Division is only tested by positive numbers (asserted precondition).'),
    "C04": dict(run=[("dbl", "c04_geometry.cpp"), ("sgl", "c04_geometry.cpp")],
        technique='property-based testing against extended-precision geometry and completeness predicates',
        note='Random, degenerate and nearly parallel configurations; distances are compared with closed forms, clipping with interval and Sutherland-Hodgman references in long double. Near-parallel comparison tolerance 2e-6 (double).'),
    "C05": dict(run=[("dbl", "c05_tree.cpp"), ("sgl", "c05_tree.cpp")],
        technique='stateful property-based testing of the tree against a brute-force list of boxes; interval arithmetic for AABBs',
        note='Generated add/remove/update/reset histories with box, shape and ray queries in between; brute force decides what must and must not be reported. Rays closer than 1e-9 (double) to grazing a box are not decided.'),
    "C06": dict(run=[("dbl", "c06_bounds.cpp"), ("sgl", "c06_bounds.cpp")],
        technique='stateful property-based testing against brute-force enclosures',
        note='Every vertex (plus radius) of every collider is placed by an independent transform composition and compared with the reported boxes after every operation of a generated history.'),
    "C07": dict(run=[("dbl", "c07_inside.cpp"), ("sgl", "c07_inside.cpp")],
        technique='property-based testing against signed distances of reference solids',
        note='Points are generated close to and far from surfaces after generated moves and resizes; points within 1e-9 (double) relative distance of a surface are not decided.'),
    "C08": dict(run=[("dbl", "c08_raycast.cpp"), ("sgl", "c08_raycast.cpp")],
        technique='property-based testing against analytic ray casts on reference geometry',
        note='Half-space clipping, quadratics and per-triangle casts decide hit or miss, fraction, point and normal; configurations within 1e-8 (double) relative distance of grazing, or at edges, are not decided.'),
    "C09": dict(run=[("dbl", "c09_worldray.cpp"), ("sgl", "c09_worldray.cpp")],
        technique='stateful property-based testing against brute-force casts on every collider, with modelled callback protocol',
        note='After a generated history the set, data and order constraints of all callback calls are compared with casting the ray against each collider alone (which C08 checks against reference geometry); hits closer than 1e-9 to the clipping fraction are not decided.'),
    "C10": dict(run=[("dbl", "c10_overlap.cpp"), ("sgl", "c10_overlap.cpp")],
        technique='property-based testing against exact separating-axis / nearest-feature distances; metamorphic swap and rigid motion',
        note='The signed separation of the two reference solids is computed by brute force over all face and edge axes and all feature pairs; every query form, both argument orders and a common rigid motion must agree with its sign. Separations within 1e-7 (double) of the sizes are not decided.'),
    "C11": dict(run=[("dbl", "c11_concave.cpp"), ("sgl", "c11_concave.cpp")],
        technique='property-based testing against triangle-by-triangle separating-axis / nearest-feature distances',
        note='A random convex shape is placed near a random triangle of a random mesh or height field, then shifted to a small signed distance; every query form must agree with the sign of the least separation over all triangles, and each reported contact must lie on the mesh, with depth and normal consistent. Separations within 1e-7 (double) of the sizes are not decided. Triangle enumeration itself is not public: it is covered through the queries.'),
    "C12": dict(run=[("dbl", "c12_contacts.cpp"), ("sgl", "c12_contacts.cpp")],
        technique='property-based testing against brute-force overlap of the reference solids along every reported normal',
        note='Normals, depths and points of the collision query on random overlapping pairs (touching to concentric) are compared with the exact overlap of the reference solids. Tolerances follow the documented bias of the library: a face is preferred when within 0.2% + 0.5 mm, points closer than 1 cm are merged, manifolds are reduced to four points. Single precision is checked more loosely.'),
    "C13": dict(run=[("dbl","c13_queries.cpp")],
        technique='stateful property-based testing of random scenes against brute-force reference separation of all collider pairs, differential between all query forms',
        note='After every few operations of a generated history all pair, one-body and world forms of testOverlap and testCollision are compared with each other and with the signed separation of the reference solids at the current transforms. Separations within 1e-7 of the sizes are not decided.'),
    "C14": dict(run=[("dbl","c14_events.cpp"),("sgl","c14_events.cpp")],
        technique='stateful property-based testing against a per-pair touch automaton driven by reference geometry',
        note='Every event of every update of a generated history is compared with an automaton per collider pair and the signed separation of the reference solids at the start of the update. Pairs dropped because a collider is removed or deactivated owe no exit event; a pair of two sleeping or static bodies reports nothing. Histories whose joints diverge after a far teleport end early (counted as discarded).'),
    "C15": dict(run=[("dbl","c15_response.cpp"),("sgl","c15_response.cpp")],
        technique='stateful property-based testing against a reference integrator and reference geometry; differential against the same world without colliders',
        note='Before every update of a generated history the filters, flags, types, joints and reference separations decide which bodies may react; others must follow the reference integrator to 1e-9 (double), and a body with one clear partner (overlap above 5 cm) must not. A second property compares pairs that may not react with the same bodies without colliders.'),
    "C16": dict(run=[("dbl","c16_free_motion.cpp"),("sgl","c16_free_motion.cpp")],
        technique='stateful property-based testing against a shadow model of forces, settings and semi-implicit Euler integration',
        note='After every operation all getters, and after every update velocities, placement and centre of mass of every body are compared with the shadow (1e-11 relative in double precision). The velocity after setTransform is taken as reported; sleeping is observed, not predicted (C21 decides it).'),
    "C17": dict(run=[("dbl","c17_mass.cpp"),("sgl","c17_mass.cpp")],
        technique='stateful property-based testing against sums over reference solids',
        note='Volumes by tetrahedra, capsule inertia by exact slice integration, parallel axes per collider; after every operation all mass properties are compared (1e-9 relative in double precision), and updates check that forces and torques meet exactly these. Only the diagonal of the tensor exists in the API. The velocity of a kinematic body in updateMassPropertiesFromColliders is not specified.'),
    "C25": dict(run=[("dbl","c25_convex_mesh.cpp"),("sgl","c25_convex_mesh.cpp"),("asan","c25_convex_mesh.cpp",0.2)],
        technique='property-based testing: closedness, orientation and containment invariants of generated hulls, round-trip of faces, differential over data layouts',
        note='Clouds have single precision coordinates (the hull stores its vertices so), a thickness of at least 5% (15% in single precision) of the size and points either equal within 3e-6 or clearly apart; nearly degenerate clouds between these and exactly flat ones are outside (normals of slivers are rounding noise there). Containment is judged within 1e-6 (double) of size plus offset.'),
    "C26": dict(run=[("dbl","c26_mesh_data.cpp"),("sgl","c26_mesh_data.cpp"),("asan","c26_mesh_data.cpp",0.25)],
        technique='property-based testing against reference rules for kept triangles, angle weighted normals and grid points; differential over data layouts',
        note='Coordinates, normals and heights are representable in single precision; triangles that are neither exactly flat nor clearly not are left out, as are vertices whose face normals cancel (no normal is defined there). Normals are compared within 1e-6 (double).'),
    "C22": dict(run=[("dbl","c22_determinism.cpp"),("sgl","c22_determinism.cpp")],
        technique='differential stateful property-based testing: the same history in two worlds, compared bit by bit',
        note='Two worlds with different memory content, addresses and neighbours are driven by one choice sequence; state, events and query results are compared exactly after every operation. Only ray casts, point tests and getters count as read-only (testOverlap and testCollision refresh narrow-phase caches and run on both worlds).'),
    "C23": dict(run=[("raw","c23_lifecycle.cpp"),("dbl","c23_lifecycle.cpp",2)],
        technique='stateful property-based testing of API histories under ASan/UBSan with a mirror of all registries and a checking base allocator',
        note='Histories of all operations over several worlds; the raw variant takes every library block directly from the base allocator (hook RP3D_VERIF_PLAIN_ALLOCATORS), so that ASan watches the bounds and life time of each; internal assertions are on. Functions are called within their documented preconditions.'),
    "C24": dict(run=[("dbl","c24_settings.cpp"),("sgl","c24_settings.cpp",0.5)],
        technique='stateful property-based testing against a shadow of every setting of every object',
        note='After each operation of a generated history all getters of all living bodies, colliders, materials, joints, shapes, worlds and debug renderers are compared exactly with the last values set or the documented defaults (friction within rounding: its square root is stored).'),
    "C21": dict(run=[("dbl","c21_sleeping.cpp"),("sgl","c21_sleeping.cpp",0.5)],
        technique='stateful property-based testing against a reference of links, waiting times and free motion',
        note='random worlds with sleeping, judged step by step'),
    "C28": dict(run=[("dbl","c28_debug.cpp"),("sgl","c28_debug.cpp",0.5)],
        technique='stateful property-based testing against reference geometry',
        note='Random scenes and item selections; all drawn lines and triangles are matched against reference shapes, AABBs and reported contacts'),
    "C18": dict(run=[("dbl", "c18_impact.cpp"), ("sgl", "c18_impact.cpp", 0.5)],
        technique='property-based testing: generated impacts and collision histories, impulses recovered from momentum changes checked against conservation, restitution and friction laws',
        note='impact: two bodies, one convex collider each, 2000-4000 iterations so that the solution is converged; impulses are recovered from the change of momentum and checked against restitution and friction laws (complementarity) at the reported contact points, also for persistent (warm-started) contacts. Cases where friction feeds back strongly into the normal direction (slow or no convergence) only get the conservation checks. system: up to six bodies with compound colliders and 1-20 iterations: linear momentum, centre of mass; angular momentum when the contacts form a forest. Concave shapes are covered by C11/C15/C27 only.'),
    "C19": dict(run=[("dbl", "c19_joints.cpp"), ("sgl", "c19_joints.cpp", 0.5)],
        technique='property-based testing of generated joint histories against the exact solution of the constraint equations',
        note='pair: two bodies, one joint, hundreds of solver iterations: velocities after each update must satisfy the constraint rows, differ from before only by impulses along these rows, equal the reported reaction force and torque (double), and the position correction must remove anchor and axis errors up to the drift of one update. system: trees of up to six bodies: momentum of every joint component and remaining errors. Pairs whose rows are nearly dependent (slow convergence) get looser or no convergence checks; a joint between an active and an inactive body is not specified.'),
    "C20": dict(run=[("dbl", "c20_limits.cpp"), ("sgl", "c20_limits.cpp", 0.5)],
        technique='property-based testing of generated joint histories against the complementarity conditions of limits and motors',
        note='The impulse along the free coordinate is recovered from the velocities before and after each update (constraint rows in reference arithmetic) and must satisfy the complementarity conditions of limit and motor; coordinate, reported coordinate, motor impulse, reaction and all settings are compared after each change. Straight cones, coordinates within 1e-7 (double) of a limit, and motors that fight a limit with far more than the solver reaches in 3000 sweeps are not decided.'),
    "C27": dict(run=[("dbl", "c27_resting.cpp"), ("sgl", "c27_resting.cpp", 0.5)],
        technique='property-based testing of generated drops and stacks against geometric and energy bounds',
        note='drop: one or two convex solids fall from up to 0.4 m on a flat static box, mesh or height field (convex meshes only on the box: triangles are two-sided and thin wedges get contacts on both sides); depth, energy, rest and support of the centre of mass are checked against reference geometry. stack: 2-4 boxes. Bodies with capsules may sag (capsules not exactly parallel to a face get one contact at a time), bodies that balance get up to 24 s to fall. Not covered: needle-like hulls, masses above a factor of 2, tall stacks (the iterative solver does not hold them still).'),
}
_k = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
KNOWN = [k for k in json.load(open(_k))["findings"] if k.get("status") == "known"] if os.path.exists(_k) else []
