# One entry per check; see DESIGN.md for what each harness decides.
NOT_APPLICABLE = {}
CHECKS = {
 "T0": dict(harness=["t0.cpp"]),
 "C01": dict(harness=["c01_allocators.cpp"], stub=False,
   bounds=dict(quick="every history of 5 (heap) / 4 (pool, single frame, mixed) allocate/release/reset operations after the prefills of the harness, request sizes from the size classes and their neighbours (1..1040, and larger than the heap's first block), base allocator with a ledger.",
               thorough="the same with 6 / 5 operations.")),
 "C02": dict(harness=["c02_containers.cpp"], reach=[("array_history", "array end"), ("map_empty", "map end"), ("set_empty", "set end"), ("deque_history", "deque end")],
   bounds=dict(quick="every history of 3 operations (2 next to a growth boundary; 4-5 for stack and list) over arrays, maps, sets, deques, stacks, lists, starting empty and prefilled to growth boundaries (15/16 entries), element values 0..9, keys colliding in one bucket; growth to 35 (array), 36 (map/set), 40 (deque) elements.",
               thorough="as quick with 4-5 operations per history, growth boundaries 14-16 and 30-33, up to 70 elements.")),
 "C06": dict(harness=["c06_components.cpp"], gen="gen_c06.py", reach=[(t + "_growth", "grown") for t in "transform body rigidbody collider joint ballsocket fixed hinge slider".split()],
   bounds=dict(quick="each of the component tables, 3 entities plus every history of 3 add/remove/enable/disable operations, all setter/getter pairs and all columns without accessors found in the current headers; the same with 15 or 16 entities first and 2 operations, so that the table grows past its initial capacity; values: per entity a symbolic 32-bit seed mixed into every field.",
               thorough="the same with 4 operations (3 for growth).")),
 "C04": dict(harness=["c04_tree.cpp"], reach=[("history_then_query", "end"), ("ray_queries", "several")],
   bounds=dict(quick="every history of 3 add/remove/update/forced update operations (2 after larger prefills, up to 9 objects so that the node array grows) over a palette of boxes, inflation 0 or 50%, followed by pair queries and a box query with corner on [-8,8]^3 and extent 0..3 (integers, symbolic); one object moved to a symbolic box; rays from every integer origin in [-3,3]^3 in 6 directions, 4 callback behaviours, segment points at multiples of 1/4.",
               thorough="4 operations, 3 boxes per choice, up to 9 boxes, 9 ray directions.")),
 "C05": dict(harness=["c05_entities.cpp"],
   bounds=dict(quick="every history of create/destroy operations of the length explored by the harness (see evidence), slot reuse with the minimum of free indices reached, all 32-bit identifiers for the packing of index and generation.", thorough="longer histories.")),
 "C03": dict(harness=["c03_aabb.cpp"], reach=[("ray_test", "hit"), ("ray_cast_point", "hit"), ("overlap_any_floats", "end")],
   bounds=dict(quick="overlap, merge, containment, point inflation: every finite 32-bit float coordinate; triangle bounds: every float on each axis; inflate/extent/centre/volume/scale/point containment: grid [-10,10] step 1/4; triangle overlap: integer grid [-3,3]; ray tests: boxes and origins on the integer grid [-3,3], directions over {0,1,-1}^3, fractions 0..2 step 1/2 (box ray cast 0..4).",
               thorough="ray tests on the grid [-4,4] step 1/2 with directions over {0,1,-1,2,-2,4}^3, fractions 0..8 step 1/2; triangle points at barycentric coordinates k/4.")),
 "C09": dict(harness=["c09_round.cpp"], tablebits=16, reach=[("sphere_sphere", "hit"), ("sphere_capsule", "miss"), ("capsule_capsule_exact", "hit"), ("capsule_capsule_tilted", "hit"), ("capsules_small", "hit")],
   bounds=dict(quick="two spheres: 3 radius pairs, both creation orders, 5 rotations, 2 world offsets, every offset on the grid [-8,7]^3/4; sphere-capsule and capsule-capsule: 3 size pairs, rotations by axis permutation and generic ones, every offset on grids of up to 1024 points (step 1/2, or 1/64 for centimetre sized capsules); tolerance 2e-4.",
               thorough="finer grids (up to 2^15 offsets) and more rotations.")),
 "C28": dict(harness=["c28_inside.cpp"], tablebits=16, reach=[("shapes", "in"), ("shapes", "out")],
   bounds=dict(quick="7 shapes (sphere, capsule, box, tetrahedron, octahedron, prism, pyramid) x 3 scalings/size variants x sizes 1 and 1/64 x 3 body rotations x 2 local placements, every point of a 16x16x8 grid (step 1/2 of the size) around the shape; bodies with two colliders out of 4x6 shapes, 3 body types, after teleport, local placement change and collider removal; points closer than 2e-5 (relative) to the surface are left open.",
               thorough="grid of half the step and sizes 1/64, 1 and 16.")),
 "C12": dict(harness=["c12_rays.cpp"], tablebits=16, reach=[("solids", "hit"), ("solids_scaled", "hit"), ("concave_mesh", "hit"), ("height_field", "hit")], quick=dict(budget=60),
   bounds=dict(quick="single-shape ray casts through the collider: 7 solid shapes x 3 scalings x 7 directions/lengths (maximum fractions 0.5, 1, 8) x 2 placements, shapes scaled by 1/32 and 32, a concave mesh of 6 triangles and 3 height fields (up to 5x4, float and integer heights, flat ones) with 2 scalings, 3 triangle sides and 8 directions; the origin is any point of a 16x8x16 grid of step 1/2; inside/clear decided at 17 points of the ray with tolerance 4e-4 of the size.",
               thorough="12 directions, 4 scalings, every combination of placement.")),
 "C27": dict(harness=["c27_math.cpp"], tablebits=16, reach=[],
   bounds=dict(quick="component-wise operations, comparisons, extremes, clamps: every finite 32-bit float / 32-bit int, powers of two: every 64-bit number; products, determinants, transposes, inverses: every 0/1 assignment of the entries around 3 base points (enough to decide multilinear identities), quaternions: all normalised quaternions with integer entries -4..3, Euler angles and slerp on grids; helper functions: segments, triangles, planes with one symbolic point on a 16x16x16 grid, several directions and scales.",
               thorough="the same with larger grids.")),
 "C14": dict(harness=["c14_free.cpp"], tablebits=16, reach=[("com_change", "end"), ("retyped", "end")],
   bounds=dict(quick="linear part: 20 combinations of 4 masses, 3 dampings, 5 locks, 3 time steps, centre of mass on/off, 4 gravity switch states, velocity and force any point of an 8x8x8 and a 16x16x16 grid, two steps; angular part: 20 combinations of 4 inertias, 20 orientations, 5 locks, 3 dampings, angular velocity or torque any point of a 16x16x8 grid; nine ways to apply forces with force and point on 4x4x4 grids; static/kinematic bodies with any force and velocity of 4x4x4 grids; four bodies of different properties in 4 creation orders with one of them static, asleep, inactive or destroyed; com_change: three ways to move the centre of mass of a dynamic or kinematic body (4 orientations, before and after a step, velocities on 8x8 and 8x4x4 grids); retyped: 5 masses between 1/128 and 131072 set before, while or after the body was static or kinematic, force and torque on 8x8 grids. Tolerance 4e-6 relative.",
               thorough="60 combinations each for linear and angular part.")),
 "C23": dict(harness=["c23_mass.cpp"], tablebits=16, reach=[],
   bounds=dict(quick="7 shapes x 5 sizes (also after resizing), mass k/16 up to 64; bodies with 1-3 colliders in 7 combinations of shapes, sizes and rotations, 5 ways to update, 3 body types, density of the first collider k/2 (0..3.5) and its position on an 8x8x4 grid; every sequence of 3 of 8 operations (type changes, user values, updates) followed by an impulse. Tolerance 2e-5 relative. Inertia is compared on the diagonal, convex meshes with the library's documented box formula.",
               thorough="21 combinations, all 8 operations in the third position.")),
 "C26": dict(harness=["c26_bounds.cpp"], tablebits=16, reach=[("history2", "end")],
   bounds=dict(quick="9 shapes (all types) x 3 sizes, created or resized, 6 rotations, position any point of a 16x16x16 grid (step 1/2); every history of 2 operations (teleport, rotation, resizing, local placement, activation, sleep, velocity, type change, step) on two bodies with three colliders (one shape shared), positions on a 16x16 grid of step 1/8 (3 operations when the first shape is a box). Conversions between body and world space: 20 rotations, 3 body types, 16x8 positions. Exact up to 3e-6 relative.",
               thorough="20 rotations, histories of 3 operations.")),
 "C07": dict(harness=["c07_filter.cpp"], tablebits=16, reach=[("create", "hit"), ("create", "miss"), ("change1", "accept"), ("change1", "reject")],
   bounds=dict(quick="two bodies with 5 kinds of shape pairs (sphere/sphere, sphere/box, convex/box, sphere/concave mesh, box/height field), overlapping, both creation orders, no trigger or either one: every 16-bit category and mask of both colliders at creation; every new category and/or mask of either collider while they touch, also with both asleep, with and without queries in between (two changes in a row for the first two kinds); a body with two colliders, every category and mask of all of them.",
               thorough="two changes in a row for all kinds, asleep or awake.")),
 "C08": dict(harness=["c08_events.cpp"], tablebits=16, reach=[("history2", "touching"), ("history3", "touching")],
   bounds=dict(quick="two bodies (kinematic against static, kinematic or very heavy dynamic), 4 shape pairs (sphere/sphere, sphere/box, box/convex, sphere/concave mesh), both creation orders, 3 start placements: every sequence of 2 of 17 operations with a step after each, every sequence of 3 of 9 operations with a step after each, every 2 of 17 operations between two steps (moves, away and back within a step, queries, sleep, wake, trigger and simulation flags, resizing, destroying and re-creating body or collider, local placement, joint that disables collision).", thorough="sequences of 4 of 9 operations, all shape pairs.")),
 "C19": dict(harness=["c19_joints.cpp"], tablebits=16, quick=dict(budget=60), reach=[("hub", "end"), ("first_collision", "end")],
   bounds=dict(quick="three overlapping bodies (triggers or contacts, one possibly static) and up to 6 joints of the four kinds: a joint with or without collision, then every sequence of 2 operations out of 16 (create a joint with/without collision on any pair, destroy first/last joint, destroy and re-create any body, sleep all/one, wake, step), then a step and a drag test with a symbolic velocity; 1-4 joints between the same two bodies with every combination of collision flags removed in 4 ways; a body with 7 joints destroyed at any place among 8 bodies with sleeping bodies.",
               thorough="sequences of 3 operations.")),
 "C11": dict(harness=["c11_queries.cpp"], tablebits=16, quick=dict(budget=90), reach=[("placements", "end"), ("query_flags", "end"), ("queries_do_not_disturb", "end")],
   bounds=dict(quick="four bodies (spheres, a box, a compound; 4 assignments of types, 2 creation orders): one sphere anywhere on an 8x8x4 grid, queries before the first step, asleep, after a step and after a teleport, each of the six forms first; query flags of all five colliders, 4 trigger and 3 simulation settings; every category and mask of one collider with one body inactive; two runs of 2 steps, with and without queries, with symbolic velocity, compared.",
               thorough="16x16x4 grid, runs of 4 steps.")),
 "C15": dict(harness=["c15_states.cpp"], tablebits=16, quick=dict(budget=60), reach=[("any2", "active"), ("any2", "inactive"), ("core", "end")],
   bounds=dict(quick='every 2 of 15 operations (type changes, activity, sleep and wake, forces, velocities, teleports, steps) on a body with a neighbour it overlaps and one it does not, the position and velocity symbolic on a grid; every 3 of the 7 that change the state; after each operation the broad phase, the pairs, the activity of all components, world queries and the following motion are compared with a freshly created body in that state.', thorough='every 4 of 8 operations.')),
 "C16": dict(harness=["c16_islands.cpp"], tablebits=16, quick=dict(budget=60), reach=[("graphs", "asleep"), ("waking", "end"), ("chain", "end"), ("described", "end")],
   bounds=dict(quick='three bodies with every graph of no link, contact or joint on each pair (27), with and without a common static body, two creation orders; speeds on both sides of the threshold symbolic (1/64 steps), permission to sleep of one body; every way of waking each body twice; permission, world switch and speed changed before each of four steps; chain of five with every cut; up to 16 steps against an executable specification of sleep.', thorough='four bodies (729 graphs) in the waking histories.')),
 "C13": dict(harness=["c13_worldray.cpp"], tablebits=16, reach=[("policies", "several"), ("filters", "several"), ("states", "end")],
   bounds=dict(quick="five bodies (dynamic, static, kinematic; sphere, box, concave mesh, compound), 3 creation orders, 3 ray directions with the origin anywhere on an 8x8 grid, 6 callback policies x 4 sets of ignored colliders, maximum fractions 1 and 0.6875; every category of two colliders and every mask; every setting of the six query flags; every 2 of 14 changes of state (activity, sleep, teleport, step, trigger, local placement, resizing, colliders and bodies destroyed and added, type).",
               thorough="6 directions, 8x16 grid.")),
 "C25": dict(harness=["c25_factory.cpp"], tablebits=16, quick=dict(budget=60), reach=[("any2", "end"), ("build3", "end")],
   parts=[dict(), dict(stub=False, entries=["touching", "many"])],
   bounds=dict(quick='every 2 of 24 operations of the factory and its objects from four prepared scenes, every 3 of 11 creating and destroying operations, contact histories with a symbolic placement, 12 shapes / 10 bodies / 9 joints destroyed from the front, from the back or left over; once with the real allocators over a checking base allocator and once with allocators that check every request and release themselves.', thorough='every 4 of 11 operations.')),
 "C20": dict(harness=["c20_meshes.cpp"], quick=dict(budget=60), reach=[("convex_valid", "end"), ("tri_vertex", "accepted"), ("tri_index", "refused"), ("convex_index", "refused"), ("height_fields", "field")],
   bounds=dict(quick='convex meshes: tetrahedron, prism, box, pyramid and others in all vertex and index formats, positions on a 16x16x4 grid at scales 1/32, 1, 32; one vertex anywhere that keeps it convex; every single index replaced by any of 16 values, every two by any of 6; faces shortened, lengthened, removed, doubled or turned, vertices removed, added or doubled. Triangle meshes: every index replaced by any of 10 values; every vertex on an 8x8x8 grid at 3 scales; two triangles sharing or turned; 0 to 7 vertices, 0 to 5 triangles, flat, collinear, all-zero vertices; own normals including zero ones. Height fields of -1 to 4 columns and rows, 3 height types, 3 scales, one height symbolic.', thorough='same as quick.')),
"C22": dict(harness=["c22_near.cpp"], tablebits=16, reach=[("field_box","near"),("mesh_box","near"),("surfaces","end"),("field_heights","end"),("mesh_strip","near")], quick=dict(budget=60),
   bounds=dict(quick="4 height fields of up to 5x4 points (float, double, integer heights) and a concave mesh of 6 triangles with 4 scalings, boxes of 4 sizes with the corner anywhere on a 32x16(x8) / 16x8x16 grid; every triangle's own box; height fields of 2..4 x 2..4 points with heights base + k*unit (6 bases up to 123456, 3 units, one height symbolic); strips of 1, 5, 11, 16 triangles that fold over, one vertex symbolic, boxes of 2 sizes on an 8x4 grid. Vertices equal the stored ones up to 1e-5 of the size, bounds contain the vertices exactly.", thorough="the same bounds, more time.")),
"C21": dict(harness=["c21_hull.cpp"], tablebits=16, maxite=1, quick=dict(budget=60), reach=[("point","hull"),("clouds","hull"),("few","hull"),("few","refused")],
   bounds=dict(quick="12 base clouds of up to 27 points (tetrahedron, box with face centres, octahedron, flat grid, collinear points, pyramid over a grid, pseudo-random points, duplicates, prism with 10 sides, no points) with one more point first or last anywhere on an 8x8x4 integer grid; 18 clouds x 4 rotations x 6 scales (0.001 .. 30000) x moved away or not x float/double/strided input with any one of 16 points left out; 0 to 4 points with the last on an 8x8x8 grid; 4 clouds with two more points on 4x4x2 and 4x2x2 inexact grids. Tolerance 1e-3 of the extent + 2e-5 of the distance from the origin. Acceptance is required for points that enclose a volume at scales 1, 1000 and 30000.",
               thorough="grids of 8x8x8 and 4x4x4, pairs of points with 12 clouds.")),
 "C10": dict(harness=["c10_poly.cpp"], tablebits=16, reach=[("round_poly", "hit"), ("round_poly", "miss"), ("poly_poly", "hit"), ("poly_poly", "miss"), ("round_poly_sizes", "hit"), ("poly_poly_sizes", "hit"), ("second_frame", "hit"), ("second_frame", "miss")], quick=dict(budget=60),
   bounds=dict(quick="spheres and capsules (3 size variants) against boxes and 4 convex meshes (4 variants, one of them with vertices away from the origin), and polyhedra against each other, 8x3 orientation pairs spread over the cases, both creation orders, every offset of an 8x8x4 grid (step 1/2 of the size, shifted by 4 offsets so that aligned and generic placements occur); sizes 1, 1/16, 16 and 100; a second frame at every offset of the grid after a first colliding frame, with the same or another orientation; placements within 1.2e-3 (relative to the size) of touching are left open.",
               thorough="every combination of kinds with 8 to 24 variants/orientations each, grids of 16x16x8 offsets at half the step, two frames also for spheres.")),
 "C17": dict(harness=["c17_contacts.cpp"], tablebits=16, quick=dict(budget=140), reach=[("round_pair", "single"), ("flat", "several"), ("flat_converged", "several"), ("coulomb", "slides"), ("coulomb", "sticks"), ("coulomb", "apart")],
   bounds=dict(quick="two round bodies with one contact (12 combinations of normal, penetration, masses, friction, bounciness, orientation, position correction; second body dynamic, static, kinematic; velocity on an 8x8x4 grid, spin on 4x4), first and second step; box, flat box, tall box, convex mesh, sphere and lying capsule on a box, 12 combinations, two steps with 6 iterations, 2 combinations x 6 bodies with 60; centres of mass and inertias set freely; locked axes; coulomb: a ball or box with locked rotation sliding, or a ball spinning about the normal, on a dynamic, static or kinematic partner with another friction coefficient and bounciness, 12 combinations, velocities on an 8^3 grid; heaps of four bodies; rest on a static/kinematic floor for 40 steps. Tolerances: approach after the step 2e-4 (one contact), 0.02 (60 iterations), 1 (6 iterations); momentum 2e-6 of the scale; friction against sqrt(2)*mu*N because the solver bounds two directions apart.",
               thorough="48 combinations of round and of sliding and spinning bodies, 36 of flat ones, 24 heaps with three steps, rest for 150 steps.")),
 "C18": dict(harness=["c18_joints.cpp"], tablebits=16, quick=dict(budget=200), reach=[("pair", "end"), ("limits", "below"), ("limits", "above"), ("limits", "between"), ("motor", "end"), ("reported", "end"), ("cone", "inside"), ("cone", "outside"), ("drift", "end"), ("chain", "end"), ("described", "end"), ("steady", "end"), ("locked", "end")],
   bounds=dict(quick="pair: every kind of joint x 9 configurations (dynamic/static/kinematic partner, either order of the bodies, both position correction techniques, world- and local-space descriptions, masses 1/64..2000, displaced centres of mass, different initial orientations), 2 steps (the second warm started); velocity of one body a symbolic 12-bit grid (linear 3+3+2 bits, angular 2+1 bits): constraint of the relative velocity, linear and angular momentum, bodies that are not dynamic untouched. limits: hinge and slider at 5 positions below/between/above their limits x 2 configurations, compared with the same joint without limits. cone: ball joint 0.05 inside and outside its cone x 8 configurations. motor: hinge and slider x 4 configurations x 5 changes of the settings between 3 steps, speed 2 bits, maximum 3 bits (0..392), velocity 3 bits: impulse = the one needed, clamped to the maximum; reported torque/force. reported: angle/translation after common turns, 12 configurations x 7 positions. drift: three joints of one kind with mixed techniques displaced by a symbolic 6-bit error and turned (orientations also with the other sign), corrected within 3 steps. chain: three free bodies, all pairs of joint kinds, total momentum over 2 steps. described: every constructor of the four joint descriptions against the plain one with its fields set one by one, limits, motor speed and maximum and a velocity symbolic (3+3+3+2+2 bits), bit-identical over 2 steps. steady: a body held by a ball, fixed, slider or hinge joint, by a limit or by a motor (9 ways) x 4 configurations, gravity 8 values and arm 4 values: at rest for 16 steps, 8 of them with a single iteration. locked: all four kinds x 6 configurations x 4 variants (limits, motor) with locked axes on both bodies, velocity 3+3+3+2+2 bits, 2 steps. 10-60 velocity iterations",
               thorough="pair: 36 configurations, 3 steps; limits and cone: 24 configurations; motor: 12; drift: 18; chain: 6; steady: 8; locked: 30")),
 "C24": dict(harness=["c24_determinism.cpp"], tablebits=16, reach=[("memory", "end"), ("others", "end"), ("reuse", "end")],
   bounds=dict(quick='5 scenes built twice (PILE: box, sphere, capsule, convex mesh on a static box; SURFACE: sphere and box on a concave mesh or a height field; JOINTS: chain of 5 bodies with all joint types, limits and motors; CHANGES: bodies and colliders created, destroyed, retyped, (de)activated and put to sleep between steps; SENSORS: triggers, a kinematic body, rays and queries); 4 steps of 1/64 s; start velocity vx on a grid of 4 values (-0.75..0.75). memory: every byte of fresh memory is one symbolic byte (256 values) against 0. others: before (or not) and between the steps another world of the same PhysicsCommon is created, stepped or destroyed (2 points x 3 operations, 2 other scenes per scene). reuse: two worlds of other scenes are created, stepped and destroyed before in the same PhysicsCommon. Compared bit by bit: transforms, velocities, forces, sleep flags, all contact and trigger events with their contact points, joint forces, angles, translations, ray hits, overlap and collision queries. Outside: uninitialised variables on the stack, other scenes, longer runs.', thorough='5 scenes built twice (PILE: box, sphere, capsule, convex mesh on a static box; SURFACE: sphere and box on a concave mesh or a height field; JOINTS: chain of 5 bodies with all joint types, limits and motors; CHANGES: bodies and colliders created, destroyed, retyped, (de)activated and put to sleep between steps; SENSORS: triggers, a kinematic body, rays and queries); 6 steps of 1/64 s; vx on a grid of 16 values; 3 disturbance points, all pairs of scenes; the rest as in quick.')),
 "C29": dict(harness=["c29_surfaces.cpp"], tablebits=16, quick=dict(budget=200), reach=[(e, l) for e in ("round_mesh", "round_field", "poly_mesh", "poly_field", "second_frame") for l in ("hit", "miss")],
   bounds=dict(quick="7 solid shapes (sphere, capsule, box, 4 convex meshes; size 1/2) against a concave mesh of 6 triangles and 4 height fields with 4 combinations of scaling and orientation, both creation orders, 2 places in the world; position of the solid on a grid of step 3/8: 16x4x16 (sphere and capsule against the mesh) and 8x4x8 (all others); first frame and a second frame after a move. Tolerance 1.5e-3. Left open: a lower bound of the depth when more than 4 contact points were reduced, capsules whose segment crosses a triangle deeply, the depth of polyhedra in a second frame (cached axis).",
               thorough="grids of twice the extent (16x8x16, 16x8x8) and every combination of scaling and orientation.")),
 "C30": dict(harness=["c30_debug.cpp"], tablebits=16, reach=[("solids", "solid"), ("surfaces", "surface"), ("contacts", "some"), ("contacts", "none"), ("history2", "end"), ("items", "end"), ("neutral", "end")],
   quick=dict(budget=60), bounds=dict(quick="7 solid shapes (sphere, capsule, box, 4 convex meshes), a concave mesh and height fields, 2 combinations of rotation, local transform and body type (all 4 for surfaces), 6 sets of items, position on an 8^3 grid of step 1/2; every sequence of 4 switches of items; every history of 1 operation and of 2 operations out of 13 over 3 bodies (debug switch, destruction, activation, removal and addition of colliders, items, movement, sleep, reset) with the position on an 8^3 grid; contact primitives of 4 pairs of shapes and 4 sets of items on an 8x8x4 grid over 3 steps; motion of a stack and a rolling sphere over 3 steps with and without drawing, 4^3 velocities.",
                thorough="4 combinations per solid shape, histories of 3 operations, contacts on an 8^3 grid.")),
 "C31": dict(harness=["c31_reaction.cpp"], tablebits=16, quick=dict(budget=100), reach=[("single", "end"), ("shared", "end")], bounds=dict(quick="single: every kind of joint x 4 configurations (dynamic/static/kinematic partner, order of the bodies, position correction, displaced centres of mass, masses 1/64..2000, 3 gravities) x 3 displacements (below, within, above the limits or in and out of the cone) x motor on from the start or not x 6 changes before the second step (motor on/off, limit on/off, velocity), 3 steps, velocities on a grid of 3+2+1 bits linear and 1+2 bits angular; shared: all 16 pairs of kinds of joints on one body, 2 configurations, 2 steps, velocity on an 8^3 grid. Tolerance 1e-4 of the masses and reported force.",
                thorough="single: 12 configurations, 4 settings of the first step; shared: 8 configurations")),
 "C32": dict(harness=["c32_settings.cpp"], tablebits=16, quick=dict(budget=60), reach=[("setters", "end"), ("history", "end"), ("joints", "end"), ("bounce", "end"), ("iterations", "end")], bounds=dict(quick="setters: 31 setters of bodies, colliders and worlds x 3 objects, all settings of 2 worlds, 3 bodies and 5 colliders holding any floats in [2^-10, 2^20], [0,1] or [0,3], any 16-bit masks and iteration counts, any flags (friction on a grid of 8 squares); history: 4 starting arrangements x every pair of 12 operations (destruction, creation, activation, types, colliders added, removed and moved, sleep, step, teleport) followed by 3 setters; joints: 4 kinds x 6 constructors x 6 setters x 7 events, any limits and motor values; bounce: 4 thresholds x 4 bouncinesses x 3 kinds of own materials, 32 speeds, two worlds; iterations: 3x3 counts x 4 kinds of joints x 2 ways to set them, 32 gravities.", thorough="histories of 3 operations, all orders of arrangement and joints")),
}
