"""Single source for properties.jsonl, MANIFEST.json and the checks.
   `driver.py manifest` rewrites the two files from here."""
PROPS = {}
def spec(id, parts, technique, note, rule, floor=None, assumptions=()):
    PROPS[id].update(parts=list(parts), technique=technique, note=note, rule=rule, floor=floor or {}, assumptions=list(assumptions))


CFG_NOTE = "Trusted: the harness's own reference geometry (double precision), clang 18 and its sanitizer runtimes, libccd and octomap as installed."


def prop(id, title, statement, over, q, why, files, mech, observe, technique="", note="", rule="", parts=(), floor=None,
         assumptions=(), state=()):
    PROPS[id] = dict(title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, observe=observe,
                     technique=technique, note=note, rule=rule, parts=list(parts), floor=floor or {},
                     assumptions=list(assumptions), state=list(state))


def part(mod, quick, thorough, cfg="plain", **kw):
    d = dict(mod=mod, cfg=cfg, cases=dict(quick=quick, thorough=thorough))
    d.update(kw)
    return d


BP = "include/fcl/broadphase/"
NP = "include/fcl/narrowphase/"
TR = NP + "detail/traversal/"
PR = NP + "detail/primitive_shape_algorithm/"
BVH = "include/fcl/geometry/bvh/"
BPF = [BP + x for x in ("broadphase_bruteforce-inl.h", "broadphase_SaP-inl.h", "broadphase_SSaP-inl.h", "broadphase_interval_tree-inl.h",
                        "broadphase_spatialhash-inl.h", "broadphase_dynamic_AABB_tree-inl.h", "broadphase_dynamic_AABB_tree_array-inl.h")]

# ---------------------------------------------------------------- broad phase
prop("B01", "Broad-phase collision queries miss no overlapping pair and repeat none",
     "For every broad-phase manager and any set of registered objects, a collision query (against one object, against itself, or against another manager of the same kind) hands the callback every pair whose bounding boxes overlap. No unordered pair is handed over twice in a query, no object is paired with itself in a self-query, and nothing that is not registered is ever handed over. All managers therefore report the same set of colliding pairs as testing all pairs one by one.",
     ["inputs", "configurations"], "every object population (clustered, separated, touching, identical, axis-aligned, huge/tiny mixtures), every manager and query kind",
     "The existing tests compare collision counts on a few random scenes built from a fixed generator; a pair lost only for coinciding end points, dense clusters, cell borders or particular tree shapes is not in them.",
     BPF, [dict(name="per-manager overlap enumeration", where=BP)], ["callback invocations of collide()"])
prop("B02", "Broad-phase distance queries find the true minimum",
     "For every broad-phase manager and any set of registered objects, a distance query (one object, self, or manager against manager) driven by an exact per-pair distance callback ends with the same minimum as evaluating all pairs. Pruning by bounding volumes never discards the closest pair.",
     ["inputs", "configurations"], "every object population and manager; objects inside, outside and far from the others",
     "Tests use well separated random scenes with one size distribution; wrong pruning shows only when the closest pair sits behind a looser bound.",
     BPF, [dict(name="distance pruning by bounding-volume lower bounds", where=BP)], ["minimum distance seen by the callback"])
prop("B03", "Broad-phase managers stay faithful through any history of changes",
     "After any sequence of registering, bulk registering, unregistering, moving and updating (all, one or some objects), clearing and setting up, a manager's object list, size and emptiness are those of the set of objects then registered. Its collision and distance queries answer as if a fresh manager had been built from those objects at their current poses.",
     ["histories", "configurations"], "all operation sequences over all managers, including re-registration, updates of subsets, emptying and refilling",
     "Tests apply at most one update round and one unregistration to each scene; stale internal entries need particular operation orders.",
     BPF + [BP + "detail/hierarchy_tree-inl.h", BP + "detail/hierarchy_tree_array-inl.h", BP + "detail/interval_tree-inl.h"],
     [dict(name="incremental maintenance of sorted lists, trees and hash cells", where=BP)], ["size()/empty()/getObjects() and query callbacks after each operation"])
prop("B04", "A callback that asks to stop stops the broad-phase query",
     "Once a collision or distance callback returns true, the broad-phase query that invoked it makes no further callback and returns, whatever manager, query kind or object population. The manager remains usable: the next query answers as if the aborted one had not happened.",
     ["inputs", "histories", "configurations"], "every manager and query kind, every position at which the callback asks to stop",
     "Tests only count collisions with callbacks that stop at the end; nobody checks that no call follows the stop.",
     BPF, [dict(name="early exit through every recursion and loop", where=BP)], ["callback invocations after the stop"])

# ---------------------------------------------------------------- meshes
prop("M01", "Every bounding volume of a mesh hierarchy encloses its triangles",
     "After a mesh or point-cloud model is built, refitted, updated or has its vertices replaced, each node's bounding volume contains every vertex of every primitive below it, for all bounding-volume types and split methods. The leaves partition the primitives: each appears exactly once.",
     ["inputs", "histories", "configurations"], "all triangle sets and point clouds (degenerate, coplanar, duplicated, tiny and large coordinates) and all rebuild histories",
     "Tests build two fixed environment meshes and compare end results; a volume that is slightly too small loses only particular contacts.",
     [BVH + "BVH_model-inl.h", BVH + "detail/BV_fitter-inl.h", BVH + "detail/BV_splitter-inl.h", BVH + "BVH_utility-inl.h"],
     [dict(name="BV fitting and splitting", where=BVH)], ["node volumes after endModel/endReplaceModel/endUpdateModel"])
prop("M02", "Mesh-mesh collision reports exactly the intersecting triangle pairs",
     "For any two triangle meshes in any relative pose and any bounding-volume type, the contacts of an exhaustive collision query are exactly the pairs of triangles that intersect, each with the ids of those triangles and reported once, or, when contact details are requested, once per contact point of the pair (one or two). A bounded query reports that many of them, or all if there are fewer.",
     ["inputs", "configurations"], "all meshes, poses and bounding-volume types, with clear (non-borderline) triangle pairs deciding",
     "Tests compare algorithms against one another on fixed environment meshes and count contacts; they share the triangle test and the traversal being judged.",
     [TR + "collision/mesh_collision_traversal_node-inl.h", TR + "collision/intersect-inl.h", TR + "traversal_recurse-inl.h", NP + "detail/collision_func_matrix-inl.h"],
     [dict(name="dual-tree traversal", where=TR + "traversal_recurse-inl.h"), dict(name="triangle-triangle test", where=TR + "collision/intersect-inl.h")],
     ["contacts of collide()"])
prop("M03", "Mesh-mesh distance equals the minimum over all triangle pairs",
     "For any two separated triangle meshes the reported minimum distance equals the least distance over all pairs of triangles, within the requested error, for every bounding-volume type that supports distance. The reported nearest points realise that distance, lie on the reported triangles, and are expressed in the world frame.",
     ["inputs", "configurations"], "all mesh pairs, poses and distance-capable bounding-volume types",
     "Tests compare variants of the same traversal on fixed meshes with a loose tolerance and check no witness points against the triangles.",
     [TR + "distance/mesh_distance_traversal_node-inl.h", PR + "triangle_distance-inl.h", TR + "traversal_recurse-inl.h"],
     [dict(name="best-first pruning with BV distance", where=TR + "distance/mesh_distance_traversal_node-inl.h")], ["DistanceResult of distance()"])
prop("M04", "Mesh against primitive shape: collision and distance match the triangles",
     "Colliding a triangle mesh with a primitive shape, in either argument order, reports exactly the triangles that the shape touches, each once, and nothing for a shape that touches none. The distance between them equals the least distance from the shape to any triangle.",
     ["inputs", "configurations"], "all meshes, primitive shapes, poses, bounding-volume types, argument orders and solvers",
     "Tests place a few primitives against tessellated primitives on the axes.",
     [TR + "collision/mesh_shape_collision_traversal_node-inl.h", TR + "distance/mesh_shape_distance_traversal_node-inl.h", NP + "detail/collision_func_matrix-inl.h", NP + "detail/distance_func_matrix-inl.h"],
     [dict(name="BV against shape traversal", where=TR)], ["contacts of collide(), DistanceResult of distance()"])
prop("M05", "Mesh models follow their construction protocol and keep the data given",
     "Whatever sequence of begin/add/end, replace, update and refit calls a caller makes, each call either performs its step and reports success, or reports the documented error and leaves a usable model; none crashes. After success the model holds exactly the vertices and triangles given, in order, and copying a model yields an equal, independent one.",
     ["histories"], "all call sequences, including out-of-order, empty, repeated and interrupted ones, of any size",
     "Tests follow a few scripted sequences with one small mesh.",
     [BVH + "BVH_model-inl.h", BVH + "BVH_internal.h"], [dict(name="build-state machine", where=BVH + "BVH_model-inl.h")], ["return codes, build state, stored vertices and triangles"])

# ---------------------------------------------------------------- bounding volumes
prop("V01", "Fitting, merging and converting bounding volumes never loses a point",
     "For every bounding-volume type, the volume fitted to a set of points, the union of two volumes, a volume grown by a point, a volume translated, and a volume converted from another type contain every point of what they were made from. The volume computed for a geometric shape under a transform contains the transformed shape.",
     ["inputs", "configurations"], "all point sets (1, 2, 3 and many points, collinear, coplanar, duplicate), volumes and transforms",
     "Tests check one or two unit cases per type.",
     ["include/fcl/math/bv/OBB-inl.h", "include/fcl/math/bv/RSS-inl.h", "include/fcl/math/bv/kIOS-inl.h", "include/fcl/math/bv/kDOP-inl.h", "include/fcl/math/bv/AABB-inl.h", "include/fcl/math/bv/OBBRSS-inl.h", "include/fcl/math/bv/utility-inl.h", "include/fcl/geometry/shape/utility-inl.h"],
     [dict(name="BV algebra", where="include/fcl/math/bv")], ["membership of sampled points"])
prop("V02", "Bounding-volume overlap and distance tests are conservative and symmetric",
     "Two bounding volumes that share a point are reported as overlapping, in both argument orders and under relative transforms; for axis-aligned and oriented boxes disjoint volumes with a clear gap are reported as disjoint. The distance between two volumes never exceeds the distance between any points they contain.",
     ["inputs", "configurations"], "all pairs of volumes and relative poses, including parallel, degenerate (flat, zero-size) and containing ones",
     "Tests check overlap for a handful of boxes; a missed edge-edge axis or a bound too large by a little only loses rare contacts.",
     ["include/fcl/math/bv/OBB-inl.h", "include/fcl/math/bv/RSS-inl.h", "include/fcl/math/bv/kIOS-inl.h", "include/fcl/math/bv/kDOP-inl.h", "include/fcl/math/bv/AABB-inl.h", "include/fcl/math/bv/OBBRSS-inl.h"],
     [dict(name="separating-axis and rectangle-distance tests", where="include/fcl/math/bv")], ["overlap()/distance() results"])

# ---------------------------------------------------------------- shapes
prop("S01", "Bounding boxes of shapes and objects enclose the geometry in every pose",
     "The local bounding box, centre and radius of every shape, mesh and octree contain all its points, and a collision object's world bounding box contains all points of its geometry after any sequence of pose changes followed by recomputing it. For bounded primitive shapes the local box is also tight, and the vertices offered to bound a shape enclose it.",
     ["inputs", "histories"], "all shapes and dimensions, all poses and pose-change histories",
     "Tests check boxes in identity or one random pose.",
     ["include/fcl/geometry/shape/utility-inl.h", "include/fcl/narrowphase/collision_object-inl.h", "include/fcl/geometry/collision_geometry-inl.h", "include/fcl/geometry/bvh/BVH_model-inl.h", "include/fcl/geometry/octree/octree-inl.h"],
     [dict(name="bounding-box computation", where="include/fcl/geometry/shape/utility-inl.h")], ["aabb_local, aabb_center, aabb_radius, getAABB()"])
prop("S02", "Volume, centre of mass and inertia are those of the solid",
     "For every bounded primitive, convex polytope and closed triangle mesh, the reported volume, centre of mass and moment of inertia equal the integrals over the solid (inertia at unit density, for a convex polytope at unit mass); inertia is symmetric, positive and scales correctly with size.",
     ["inputs"], "all dimensions, convex polytopes and closed meshes",
     "Tests check a few hand-computed values.",
     ["include/fcl/geometry/shape/convex-inl.h", "include/fcl/geometry/shape/ellipsoid-inl.h", "include/fcl/geometry/shape/capsule-inl.h", "include/fcl/geometry/shape/cone-inl.h", "include/fcl/geometry/bvh/BVH_model-inl.h", "include/fcl/geometry/collision_geometry-inl.h"],
     [dict(name="closed forms and tetrahedral decomposition", where="include/fcl/geometry/shape")], ["computeVolume/computeCOM/computeMomentofInertia"])
prop("S03", "Meshes generated from primitives approximate the primitive's surface",
     "A mesh generated from a primitive shape with any tessellation parameters that describe a solid (at least three segments and one ring), or by any density, and with any pose, is a closed, consistently oriented surface whose vertices lie on the primitive's surface (or circumscribe it where documented), with the requested tessellation. Its deviation from the primitive shrinks as the tessellation is refined.",
     ["inputs", "configurations"], "all primitives, dimensions, tessellation counts and poses",
     "Tests use generated meshes as inputs but never check the surface they form.",
     ["include/fcl/geometry/geometric_shape_to_BVH_model-inl.h"], [dict(name="tessellation loops", where="include/fcl/geometry/geometric_shape_to_BVH_model-inl.h")], ["vertices and triangles of generateBVHModel"])
prop("S04", "Convex polytopes answer extreme-point queries exactly and vet their mesh",
     "For any direction, a convex polytope's extreme-vertex query returns a vertex at least as far in that direction as every other. A mesh whose faces do not form a closed manifold is rejected when validation is requested, and a proper one is accepted.",
     ["inputs"], "all convex meshes (triangular and polygonal faces, few to hundreds of vertices), all directions, all single-face corruptions",
     "Tests query a few directions on one or two meshes; edge-walking search fails only from particular starts and directions.",
     ["include/fcl/geometry/shape/convex-inl.h", "include/fcl/geometry/shape/convex.h"], [dict(name="edge walking with linear fallback", where="include/fcl/geometry/shape/convex-inl.h")], ["findExtremeVertex, constructor with validation"])
prop("S05", "The textual form of a shape describes the same shape",
     "The text produced for a shape by its representation query constructs, when its numbers are read back, a shape with the same type and parameters to the printed precision.",
     ["inputs"], "all shapes, dimensions and precisions",
     "Tests check single values per shape.",
     ["include/fcl/geometry/shape/representation.h"], [dict(name="representation()", where="include/fcl/geometry/shape")], ["representation(precision)"])

# ---------------------------------------------------------------- narrow phase
prop("N01", "The collision verdict of two primitives is right in every pose",
     "For every pair of bounded primitive shapes in any pose and with either solver, the collision query reports a collision when the shapes interpenetrate and none when they are apart, beyond a margin set by the solver tolerance.",
     ["inputs", "configurations"], "all pairs, dimensions, poses, both solvers; deep, shallow, barely separated and aligned configurations",
     "Tests check a few translations along the axes per pair.",
     [NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h", NP + "detail/convexity_based_algorithm/gjk-inl.h", PR + "box_box-inl.h", PR + "sphere_box-inl.h", PR + "sphere_cylinder-inl.h", NP + "detail/collision_func_matrix-inl.h"],
     [dict(name="pair dispatch and per-pair algorithms", where=NP + "detail")], ["collide() results"])
prop("N02", "Contacts point from the first object to the second and resolve the penetration",
     "Every contact between two bounded primitives carries a unit normal and a non-negative depth such that moving the second object along the normal by the depth separates the pair. The contact position lies within the penetration depth of both objects; a box pair's manifold shares the axis of least overlap (up to the documented preference for face axes), and only exactly concentric spheres have no direction.",
     ["inputs", "configurations"], "all pairs, dimensions, overlapping poses, both solvers",
     "Tests compare depth, normal and position in a few axis-aligned configurations, and skip them for one solver.",
     [NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h", NP + "detail/convexity_based_algorithm/epa-inl.h", PR + "box_box-inl.h", PR + "sphere_box-inl.h", PR + "sphere_cylinder-inl.h", PR + "sphere_capsule-inl.h", NP + "detail/traversal/collision/shape_collision_traversal_node-inl.h"],
     [dict(name="penetration computation", where=NP + "detail")], ["Contact normal, pos, penetration_depth"])
prop("N03", "The distance of two separated primitives is exact and witnessed",
     "For every pair of bounded primitive shapes that are apart, the reported distance equals the true one within the requested accuracy, and the two nearest points lie on the respective shapes, in the world frame, at that distance from one another. Overlapping shapes get a non-positive distance.",
     ["inputs", "configurations"], "all pairs, dimensions, poses, both solvers, gaps from 1e-3 to many times the size",
     "Tests check a few axis-aligned gaps per pair.",
     [NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h", NP + "detail/convexity_based_algorithm/gjk_libccd-inl.h", PR + "sphere_capsule-inl.h", PR + "capsule_capsule-inl.h", PR + "sphere_sphere-inl.h"],
     [dict(name="GJK distance with witness extraction", where=NP + "detail/convexity_based_algorithm")], ["DistanceResult"])
prop("N04", "Signed distance is minus the penetration depth when shapes overlap",
     "With signed distance requested, separated primitives get the ordinary distance and overlapping ones a negative distance of the penetration depth's magnitude. With the default solver that depth is the least translation that separates them, the witness points lie on the surfaces, and moving the second object by the vector between them brings the shapes just into contact.",
     ["inputs", "configurations"], "all convex primitive pairs and poses, shallow to deep, both solvers",
     "Tests check spheres, a few boxes and single configurations.",
     [NP + "detail/convexity_based_algorithm/gjk_libccd-inl.h", NP + "detail/gjk_solver_libccd-inl.h", NP + "distance-inl.h"],
     [dict(name="expanding polytope", where=NP + "detail/convexity_based_algorithm/gjk_libccd-inl.h")], ["DistanceResult with enable_signed_distance"])
prop("N05", "Queries are symmetric in their arguments and invariant under rigid motion",
     "Swapping the two objects of a collision or distance query leaves the verdict, the distance, the pairs of primitives and their contacts the same, each result naming the objects its ids, nearest points and normal direction refer to. Moving both objects by the same rigid transform moves contacts and nearest points by it and leaves verdicts, depths and distances unchanged.",
     ["inputs", "configurations"], "all pairs of geometry kinds (primitive, mesh, octree) and all rigid transforms",
     "Tests use fixed argument orders and one random common transform for a few pairs.",
     [NP + "collision-inl.h", NP + "distance-inl.h", NP + "detail/collision_func_matrix-inl.h", NP + "detail/distance_func_matrix-inl.h"],
     [dict(name="pair dispatch", where=NP + "detail/collision_func_matrix-inl.h")], ["collide()/distance() results"])
prop("N06", "Half-spaces and planes collide exactly with every bounded primitive",
     "A half-space collides with a bounded primitive exactly when some point of the primitive lies inside it, with depth equal to the deepest such point; a plane exactly when the primitive has points on both sides. The contact normal is the boundary normal, oriented from the first to the second object, and both argument orders agree.",
     ["inputs", "configurations"], "all primitives, plane orientations and offsets, poses, argument orders, solvers; also triangles and plane/half-space pairs",
     "Tests use planes on the axes and shapes at quarter positions.",
     [PR + "halfspace-inl.h", PR + "plane-inl.h", NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h"],
     [dict(name="closed-form plane/half-space tests", where=PR)], ["collide() results"])
prop("N07", "Shape-against-triangle queries are right for every shape and solver",
     "For every bounded primitive and any triangle, in the shape's or another frame, the solver's intersection verdict matches the geometry, its contact resolves the penetration along the reported normal, and its distance and nearest points match the true minimum.",
     ["inputs", "configurations"], "all shapes, triangles (sliver to equilateral), relative poses, both solvers, with and without a triangle transform",
     "Tests check a few axis-aligned triangles for spheres, planes and half-spaces.",
     [NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h", PR + "sphere_triangle-inl.h"],
     [dict(name="shape-triangle algorithms", where=NP + "detail")], ["shapeTriangleIntersect / shapeTriangleDistance"])
prop("N08", "Requests and results keep their contract",
     "The number of contacts never exceeds the requested maximum, turning contact, cost or nearest-point output on or off never changes the verdict or distance, and a query that finds nothing leaves nothing. Results accumulate across queries until cleared, and a result's summary (collided or not, count, minimum) is consistent with its contents; unsupported pairs report no result rather than a wrong one.",
     ["inputs", "configurations", "histories"], "all request options, all geometry pairs, repeated use of one result",
     "Tests use a few option combinations.",
     [NP + "collision-inl.h", NP + "collision_result-inl.h", NP + "distance_result-inl.h", NP + "collision_request-inl.h", NP + "distance_request-inl.h", NP + "distance-inl.h"],
     [dict(name="request handling", where=NP)], ["CollisionResult, DistanceResult, return values"])
prop("N09", "A query depends only on its inputs and changes none of them",
     "Running the same collision or distance query again, after any other queries, through collision objects or plain geometry, in a fresh or long-lived process, gives the same answer. No query changes the geometry, transforms or requests given to it.",
     ["histories"], "all query histories over all geometry kinds, including warm-started ones",
     "Tests run each query once.",
     [NP + "collision-inl.h", NP + "distance-inl.h", NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h", NP + "collision_object-inl.h"],
     [dict(name="const geometry, per-call state", where=NP)], ["results and object state before/after"])
prop("N10", "Degenerate and extreme inputs get an answer or an exception",
     "Collision and distance queries on valid but extreme inputs (tiny, huge or needle-like dimensions, coincident centres, exact contact, far-away poses, degenerate triangles) terminate promptly, and either return finite results or raise a documented exception. They never crash, hang or return not-a-number.",
     ["inputs"], "all valid dimensions over many orders of magnitude, all special relative poses",
     "Tests use moderate sizes; regressions are pinned for single reported inputs.",
     [NP + "detail/convexity_based_algorithm/gjk_libccd-inl.h", NP + "detail/convexity_based_algorithm/epa-inl.h", NP + "detail/convexity_based_algorithm/gjk-inl.h", PR + "box_box-inl.h"],
     [dict(name="iteration limits and degeneracy checks", where=NP + "detail/convexity_based_algorithm")], ["termination, finiteness, exceptions"])
prop("N11", "Collision and distance queries agree with one another",
     "For every pair of supported geometries the collision query reports a collision exactly when the distance query reports a non-positive distance, outside a tolerance band around contact. A signed distance measured through contacts (meshes, octrees, the built-in solver) is minus the depth of the deepest contact an exhaustive collision query reports. Distance never increases when one object grows to contain its former self.",
     ["inputs", "configurations"], "all supported geometry pairs, poses, solvers",
     "Tests exercise the two queries on separate inputs.",
     [NP + "collision-inl.h", NP + "distance-inl.h"], [dict(name="two independent query paths", where=NP)], ["collide() against distance()"])

# ---------------------------------------------------------------- octree
prop("O01", "Octree collision equals colliding its occupied cells one by one",
     "Colliding an octree with a primitive, a mesh or another octree, in either order, reports a collision exactly when some occupied leaf cell touches the other object, and an exhaustive query reports each touching cell, or pair of cells or triangles, once. Cells below the occupancy threshold never collide.",
     ["inputs", "configurations"], "all trees (depths, resolutions, occupancies, pruned or not), poses and partners",
     "Tests compare against box lists on one small random cloud.",
     [TR + "octree/octree_solver-inl.h", "include/fcl/geometry/octree/octree-inl.h"], [dict(name="octree traversal with cell boxes", where=TR + "octree/octree_solver-inl.h")], ["contacts of collide()"])
prop("O02", "Octree distance equals the distance to its nearest occupied cell",
     "The distance between an octree and a primitive, mesh or another octree equals the least distance to an occupied leaf cell, in either argument order, and is non-positive on contact.",
     ["inputs", "configurations"], "all trees, poses and partners",
     "Tests compare with box lists on one small random cloud for some partners.",
     [TR + "octree/octree_solver-inl.h", "include/fcl/geometry/octree/octree-inl.h"], [dict(name="octree distance traversal", where=TR + "octree/octree_solver-inl.h")], ["DistanceResult of distance()"])
prop("O03", "Octree cells are where and what the map says",
     "Enumerating an octree's cells yields every occupied leaf exactly once with the centre, size and occupancy stored in the map, the root box covers the whole map, and child boxes tile their parent. A contact's cell id leads back to the cell it denotes.",
     ["inputs", "histories"], "all maps and occupancy updates",
     "Tests check one map.",
     ["include/fcl/geometry/octree/octree-inl.h"], [dict(name="cell enumeration and child boxes", where="include/fcl/geometry/octree/octree-inl.h")], ["toBoxes, getRootBV, computeChildBV, getNodeByQueryCellId"])
prop("O04", "Cost sources bound the overlap they stand for",
     "With cost requested, every reported cost source is a box inside the overlap of the two objects' bounding boxes whose density is the product of the two objects' densities (for an octree, its cell's occupancy, or the occupancy threshold where space is unknown), and each clearly meeting pair of primitives contributes one; in approximate mode the box of a mesh's root volume stands for the mesh. At most the requested number are kept, those with the greatest cost. Free objects and cells give none; objects not occupied give no contacts. Requesting cost does not change the contacts.",
     ["inputs", "configurations"], "all pairs supporting cost, all occupancies and limits",
     "Tests only count sources in one scene.",
     [NP + "cost_source-inl.h", NP + "collision_result-inl.h", TR + "octree/octree_solver-inl.h", TR + "collision"], [dict(name="cost accumulation", where=NP + "collision_result-inl.h")], ["getCostSources"])

# ---------------------------------------------------------------- continuous
prop("C01", "Continuous collision reports contact when and only when the motion meets it",
     "For two objects (primitive shapes other than ellipsoids, or triangle meshes of any bounding-volume type) moving along given motions, the conservative-advancement query reports no collision if they stay clearly apart throughout, and a collision at time 0 if the collision query finds them in contact at the start, or at the first time they meet if they clearly overlap later: the reported time is in [0,1] and equals the returned one, the reported poses are those of the motions at that time, the gap there is within the solver's tolerance, and no clear overlap comes before it. The polynomial solver obeys the same for two translating meshes that start apart. The naive solver reports exactly the first of its evenly spaced sample times at which the collision query finds contact. Repeating a query, also through another entry point, gives the same answer, and no query changes the objects.",
     ["inputs", "configurations"], "all motion kinds and solver kinds, fast, slow, grazing and rotating motions, shapes and meshes",
     "Tests check a couple of translations of a few shapes.",
     [NP + "continuous_collision-inl.h", NP + "detail/conservative_advancement_func_matrix-inl.h", TR + "distance/mesh_conservative_advancement_traversal_node-inl.h", TR + "distance/shape_conservative_advancement_traversal_node-inl.h", TR + "collision/mesh_continuous_collision_traversal_node-inl.h", TR + "collision/intersect-inl.h"],
     [dict(name="conservative advancement, sampled naive search, polynomial solver", where=NP + "continuous_collision-inl.h")], ["ContinuousCollisionResult"])
prop("C02", "Motions interpolate their end poses and respect their bounds",
     "Every motion passes through its given start and end pose, stays a rigid motion in between, and integrating to any time in any order gives the same pose for the same time. A translation, linear, screw or spline motion takes the poses its definition gives at every time. The motion bound of a triangle or bounding volume along a direction is an upper bound of the speed along it from the current time on: no point of it moves further along the direction until any later time than the bound times the elapsed time.",
     ["inputs", "histories"], "all end poses, motion kinds, times and directions",
     "Tests do not check motion bounds.",
     ["include/fcl/math/motion/interp_motion-inl.h", "include/fcl/math/motion/screw_motion-inl.h", "include/fcl/math/motion/spline_motion-inl.h", "include/fcl/math/motion/translation_motion-inl.h", "include/fcl/math/motion/triangle_motion_bound_visitor-inl.h", "include/fcl/math/motion/tbv_motion_bound_visitor-inl.h"],
     [dict(name="motion integration and bounds", where="include/fcl/math/motion")], ["getCurrentTransform, computeMotionBound"])
prop("C03", "Interval and Taylor-model arithmetic encloses the true values",
     "Every interval operation yields an interval containing all results of the operation on members, and every Taylor model, vector or matrix bound over a time interval contains the value of the modelled function or motion at every time in it; the bounding box of a continuously moving object contains it at every time of its motion's time interval.",
     ["inputs"], "all intervals, operations, motions and time intervals",
     "Tests do not cover this arithmetic.",
     ["include/fcl/math/motion/taylor_model/interval-inl.h", "include/fcl/math/motion/taylor_model/taylor_model-inl.h", "include/fcl/math/motion/taylor_model/taylor_matrix-inl.h", "include/fcl/math/motion/taylor_model/taylor_vector-inl.h", "include/fcl/math/motion/taylor_model/interval_matrix-inl.h", "include/fcl/math/motion/taylor_model/interval_vector-inl.h"],
     [dict(name="remainder propagation", where="include/fcl/math/motion/taylor_model")], ["getBound, interval operators"])

# ---------------------------------------------------------------- internals that users rely on
prop("I01", "Interval trees return exactly the stored intervals that meet a query",
     "After any sequence of insertions and deletions, a query with any range returns every stored interval that meets it, each once, and no other.",
     ["histories", "inputs"], "all insertion/deletion histories, nested, equal, touching and point intervals",
     "Tests reach the tree only through one broad-phase manager.",
     [BP + "detail/interval_tree-inl.h", BP + "detail/interval_tree_node-inl.h"], [dict(name="augmented red-black tree", where=BP + "detail/interval_tree-inl.h")], ["query results"])
prop("I02", "Dynamic box hierarchies keep every leaf enclosed and reachable",
     "After any sequence of builds, insertions, removals, updates and rebalancings, a dynamic hierarchy holds exactly its inserted leaves with their data, each parent box contains its children's boxes, and the reported size and height are right.",
     ["histories", "configurations"], "all operation histories, build strategies and box distributions",
     "Tests reach the hierarchies only through two managers.",
     [BP + "detail/hierarchy_tree-inl.h", BP + "detail/hierarchy_tree_array-inl.h", BP + "detail/morton-inl.h"], [dict(name="tree surgery and box refitting", where=BP + "detail/hierarchy_tree-inl.h")], ["tree walk after each operation"])
prop("I03", "Hash tables return exactly the objects inserted into the cells queried",
     "After any sequence of insertions and removals, querying a spatial hash table with a range returns every object inserted with a range sharing a cell, and none that was removed.",
     ["histories"], "all histories and ranges, dense and sparse tables",
     "Tests reach the tables only through one manager.",
     [BP + "detail/simple_hash_table-inl.h", BP + "detail/sparse_hash_table-inl.h", BP + "detail/spatial_hash-inl.h"], [dict(name="bucket maintenance", where=BP + "detail")], ["query results"])
prop("I04", "Segment, triangle and projection primitives are exact",
     "Nearest points of segments, point-to-simplex projections, triangle-triangle distance and triangle-triangle intersection agree with the geometry for all inputs, including degenerate ones: reported points lie on the primitives, realise the reported distance, and no closer pair exists.",
     ["inputs"], "all segments and triangles in all relative poses, degenerate and parallel cases",
     "Tests cover a few configurations of segments and projections.",
     [PR + "triangle_distance-inl.h", "include/fcl/math/detail/project-inl.h", TR + "collision/intersect-inl.h", PR + "capsule_capsule-inl.h"], [dict(name="closed-form primitives", where=PR)], ["return values"])
prop("I05", "Polynomial root finding returns all real roots",
     "For every linear, quadratic and cubic polynomial with separated roots, the solver returns each real root once and nothing that is not a root.",
     ["inputs"], "all coefficient ranges, including vanishing leading coefficients",
     "Not covered by tests.",
     ["include/fcl/math/detail/polysolver-inl.h"], [dict(name="closed-form roots", where="include/fcl/math/detail/polysolver-inl.h")], ["solver results"])
prop("I06", "Random samplers stay in their domain and follow their distribution",
     "Every sample lies in the requested range, ball, box or on the unit sphere of rotations, seeding makes sequences reproducible, and sample statistics match the advertised distribution.",
     ["inputs", "histories"], "all bounds, dimensions, seeds and numbers of draws",
     "Tests only use samplers as input generators.",
     ["include/fcl/math/rng-inl.h", "include/fcl/math/sampler/sampler_se3_quat-inl.h", "include/fcl/math/sampler/sampler_r-inl.h", "include/fcl/math/sampler/sampler_se2-inl.h"], [dict(name="generators", where="include/fcl/math/rng-inl.h")], ["samples"])

# ---------------------------------------------------------------- cross-cutting
prop("X01", "No operation corrupts memory, leaks or runs into undefined behaviour",
     "No collision, distance, continuous-collision, broad-phase or model-construction operation on valid inputs reads or writes out of bounds, uses freed memory, leaks, or executes undefined behaviour.",
     ["inputs", "histories", "configurations"], "all operations of the library under the workloads of the other properties",
     "The tests run without sanitizers and would not notice silent corruption.",
     ["include/fcl", "src"], [dict(name="manual arrays, node pools, casts", where="include/fcl/geometry/bvh/BVH_model-inl.h")], ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer reports"])
prop("X02", "Concurrent queries on shared geometry are free of races and answer as alone",
     "Any number of threads may run collision and distance queries on shared, unchanging geometry and on shared broad-phase managers, provided each has its own request and result; there is no data race and every answer equals that of the same query run alone.",
     ["schedules", "inputs"], "all interleavings of concurrent queries over all geometry kinds",
     "All tests are single-threaded.",
     [NP + "collision-inl.h", NP + "distance-inl.h", NP + "detail/gjk_solver_libccd-inl.h", BP], [dict(name="const queries, function-local statics", where=NP + "collision-inl.h")], ["ThreadSanitizer reports, results"])
prop("X03", "Single and double precision agree",
     "The same query on the same geometry in single and double precision gives the same verdict and, within single-precision accuracy relative to the scene size, the same distance, depth and normal-direction answer.",
     ["inputs", "configurations"], "all geometry pairs and poses of moderate size",
     "Tests run most cases in one precision.",
     ["include/fcl/math/constants.h", NP + "detail/gjk_solver_libccd-inl.h", NP + "detail/gjk_solver_indep-inl.h"], [dict(name="scalar-templated algorithms", where="include/fcl")], ["float against double results"])
prop("X04", "No result depends on uninitialised memory",
     "No collision, distance, continuous-collision, broad-phase or model operation lets a value that was never written decide a branch, an address or a result.",
     ["inputs", "histories"], "the operations of the library under reduced workloads of the other properties",
     "The tests run natively, where such reads look deterministic.",
     ["include/fcl", "src"], [dict(name="constructors and partial initialisation", where="include/fcl")], ["valgrind memcheck reports"])
