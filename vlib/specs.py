"""How each property is monitored: workload size, oracle, what counts as observed."""
from props import part, spec

REFASS = ["the harness's reference geometry (support functions, duality-gap distance, inscribed-polytope depth) is right",
          "dimensions 0.2 to 3, poses within a few units, unless the note says otherwise"]
PAIRRULE = "a case whose reference answer is certified on one side of the margin; distinct by shapes, poses and solver"

spec("N01", [part("np", 120000, 4000000)],
     "runtime monitoring: online oracle on collide() results over generated pairs, certified reference geometry",
     "Judges pairs whose certified gap exceeds 5e-4 or certified depth exceeds 1e-3; closer ones are skipped and counted. All 49 ordered pairs, both solvers, both entry points.",
     PAIRRULE, {"checked colliding": 30000, "checked apart": 25000}, REFASS)
spec("N02", [part("np", 120000, 4000000)],
     "runtime monitoring: online oracle on contacts, moving the object as the contact says and re-measuring with certified reference geometry",
     "Residual overlap after the move at most 2e-3 (2% + 15% of depth for the EPA solver), position within depth + 2e-3. Recorded EPA failures are tolerated up to a recorded rate.",
     PAIRRULE, {"contacts checked": 30000}, REFASS)
spec("N03", [part("np", 300000, 20000000)],
     "runtime monitoring: online oracle on distance() results against a duality-gap certified reference distance",
     "Tolerance 2e-5 relative for the libccd solver, 3e-4 for the other; witness points within 5e-4.",
     PAIRRULE, {"separated checked": 50000, "overlapping checked": 8000}, REFASS)
spec("N04", [part("np", 60000, 2000000)],
     "runtime monitoring: online oracle on signed distance() results, moving the object by the witness vector and re-measuring",
     "libccd solver: depth within 2e-4 and witness points within 5e-4; other solver: the depth of its contact, bounded by the true depth.",
     PAIRRULE, {"overlapping checked": 25000, "separated checked": 6000}, REFASS)
spec("N06", [part("np", 300000, 4000000)],
     "runtime monitoring: online oracle on collide() and shapeTriangleIntersect results against exact extents along the plane normal",
     "Depth, normal, position and residual after the move, for every bounded shape and triangle against half-spaces and planes, both orders and solvers; verdicts of unbounded pairs. Pairs within 5e-4 of contact are skipped and counted.",
     "a case at least 5e-4 from contact; distinct by shape, extent and solver",
     {"colliding checked": 140000, "apart checked": 50000, "triangles checked": 140000, "unbounded pairs checked": 18000}, REFASS)
spec("N07", [part("np", 200000, 2000000)],
     "runtime monitoring: online oracle on shapeTriangleIntersect/shapeTriangleDistance results against certified reference distance and depth",
     "All bounded shapes, both solvers, triangle given in world coordinates or posed. Recorded EPA failures are tolerated up to a recorded rate.",
     PAIRRULE, {"colliding checked": 45000, "apart checked": 75000}, REFASS)

BPRULE = "a scene judged; distinct by manager, configuration and object boxes"
BPASS = ["object boxes as given by getAABB(), queries after setup()/update()"]
spec("B01", [part("bp", 9000, 400000)],
     "runtime monitoring: the callback log of every query checked against all-pairs enumeration of the object boxes",
     "14 manager configurations; populations in nine styles (clusters, touching grids, piles, lines, mixed sizes, half-spaces and planes), bulk and single registration, self, object, manager and own-manager queries, and the shipped callback.",
     BPRULE, {"scenes": 8000, "pairs required": 5000000, "default-callback queries": 4000}, BPASS)
spec("B02", [part("bp", 60000, 2000000)],
     "runtime monitoring: minimum seen by an exact pair-distance callback checked against the minimum over all pairs",
     "Pair distance is that of the boxes or of inscribed balls, optionally stopping at zero; the shipped distance callback on small scenes.",
     BPRULE, {"scenes": 50000, "distance minima compared": 400000}, BPASS)
spec("B03", [part("bp", 60000, 2000000)],
     "runtime monitoring: model-based checking of random operation histories, the model being the set of registered objects",
     "3 to 25 operations per history; object list, size, emptiness and all queries judged after operations, on every manager configuration.",
     "a state of a history judged; distinct by manager, history and boxes", {"states checked": 200000, "operations": 500000}, BPASS)
spec("B04", [part("bp", 9000, 500000)],
     "runtime monitoring: callback log after a callback asked to stop, at first, last and random positions",
     "Also repeats the query after the stops and requires the identical callback sequence.",
     "a stopped query; distinct by scene, query kind and stop position", {"stopped queries": 120000}, BPASS)

spec("I01", [part("intern", 60000, 3000000)],
     "runtime monitoring: model-based checking of random insert/delete/query histories, the model being the set of stored intervals",
     "Up to 400 operations per history; repeated, nested, touching and empty intervals; deletion by node and by interval.",
     "a query of a history; distinct by history and interval", {"queries": 5000000, "deletions": 500000, "intervals required": 40000000}, [])
spec("I02", [part("intern", 200000, 10000000)],
     "runtime monitoring: a structural walk of the live tree after every operation of random histories, both tree implementations",
     "All construction levels, insertion, removal, both updates, refit and the three balancing operations; parent links, leaf set, enclosure, height, size.",
     "a tree state; distinct by history and boxes", {"states checked": 3000000, "nodes checked": 100000000}, [])
spec("I03", [part("intern", 40000, 2000000)],
     "runtime monitoring: model-based checking of random insert/remove/clear/query histories on both hash tables",
     "Objects that share a cell with the query must be returned once, none that was removed may be. Borders decided by rounding are not judged.",
     "a query of a history; distinct by history and box", {"queries": 1000000, "pairs required": 1000000}, [])
spec("I04", [part("intern", 2400000, 100000000)],
     "runtime monitoring: online oracle, closed-form and brute-force geometry, on every return value",
     "Random and integer-grid inputs, so that parallel, coplanar, shared-vertex and degenerate cases occur exactly. Touching triangles are not judged for intersection; intersect_Triangle_ODE_style, which merges points closer than 3e-3, is judged outside that band.",
     "an input; distinct by kind and coordinates", {"segment pairs": 350000, "projections": 350000, "separated triangles": 450000, "intersecting triangles": 100000}, [])
spec("I05", [part("intern", 3000000, 100000000)],
     "runtime monitoring: online oracle, polynomials built from known roots",
     "Roots at least 0.25 apart, complex pairs with imaginary part at least 0.3; lower-degree polynomials also given to the higher-degree solvers.",
     "a polynomial; distinct by coefficients", {"polynomials": 2900000, "roots required": 4000000}, [])
spec("I06", [part("intern", 5000, 200000)],
     "runtime monitoring: range checks on every sample and goodness-of-fit statistics per generator, in a fresh process per case",
     "Kolmogorov-Smirnov and chi-square statistics with a false-alarm probability below 1e-8 per distribution. setSeed() has no effect on the sequence in this library; what is judged is that equal seeds give equal sequences.",
     "a generator's sample sequence; distinct by its values", {"samples": 150000000, "distributions tested": 10000, "sequences repeated": 1000}, ["the process-global seed sequence starts afresh in a forked child"])

MESHASS = ["the harness's separating-axis and closest-point functions for triangles are right", "meshes of up to 60 triangles; poses within a few units"]
spec("M01", [part("mesh", 400000, 20000000)],
     "runtime monitoring: a structural walk of the live hierarchy after building, refitting, updating and replacing, checking membership of every primitive in every node",
     "All eight bounding-volume types, the three split methods, point clouds and triangle sets in ten styles from coplanar to duplicated to 1e-6 and 1e3 sized. Membership is judged from the volume's stored parameters with a rounding allowance; the leaves must partition the primitives.",
     "a hierarchy walked; distinct by type, history and vertices", {"hierarchies checked": 900000, "points checked": 400000000, "updates": 300000, "replacements": 180000}, ["rounding allowance of 1e-7 times the size of the model"])
spec("M02", [part("mesh", 400000, 20000000)],
     "runtime monitoring: the contact list of collide() checked against all-pairs triangle intersection by separating axes",
     "All eight bounding-volume types, with and without contact details, exhaustive and bounded. Pairs touching within 1e-6 are not judged. With contact details a pair is reported with its one or two contact points.",
     "a query judged; distinct by type, meshes and poses", {"queries": 380000, "intersecting pairs required": 900000, "pairs judged": 60000000, "contact points checked": 450000}, MESHASS)
spec("M03", [part("mesh", 400000, 20000000)],
     "runtime monitoring: DistanceResult checked against the minimum over all triangle pairs",
     "AABB, RSS, OBBRSS and kIOS; nearest points, triangle ids, named geometries, relative and absolute error requests, intersecting meshes.",
     "a query judged; distinct by type, meshes and poses", {"separated checked": 350000, "nearest points checked": 220000, "intersecting checked": 13000}, MESHASS)
spec("M04", [part("mesh", 400000, 20000000)],
     "runtime monitoring: contacts and distances checked triangle by triangle against certified reference geometry",
     "Eight bounding-volume types, nine shapes, both orders, both solvers, exhaustive and bounded queries. Distance for RSS, OBBRSS and kIOS, the types that support it against shapes. Triangles within 5e-4 of contact or less than 1e-3 deep are not judged.",
     "a query judged; distinct by type, shape, mesh and pose", {"collision queries": 260000, "touched triangles required": 600000, "triangles judged": 2500000, "distances checked": 110000, "nearest points checked": 65000}, MESHASS)
spec("M05", [part("mesh", 300000, 10000000)],
     "runtime monitoring: model-based checking of random call histories, the model being the documented protocol and the data given",
     "Random in-order and out-of-order histories of every begin/add/end/replace/update call, refits, copies and assignments; return codes, stored vertices and triangles, node enclosure of every built state, independence of copies.",
     "a state judged; distinct by type and history", {"calls": 5000000, "calls refused": 2500000, "copies": 150000, "assignments": 150000, "states checked": 5500000}, [])
spec("V01", [part("bv", 500000, 50000000)],
     "runtime monitoring: membership of every input point and of sampled points of the operands in the produced volume",
     "Fits of 1, 2, 3, 6 and many points, merges near and far, growth by a point, translation, every conversion, constructBox, and computeBV of every shape under every volume. Membership is judged from the volume's stored parameters.",
     "an operation judged; distinct by kind, type and operands", {}, ["rounding allowance of 1e-7 times the size of the operands"])
spec("V02", [part("bv", 1000000, 100000000)],
     "runtime monitoring: overlap and distance answers checked against shared points, and against certified distances",
     "Pairs sharing a constructed point must overlap in both orders and under relative transforms; pairs of boxes with a clear gap must not; distances never exceed that of sampled points, and where exactly computable fall short of the truth by at most 1e-2.",
     "a pair judged; distinct by type and parameters", {}, [])

spec("S01", [part("shape", 600000, 20000000)],
     "runtime monitoring: containment of analytically extreme and sampled points in every reported box and sphere, over pose histories",
     "Ten shape kinds, meshes and octrees; collision objects through setTransform, setRotation, setTranslation and recomputation; all bounding volumes offered by getBoundVertices. Unbounded shapes are judged where their box is axis aligned.",
     "a box judged; distinct by shape and pose", {"world boxes": 4000000, "local boxes": 600000, "bound vertex sets": 250000, "unbounded local boxes": 100000}, REFASS)
spec("S02", [part("shape", 600000, 20000000)],
     "runtime monitoring: mass properties compared with closed forms and with an independent tetrahedral integration",
     "Primitives, random polytopes with triangular and merged polygonal faces, closed meshes, off-centre and scaled.",
     "a body; distinct by shape", {"bodies checked": 550000}, [])
spec("S03", [part("shape", 150000, 5000000)],
     "runtime monitoring: the generated triangles audited as a surface: edge pairing, orientation, vertex distance from the primitive, volume, counts",
     "All primitive kinds, every generateBVHModel overload, several bounding volumes, random poses.",
     "a mesh; distinct by shape and tessellation", {"meshes checked": 140000, "triangles": 30000000}, [])
spec("S04", [part("shape", 200000, 10000000)],
     "runtime monitoring: extreme vertices compared with a linear scan; validation verdicts on proper and corrupted meshes",
     "Polytopes of 4 to hundreds of vertices with flat and polygonal faces; directions random, along face normals and edges, tiny and huge.",
     "a query; distinct by polytope and direction", {"extreme points": 10000000, "large meshes": 100000, "corrupt meshes": 300000}, [])
spec("S05", [part("shape", 600000, 20000000)],
     "runtime monitoring: the text parsed back and compared with the shape's parameters",
     "All shapes, precisions 1 to 17, magnitudes from 1e-6 to 1e6.",
     "a text; distinct by shape and precision", {"texts parsed": 550000, "numbers": 40000000}, [])

OCTASS = ["octomap itself stores what was inserted", "reference geometry of the harness"]
spec("O01", [part("oct", 120000, 3000000)],
     "runtime monitoring: contacts of collide() compared with the set of occupied leaf cells walked from the map, cell by cell, against certified reference geometry",
     "Trees of many depths, resolutions, pruned and expanded leaves, custom thresholds; partners: nine primitives, meshes of all volume types, other octrees; both orders, both solvers; exhaustive, limited and contact-computing requests. Pairs of cells too close to call may go either way.",
     "a query; distinct by tree, partner and poses", {"queries": 150000, "pairs required": 300000, "pairs excluded": 10000000}, OCTASS)
spec("O02", [part("oct", 120000, 3000000)],
     "runtime monitoring: distance() compared with the certified least distance over occupied leaf cells; the named cell and nearest points measured",
     "Both orders and solvers, absolute tolerance from the solver's, cells named looked up again from the nearest point.",
     "a query; distinct by tree, partner and poses", {"separated checked": 70000, "meeting checked": 60000, "cells looked up": 40000}, OCTASS)
spec("O03", [part("oct", 150000, 4000000)],
     "runtime monitoring: an independent walk of the live map compared with toBoxes, the child boxes, the root box and cell lookups",
     "Maps built from updates, point clouds, misses and deletions' equivalents, pruned or not; lookups by id and point at cells, corners, far and foreign points.",
     "a map; distinct by its cells", {"maps checked": 200000, "boxes checked": 6000000, "lookups": 2000000, "nodes walked": 30000000}, OCTASS)
spec("O04", [part("oct", 90000, 1500000)],
     "runtime monitoring: every cost source audited against the two objects' primitives (box, density, total, count, order), and contacts compared with and without cost",
     "Shapes, meshes and octrees in both orders with random densities and thresholds, occupied, uncertain and free, exact and approximate, limits from none to all.",
     "a query; distinct by objects, poses and request", {"sources": 3000000, "meeting pairs": 50000, "limited runs": 60000, "sources of unknown space": 2500000}, OCTASS)

CONTASS = ["reference distances are those of the certified convex reference of harness/ref.h", "contact times are judged with a slack of about 1e-3 plus 3e-4 of the path (12e-4 for spline motions), clear overlap means 2e-3"]
spec("C01", [part("cont", 40000, 600000)],
     "runtime monitoring: every continuous query judged by an independent conservative advancement over a certified reference distance (apart throughout, first approach, clear overlap before the reported time), the naive solver by the collision query at its sample times, and every query repeated through other entry points",
     "Pairs of shapes and meshes of 8 bounding-volume types along translation, linear, screw and spline motions aimed past or into each other, still or spinning.",
     "a query; distinct by objects and motions", {"contact times judged": 8000, "motions certified apart": 8000, "no earlier overlap": 6000, "naive judged": 6000, "queries of polynomial": 2000, "queries repeated": 5000}, CONTASS)
spec("C02", [part("cont", 300000, 6000000)],
     "runtime monitoring: poses at random times in random order compared with closed formulas computed apart, and motion bounds compared with observed displacements",
     "Translation, linear (any reference point), screw and spline motions by every constructor, tiny to half turns, triangles and 8 bounding-volume types.",
     "a motion; distinct by its parameters", {"poses judged": 2500000, "bounds of triangles": 250000, "bounds of RSS": 250000, "bounds of OBB": 40000})
spec("C03", [part("cont", 400000, 8000000)],
     "runtime monitoring: interval, Taylor-model, vector and matrix operations mirrored on sampled members, motion models compared with the motion, boxes of moving objects with the object",
     "Random intervals (points, tiny, huge, signs), chains of model operations, all motion kinds over random time intervals.",
     "a chain of operations; distinct by its values", {"interval operations": 10000000, "models checked": 20000000, "vector operations": 2500000, "motion models Screw": 10000, "boxes of moving objects": 20000})
CROSSASS = ["pairs the certified reference calls too close (within 1.5e-3 of contact) may go either way"]
spec("N05", [part("cross", 150000, 3000000)],
     "runtime monitoring: metamorphic oracle, the same query asked with the arguments exchanged and with both objects moved by one rigid transform, results compared object by object",
     "Every pair kind (primitives, unbounded shapes, meshes of every volume type, octrees), both solvers, collide and distance. Several equally good contacts are recognised by jiggling the pose. Iterative contacts may differ up to a recorded rate.",
     "a pair; distinct by geometry, poses and solver", {"contacts compared": 250000, "contacts agree": 240000, "distances exchanged": 70000, "nearest points checked": 80000}, CROSSASS)
spec("N08", [part("cross", 40000, 1200000)],
     "runtime monitoring: metamorphic oracle over the request options (counts, contact, cost, nearest points, signed distance, error bounds) and over results reused across queries",
     "Every pair kind including the unsupported ones; counts against limits, verdict and distance across options, accumulation, clearing, summaries against contents.",
     "a query with all its option variants; distinct by geometry and poses", {"queries": 33000, "colliding": 13000, "distances": 17000, "limited runs": 100000, "accumulated queries": 33000}, CROSSASS)
spec("N09", [part("cross", 40000, 1000000)],
     "runtime monitoring: histories of mixed queries replayed in random order, answers compared bit by bit, geometry and objects compared byte by byte with their state before, some queries asked in a process of their own",
     "Through collision objects and plain geometry; warm-started queries compared by verdict and pairs.",
     "a history; distinct by geometry and queries", {"repeated queries": 700000, "histories": 35000, "warm starts": 200000, "queries in a process of their own": 4000, "geometries compared": 150000}, [])
spec("N11", [part("cross", 200000, 4000000)],
     "runtime monitoring: collide() against distance() on the same pair, signed distance() against the deepest of all contacts, and distance() before and after one object grows to contain its former self",
     "Every supported pair kind, both solvers.",
     "a pair; distinct by geometry and poses", {"compared": 90000, "grown compared": 90000, "growing starts a collision": 5000, "overlaps with several contacts": 8000}, CROSSASS)
spec("N10", [part("cross", 60000, 1500000)],
     "runtime monitoring: finiteness, exception type, processor-time budget and crash monitors around every query of extreme and degenerate pairs",
     "Dimensions from 1e-8 to 1e8 alike or mixed, degenerate triangles and meshes, repeated corners, octrees of resolution 1e-5 to 1e4; coincident centres, contact to the last bit, almost in contact, far apart, far from the origin; both solvers, tolerances 1e-12 to 1e-2. A query gets 3 s of processor time.",
     "a pair; distinct by geometry and poses", {"pairs": 50000, "collide answered": 50000, "contacts": 30000, "distance answered": 50000, "signed distance answered": 50000, "nearest points": 20000, "meeting": 15000}, ["std::logic_error is how the library refuses a query"])
spec("X03", [part("flt", 400000, 6000000)],
     "runtime monitoring: every query run in single and double precision on geometry both represent exactly, answers compared pair by pair, undecided cases judged by certified reference geometry",
     "Primitives, unbounded shapes, meshes of all volume types, octrees; both solvers; verdict per pair of primitives, contacts, distances, nearest points, signed distances. Iterative contacts may differ up to a recorded rate.",
     "a pair; distinct by geometry and poses", {"collisions": 300000, "contacts compared": 250000, "distances": 150000, "separations compared": 90000, "signed overlaps compared": 25000}, CROSSASS)
# ---------------------------------------------------------------- sanitizers over the workloads of the other properties
SAN = ["crash|", "exit|", "hang|"]
def reuse(cfg, sizes, scale, only, **kw):
    out = []
    for mod, props in sizes:
        for p, q in props:
            out.append(part(mod, q, q * scale, cfg=cfg, prop=p, only=only, **kw))
    return out
spec("X01", reuse("asan", [
        ("np", [("N01", 7200), ("N02", 7200), ("N03", 36000), ("N04", 7200), ("N06", 36000), ("N07", 18000)]),
        ("bp", [("B01", 900), ("B02", 7200), ("B03", 7200), ("B04", 900)]),
        ("intern", [("I01", 3600), ("I02", 9600), ("I03", 1800), ("I04", 240000), ("I05", 240000)]),
        ("mesh", [("M01", 14400), ("M02", 24000), ("M03", 24000), ("M04", 24000), ("M05", 24000)]),
        ("bv", [("V01", 60000), ("V02", 120000)]),
        ("shape", [("S01", 36000), ("S02", 18000), ("S03", 3600), ("S04", 4800), ("S05", 36000)]),
        ("oct", [("O01", 4800), ("O02", 9600), ("O03", 12000), ("O04", 1800)]),
        ("cont", [("C01", 3600), ("C02", 18000), ("C03", 24000)]),
        ("cross", [("N05", 24000), ("N08", 1200), ("N11", 24000)]),
     ], 30, SAN, leaks=1) + reuse("asan", [("cross", [("N10", 3600)])], 30, ["crash|", "exit|"]),
     "sanitizers: AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer (fatal on the first report) over the workloads of the other properties, FCL as shipped with Eigen's index assertions live, extreme inputs included",
     "Every module's workload at reduced size; containers and arrays of the library instrumented. Leaks are judged at the end of each shard.",
     "a case of a workload; distinct by its inputs", {"pairs": 3000}, ["libccd and octomap themselves are not instrumented"])
spec("X02", [part("thr", 8000, 200000, cfg="tsan"), part("thr", 20000, 1000000)],
     "runtime monitoring: ThreadSanitizer over threads sharing geometry, objects and managers; answers compared bit by bit with the same queries alone; random pauses between queries and inside callbacks",
     "2 to 4 threads, the same queries in the same or different orders, first use in the threads themselves; geometry of every kind, every manager; also natively at higher volume.",
     "a world, and a completion order of its threads' queries; distinct by both", {"answers compared": 800000, "switches between threads": 300000, "callbacks in threads": 900000, "shared managers": 18000}, ["libccd, octomap and the C++ runtime are not instrumented"])
spec("X04", reuse("vg", [
        ("np", [("N01", 180), ("N02", 180), ("N03", 600), ("N04", 180), ("N06", 600), ("N07", 480)]),
        ("bp", [("B01", 24), ("B02", 240), ("B03", 240), ("B04", 24)]),
        ("intern", [("I01", 120), ("I02", 240), ("I03", 36), ("I04", 2400), ("I05", 4800)]),
        ("mesh", [("M01", 360), ("M02", 360), ("M03", 360), ("M04", 360), ("M05", 360)]),
        ("bv", [("V01", 1200), ("V02", 1200)]),
        ("shape", [("S01", 480), ("S02", 240), ("S03", 60), ("S04", 60), ("S05", 480)]),
        ("oct", [("O01", 120), ("O02", 120), ("O03", 120), ("O04", 36)]),
        ("cont", [("C01", 36), ("C02", 360), ("C03", 360)]),
        ("cross", [("N05", 360), ("N08", 36), ("N11", 360)]),
     ], 30, ["memcheck|"]),
     "sanitizer: valgrind memcheck over reduced workloads of the other properties; the oracles read every field of every result, so an undefined one decides a branch there at the latest",
     "Every module's workload at reduced size, unoptimised inlining kept low so that reports name the code at fault.",
     "a case of a workload; distinct by its inputs", {}, ["reads of undefined values that never reach a branch, address or oracle go unreported"])
