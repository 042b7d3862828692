#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that it stays consistent and schema-valid)."""
import json, os, sys
J = "jagua-rs/src/"
CD = J + "collision_detection/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "A collision check answers what exact geometry says",
  "Asking the engine whether a (transformed) shape collides returns true exactly when the shape leaves the bin or shares interior points with a hole, with a relevant quality zone or with a placed item that is not on the ignore list, as exact polygon geometry defines it. "
  "The answer is the same with and without the fail-fast pre-check and for every engine configuration (tree depth, proximity grid on or off, surrogate settings), for any simple polygon as bin, hazard or query. "
  "Placements that merely touch are unspecified.",
  ["inputs", "configurations"], "all bins (convex, concave, with holes, zones), all sets of placed items (possibly overlapping, nested), all query shapes and rigid transformations, all ignore lists, quadtree depths 0..7, grid on/off, surrogate settings",
  "The tests run one heuristic on six instances and only rely on debug assertions that compare the engine with itself; no test compares a verdict with independent geometry, and none uses holes, nested shapes or ignore lists.",
  [CD+"cd_engine.rs", CD+"quadtree/qt_node.rs", CD+"quadtree/qt_hazard.rs", CD+"quadtree/qt_partial_hazard.rs", J+"geometry/primitives/edge.rs", J+"geometry/primitives/simple_polygon.rs", J+"geometry/primitives/aa_rectangle.rs"],
  [("edge intersection through the quadtree", CD+"quadtree/qt_node.rs collides"), ("containment test on the pole of inaccessibility", CD+"cd_engine.rs poly_or_hazard_are_contained"), ("constriction of hazards to quadrants", CD+"quadtree/qt_hazard.rs constrict")],
  ["CDEngine::poly_collides", "CDEngine::surrogate_or_poly_collides"])

p("C02", "Engine answers depend only on the registered hazards, not on history",
  "After any sequence of registrations, deregistrations (immediate or deferred), commits, flushes, snapshots and restores, the engine reports exactly the hazards that are logically present and answers every query as an engine freshly built with those hazards would. "
  "Restoring a snapshot brings back exactly the hazards of the moment it was taken, any number of times and whatever happened in between, and queries never change the engine.",
  ["histories"], "all finite histories of engine operations over any set of hazards, including re-registering a hazard whose removal is still pending and restoring over pending removals",
  "The tests follow the single history a greedy heuristic produces (almost only registrations); deferred removals, re-activation and restores in arbitrary orders are never exercised, and their number is exponential in the history length.",
  [CD+"cd_engine.rs", CD+"quadtree/qt_node.rs", CD+"quadtree/qt_hazard_vec.rs", CD+"hpg/hazard_proximity_grid.rs"],
  [("activate/deactivate instead of remove/insert", CD+"quadtree/qt_hazard_vec.rs"), ("difference-based restore", CD+"cd_engine.rs restore"), ("commit of pending removals", CD+"cd_engine.rs commit_deregisters")],
  ["CDEngine::{dynamic_hazards, has_uncommitted_deregisters, poly_collides, collect_poly_collisions, haz_prox_grid}"],
  [("dynamic hazards", "hazards logically present", CD+"cd_engine.rs"), ("uncommitted deregisters", "hazards deactivated but still stored", CD+"cd_engine.rs"), ("snapshot", "saved hazards and grid", CD+"cd_engine.rs")])

p("C03", "Collision enumeration reports every colliding hazard, once, and no other",
  "Collecting the hazards that collide with a shape yields exactly the hazards that exact geometry says it collides with, each once, leaving out the ignored ones (a placed item that reaches the engine's bounds may be missed by a shape that itself leaves them). "
  "Entries already in the caller's buffer are kept untouched and not reported again, and the collection is non-empty exactly when the yes/no check says collision (for shapes within the engine's bounds).",
  ["inputs", "configurations"], "all bins, hazard sets (including overlapping hazards, items on quality zones, shapes enclosing hazards or the whole bin), query shapes, ignore lists and pre-filled buffers",
  "The enumeration functions are called by no test at all; overlapping hazards, the case in which one hazard can mask another, never occur in the sampled runs.",
  [CD+"cd_engine.rs", CD+"quadtree/qt_node.rs"],
  [("collection over tree nodes", CD+"quadtree/qt_node.rs collect_collisions"), ("containment pass over all hazards", CD+"cd_engine.rs collect_poly_collisions"), ("temporary ignore range in the buffer", CD+"cd_engine.rs collect_poly_collisions")],
  ["CDEngine::collect_poly_collisions"])

p("C04", "Fail-fast checks never reject a collision-free placement",
  "The poles and piers generated for a shape (centred as the parser centres it) lie inside that shape, whatever its form and the surrogate settings. "
  "Therefore, for every transformation, whenever the fail-fast check reports a collision (or reports a specific hazard), the full shape really collides (with that hazard); moved with the shape, the surrogate stays inside it.",
  ["inputs", "configurations"], "all simple polygons (concave, with vertices aligned on sampling rays), surrogate settings (number of poles and piers, coverage goal), hazard sets and transformations",
  "Tests use the surrogates of six instances and never compare them with their shapes; a pole or pier leaving the shape only makes the heuristic silently skip feasible positions.",
  [J+"geometry/fail_fast/sp_surrogate.rs", J+"geometry/fail_fast/poi.rs", J+"geometry/fail_fast/piers.rs", CD+"cd_engine.rs"],
  [("pole generation", J+"geometry/fail_fast/poi.rs"), ("pier clipping", J+"geometry/fail_fast/piers.rs clip"), ("surrogate query", CD+"cd_engine.rs surrogate_collides")],
  ["SimplePolygon::surrogate", "CDEngine::surrogate_collides", "CDEngine::collect_surrogate_collisions"])

p("C05", "Broad-phase answers 'definitely' only when it is certain",
  "When the engine says that a point, segment or circle definitely collides, it does, and when it says it definitely does not, it does not; otherwise it must say that it cannot tell. "
  "Listing the hazards within a rectangle, segment or circle returns every hazard whose boundary or interior provably meets the query in its cells and never one that is ignored or has been removed.",
  ["inputs", "configurations", "histories"], "all hazard sets, points, segments, circles, rectangles, ignore lists and tree depths, also with removals pending",
  "No test calls these queries directly, and a wrong 'definite' answer in one cell of the tree needs a particular shape-to-cell alignment.",
  [CD+"cd_engine.rs", CD+"quadtree/qt_node.rs", CD+"quadtree/qt_hazard.rs"],
  [("three-valued descent", CD+"quadtree/qt_node.rs definitely_collides"), ("entire/partial/none classification", CD+"quadtree/qt_hazard.rs constrict")],
  ["CDEngine::{point_definitely_collides_with, edge_definitely_collides, circle_definitely_collides, hazards_within}"])

p("C06", "The proximity grid is up to date and never rules out a feasible spot",
  "Whenever the grid can be read, every cell holds the distance from its centre to the nearest static hazard or item surrogate currently present, as if computed from scratch; while deferred removals are unprocessed it refuses to be read, and flushing makes it readable again. "
  "The grid covers the bin, and a cell that is ruled out for an item contains no position of the item's widest point at which the item could be placed without collision.",
  ["histories", "inputs", "configurations"], "all operation histories, bins, items, grid resolutions and item qualities",
  "The tests only check that a heuristic guided by the grid finds something; a cell wrongly ruled out or a stale value is invisible in the result of a random search.",
  [CD+"hpg/hazard_proximity_grid.rs", CD+"hpg/hpg_cell.rs", CD+"hpg/boundary_fill.rs", CD+"hpg/grid.rs", CD+"hpg/grid_generator.rs", CD+"cd_engine.rs"],
  [("boundary fill propagation", CD+"hpg/boundary_fill.rs"), ("recomputation on removal", CD+"hpg/hpg_cell.rs deregister_hazards"), ("dirty state", CD+"hpg/hazard_proximity_grid.rs is_dirty")],
  ["CDEngine::haz_prox_grid", "HPGCell::{hazard_proximity, could_accommodate_item}"],
  [("uni_prox", "distance to the closest universal hazard and which one", CD+"hpg/hpg_cell.rs"), ("uncommitted deregisters", "removals not yet reflected", CD+"hpg/hazard_proximity_grid.rs")])

p("C07", "Quality zones block exactly the items that demand better quality",
  "A zone of quality q blocks an item exactly when the item requires a quality higher than q or states no quality (full quality required); the bin's outside, its holes and other items block every item. "
  "Filters combine as the union of what they ignore, and the same rule governs collision checks, the filters handed to the engine, and the proximity grid.",
  ["inputs", "configurations"], "all zone qualities 0..9, item qualities (absent, 0..10), bins with several zones per quality, overlapping zones and holes, filter combinations",
  "No instance used by the tests that run reliably contains items with different qualities over several zones, so the comparison direction and boundary values are never observed.",
  [CD+"hazard_filter.rs", J+"entities/item.rs", J+"entities/bin.rs", CD+"hazard.rs", CD+"hpg/hpg_cell.rs", J+"entities/quality_zone.rs"],
  [("quality cutoff filter", CD+"hazard_filter.rs QZHazardFilter"), ("static hazards from zones", J+"entities/bin.rs generate_bin_hazards"), ("per-quality proximity", CD+"hpg/hpg_cell.rs hazard_proximity")],
  ["generate_irrelevant_hazards", "CDEngine::poly_collides with the item's filter", "HPGCell::hazard_proximity"])

p("C08", "Bin packing: demand and stock are conserved by every operation",
  "At every moment, for each item type the number placed over all open layouts plus the number still missing equals the demand, and for each bin type the number of open layouts plus the remaining stock equals the initial stock. "
  "Opening a bin consumes one piece of stock, a layout whose last item is removed is closed and returns its bin, removing or registering a whole layout accounts for all of its items, and no operation touches an item or layout other than the one named.",
  ["histories", "inputs"], "all sequences of placements (in open layouts or new bins), removals (immediate or deferred), layout removals and registrations, solution creations and restores",
  "Tests place items greedily in one direction and look only at the final solution; counters drift only on particular sequences of removals, layout closings and restores.",
  [J+"entities/problems/bin_packing.rs", J+"entities/problems/problem_generic.rs"],
  [("counters updated with each operation", J+"entities/problems/bin_packing.rs register_layout/deregister_layout"), ("closing of emptied layouts", J+"entities/problems/bin_packing.rs remove_item")],
  ["ProblemGeneric::{missing_item_qtys, placed_item_qtys, bin_qtys, layouts}"],
  [("missing_item_qtys", "demand minus placed", J+"entities/problems/bin_packing.rs"), ("bin_qtys", "remaining stock", J+"entities/problems/bin_packing.rs")])

p("C09", "Bin packing: restoring a solution reproduces it exactly",
  "Restoring any earlier solution of a problem brings back exactly its layouts (same bins, same items at the same transformations, item handles valid again), its missing quantities and its stock, whichever solutions were created or restored in between. "
  "Solutions already created never change, whether they were made from scratch or on the basis of the previous one, and after a restore the problem behaves as it did when the solution was made.",
  ["histories"], "all interleavings of modifications, solution creations (with or without reference to the previous solution) and restores of any earlier solution, in any order",
  "Tests never restore a solution; the incremental path (unmodified layouts reused, removed layouts revived) depends on the whole history since the last solution.",
  [J+"entities/problems/bin_packing.rs", J+"entities/layout.rs", J+"entities/solution.rs", CD+"cd_engine.rs"],
  [("tracking of unmodified layouts", J+"entities/problems/bin_packing.rs layout_has_changed"), ("incremental or full restore", J+"entities/problems/bin_packing.rs restore_to_solution"), ("snapshots", J+"entities/layout.rs")],
  ["ProblemGeneric::{create_solution, restore_to_solution, layouts, missing_item_qtys, bin_qtys}"])

p("C10", "Strip packing: resizing keeps exactly the items that still fit",
  "Changing the strip (at the front, at the back, around the items, to a given rectangle) keeps every placed item that lies in the new strip at its transformation, drops exactly those that do not, and leaves the strip with the requested extent and unchanged height. "
  "Fitting the strip keeps all items and makes it as wide as they are; item counts stay conserved and restoring an earlier solution, also across resizes, reproduces its strip and items.",
  ["histories", "inputs"], "all sequences of placements, removals, resizes, fits, solution creations and restores, for all items and widths",
  "Tests let the heuristic widen and fit a strip in one fixed pattern and only check that a solution exists; which items survive a shrink, and restores across widths, are never checked.",
  [J+"entities/problems/strip_packing.rs", J+"entities/layout.rs", J+"entities/bin.rs"],
  [("rebuild of the layout on resize", J+"entities/problems/strip_packing.rs modify_strip"), ("tolerance when fitting", J+"entities/problems/strip_packing.rs fit_strip"), ("restore by layout identity", J+"entities/problems/strip_packing.rs restore_to_solution")],
  ["SPProblem::{modify_strip*, fit_strip, strip_width, occupied_range}", "ProblemGeneric accessors"])

p("C11", "A layout's engine always mirrors its placed items and bin",
  "At every moment the hazards of a layout's engine are exactly the static hazards of its current bin plus one hazard per placed item with that item's transformed shape, through placements, removals, bin changes, snapshots, restores and copies. "
  "Snapshots are immutable: restoring one brings back the bin, the items under their original handles, and the usage recorded in it, and a layout built from it is equivalent.",
  ["histories"], "all sequences of placing, removing (immediate or deferred), changing the bin, flushing, taking and restoring snapshots and cloning",
  "Only a debug assertion compares the engine with the layout on the few states the heuristic visits; bin changes and restores after them are not executed by any test.",
  [J+"entities/layout.rs", J+"entities/placed_item.rs", CD+"cd_engine.rs", J+"entities/bin.rs"],
  [("hazard registered with each placement", J+"entities/layout.rs place_item"), ("engine rebuilt from the bin", J+"entities/layout.rs change_bin"), ("snapshot of items and engine", J+"entities/layout.rs create_snapshot/restore")],
  ["Layout::{placed_items, cde, bin, usage, hazard_to_p_item_key}", "LayoutSnapshot"])

p("C12", "Solutions survive export to JSON and import unchanged",
  "The transformations in an exported solution, applied to the shapes of the original input file, put every item exactly where the solution has it relative to the container as given in that file, whether or not shapes were centred internally. "
  "Importing the exported solution yields the same containers, items and placements, item and stock counts included, and exporting again gives the same file.",
  ["inputs", "histories", "configurations"], "all instances (bin or strip, centred or not, arbitrary input offsets), all solutions with arbitrary rotations, and strips that were moved or resized",
  "The tests write solutions to disk but never read one back or compare absolute positions.",
  [J+"io/parser.rs", J+"io/json_solution.rs", J+"geometry/transformation.rs", J+"geometry/d_transformation.rs", J+"entities/bin.rs"],
  [("internal to absolute transformation", J+"io/parser.rs internal_to_absolute_transform"), ("absolute to internal transformation", J+"io/parser.rs absolute_to_internal_transform"), ("pretransforms", J+"io/parser.rs centering_transformation")],
  ["compose_json_solution", "build_solution_from_json", "Parser::parse_and_build_solution"])

p("C13", "A parsed instance says what the input file says",
  "Every item keeps its demand, value, required quality, shape and allowed orientations (absent means any angle, degrees become radians), and every bin its cost, stock (absent means unlimited), outline, holes and quality zones; strips keep their height. "
  "Indices follow the file's order, a repeated closing vertex or clockwise order does not matter, and centring only shifts shapes by a translation that is recorded, moving holes and zones along with their bin.",
  ["inputs", "configurations"], "all well-formed instance files, with every optional field present or absent, with and without centring",
  "Tests parse six benchmark files and never compare the result with the file; most optional fields do not occur in them.",
  [J+"io/parser.rs", J+"io/json_instance.rs", J+"entities/item.rs", J+"entities/bin.rs"],
  [("item parsing", J+"io/parser.rs parse_item"), ("bin parsing", J+"io/parser.rs parse_bin"), ("centring", J+"io/parser.rs pretransform_bin/pretransform_item")],
  ["Parser::parse"])

p("C14", "Simplification only errs on the safe side and within tolerance",
  "A simplified item, hole or zone covers the original shape and a simplified bin outline is covered by it, so what is feasible for simplified shapes is feasible for the originals. "
  "The result is a simple polygon whose area differs from the original by at most the given fraction, and with zero effect when there is nothing to simplify.",
  ["inputs", "configurations"], "all simple polygons, tolerances and both directions",
  "Tests run with one tolerance on benchmark shapes and check neither containment nor area, and a vertex moved to the wrong side hardly changes a picture.",
  [J+"util/polygon_simplification.rs"],
  [("candidate selection per corner type", J+"util/polygon_simplification.rs"), ("area budget", J+"util/polygon_simplification.rs simplify_shape"), ("validity of candidates", J+"util/polygon_simplification.rs candidate_is_valid")],
  ["polygon_simplification::simplify_shape"])

p("C15", "The optimizer only returns feasible solutions within demand and stock",
  "In every solution of the left-bottom-fill optimizer all items lie inside their container, outside holes and inferior zones, pairwise without overlap, at an allowed orientation, with no item type above its demand and no bin type above its stock. "
  "For strip packing the strip has the instance's height and all items are placed; for bin packing an item is left out only when it was not found to fit any bin with stock.",
  ["inputs", "configurations"], "all instances, seeds and optimizer configurations",
  "The tests run six benchmark files with one seed and assert no geometric feasibility of the result.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/rotation_distr.rs", "lbf/src/samplers/uniform_rect_sampler.rs"],
  [("item-by-item placement", "lbf/src/lbf_optimizer.rs solve"), ("sampling with collision check", "lbf/src/lbf_optimizer.rs sample_layout"), ("strip widening", "lbf/src/lbf_optimizer.rs")],
  ["LBFOptimizer::solve"])

p("C16", "The optimizer is deterministic for a given seed",
  "Two runs on the same instance with the same configuration and seed return identical solutions, independent of the number of threads, of earlier runs in the same process and of the process itself.",
  ["inputs", "configurations", "schedules"], "all instances, seeds, thread counts used while parsing, and repetitions within or across processes",
  "Tests run every instance once and compare nothing; a dependency on iteration order of hash maps, addresses or time shows only between runs.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/main.rs", J+"io/parser.rs", J+"geometry/fail_fast/poi.rs"],
  [("seeded generator", "lbf/src/main.rs"), ("order-preserving parallel parsing", J+"io/parser.rs parse")],
  ["LBFOptimizer::solve"])

p("C17", "Geometric measures and predicates agree with exact geometry",
  "Areas, bounding boxes, centroids, diameters, convex hulls, distances (point to point, segment, rectangle, circle, polygon) and the relations between rectangles, circles, segments, points and polygons are what exact geometry says, up to rounding. "
  "A polygon's orientation or starting vertex in the input does not matter, quadrants tile their rectangle, and the widest inner circle reported for a shape lies inside it.",
  ["inputs"], "all simple polygons, segments, circles, rectangles and points in general and in axis-aligned or collinear position",
  "There are no unit tests of the primitives; errors in rarely taken branches (interior distances, collinear hull points, vertical segments) survive any end-to-end run.",
  [J+"geometry/primitives/simple_polygon.rs", J+"geometry/primitives/aa_rectangle.rs", J+"geometry/primitives/edge.rs", J+"geometry/primitives/circle.rs", J+"geometry/primitives/point.rs", J+"geometry/convex_hull.rs", J+"geometry/fail_fast/poi.rs"],
  [("shoelace area and centroid", J+"geometry/primitives/simple_polygon.rs"), ("point-in-polygon ray", J+"geometry/primitives/simple_polygon.rs collides_with"), ("hull by monotone chain", J+"geometry/convex_hull.rs")],
  ["SimplePolygon, AARectangle, Edge, Circle, Point public methods", "convex_hull"])

p("C18", "Transformations are rigid motions that compose, invert and decompose",
  "Composing, inverting and decomposing transformations follows the group of rigid motions (rotation, then translation), so that applying a composition equals applying its parts in order, an inverse undoes its original and decomposing then recomposing changes nothing. "
  "Transforming a shape moves its vertices and everything stored with it (bounding box, area, widest point, surrogate) consistently, into a fresh copy or into a reused buffer alike.",
  ["inputs", "histories"], "all sequences of rotations, translations, compositions and inversions, applied to all shapes, with buffers previously holding other placements of the shape",
  "No test covers the algebra; a wrong order of composition is invisible for translations only, which is what most runs use.",
  [J+"geometry/transformation.rs", J+"geometry/d_transformation.rs", J+"geometry/primitives/simple_polygon.rs", J+"geometry/primitives/point.rs", J+"geometry/primitives/circle.rs", J+"geometry/fail_fast/sp_surrogate.rs", J+"entities/placed_item.rs"],
  [("homogeneous matrices", J+"geometry/transformation.rs"), ("decomposition", J+"geometry/d_transformation.rs"), ("transform into buffer", J+"geometry/primitives/simple_polygon.rs transform_from")],
  ["Transformation, DTransformation, Transformable/TransformableFrom implementations"])

p("C19", "Reported statistics describe the solution",
  "Usage is the area of the placed items divided by the area of the containers used (holes excluded), per layout and over the whole solution, completeness is the placed share of the demanded item area, and missing and placed quantities, item counts, used-bin counts and the complete flag match the layouts. "
  "The statistics in problem, solution, snapshot and exported file agree with each other.",
  ["histories", "inputs"], "all instances and all states reachable by placements, removals, resizes, solution creations and restores",
  "Tests print statistics and never check them; deviations (holes, several bin types, partly placed demand) need states the tests do not visit.",
  [J+"entities/problems/problem_generic.rs", J+"entities/solution.rs", J+"entities/layout.rs", J+"entities/bin.rs", J+"entities/instances/instance_generic.rs"],
  [("usage computation", J+"entities/problems/problem_generic.rs usage"), ("layout usage", J+"entities/layout.rs usage"), ("completeness", J+"entities/solution.rs")],
  ["ProblemGeneric::usage", "Solution::{usage, completeness, is_complete, missing_item_qtys, n_items_placed}", "LayoutSnapshot::usage", "JsonSolution"])

p("C20", "The exported SVG draws the solution it is given",
  "A drawing of a layout contains the container outline, its holes and zones, and each placed item exactly once, with coordinates and transformations that put every shape where the layout has it, and a view box that covers the container. "
  "Optional layers appear exactly when asked for and show what they stand for: surrogate circles lie in their item, tree cells drawn as free or blocked are so.",
  ["inputs", "configurations"], "all layouts (bin or strip, with holes, zones, rotated items) and all drawing options",
  "Tests only check that writing the files does not fail; nobody parses them.",
  ["lbf/src/io/layout_to_svg.rs", "lbf/src/io/svg_export.rs", "lbf/src/io/svg_util.rs"],
  [("layout to document", "lbf/src/io/layout_to_svg.rs"), ("transformation attribute", "lbf/src/io/svg_export.rs")],
  ["layout_to_svg"])

p("C21", "The search takes the cheapest feasible placement it draws, first layout first",
  "The search for an item's placement draws from every part of the layout and every allowed orientation where the item could still fit, leaving out only places that cannot hold it or cannot beat the best placement so far; "
  "it returns the drawn feasible placement of lowest cost (ten times the right edge plus the top edge), stays within its sample budget, and more samples or local search around the best never make the result worse. "
  "Items are tried by descending diameter, each in the open layouts first and then in the bins in stock, and the first layout that yields a placement gets the item.",
  ["inputs", "configurations"], "all layouts, items, sample budgets, local search fractions and seeds",
  "Tests run the whole optimizer and assert nothing about the quality of a placement or the order of the search; a search that loses its best placement, skips regions or orientations, or opens a new bin too early still returns feasible solutions.",
  ["lbf/src/lbf_optimizer.rs", "lbf/src/lbf_cost.rs", "lbf/src/samplers/hpg_sampler.rs", "lbf/src/samplers/ls_sampler.rs", "lbf/src/samplers/uniform_rect_sampler.rs", "lbf/src/samplers/rotation_distr.rs"],
  [("best placement kept", "lbf/src/lbf_optimizer.rs sample_layout"), ("cells dropped", "lbf/src/samplers/hpg_sampler.rs tighten"), ("layouts in order", "lbf/src/lbf_optimizer.rs find_lbf_placement"), ("items in order", "lbf/src/lbf_optimizer.rs solve")],
  ["find_lbf_placement", "sample_layout", "HPGSampler", "LSSampler", "LBFPlacingCost", "LBFOptimizer::solve"])

p("C22", "Requests and data the rules do not allow are refused, all others carried out",
  "Opening or registering a layout of a bin type without stock, placing an unknown item, addressing a layout that is not open, a template or (in strip packing) any but the one layout, removing an item through a handle that is no longer valid, deregistering a hazard that is not registered, building a solution on one that is not the problem's current reference, and restoring a layout from another layout's snapshot are refused and never carried out in some other way. "
  "So are outlines with fewer than three or repeated vertices or without area, edges of no length, quality zones of unknown or repeated quality, items and bins whose ids are not their positions, transformations that are not numbers, instance files with both or neither of bins and strip or with shapes that are not supported, and solution files with containers, bins, items or quantities the instance does not have. Everything else is accepted, slivers and bins without any free space aside.",
  ["histories", "inputs"], "all histories of requests to problems, layouts and engines, and all shapes, instances and solution files",
  "Tests only ever ask for what is allowed; a guard that is lost, inverted or moved changes nothing until a caller asks for too much, and then the accounting, the geometry or the exported solution is silently wrong.",
  ["jagua-rs/src/entities/problems", "jagua-rs/src/entities/layout.rs", "jagua-rs/src/entities/bin.rs", "jagua-rs/src/entities/quality_zone.rs", "jagua-rs/src/entities/instances", "jagua-rs/src/collision_detection/cd_engine.rs", "jagua-rs/src/geometry/primitives", "jagua-rs/src/io/parser.rs"],
  [("stock", "jagua-rs/src/entities/problems/bin_packing.rs register_bin"), ("handles", "jagua-rs/src/entities/layout.rs remove_item"), ("outlines", "jagua-rs/src/geometry/primitives/simple_polygon.rs new"), ("files", "jagua-rs/src/io/parser.rs parse, build_solution_from_json")],
  ["BPProblem::register_layout", "BPProblem::create_solution", "SPProblem::place_item", "Layout::remove_item", "Layout::restore", "CDEngine::deregister_hazard", "SimplePolygon::new", "Bin::new", "Parser::parse", "Parser::parse_and_build_solution"])

p("C23", "The program writes one solution file and one drawing per layout, nothing else",
  "A run of the command line program with a readable instance and configuration ends successfully, creates the solution folder if need be, and writes there exactly sol_<name>.json and sol_<name>_<i>.svg for each layout i, "
  "where <name> is the input's file name without its last extension; every other file, the input included, stays as it was and what an earlier run wrote under that name is replaced. "
  "The solution file repeats the instance as given and the configuration in effect (the default where none is given) and holds the solution the optimizer finds with exactly that configuration and seed; the drawings are of its layouts in order, with the drawing options asked for; the log level changes nothing. "
  "The file can be used as an instance again. With arguments missing or unknown, or files missing, unreadable or incomplete, the program fails and writes nothing.",
  ["inputs", "histories", "configurations"], "all instances, configurations, file names and folders, argument forms, and sequences of runs over the same folders",
  "The repository's tests call the optimizer as a library; the program, its arguments and the files it leaves are not tested at all.",
  ["lbf/src/main.rs", "lbf/src/io/mod.rs", "lbf/src/io/cli.rs", "lbf/src/io/json_output.rs", "lbf/src/lbf_config.rs"],
  [("names and order of files", "lbf/src/main.rs main"), ("reading and writing", "lbf/src/io/mod.rs read_json_instance, write_json_output, write_svg"), ("configuration and its defaults", "lbf/src/lbf_config.rs LBFConfig"), ("what the file repeats", "lbf/src/io/json_output.rs JsonOutput")],
  ["lbf -i -s -c -l", "write_json_output", "write_svg", "read_json_instance"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
ids=[x["id"] for x in P]
for x in P:
    assert len(x["title"])<=80, x["title"]
print(len(P))
