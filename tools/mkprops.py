#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that wording lives in one place)."""
import json
P=[]
S='src/fields2cover/'; H='include/fields2cover/'
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("G01","Graph shortest-path answers always reflect the edges present now",
 "After any history of adding, re-costing and removing directed or undirected edges (non-negative costs), in any interleaving with queries, the shortest cost reported between two nodes that occur in the graph equals the minimum total cost over the edges present at that moment, and the reported path is a chain of present edges from origin to destination whose costs add up to it. When no chain exists the path is empty and the cost is the caller's 'unreachable' value; edge listings, edge counts and single-edge costs always match the edges present. The same holds for the point-labelled graph, where each distinct point is one node.",
 ["histories"],"all interleavings of edge insertions, re-costings, removals and queries on small node sets, including sinks, self-queries and node numbers with gaps",
 "Tests build a graph, query it and stop; none removes or re-costs an edge after a query, or asks about nodes with incoming edges only, so cached answers are never checked against later edits.",
 [S+"types/Graph.cpp",S+"types/Graph2D.cpp"],
 [("cached all-pairs tables invalidated by edits",S+"types/Graph.cpp"),("point/index maps",S+"types/Graph2D.cpp")],
 ["shortestPath, shortestPathCost, getCosts, getPaths, numEdges, getEdges, getEdgesFrom, getCostFromEdge"],
 [("all-pairs tables","costs and successors computed on first query",S+"types/Graph.cpp")])
p("G02","All-paths enumeration returns exactly the simple paths",
 "For every graph and every pair of its nodes, listing all paths between them returns every loop-free chain of present edges from origin to destination exactly once and nothing else. The listing does not change the graph and gives the same set of paths when repeated.",
 ["inputs"],"all directed graphs up to 4 nodes (and all undirected ones up to 5), all node pairs",
 "One test lists the paths of one 6-node graph; completeness and absence of duplicates quantify over all graphs.",
 [S+"types/Graph.cpp",S+"types/Graph2D.cpp"],[("depth-first search with visited marks",S+"types/Graph.cpp")],["allPathsBetween on both graph classes"])
p("O01","Swath orders are permutations following their documented pattern",
 "For any number of swaths, given in any order and individual direction, and for every variant, each ordering (boustrophedon, snake, spiral of any size, custom) returns every input swath exactly once, identified by id with its width, kind and line unchanged, in the documented visiting pattern: consecutive for boustrophedon, every-second-out-and-back for snake, outside-in blocks for spiral, and exactly the requested permutation for custom. Odd variants traverse the pattern from the other end of the field. A custom order that repeats an index, names a missing one or has the wrong length is rejected with an exception and the caller's swaths are never modified.",
 ["inputs","configurations"],"all swath counts up to a bound, all variants, all spiral sizes, all input permutations of small counts, all custom order vectors (valid and invalid) of small length",
 "Tests check a few sizes; the index arithmetic of the rotations depends on size parity, spiral size and remainder, so correctness is a statement about all sizes.",
 [S+"route_planning/single_cell_swaths_order_base.cpp",S+"route_planning/snake_order.cpp",S+"route_planning/spiral_order.cpp",S+"route_planning/custom_order.cpp",S+"route_planning/boustrophedon_order.cpp",S+"types/Swaths.cpp"],
 [("in-place rotations of the sorted swaths",S+"route_planning/snake_order.cpp"),("block-wise spiral",S+"route_planning/spiral_order.cpp"),("validation of custom orders",S+"route_planning/custom_order.cpp")],
 ["genSortedSwaths result: ids, widths, types, end points"])
p("O02","Ordered swaths alternate driving direction",
 "In the result of every ordering, each swath is driven in the geometric direction opposite to the swath before it, whatever the directions in which the input swaths were drawn. The first swath is driven in the canonical direction (from its lexicographically smaller end) unless the variant asks for the reversed start, in which case it is driven the other way.",
 ["inputs","configurations"],"all combinations of input directions for small swath counts, all orders and variants",
 "Tests feed swaths that were all generated in one direction; mixed drawing directions (hand-made or imported swaths, already ordered swaths fed again) are never tried.",
 [S+"route_planning/single_cell_swaths_order_base.cpp",S+"types/Swaths.cpp",S+"types/Swath.cpp"],
 [("direction normalisation and alternate reversal",S+"types/Swaths.cpp")],["start and end points of the swaths returned by genSortedSwaths"],
 [("creation direction flag","which way a swath points relative to how it was drawn",S+"types/Swath.cpp")])
p("T01","Clones are complete and independent copies",
 "Cloning any value type (point, line, ring, multi-geometries, cell, cells, field, swath, swath collections, strip, route) yields an object equal to the original in every observable attribute, coordinates included to the printed precision of 15 significant digits. Afterwards no operation on either one is observable through the other.",
 ["histories"],"for every type and every reachable attribute combination in the alphabet: clone, then every mutating operation on either side, comparing full snapshots",
 "Tests compare one or two attributes of one clone; completeness over attributes and independence over all later mutations are not exercised.",
 [H+"types/Geometries_impl.hpp",S+"types/Swath.cpp",S+"types/Swaths.cpp",S+"types/SwathsByCells.cpp",S+"types/Field.cpp",S+"types/Route.cpp",S+"types/Strip.cpp",S+"types/Point.cpp"],
 [("deep copy of shared geometry data",H+"types/Geometries_impl.hpp")],["every getter of the original and of the clone"])
p("T02","Swath and swath-collection operations match a sequence model",
 "After any sequence of appends, insertions, reversals, sorts, direction changes, moves and flattening on swaths, swath lists and per-cell swath lists, sizes, order, ids, widths, types, end points and in/out angles are those of a plain list of segments with attributes. Global indexing over per-cell lists addresses exactly the swaths of the flattened list, skipping empty cells, and invalid indices or non-positive widths raise exceptions and change nothing. A swath and its reversal compare equal, swaths that differ in width, length or end points do not, and swaths are ordered by id.",
 ["histories"],"all operation sequences up to a depth bound over a small alphabet of swaths",
 "Tests run short fixed sequences; combinations (sort after reverse, empty cells inside the list, append of clipped lines then reverse) are not covered.",
 [S+"types/Swath.cpp",S+"types/Swaths.cpp",S+"types/SwathsByCells.cpp"],
 [("id assignment and clipping on append",S+"types/Swaths.cpp"),("flattened indexing",S+"types/SwathsByCells.cpp")],["all accessors and comparisons of Swath, Swaths, SwathsByCells"])
p("T03","Geometry containers behave like sequences of their children",
 "After any sequence of adding, replacing, scaling, translating, reversing and in-place iteration edits on lines, rings, point sets, line sets, cells and cell sets, the contents read back by index, by iteration and by coordinate getters are those of a plain list model, lengths and areas included. Setting a child past the end pads with empty children, reading past the end raises an exception, rings added to a cell are closed, and translating or rotating a geometry leaves the original untouched.",
 ["histories"],"all operation sequences up to a depth bound over small coordinate alphabets, for every container type",
 "Tests use single operations on fixed shapes; write-back through iterators, padding and replacement interact only in sequences.",
 [H+"types/Geometries_impl.hpp",H+"types/Point.h",S+"types/LineString.cpp",S+"types/LinearRing.cpp",S+"types/MultiPoint.cpp",S+"types/MultiLineString.cpp",S+"types/Cell.cpp",S+"types/Cells.cpp"],
 [("iterator write-back",H+"types/Geometries_impl.hpp"),("child replacement and padding",S+"types/Cell.cpp")],["size, at, iteration, getX/getY/getZ, length, area, WKT"])
p("T04","Routes keep swaths and connections interleaved and consistent",
 "After any sequence of adding swaths, swath groups and connections to a route, the route alternates connection and swath group starting with a connection, holds every added swath and connection point in insertion order, and its start point, end point, line form and length are those of driving connection 0, group 0, connection 1, group 1 and so on. A swath added with a headland graph is preceded by the shortest chain of graph points from the previous end of the route.",
 ["histories"],"all sequences of route-building operations up to a depth bound, with empty and non-empty swath groups and connections",
 "Tests build routes one way; merging into the last group, empty connections and trailing connections interact only across sequences.",
 [S+"types/Route.cpp"],[("connection/swath-group interleaving rules",S+"types/Route.cpp")],["getVectorSwaths, getConnections, startPoint, endPoint, asLineString, length, isEmpty"])
p("S01","Generated swaths tile the cell at the working width",
 "For every simple cell (convex or not, with or without holes), angle and working width, the generated swaths lie inside the cell, are parallel to the angle, and are exactly the parts inside the cell of equidistant lines one working width apart, the first half a width from the cell's extreme side. Every such line that meets the cell's interior is present with all its parts; each swath carries the working width, mainland type and its position as id.",
 ["inputs","configurations"],"all lattice polygons in a bounded family (with holes and notches), a grid of angles incl. multiples of 90 degrees and generic ones, a set of widths, both overlap settings",
 "Tests check counts on a square and two fields; coverage up to the last line, non-convex splitting and holes quantify over shapes, angles and widths.",
 [S+"swath_generator/swath_generator_base.cpp",S+"types/Swaths.cpp",S+"types/Cell.cpp",H+"types/Point.h"],
 [("rotate, sweep lines, clip",S+"swath_generator/swath_generator_base.cpp")],["generateSwaths for a cell"])
p("S02","Best-angle search returns an optimum and keeps cells apart",
 "For every cell, working width, objective and step angle not larger than a full turn, the best angle is a multiple of the step in [0, 2*pi) at which the objective, with its own minimise/maximise sense, is at least as good as at every other multiple, and the best swaths are the swaths generated at that angle. The result does not depend on the order in which candidate angles are evaluated. For a set of cells the result holds one swath list per cell, in cell order, each equal to processing that cell alone.",
 ["inputs","configurations","schedules"],"bounded polygon family x all five objectives x step angles x evaluation orders of the candidate angles",
 "Tests check the angle on one symmetric field with one or two objectives; optimality is a statement over all candidates and the parallel build is never run by the tests.",
 [S+"swath_generator/brute_force.cpp",S+"swath_generator/swath_generator_base.cpp",H+"objectives/base_objective.h"],
 [("arg-min over the evaluated grid",S+"swath_generator/brute_force.cpp"),("sign handling",H+"objectives/base_objective.h")],["computeBestAngle, generateBestSwaths, generateSwaths over cells"])
p("H01","Headlands leave the margin they promise around every border",
 "For every field (with holes, notches, several cells) and headland width, the remaining mainland is exactly the part of the field at least the headland width away from every outer border and obstacle (around corners pointing into the mainland the margin is mitred, so it may be wider there, never narrower); with several headland passes it is the width times the number of passes. Headland swath rings requested from the outside in are, for each pass, the field shrunk by half a pass more than the previous passes; requested from the inside out they start at the innermost ring, each is the one before widened by a pass width and contains it, and all stay inside the field. Exactly as many rings as requested are returned, none when none is requested.",
 ["inputs","configurations"],"all lattice polyominoes up to a size (with holes, multi-cell fields) and convex lattice polygons, widths, pass counts 0..3, both directions",
 "Tests check areas for a square; margins around obstacles, splits of the mainland and pass counts quantify over shapes.",
 [S+"headland_generator/constant_headland.cpp",S+"types/Cells.cpp",H+"types/Geometry_impl.hpp"],
 [("mitred buffering",H+"types/Geometry_impl.hpp")],["generateHeadlands, generateHeadlandArea, generateHeadlandSwaths"])
p("D01","Decomposition partitions the field into sweepable cells",
 "For every field and split angle, the cells produced by each decomposition lie inside the field, do not overlap and together cover it (up to the width of the cut), with obstacles still excluded. Trapezoidal cells are convex; boustrophedon cells meet every line parallel to the split angle in a single segment and are never more numerous than the trapezoidal ones. A convex field is returned whole by the boustrophedon decomposition; splitting cells by lines likewise preserves the covered area.",
 ["inputs","configurations"],"bounded families of lattice polygons with notches and holes x split angles",
 "Tests compare cell counts and total area on a handful of shapes; disjointness, coverage and shape of the pieces are unchecked and depend on vertex coincidences.",
 [S+"decomposition/decomposition_base.cpp",S+"decomposition/trapezoidal_decomp.cpp",S+"decomposition/boustrophedon_decomp.cpp",S+"types/Cells.cpp",S+"types/Cell.cpp"],
 [("split lines through vertices",S+"decomposition/trapezoidal_decomp.cpp"),("critical-point filter",S+"decomposition/boustrophedon_decomp.cpp"),("split by thin buffers",S+"types/Cells.cpp")],["decompose, splitByLine"])
p("J01","Swath and headland objectives compute what they name",
 "For all swaths and cells: the swath-count objective is the number of swaths, the length objective their total length, the coverage objective the fraction of the cell's area covered by the swaths, the overlap objective the pairwise doubly covered area over the cell's area, and the approximate swath count is half the total edge extent across the driving direction over the working width, the same for every ordering of the same border. The remaining-area objective is the kept fraction of the field. Costs over collections are the sums over their members, and the signed cost is negated exactly for maximising objectives.",
 ["inputs"],"bounded sets of swath lists x cells, every overload, all start vertices of each border",
 "Tests assert single values; pairwise sums, border-index wrap-around and all overloads quantify over sizes.",
 [S+"objectives/sg_obj/overlaps.cpp",S+"objectives/sg_obj/field_coverage.cpp",S+"objectives/sg_obj/n_swath.cpp",S+"objectives/sg_obj/n_swath_modified.cpp",S+"objectives/sg_obj/swath_length.cpp",S+"objectives/sg_obj/sg_objective.cpp",S+"objectives/hg_obj/hg_objective.cpp",S+"objectives/hg_obj/rem_area.cpp",H+"objectives/base_objective.h"],
 [("accumulation over members",S+"objectives/sg_obj/sg_objective.cpp")],["computeCost and computeCostWithMinimizingSign of every objective"])
p("J02","Route cost is additive over everything that is driven",
 "For every route, the direct-distance route cost equals the length of driving it: all swaths, all connections and all links between them in order, with empty connections contributing nothing themselves. The cost between swaths, points, angles and point sets measures from where the robot leaves the first to where it enters the second; a turn-aware objective adds, per link, the length of the turn actually planned for that link.",
 ["histories","inputs"],"all routes built by operation sequences up to a bound; all overload pairs over a small alphabet",
 "Tests evaluate a few fixed routes; direction (end of one, start of next) and empty connections are covered only pointwise.",
 [S+"objectives/rp_obj/rp_objective.cpp",S+"objectives/rp_obj/direct_dist_path_obj.cpp",H+"objectives/rp_obj/complete_turn_path_obj.h"],
 [("sum over swaths, connections and links",S+"objectives/rp_obj/rp_objective.cpp")],["computeCost overloads"])
p("R01","Route planner covers every swath once along the headland",
 "For every set of swaths and headland rings, and whichever feasible tour the optimizer answers, the planned route drives each swath exactly once, with its attributes kept, and only in its given direction when redirecting is not allowed. Consecutive swaths are joined by a shortest chain through the headland network (whose length is the cost the optimizer is given), and with a start/end point set the route begins and ends there. The input swaths are not modified.",
 ["inputs","schedules","configurations"],"bounded swath layouts x all feasible optimizer answers x redirect setting x start/end point",
 "Needs the external optimizer (not present here); tests check one answer per scenario, while the guarantee must hold for whichever tour its time-limited search returns.",
 [S+"route_planning/route_planner_base.cpp",S+"types/Route.cpp",S+"types/Graph2D.cpp"],
 [("coverage graph with mandatory mid-points",S+"route_planning/route_planner_base.cpp"),("tour decoding",S+"route_planning/route_planner_base.cpp")],["genRoute result and the three graph/decoding stages"])
p("P01","Path edits and queries preserve the driven trajectory",
 "For every path, length and task time are the sums over its states; the state at a given distance lies that far along the path (clamped at both ends), in the driving direction of its section; discretizing swath sections keeps length, time, end points and non-swath sections; merging near states keeps total length and the order of types and directions; resampling a straight path keeps its length, ends and sections. Translation, rotation and mirroring move every point and heading rigidly and keep lengths, times, types and directions.",
 ["histories","inputs"],"all short paths over a small state alphabet (forward/backward, swath/turn, zero length) x all operation sequences up to a bound",
 "The path tests are not even buildable here; they check fixed examples, not sequences of edits.",
 [S+"types/Path.cpp",S+"types/PathState.cpp"],[("per-state edits",S+"types/Path.cpp")],["length, getTaskTime, at, atStart, atEnd, discretizeSwath, reduce, moveTo, rotateFromPoint, mirrorX, mirrorY"])
p("P02","Saved paths load back unchanged",
 "Writing any path to a file and loading it into an empty path gives the same sequence of states: points, headings, velocities, lengths to the requested precision, and directions and section types exactly, independent of the process locale. Loading into a non-empty path appends; a truncated file yields only the complete states before the cut.",
 ["inputs","crash_points"],"all short paths over a state alphabet x precisions x every truncation point of the file",
 "Tests write one path and compare text; round trip for all states and torn files is not covered.",
 [S+"types/Path.cpp"],[("text serialisation",S+"types/Path.cpp")],["serializePath, saveToFile, loadFile"])
p("P03","Turns depend only on their geometry, not on earlier turns",
 "For every history of turn requests and settings changes, on any turn planner, a requested turn is the same whether or not the turn cache is enabled and whatever turns were planned before, starts and ends at the requested positions, and its sections carry the robot's turning velocity at the time of the request. Rotating, translating or mirroring the request rotates, translates or mirrors the turn. A turn in normal form is judged valid exactly when it is not empty, no state lies behind the starting line by more than the tolerance, and it ends within the tolerances where and in the direction it was asked to. No turn is planned with a tighter curve or a faster change of curvature than the robot drives; the continuous-curvature planner makes a turn wider only to keep it from circling, and what it plans does not circle where a turn of up to twice the radius avoids it.",
 ["histories","inputs"],"all request sequences up to a depth bound over a small alphabet of poses, robots and settings",
 "Tests plan turns one at a time from a fresh planner and need the external steering library; cache hits after a parameter change are never exercised.",
 [S+"path_planning/turning_base.cpp",S+"path_planning/dubins_curves.cpp",S+"path_planning/dubins_curves_cc.cpp",S+"path_planning/reeds_shepp_curves.cpp",S+"path_planning/reeds_shepp_curves_hc.cpp",H+"path_planning/steer_to_path.hpp"],
 [("normalisation and cache key",S+"path_planning/turning_base.cpp")],["createTurn, createTurnIfNotCached, transformToNormalTurn, isTurnValid"],
 [("turn cache","turns by rounded request",H+"path_planning/turning_base.h")])
p("P04","Path planning drives every swath of a route in order, without jumps",
 "For every route, the planned path contains the swath sections of each swath of the route, in order, direction and at cruise speed, and between consecutive swaths (or through a connection) turn sections that start where the previous swath ends and finish where the next one starts. Each state ends where the next begins (up to the turn discretization), and the total swath length equals the summed length of the swaths. Along a long connection the path passes within one smooth turning radius of every inner corner that is far from the ends and the other corners.",
 ["inputs","configurations"],"bounded routes x turn planners (with the steering library replaced by a deterministic curve generator)",
 "Needs the external steering library; tests check sizes or task times of single paths.",
 [S+"path_planning/path_planning.cpp",S+"path_planning/turning_base.cpp",S+"types/Path.cpp"],
 [("swath/turn concatenation",S+"path_planning/path_planning.cpp")],["planPath, planPathForConnection"])
p("E01","One-call coverage planning covers the mainland for every option",
 "For every field, robot and option combination, the one-call planner returns a route whose swaths are exactly those of the selected swath generator on the field shrunk by the selected headland, each driven once, at the robot's coverage width; the path variant is the path planned from that route. Planning in the local frame and planning through an explicit coordinate system agree on the geometry, and the caller's field and robot are left unchanged.",
 ["inputs","configurations"],"bounded fields x robots x the option product (headland off/on with 1..3 passes, all objectives, both angle modes, turn planners)",
 "Needs both external libraries; there are no tests of the option product.",
 ["src/fields2cover.cpp","include/fields2cover.h"],[("option dispatch","src/fields2cover.cpp")],["planCovRoute, planCovPath"])
p("C01","Coordinate transformations round-trip and keep attributes",
 "Transforming a field, swaths, route, path, line or point to another coordinate system and back returns the original coordinates (within centimetres) with every other attribute of the object kept, and a field's stored geometry plus its reference point always gives its absolute position. After a transformation the field names its current and its previous coordinate system, and transforming back to the previous one restores it.",
 ["histories","inputs"],"all sequences of transformations between a set of coordinate systems up to a depth bound, over bounded geometries in several zones and both hemispheres",
 "Tests convert one field in one zone, and the swath/route/path variants are not buildable here.",
 [S+"utils/transformation.cpp",S+"types/Field.cpp"],[("reference-point bookkeeping",S+"utils/transformation.cpp")],["Transform functions, Field getters"])
p("C02","Coordinate-system strings are parsed and built consistently",
 "For every UTM zone, hemisphere, datum and EPSG code, in every accepted spelling, setting a field's coordinate system and reading back its zone, hemisphere, datum, kind and code returns what was set, and the two kinds exclude each other. A zone computed from a geographic position is the standard one for that position, and unrecognised or empty systems are rejected with an exception unless silent failure is requested.",
 ["inputs"],"all zones x hemispheres x datums x spellings, a grid of longitudes/latitudes, all short malformed strings over an alphabet",
 "Tests try two or three strings.",
 [S+"types/Field.cpp",S+"utils/transformation.cpp"],[("regular expressions on the string",S+"types/Field.cpp")],["Field coordinate-system accessors, Transform::createSptRef, coordinate-system search for a position"])
p("F01","Importers reproduce the file's geometry and attributes",
 "For every well-formed field, swath or strip file (JSON or GML), importing yields one object per feature, in file order, with every ring and point at the stored coordinates, the stored names, widths and ids, and holes kept. Importing a list appends to what the caller already has; number formatting, optional heights and whitespace do not change the result.",
 ["inputs"],"all files over a bounded grammar of features, rings, points and number spellings",
 "Tests import the sample files and check an area or a count.",
 [S+"utils/parser.cpp"],[("JSON and XML traversal",S+"utils/parser.cpp")],["Parser::importGml, importFieldGml, importJson, importCellJson, importSwathsJson, importStripsJson"])
p("F02","Damaged input files are rejected, never crash the program",
 "Importing a missing, empty, truncated or structurally wrong file either succeeds or raises an exception the caller can catch; it never terminates the process, reads invalid memory or hangs. Objects the caller passed in keep what they contained before.",
 ["crash_points","fault_sequences","inputs"],"every truncation point and every single-element deletion or type change of each sample and synthetic file, for every importer",
 "Only 'file not found' is tested.",
 [S+"utils/parser.cpp"],[("exceptions of the JSON library and explicit checks",S+"utils/parser.cpp")],["all Parser importers"])
p("A01","Point and angle arithmetic obeys plane geometry",
 "Angles reduced to a turn lie in [0, 2*pi) and differ from the input by whole turns; the angle difference lies in [0, pi] and is symmetric; the average lies midway on the shorter side; angle continuity never jumps by more than half a turn and preserves each angle modulo a turn. Point arithmetic, rotation about a point, polar offset, line intersection, signed distance and nearest point on a segment agree with plane geometry.",
 ["inputs"],"a grid of angles spanning several turns and its boundary values; all small lattice point tuples",
 "Tests check a few values per function.",
 [H+"types/Geometry_impl.hpp",S+"types/Point.cpp",H+"types/Point.h"],[("modular reduction",H+"types/Geometry_impl.hpp")],["static angle functions and Point methods"])
p("A02","Cell predicates and constructions agree with the polygon",
 "For every polygon (either orientation, any start vertex, with holes): the convexity test is true exactly for convex polygons without holes; inside/border tests agree with the polygon; the nearest border point is nearest over all rings; a line cast from a point stops at the first border met; the cell found for a point contains it; segments listed inside a cell are the parts of the line inside; set operations and hulls have the right area; simplifying a line, cell or set of cells with a tolerance keeps only its own corners, stays within the tolerance of all of them (twice the tolerance where a ring starts) and never makes a simple shape cross itself.",
 ["inputs"],"all simple lattice polygons in a bounded family x orientations x start vertices x lattice query points",
 "Tests try single shapes; start vertex and orientation dependence is untested.",
 [S+"types/Cell.cpp",S+"types/Cells.cpp",S+"types/LinearRing.cpp",S+"types/LineString.cpp"],[("turn-sign scan",S+"types/Cell.cpp")],["isConvex, isPointIn, isPointInBorder, closestPointOnBorderTo, createLineUntilBorder, getCellWherePoint, getLinesInside, union/intersection/difference/convexHull, Geometries::simplify"])
p("A03","Spatial relations and distances agree with the point sets",
 "For every two geometries of any kinds (point, points, line, lines, cell, cells): they intersect exactly when they share a point and are disjoint otherwise; they touch when they meet in their borders only; they cross when their interiors meet and one of them leaves the other (two lines: when they meet in single points); one is within the other when none of it lies outside and the interiors meet; their distance is the smallest distance between their points, zero when they meet; and different shapes never compare equal, while clones and rebuilt copies do. The answers, the extents, width, height and safe length follow every edit of the geometry, and empty geometries meet nothing.",
 ["inputs","histories"],"every ordered pair of a catalogue of lattice shapes in every relative lattice position, and every short history of additions and scalings",
 "Tests ask about a few pairs of boxes; a relation is a statement about every relative position, in particular the touching, overlapping and nested ones, and about every pair of kinds.",
 [H+"types/Geometry.h",H+"types/Geometry_impl.hpp",S+"types/Point.cpp",S+"types/LineString.cpp",S+"types/MultiLineString.cpp",S+"types/MultiPoint.cpp",S+"types/Cell.cpp",S+"types/Cells.cpp"],[("relations delegated to the geometry library",H+"types/Geometry_impl.hpp")],["intersects, disjoint, touches, crosses, within, distance, ==, !=, getDim*, getWidth, getHeight, getMinSafeLength, isEmpty"])
p("T05","Geometries written as text are read back unchanged",
 "For every geometry of every kind, the text written by exportToWkt read by importFromWkt gives the same parts, rings, points and heights to 15 digits, replaces whatever the reading geometry held and leaves others alone; the GML, KML (geographic coordinates) and GeoJSON texts hold the same kind, parts, outer and inner rings and positions in the same order. Writing never changes the geometry. Text that is cut, empty or of another kind does not crash the program and does not spoil the next reading.",
 ["inputs","histories"],"all kinds x all choices of values from a set of awkward numbers, sizes and part counts up to bounds, read over other content, and all pairs of refused texts before a good one",
 "Tests compare the text of one geometry per form with a literal; heights, holes, several parts, awkward numbers and geometries that already hold something are never tried.",
 [H+"types/Geometry.h",H+"types/Geometry_impl.hpp"],[("text forms",H+"types/Geometry_impl.hpp")],["exportToWkt, importFromWkt, exportToGML, exportToKML, exportToJson and the points read back"])
p("X01","Splines pass through their knots and reject bad input",
 "For every strictly increasing sequence of at least two abscissae, the spline takes the given value at every given abscissa, is continuous between them, has no kinks, goes on along its tangent beyond both ends, reproduces straight lines exactly, and depends only on the last points set. Monotone mode additionally keeps the curve between neighbouring values wherever the data are monotone; unsorted, repeated, mismatched or too few points are rejected with an exception, and evaluation never reads invalid memory.",
 ["inputs","histories"],"all knot vectors over small alphabets up to 5 knots, both modes, fresh and reused objects",
 "Tests evaluate one spline at a few abscissae.",
 [S+"utils/spline.cpp"],[("tridiagonal solve and monotone correction",S+"utils/spline.cpp")],["CubicSpline constructor, SetPoints, operator()"])
p("X02","Random fields honour their request and their seed",
 "For every seed and request, the same seed and sequence of requests reproduces the same values; numbers fall in the requested range; generated cells, alone or as fields, have the requested area and number of sides, keep their corners' distances within the requested proportion and are simple; convex requests give convex cells and non-convex requests give non-convex cells; non-positive areas or fewer than three sides are rejected with an exception.",
 ["inputs","histories"],"a block of consecutive seeds x request kinds x sides x areas, all request sequences up to a bound",
 "Tests sample a few seeds.",
 [S+"utils/random.cpp",S+"types/Cell.cpp"],[("seeded engine and rejection loop",S+"utils/random.cpp")],["Random methods"])
p("X03","Robot and field settings stay mutually consistent",
 "After any sequence of settings, a robot reports the last value set for each parameter; turning radius and maximum curvature are inverse to each other and non-negative whichever was set; the turning speed equals the cruise speed until it is set; coverage width defaults to the robot width; invalid widths at construction are rejected. Copies carry all settings.",
 ["histories"],"all setter sequences up to a depth bound over a small value alphabet",
 "Tests set and read single values.",
 [S+"types/Robot.cpp",H+"types/Robot.h"],[("optional turn velocity, curvature storage",S+"types/Robot.cpp")],["Robot getters"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
