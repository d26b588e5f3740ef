"""What each check builds and how its coverage is reported; the enumerations themselves are in harness/."""
CHECKS = {}


def c(id, harness, level, bounds, rule="", **kw):
    CHECKS[id] = dict(harness=harness, level=level, bounds=bounds, rule=rule, **kw)


MC = "model_checking"
EX = "exploration"

c("G01", "g01_graph.cpp", MC,
  "edit/query histories of length 4 (thorough 5) on 3 nodes with 2 costs; length 3 (4) on nodes {1,4,7}; every 3-node graph with 2 (3) costs x query kind x "
  "one edit; every 4-node digraph; every 3-node digraph with self loops and zero costs, and with 4 costs of up to 2^40; point-labelled histories of length 3 (4), near and thousands of kilometres apart; 8 edge patterns (chains, loops, stars, grids, trees, one-way) of 4 to 39 (73) nodes and of 4 to 34 (63) labelled points, with every pair queried before and after 2 kinds of edits")
c("G02", "g02_paths.cpp", MC,
  "every digraph on 4 nodes (also after removing one edge), on 3 nodes with self loops and with index gaps, point-labelled on 4 points, undirected on 5 nodes "
  "(thorough: every digraph on 5 nodes, undirected on 6); six patterns of 6 to 29 (55) nodes with and without index gaps, limited to those whose simple paths can be listed")
c("O01", "o01.cpp", EX,
  "every permutation x 3 drawing modes per swath x 4 variants x every ordering (spiral sizes 1..n+1) for n <= 4, every permutation for n = 5 (thorough: x2 modes, n = 6), "
  "structured lists up to 16 (40) swaths, every custom permutation for n <= 4 (5), every index vector of length <= n+1 over {0..n, 2^64-1} for n <= 3 (4); structured orders and drawing modes up to 40 (80) swaths",
  rule="an execution is one (input order, drawing directions, geometry, ordering, variant); distinct = distinct ordered result")
c("O02", "o02.cpp", EX,
  "as O01: every permutation x 3 drawing modes x 4 variants x every ordering for n <= 4, every permutation for n = 5, structured lists up to 16 (40), custom permutations n <= 4 (5); structured orders up to 40 (80) swaths",
  rule="an execution is one (input order, drawing directions, geometry, ordering, variant); distinct = distinct ordered result")
c("T02", "t02.cpp", MC,
  "operation histories of length 4 (thorough 5) over 13 operation kinds on swath lists (lines drawn alike / mixed), all per-cell lists of up to 3 (4) cells with 0..2 swaths "
  "x 5 edits x every global index, cuts of up to 3 lines by a cell with or without a hole, every width class through every constructor; lists of 0 to 40 (100) swaths in 4 shapes through 8 operations; lists appended to themselves, heights included; every pair of lines of 2..3 (4) of 4 points, two widths, two ids, reversed or not (equality and order); every list of up to 3 (4) swaths through every constructor")
c("T03", "t03.cpp", MC,
  "edit histories of length 3 (thorough 4) on lines, rings, point sets, line sets, cells and cell sets: 6 to 10 operation kinds each, every index up to two past the end; segments of every chain of up to 6 (8) of 3 points; headings along every chain of up to 4 (5) of 9 points, bad indices included; every 2 (3) of 8 kinds of geometry appended to a line set; containers of 0 to 71 (199) points, 40 (119) lines, 32 (79) cells or holes through 6 or 7 operations")
c("T04", "t04.cpp", MC,
  "construction histories of length 4 (thorough 5) over 10 operation kinds with 0..2 swaths or connection points each, including swaths joined through a headland graph; routes of 0 to 49 (119) pairs in 4 shapes through 6 operations")
c("T01", "t01.cpp", MC,
  "all edit histories of length 2 (thorough 3), interleaved on either side, before and after cloning, over every value type: 2 to 6 start objects and 4 to 12 edits per type")
c("X03", "x03.cpp", MC,
  "setting histories of length 3 (thorough 4) over 11 operation kinds on robots from every constructor and over 10 kinds on fields of 0 to 2 cells, every width pair on a 5x5 grid at construction; coordinate systems set in every spelling")
c("A01", "a01.cpp", EX,
  "every angle k*pi/24 within 4 turns and its neighbouring doubles; every pair of angles k*pi/12 within 3 turns (thorough k*pi/24, 4 turns); every chain of 4 (5) angles out of 11; every pair, triple and quadruple of points of a 3x3 grid (segments: 4x4, "
  "thorough 5x5) in 3 frames",
  rule="an execution is one tuple of angles or points; distinct = distinct tuple")
c("A02", "a02.cpp", EX,
  "every simple polygon with up to 6 (thorough 8) vertices on a 3x3 grid, both orientations, every start vertex, 4 frames, 5 hole positions (convexity); every CCW polygon with up to 5 (6) vertices x 2 (3) frames x holes x 49 query points / 25 ray origins x 12 "
  "angles / 20 lines; every non-pinched 3x3 polyomino (point location, rays, hulls) and a fixed sixteenth (thorough: all) of their pairs (set operations); polygons with several holes; 7 (22) sizes up to 65 (100) corners, holes or cells of combs, zigzags, circles and grids x 2 frames x both orientations; the small polygons with every edge roughened at 3 sizes, simplified at 4 (6) tolerances",
  rule="an execution is one shape or pair of shapes with all its queries; distinct = distinct shape")
c("A03", "a03.cpp", EX,
  "34 lattice shapes (points, sets of points, lines, sets of lines, cells with and without holes, sets of cells): every ordered pair in each of 25 (thorough 162) relative places, 2 (3) exact frames, alone or as a set of one; "
  "every history of 3 (4) additions and scalings of four kinds of shape, with the relations to all 34 asked after each; every pair of an empty geometry with the shapes and with each other",
  rule="an execution is one placed pair with all its questions, or one history; distinct = distinct pair or history")
c("T05", "t05.cpp", EX,
  "seven kinds of geometry x every choice of 12 numbers (signs, 1e-15 to 1e15, unrepresentable fractions) for x, y and height; rings of 3 to 300 (thorough 1000) points, 1 to 5 (9) parts, 0 to 2 holes, with and without heights, read over every other one; "
  "every pair of 26 cut, empty, strange or other-kind texts before a good one",
  rule="an execution is one geometry written in four forms and read back, or one sequence of texts; distinct = distinct text")
c("S01", "s01.cpp", EX,
  "every CCW polygon with up to 5 (thorough 6) vertices on a 3x3 grid, every connected 3x3 polyomino (holes and notches included), a 4x4 square with every subset of 4 holes and a notch, each x 2 (3) frames x 12 (20) angles x 4 (7) widths; "
  "every pentagon and hexagon x 3 angles x 2 widths; every 3x3 polyomino set; request histories of length 3 (4); an angle of more than one turn; combs, zigzags and grids of up to 12 (30) teeth or holes",
  rule="an execution is one (cell, angle, width) request or request history; distinct = distinct request with at least one swath")
c("S02", "s02.cpp", MC,
  "4 cells x 5 objectives x both senses x 12 step angles (dividing a turn or not) x 3 widths; every assignment of costs {0,1,2} to up to 6 (thorough 7) candidates; every evaluation order of up to 5 (6) candidates; every interleaving of 2 and 3 candidate "
  "evaluations on threads that switch at the objective's entry and exit; sets of up to 3 cells; 9 (19) numbers of candidates up to 3600 (10000) with the best one at every tested place; sets of 5 to 33 cells", defs=["-DALLOW_PARALLELIZATION", "-I" + __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "stubs", "parallel")],
  technique="stateless model checking of the real code: exhaustive enumeration of inputs, evaluation orders and thread schedules against an exhaustive scan",
  assumptions=["threads switch only where the objective is entered and left, so races inside the geometry library are out of scope"])
c("J01", "j01.cpp", EX,
  "every list of up to 3 of 8 axis-aligned swaths x 7 polyominoes (holes, several cells) x 2 frames (3 swaths: 5 x 1, thorough all); every structure of up to 3 lists of up to 2 (thorough 3) of 4 swaths; every lattice polygon with up to 5 (6) vertices, both orientations, "
  "every start vertex, with and without hole x 5 angles x 2 widths x 2 frames; field/kept pairs of 3x3 polyominoes (every subset of every second field, a fixed sample index of the others; thorough: all subsets, a third of the others); 0 to 40 (89) axis-aligned swaths in 3 arrangements over 3 fields",
  rule="an execution is one set of swaths, cells and request; distinct = distinct request")
c("J02", "j02.cpp", EX,
  "every route of up to 2 (thorough 3) connection/group pairs with 0..2 points and 0..2 of 4 swaths built through 3 different call sequences; every empty/non-empty pattern of 4 (5) pairs; every pair of swaths, point and angle through every overload; turn-aware costs of all 2-pair routes "
  "under changes of robot and planner; routes of 0 to 33 (79) pairs, groups or connections in 4 shapes; swaths of 8 (17) numbers of points up to 65 (129) in 4 forms, 1 to 3 of them in 4 places of a route", rule="an execution is one route or one overload call set; distinct = distinct route", needs_extra=True,
  assumptions=["turns are planned with a stand-in for the absent steering_functions library (a plain Dubins generator)"])
STUB = ["turns are planned with a stand-in for the absent steering_functions library (a plain Dubins generator)"]
c("P03", "p03.cpp", MC,
  "every history of 3 (thorough 4) of 12 (17) settings changes and turn requests (same turn mirrored, rotated, moved, and requests 0.4 mm apart) on 4 planners and a user's planner; every geometry of 4 distances x 5 (7) directions x 8x8 (12x12) angles "
  "with its translation, two rotations and mirror image; 5 distances x 4 directions x 8x8 square angles; 3 x 12 x 36x36 normal forms; every geometry of 3 distances x 5 directions x 8x8 angles on a user's planner that drives backwards; every path of up to 3 (4) states around every limit of a valid turn; 5 planner calls x 2 radii x 2 sharpnesses x 6 distances x 12x12 (24x24) angles for the robot's limits and circling turns", needs_extra=True, assumptions=STUB)
c("P04", "p04.cpp", EX,
  "every route of up to 2 groups of 0..2 (second group: 0..1, thorough 0..2 of 4) swaths drawn either way, joined by 0..2 points, with or without a trailing connection; every pattern of empty and non-empty groups and connections of 3 (4) pairs on 4 planners and a shunting user's planner; "
  "every way around a 6-corner headland (start, length, direction, midpoints) before, between or after swaths; ways of 3..5 (7) far corners in 4 shapes x 2 lengths x 3 (7) headings, either way; every list of up to 3 (other planners than Dubins: 2, thorough 3) of 4 swaths drawn either way", rule="an execution is one route and planner; distinct = distinct route and planner", needs_extra=True, assumptions=STUB)
c("P01", "p01.cpp", MC,
  "every path of up to 3 (thorough 4) pieces over 4 lengths x 2 directions x 3 types in 3 shapes (queries at every piece's ends and inside, merging at 4 distances), up to 2 (3) pieces discretized at 4 steps, every composition of 2 (3) of 9 edits, "
  "every straight path of up to 4 (5) pieces resampled; paths of 3 to 68 (140) and of 257 and 1030 pieces in 3 shapes through every operation", needs_extra=True)
c("P02", "p02.cpp", MC,
  "every path of up to 2 states over 3 (one state, thorough: 9) value patterns x directions x types x 4 locales on each side x 5 precisions, into an empty or a used path; 9 value rotations x up to 5 (8) states at full precision; every path of up to 2 states cut after every byte; paths of 9 to 72 (208) and of 1500 states at 2 precisions and 4 locales", needs_extra=True)
c("H01", "h01.cpp", EX,
  "every CCW polygon with up to 5 (thorough 6) vertices on a 3x3 grid, every 3x3 polyomino set (holes, notches, several cells), a 4x4 square with every subset of 4 holes and a notch, 5 fields of touching cells, both orientations, 3 frames, 5 (7) widths, 0..3 passes and rings from either side; combs, stars, grids of holes and of cells of 4 (11) sizes up to 34 (64)",
  rule="an execution is one field and width with all its requests; distinct = distinct field and width")
c("D01", "d01.cpp", EX,
  "every CCW polygon with up to 5 (thorough 6) vertices on a 3x3 grid from two start vertices and both orientations, every 3x3 polyomino set, a 4x4 square with every subset of 4 holes and a notch, each x 3 (4) frames (one at UTM coordinates) x 5 (10) angles relative to the frame and to the field; every pair of 6 lines on 4 fields; combs, stars, grids of holes and of cells of 3 (10) sizes up to 17 (40) x 3 angles; 8 fields with notches, arms, dents and gaps of 3 (9) widths down to 2 (1) cm x frames x angles; 4 and 6 (up to 9) cells of 3 shapes in 9 arrangements",
  rule="an execution is one field and split angle; distinct = distinct field and angle")
c("F01", "f01.cpp", EX,
  "every GeoJSON file of 0..2 features over 5 polygon shapes (0..2 holes) x 7 number spellings x 3 height patterns x 5 layouts x 2 member orders x 3 sets of extra members, into lists of 0..2 fields; every swath file of 0..3 swaths over 4 lines with the same spellings; "
  "every GML file over 5 shapes x 7 spellings x heights x 5 separators x 4 paddings x 4 surroundings (thorough: all names, systems and flags); files of up to 33 (64) features, rings of up to 300 (1025) points, up to 10 holes, swath files as large",
  rule="an execution is one file through every importer that accepts it; distinct = distinct file text")
c("F02", "f02.cpp", MC,
  "7 JSON and 4 XML files cut after every byte (the largest XML every 97th, thorough every 7th), every byte of 2 JSON and 1 XML file dropped, doubled or replaced by 10 others, every JSON value removed, doubled, wrapped or replaced by 24 others (thorough: two changes), "
  "every XML element, attribute and text removed, doubled, renamed, emptied, wrapped or replaced by 34 texts (thorough: two changes), 30 files of another kind, each through all 6 importers with lists that already hold two fields",
  technique="fault enumeration on the real code: every crash point and single corruption of bounded files, with memory and undefined-behaviour monitors", rule="an execution is one damaged file through all importers of its format; distinct = distinct file text")
c("C02", "c02.cpp", EX,
  "60 zones x 4 hemisphere letters x padding x 4 datums x 9 ways of setting and spelling; EPSG codes 0..35000 (quick: every 40th) and 12 others; 60 bands and longitude 180 x 3 (6) offsets x 5 (10) latitudes x 3 starting systems x datum preference; every string of up to 4 (thorough 5) of 9 fragments that names no system; 22 well-formed names "
  "of systems that do not exist through every entry point; 9 positions without a system; every history of 2 (3) of the ways of setting a system on one field", rule="an execution is one string or position through its accessors and transformations; distinct = distinct string or position", needs_extra=True)
c("C01", "c01.cpp", MC,
  "5 places (both hemispheres, the equator, one- and two-digit zones) x 3 fields x 2 (thorough 4) starting systems, every history of up to 2 (one place and field: 3; thorough 4) of 8 (10) transformations (to each system, to UTM with either datum preference, back, rejected, on copies); 8 kinds of objects x 6 variants x every ordered pair of systems (quick: of 4 systems, outside Europe two thirds of the pairs) x "
  "with and without field reference through every overload, there and back", needs_extra=True, assumptions=["the projection library itself is trusted: expected coordinates are computed with it, point by point"])
c("X01", "x01.cpp", EX,
  "every spline of 2..5 knots over 3 gaps (first knot 0 or -3.5) x 4 values (5 knots: 3 values; thorough 6 knots with fixed gaps) in both modes, fresh, copied and on 3 used objects; every straight line over 3 starts x 3 gaps (2..5 knots) x 3 offsets x 4 slopes; "
  "every sequence of 0..4 abscissae over 5 values with as many, one more and one less ordinates; every history of 4 (5) of 16 settings; curves of 10 (26) sizes from 7 to 100 (257) knots x 4 gap patterns x 6 value patterns",
  rule="an execution is one set of points or history; distinct = distinct points, mode or history")
c("X02", "x02.cpp", EX,
  "seeds 0..19999 (thorough 0..199999) and 4 extreme ones x 24 rounds of 14 number requests; seeds 0..999 (9999) x 6 side counts x 6 areas from 1e-9 to 1e12 x 3 width ranges as cells and fields; seeds 0..1999 (19999) x 2 areas x 4 convex side counts and 6 non-convex requests as cells and fields; "
  "4 seeds x every history of 2 (3) of 9 requests with 6 things happening in between (other generators, copies, moves); every pair of 16 requests that must be refused x 8 (64) seeds",
  rule="an execution is one seed with its requests, or one history; distinct = distinct seed, request or history")
c("R01", "r01.cpp", MC,
  "11 headland networks (on and off the ring, holes, two holes at once, several cells, shared ends, coordinates almost equal, far and negative) x every choice of 1..3 (thorough 4) of 4 swaths x directions x grouping x 7 start points x redirect setting x every feasible tour of the optimizer; "
  "the same with 2 swaths on a used planner; no swaths and no headland; fields of 3 (13) numbers of swaths up to 13 (21) in 5 layouts (on, short of and almost on the ring, two cells, a hole) x drawing x grouping x start, with fixed orders as the optimizer's answer", needs_extra=True,
  assumptions=["the optimizer is a stand-in that answers every feasible tour in turn (or-tools is absent)"])
c("E01", "e01.cpp", EX,
  "7 fields (box, corner, hole, two cells, slanted, far away, strip) x 4 robots x headland off or 1..3 passes x 6 given angles x 3 optimizer answers (quick: 2 robots for the second and third answer); 5 fields x 2 robots (thorough 7 x 4) x passes x 5 objectives over all angles; "
  "7 fields x 4 turn planners x 2 robots x 2 headlands x 2 angles through all overloads; 3 places x 5 fields x 3 coordinate systems x 2 robots x 3 headlands x 2 angles; empty fields and headlands that leave nothing",
  rule="an execution is one field, robot and option set through its overloads; distinct = distinct combination", needs_extra=True, defs=["-fno-sanitize=address", "-O2"], assumptions=STUB + ["the optimizer is a stand-in with three fixed strategies (or-tools is absent; R01 explores all answers)"])
