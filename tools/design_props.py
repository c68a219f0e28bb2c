"""Per-property part of DESIGN.md: spec/oracle, what is enumerated (quick | thorough), why it reaches what tests cannot.
tools/gen.py does not read this; tools/design.py writes DESIGN.md from tools/design_head.md, this, and the seeded metas."""
D = {}
def d(id, oracle, bounds, why): D[id] = (oracle, bounds, why)

d("C01", "linear scan over the inserted list (exact distances of the library's own definition; ties may be answered either way, k-nearest is compared by the sorted list of distances)",
  "ordered tuples of length <= 4 over a 2x2x2 lattice, multisets <= 6 on a line/plane, all insertion orders of 5-6 points, structured clouds of up to 300 (thorough 4097) points also scaled by 2^-300..2^300; queries: half-step lattice x radii (0, below/at/above a lattice distance) x boxes x k = 0..n+1",
  "wrong pruning shows only for particular relations between query, split planes and duplicates")
d("C02", "interval predicates over the list of objects' boxes",
  "multisets of boxes with interval ends in a small alphabet (2D/3D, n <= 3-4), many equal and nested boxes, depth limits 0..9 and unlimited, bucket sizes 0..n, all query boxes / axis values / lines; larger structured lists, scaled",
  "an object straddling a split plane, equal boxes that no split separates, and the depth/bucket limits interact")
d("C03", "set of distinct points",
  "multisets, tuples and subsets over lattices (split planes and corners included), almost coincident doubles (neighbouring bit patterns), depth limits; clouds with coordinates up to 1e308; per depth: the collected points are points of the tree, never more than with a larger depth, and complete from some depth on",
  "loss needs a point on the split plane of some level, endless recursion needs coincident points")
d("C04", "Vec<usize>",
  "breadth-first search over push/set/reserve/ensure/upgrade/convert with values around 2^8, 2^16, 2^32 and usize::MAX; long and large containers (width changes after many elements)",
  "the storage width depends on the whole history")
d("C05", "list of vertices and list of index triples",
  "breadth-first search over add vertex / add face / connect / change with valid, just-outside and huge ids for 12 storage combinations, all lookups compared after every step; start states also next to the 8/16 bit limits",
  "stale ids and width changes need histories")
d("C06", "adjacency derived from the face list by definition",
  "all consistently wound, edge-manifold triangle sets over <= 5 vertices in every face order/rotation (smallest), closed bodies, strips, fans, tori up to thousands of faces (thorough 65,538 vertices); unknown and huge ids; rebuilds, the half-edge structure used on its own (results appended to what the caller passes), vertices changed through the searchable mesh",
  "twin matching fails only for particular face orders, borders and pinched vertices")
d("C07", "boolean algebra on truth tables / sets of indices; shapes by distance with exactly representable borders",
  "all expressions to depth 2 (+ parts of depth 3 thorough) over all truth tables, all nestings of collection filters x initial views, shape filters over half-step lattices with all boundary contacts, scaled by powers of two; outlier and direction filters against their definition",
  "combinators and initial views multiply beyond what examples cover")
d("C08", "sets of indices, the selected sub-list",
  "all pairs of views, all views (full, all subsets, stale/out-of-range indices) x every collection type up to 5 elements, histories of unions and applications, large and long views", "out-of-range or unsorted indices, and each container's own implementation")
d("C09", "exact definition: extreme points in integer arithmetic, orientation and containment",
  "every ordered list with duplicates over 3x3 (length <= 6-7), every subset of 3x4/4x4 lattices in several orders and magnitudes (2^-300..2^300), families up to thousands of points", "collinear borders, duplicates and start-point ties depend on input order")
d("C10", "existence of an explanation: a subsequence keeping both ends with every dropped point within tolerance of the line through its kept neighbours (dynamic search over all explanations)",
  "all polylines to length 5-6 over 3x3 grids and graphs to length 8, tolerances 0 and between lattice distances, large polylines", "closed, vertical and backtracking runs")
d("C11", "per-axis interval arithmetic", "all pairs of 2D/3D boxes over dyadic, decimal and mixed-magnitude values, all point tuples, NaN/infinite constructions, boxes of every shape type, large and scaled point sets", "relations must be consistent at touching borders for non-representable numbers")
d("C12", "plain f64 arithmetic restricted to the valid range", "breadth-first search over operation sequences from every special start value (subnormal, huge, infinite, both zeros) with every operator and operand", "range escapes only through underflow/overflow/NaN after several operations")
d("C13", "direct application of each elementary transformation; fixed numeric tables of rotations", "all products of elementary matrices to length 3 (thorough 4), all pipe edit histories (add/remove/clear of each step), every transformable type, magnitudes, multiples of angles", "composition order and stale pipe caches")
d("C14", "the list of points that was saved (bitwise)", "every point over 18-100 special doubles, all lists up to the length x 8 delimiters x line separators, all digit patterns and exponents of decimal numbers", "shortest text forms differ by value")
d("C15", "the mesh that was saved (precision: the number in the text of the same precision)", "all meshes with <= 4 vertices and face lists to the length x special coordinates x every writer; sizes beyond 2^8/2^16", "index width, colours, normals of degenerate faces")
d("C16", "independent encoder that only follows the header", "every coordinate order x types x additional properties in every gap x encodings; element orders x property lists; comments at all pairs of positions; every header line removed, doubled, altered; all values of all index types' borders", "layouts multiply; tests use one or two")
d("C17", "list of triangles the file was written from", "all triangle lists to length 3-4 over five vertices x ASCII/binary layouts x four loaders + streaming reader, forced and detected; all sizes; every line of small files removed/doubled/replaced", "format detection and vertex sharing depend on contents")
d("C18", "independent interpreter of the texts (read-as / rejected / unsettled)", "all OBJ statement sequences over 30 statements to length 3-4, all index lists in all face syntaxes, OFF files over comment/blank placements, counts and line forms; polygons to 300 corners", "statement order, polygons and attribute syntaxes multiply")
d("C19", "definition of the formats", "all sequences of block sizes, PTS line alphabets, pairs and chains of PTX blocks over all signed axis permutations and single changed matrix entries", "state carried over between blocks")
d("C20", "independent encoder", "PSL structures (passes x lines x points), LAS versions x record formats x record lengths x header sizes x gaps x count fields, all raw value patterns, every cut", "header fields multiply")
d("C21", "machine model executed in lock step", "all command sequences to depth 4 (5) over 26 commands, histories of the 8 state-changing ones to depth 6-8, every word combination of a command", "modes and partial coordinates are history dependent")
d("C22", "monitors: panic, abort, hang, allocation (peak and single request), number of requests, number of elements", "every truncation, byte substitution/insertion/removal, hostile token (pair) of every corpus file given to every reader; every short string over byte and token alphabets", "hostile inputs are not what tests sample")
d("C23", "the result for the same bytes delivered at once", "every constant piece size, every position and pair of positions to cut, every subset for small files, interruptions; peeking detectors included; also files whose lines and elements are 20 to 5000 bytes longer than needed", "results depend on the read schedule, i.e. the environment")
d("C24", "a failing source must give an error unless everything needed was delivered; a sink must hold exactly the bytes of the undisturbed save, or the save must fail", "failure of five kinds (once / sticky) at every byte x four deliveries; every write call failing, full, short; every answer sequence with a bounded number of deviations; also files whose lines and elements are 20 to 5000 bytes longer than needed", "fault positions")
d("C25", "declared counts vs. contents", "every cut of every corpus file, of binary PLY elements with further properties, and of LAS records of many lengths; all (declared, present) pairs incl. borders of 2^8, 2^16, 2^31, 2^32; also files whose lines and elements are 20 to 5000 bytes longer than needed", "crash points of a producer")
d("C26", "the one-shot loader on the same bytes; the recorded sequence of items", "every truncation, substitution, deletion, doubled/exchanged line; all histories of next/nth; sources that pause or fail once and continue; also files whose lines and elements are 20 to 5000 bytes longer than needed", "call histories after errors")
d("C27", "the same lines with plain line ends", "every assignment of six line ends to lines with bounded deviations, all subsets with CRLF, all additional blank lines, files with thousands of lines", "only particular lines (header, last, counts) may be parsed differently")
d("C28", "containment test per object", "all lists of <= 2 boxes over interval grids (+ triples) x cell counts x queries on/between/outside borders; many objects and cells, scaled", "borders of the last cell, objects across cells")
d("C29", "definition of midpoint subdivision (as sets of positions, up to rounding; multiplicity of shared vertices)", "all face lists of <= 3 faces over 3-5 vertices x 3 rounds x storages, lattices of triangles, far ids, large meshes", "shared/opposed edges and id arithmetic")
d("C30", "merging by equality / by cluster cell", "all face lists to the length over tables with coincident vertices, vertex placements over lattices x cell sizes, large meshes", "rotated duplicates, degenerate after merging")
d("C31", "curve definitions (arc length, eased arc length, de Casteljau, ellipse, involute)", "all base point lists over small sets x counts, structured lists to 300 (4097), shapes x sizes x angle pairs x counts, 2^-300..2^300", "counts 0/1/2, wrapped angles, coincident base points, overflow")
d("C32", "grid resolution bound per axis", "all short lists over several value sets, dense lines, large/scaled/far clouds x unit types", "upper border, large units, far origins")
d("C33", "polygon clipping with a margin", "all pairs of boxes, rotated boxes, triangles over lattices in both orders, scaled/moved, composed objects, containers of up to 4099 objects of which exactly one touches the query", "separating axes of edge pairs")
d("C34", "exact integer predicates", "all lattice rays x triangles/boxes, meshes, lists; far rays, magnitudes", "rays parallel to sides, through edges, from inside")
d("C35", "equality by fields; order axioms", "all pairs (hash/eq), all triples (order) per type, all short sequences for deduplication", "signed zeros, field order")
d("C36", "definition applied to the list of points", "all sequences of move/scale/center/resize over every type, scaled, large", "each type has its own implementation; composition")
d("C37", "vertex list", "breadth-first search over add/change histories, all short lists, large ones", "closing segment, unknown ids")
d("C38", "sorted permutation with lexicographic ties", "every list over small value sets x dimensions x entry points, large lists", "ties and duplicates")
d("C39", "Vec", "breadth-first search over histories of every container, from empty to 4097 elements", "positions at and beyond the end, huge values")
d("C40", "definition by coordinate with rounding margin", "all pairs over three coordinate sets x factors x all forms; triangles, planes, parsing", "duplicated implementations")
d("C41", "existence of a consistent orientation", "all triangle sets over <= 5 vertices x all orientations, bodies/strips/tori to 300 (4097) faces", "propagation order")
d("C42", "number and text of the spoiled line", "every line of every format spoiled in every word, blank/comment lines inserted anywhere, second fault behind, every cut/failure; faults behind long prefixes", "line counters in every reader and state")
d("C43", "the numbers in the text", "all sequences of words and separators, of lines, all assignments of representative values", "texts with superfluous or missing parts")
d("C44", "contents before, followed by the file's contents", "all sequences of complete, damaged, unresolvable files of every format to length 3-4 into the same targets (3 containers, 3 meshes); corpus files cut anywhere into targets of 1..65,534 elements", "only histories show wrong offsets")
d("C45", "independent column reader", "all lines of words and delimiters to a length, all lists of lines, tables over delimiter x columns x runs x one fault, helpers over all short byte strings", "delimiter runs, missing columns")
