T = "bounded exhaustive state-space exploration of the real code against a reference model"
CLAIMS = {}
NA = {}
NOTES = "One Rust crate (harness/) links the working tree of /repo and explores it exhaustively inside the bounds stated per check; see DESIGN.md."
def C(id, note, technique=T, level="model_checking"):
    CLAIMS[id] = dict(technique=technique, note=note, level=level)

C("C01", "All point tuples (length <= 4 over a 2x2x2 lattice, <= 6 over a line, and structured larger clouds in all insertion orders) x all queries of a half-step lattice x radii/boxes/k, real k-d tree against a linear scan. Exhaustive inside those bounds.")
C("C02", "All multisets of boxes with corners on a small lattice x depth limits x bucket sizes x all query boxes / values / rays, real trees against interval predicates over a list. Exhaustive inside those bounds.")
C("C03", "All small lattice clouds in all orders (duplicates, border, split-plane and almost coincident points) x all depth limits, real octree against the set of distinct points.")
C("C04", "Breadth-first search over all operation sequences to the stated depth with values around 2^8, 2^16, 2^32, real containers against Vec<usize>; merged by (storage width, contents).")
C("C05", "Breadth-first search over all edit histories with valid, unknown and huge ids on every vertex/index storage combination, real mesh against a list model.")
C("C06", "All sets of consistently wound triangles over <= 5 vertices (with isolated vertices and unknown/huge ids), real half-edge structure against adjacency derived from the face list.")
C("C07", "All filter expressions to the stated depth over all element sets/initial views, and every shape filter over a half-step lattice, against boolean algebra on sets.")
C("C08", "All views over collections up to 5 elements (including out-of-range indices), every collection type and view operation, against sets of indices.")
C("C09", "All point tuples (every order) over small lattices, real hull against an exact integer-arithmetic hull definition.")
C("C10", "All polylines (tuples) over small lattices x tolerances, real simplification against the distance definition.")
C("C38", "All point tuples over small value sets x all dimensions x containers, against the sorted-permutation definition.")
C("C11", "All pairs of 2D/3D boxes with corners from small value sets (dyadic, decimal, mixed magnitudes), all positions, all point tuples and all shapes over small parameters, against the per-axis interval definition.")
C("C12", "Breadth-first search over operation sequences from every start value of a set including subnormal, huge, infinite and both zeros with every operator/operand, against plain f64 arithmetic; all constructions and comparisons.")
C("C13", "All products of elementary matrices to the stated length, all pipe edit histories to the stated depth, every transformable collection, against direct application of each elementary transformation to the points.")
C("C35", "All pairs and triples of values of every comparable geometric type over coordinates including both zeros, all sequences (with duplicates) up to the length bound for deduplication.")

C("C28", "All lists of up to two boxes (and a lattice of triples) over interval grids x cell counts x all query positions, real cluster against the containment test.")
C("C29", "All face lists of up to three faces over 3-5 vertices, subdivided three times through different mesh storages, against the definition.")
C("C30", "All face lists up to the length bound over vertex tables with coincident vertices, all vertex placements over a lattice x cell sizes, against merging by definition.")
C("C31", "All base point lists over small value sets x point counts, all shapes over sizes, angle pairs and counts, each point against the curve definition (arc length, de Casteljau).")
C("C32", "All short point lists over several value sets and dense lines x every unit type, compressed and restored.")
C("C36", "All operation sequences to the stated depth over every movable/scalable type, against the definition applied to its list of points.")
C("C37", "Breadth-first search over edit histories of 2D/3D polygons (valid, unknown, huge ids) against a vertex list; all short point lists for lengths and centers.")
C("C39", "Breadth-first search over operation histories of every point container (valid, end, outside, huge positions) against a plain list.")
C("C40", "All pairs of 2D/3D vectors over exact, decimal and extreme coordinate sets through every operation in every form; all triangles, small meshes, planes, rotations, matrix entries and short texts, compared with the definition by coordinate.")
C("C41", "All triangle sets over up to 5 vertices in every combination of orientations, short face lists over 6 vertices, every combination of flips of closed bodies.")

C("C33", "All pairs of axis-aligned boxes, rotated boxes and triangles over lattices in both orders against polygon clipping with a margin; all composed objects and containers over a set of primitives.")
C("C34", "All rays, triangles and boxes over lattices, small meshes and object lists against exact integer predicates for hit, miss and position.")

C("C42", "Every line of every text format spoiled in every word, cut or replaced, with empty and comment lines at every place, every cut and read failure; position and text within the error compared with the spoiled line.")
C("C43", "All sequences of words (numbers, special numbers, non-numbers) with all separators and all sequences of lines up to the bounds parsed and compared with their meaning; all assignments of representative values to coordinates shown and the numbers in the text compared.")
C("C14", "All point lists up to the length bound over representative and special doubles x every delimiter x line separator, saved and loaded; all digit patterns of decimal exponents.")
C("C15", "All meshes over small face lists x special coordinates x every writer (PLY ASCII/binary/colored/precision, ASCII STL), saved and loaded.")
C("C16", "All PLY headers over coordinate orders x types x additional properties in every gap x encodings, comments at all pairs of positions, all element orders x property lists, every header line removed/doubled/altered; files by an independent encoder.")
C("C17", "All triangle lists to the length bound x encodings x layouts x every loader and the streaming reader, compared with the triangles the file was written from.")
C("C18", "All OBJ statement sequences to the length bound over 30 statements and all OFF files over line alphabets, compared with an independent interpreter.")
C("C19", "All sequences of block sizes, line alphabets and block transformations, compared with the definition of the formats.")
C("C20", "All PSL structures and LAS layouts in the stated grids, every value of every uninterpreted byte class, every cut; independent encoder.")
C("C21", "All command sequences to the stated depth over 26 commands and longer histories over the state-changing ones, compared with a machine model executed in lock step.")
C("C22", "Every truncation, every single-byte and token mutation, pairs of mutations, all short token/byte sequences and hostile counts on every loader, with panic, allocation and call-count monitors.")
C("C23", "All constant piece sizes and all sets of cut positions up to a deviation bound, with interruptions, for every loader and streaming reader over the corpus: exhaustive exploration of the environment's read schedule.")
C("C24", "Every position and kind of a failing read or write call and every short-write pattern up to the bound, on every loader, streaming reader and writer.", level="fault_enumeration")
C("C25", "Every cut position of every corpus file and of all small generated files with declared contents.")
C("C26", "All call sequences (next / skip) up to the length bound on every streaming reader over valid and broken files, compared with the one-shot loader.")
C("C27", "All assignments of line endings and trailing blanks to the lines of small files up to a deviation bound, for every text loader.")
C("C44", "All sequences of complete, damaged and unresolvable files of every format up to the length bound loaded into the same targets, for three point containers and three mesh types; every corpus file cut anywhere into targets of many sizes; contents compared after every load.")
C("C45", "All lines of words (numbers, non-numbers) and delimiters up to the length bound, all sequences of lines from an alphabet, all tables over delimiter x columns x runs of delimiters x one fault, loaded and compared with an independent reading of the text; all short byte strings through the text helpers.")
