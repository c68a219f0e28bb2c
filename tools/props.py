# Single source for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)
# P(id, title, statement, over, quantifier text, why_tests_cant, files, mechanisms[(name, where)])
PROPS = []
def P(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))

P("C01", "K-d tree queries return exactly what a linear scan returns",
  """For any cloud of finite 3D points, duplicates and coincident coordinates included and in any insertion order, a k-d tree
  built from it holds every point exactly as often as it was given, and its nearest, k-nearest, in-sphere and in-box queries
  return the same points (with multiplicity) a linear scan returns: the k smallest distances ordered from nearest to farthest,
  and every point whose distance is at most the radius or whose coordinates lie within the closed box.""",
  ["inputs"], "all point clouds, all query positions, radii, box sizes and k",
  "The tests never build a k-d tree; the benchmark only times it.",
  ["src/kd_tree.rs", "src/functions.rs", "src/distances_3d.rs"],
  [("median split and pruning", "src/kd_tree.rs"), ("per dimension comparison", "src/functions.rs dimension_compare/dimension_dist")])

P("C02", "Bounding-box trees answer queries exactly like a linear scan",
  """For any collection of boxed objects, any maximum depth and any bucket size, 2D and 3D bounding-box trees never miss an object (reports are sets, an object may be reported more than once):
  the set of objects reported as colliding with a query box, as crossing a coordinate value, as hit by a line/ray, or visited by a
  for-each/any query equals the set a linear scan with the corresponding box predicate reports (for collision candidates: at least
  all colliding ones).  Objects outside every query region are never reported as colliding.""",
  ["inputs", "configurations"], "all object collections x depth limits x bucket sizes x query boxes / values",
  "No test builds one of these trees.",
  ["src/aa_bb_tree_2d.rs", "src/aa_bb_tree_3d.rs"],
  [("recursive split with straddling objects in both children", "src/aa_bb_tree_3d.rs new_rec/is_left_of"), ("query pruning", "src/aa_bb_tree_2d.rs, src/aa_bb_tree_3d.rs")])

P("C03", "Octree keeps every distinct point",
  """An octree built from any cloud of finite points with a non-degenerate bounding box contains every distinct point (position) of the cloud exactly once:
  its size is the number of distinct points and collecting it without depth limit returns exactly those points.  With a depth limit it
  returns at most that many points, never fewer for a larger limit, all within the cloud's bounding box, and an unlimited collect for a large enough limit.""",
  ["inputs"], "all point clouds (points on the bounding box, on split planes, duplicates, almost coincident), all depth limits",
  "No test builds an octree.",
  ["src/oc_tree.rs"], [("octant assignment and recursion", "src/oc_tree.rs OcNode::new"), ("depth limited collection", "src/oc_tree.rs collect")])

P("C04", "Index containers behave like a plain list of integers",
  """Every index container (growing-precision, fixed 32 bit (for values that fit 32 bits) and plain vector backed) behaves like a list of non-negative integers under any
  sequence of pushes, reads, overwrites and reservations: a read returns the last value stored at that position whatever widths are needed
  for the other elements, reads and writes past the end are refused (panic) and change nothing, and the length is the number of pushed elements.""",
  ["histories"], "all operation sequences over values around the 8/16/32 bit width thresholds",
  "Existing tests exercise them only indirectly through small meshes with indices below 256.",
  ["src/dynamic_precision_index_vec.rs", "src/u32_index_vec.rs", "src/is_index_container.rs"],
  [("width upgrade", "src/dynamic_precision_index_vec.rs"), ("default implementations for Vec", "src/impls/vec.rs")])

P("C05", "Meshes only ever reference existing vertices and ids stay stable",
  """Under any sequence of vertex additions, face additions (by position, by vertex ids), vertex edits and face edits, a mesh (with any combination of vertex
  and index storage) returns for every id handed out so far exactly the vertex or face last stored for it, and its counts match the successful operations.
  An operation that refers to a vertex or face id that does not exist (however large), or that uses the same vertex twice in one face, returns an error and leaves the mesh unchanged, and no lookup with an unknown id panics or resolves.""",
  ["histories"], "all edit sequences over valid and invalid ids, all storage combinations",
  "The tests build two fixed meshes; the guarantee is about every edit history, including rejected edits.",
  ["src/mesh_3d.rs", "src/is_mesh.rs", "src/is_face_editable_mesh.rs", "src/is_vertex_editable_mesh.rs"],
  [("bounds checks before edits", "src/mesh_3d.rs"), ("face/vertex id arithmetic", "src/mesh_3d.rs")])

P("C06", "Half-edge navigation obeys the mesh topology",
  """For every mesh with consistently wound triangles, searchable-mesh navigation agrees with the face list: each face has three edges in cyclic order under next/previous, each edge's
  tail and origin are the face's vertex pair, an edge's face is the face containing it, and the twin of an edge is the unique edge of another face that runs between the same two vertices in the opposite direction (none on the border).
  Edges and faces reported around a vertex are exactly those of the faces using that vertex as far as the documented traversal promises, and unknown ids give errors, never panics.""",
  ["inputs"], "all small oriented triangle meshes, including borders, isolated vertices and closed surfaces",
  "The existing test looks at one two-triangle mesh and at a handful of ids.",
  ["src/half_edge.rs", "src/searchable_mesh.rs", "src/is_searchable_mesh.rs"],
  [("twin construction", "src/half_edge.rs HalfEdge::new"), ("id arithmetic", "src/half_edge.rs")])

P("C07", "Filters and their combinations are exact boolean predicates",
  """A box, circle or sphere filter allows exactly the positions inside its closed shape (a box filter: within its half sizes, a circle or sphere: within its radius), and and/or/xor/not/all/any/always/never/outer-inner combinations of any filters allow
  an element exactly when the corresponding boolean combination of the parts does (all of nothing allows, any of nothing follows the documented value).
  A direction filter allows exactly the directions within its angle and the outlier filter exactly the positions having at least the required number of neighbours in the search distance; a filter reports its shape's center.
  Filters on whole collections compute views with the same meaning, for any nesting, and restrict rather than extend the view they are given.""",
  ["inputs", "programs"], "all filter expressions over all small element sets and initial views",
  "Tests run a few filters over one recorded point cloud and compare files.",
  ["src/filter_and.rs", "src/filter_or.rs", "src/filter_xor.rs", "src/filter_negate.rs", "src/filter_all.rs", "src/filter_any.rs", "src/filter_outer_inner.rs", "src/filter_box_2d.rs", "src/filter_box_3d.rs", "src/filter_circle.rs", "src/filter_sphere.rs",
   "src/filter_allow.rs", "src/filter_deny.rs", "src/filter_direction_field_2d.rs", "src/filter_direction_field_3d.rs", "src/filter_outlier_3d.rs", "src/filter_random_accessible.rs", "src/filter_all_random_accessible.rs", "src/filter_any_random_accessible.rs"],
  [("combinators", "src/filter_*.rs"), ("view algebra", "src/view.rs")])

P("C08", "Applying views to collections keeps exactly the selected elements in order",
  """Views combine like sets of indices (union, the full view being every index), and applying a view to any collection (vector, deque, linked list, 2D/3D point cloud) or building a collection from it
  yields exactly the selected elements in their original order; a view that refers to positions outside the collection is rejected without changing it.""",
  ["inputs", "histories"], "all views over all small collections, all sequences of view operations, all collection types",
  "Tests apply a handful of views produced by filters.",
  ["src/view.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs"],
  [("union/intersect", "src/view.rs"), ("apply_view/from_view", "src/impls/*.rs")])

P("C09", "The 2D convex hull is the convex hull",
  """For any set of points in the plane, collinear points, duplicates and any input order included, the computed hull consists only of input points, contains no point more than once, is strictly convex in one fixed
  orientation, and every input point lies inside or on it; the result does not depend on the input order (up to where the cycle starts).""",
  ["inputs"], "all finite point sets in any order (all point tuples over small grids)",
  "One test with a few random points and one fixed example.",
  ["src/convex_hull_2d.rs", "src/functions.rs"], [("monotone chain over sorted points", "src/convex_hull_2d.rs"), ("lexicographic sort", "src/functions.rs sort_vec_2d_x")])

P("C10", "Line simplification respects its tolerance",
  """Simplifying a polyline with a given tolerance returns a subsequence of the input (in order) that keeps the first and the last point, and every dropped point lies within the tolerance of the line through the kept points around it (of their common position if these coincide); a polyline that lies entirely within the tolerance of the line through its ends is reduced to its ends.
  This holds for vertical and horizontal runs, repeated points and closed polylines, and never panics for empty or single-point input.""",
  ["inputs"], "all polylines over small grids, all tolerances",
  "No test calls the simplification.",
  ["src/douglas_peucker_2d.rs"], [("recursive split at the farthest point", "src/douglas_peucker_2d.rs")])

P("C11", "Bounding boxes are tight and their relations are exact",
  """A bounding box computed from points is the tightest box around all of them (an error when it would be flat or there are too few points), merging two boxes gives the smallest box containing both, and
  containment, inside, has-inside, collision, crossing, distance, size, center and corner queries agree with comparing the intervals per axis (strict or closed as documented) for all relative positions, touching and nested boxes included.
  The bounding boxes reported by shapes and clouds in 2D and 3D contain the shape.""",
  ["inputs"], "all point sets and box pairs over small grids (all interval relations per axis)",
  "Tests check a few hand-picked boxes.",
  ["src/bounding_box_2d.rs", "src/bounding_box_3d.rs", "src/has_bounding_box_3d.rs", "src/box_3d.rs", "src/box_2d.rs", "src/circle.rs", "src/sphere.rs", "src/point_cloud_3d_f32.rs"],
  [("per axis min/max", "src/bounding_box_3d.rs"), ("interval tests", "src/bounding_box_2d.rs")])

P("C12", "Constrained numbers stay in range",
  """A value of the positive-number type is always greater than zero and a value of the non-negative type is never below zero or NaN, whatever sequence of constructions and arithmetic operations produced it; construction from an out-of-range number or NaN fails, and an operation without a result in range (0/0, 0*infinity, ...) fails instead of storing it,
  and the arithmetic, square root, ordering and max results equal those on plain numbers (a product of positive numbers too small to be represented is the smallest positive number).""",
  ["histories", "inputs"], "all constructions and operation sequences over representative doubles",
  "No test constructs them with bad values or chains operations.",
  ["src/positive.rs", "src/non_negative.rs"], [("checked construction", "src/positive.rs, src/non_negative.rs")])

P("C13", "Matrix transformations compose and act like their definition",
  """Translation, scaling, rotation (around the axes, around a given axis) and composition of 2D and 3D transformation matrices act on points as defined (counter-clockwise / right-handed rotation): transforming by a product equals transforming by its factors in turn (right factor first), a pipe equals the product of its currently set stages in the documented order, the identity changes nothing, and transforming a point cloud, polygon,
  line segment or mesh transforms each of its points and nothing else; the in-place and the copying variants agree.""",
  ["programs", "inputs"], "all short pipelines of elementary transformations over small integer parameters and quarter-turn angles",
  "No test composes matrices.",
  ["src/matrix3.rs", "src/matrix4.rs", "src/matrix3_pipe.rs", "src/matrix4_pipe.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs"],
  [("matrix product", "src/matrix4.rs"), ("pipe order", "src/matrix4_pipe.rs")])

P("C14", "Point files written by the library read back identically",
  """Saving any list of finite 2D or 3D points as text with any supported delimiter and line separator and loading the result gives back the same points in the same order, bit for bit.""",
  ["inputs"], "all short point lists over representative doubles x delimiters",
  "Round trips are tested for one file with one delimiter.",
  ["src/io/xy.rs", "src/io/xyz.rs", "src/utils.rs", "src/is_2d.rs", "src/is_3d.rs"], [("delimiter estimation", "src/utils.rs estimate_delimiter"), ("number formatting", "src/io/xyz.rs save_xyz")])

P("C15", "Mesh files written by the library read back as the same mesh",
  """Saving any mesh as PLY (ASCII, binary, with or without colors/precision choice) and loading it gives the same vertices (exactly, or rounded to the precision written) and the same faces in the same order; saving it as ASCII STL and loading it gives the same triangle list, degenerate triangles included, with the face normals.
  Saving never panics, and building a unit vector from any vector gives unit length or an error.""",
  ["inputs"], "all small meshes over representative coordinates x formats",
  "Two meshes are round-tripped.",
  ["src/io/ply/save.rs", "src/io/ply/load.rs", "src/io/stl.rs"], [("writers", "src/io/ply/save.rs, src/io/stl.rs")])

P("C16", "PLY reading is independent of how the file is laid out",
  """The vertices and faces read from a PLY file depend only on the values of its x, y, z and face-index properties: any order of the vertex properties, float or double coordinates, any integer type of the face count and indices, any additional scalar properties of any type before, between or after, comments in the header, additional face properties, and the choice of ASCII, little-endian or big-endian encoding give the same result.
  A header the reader does not support (missing or repeated coordinates, other elements, other lists, non-triangular faces, unknown types or versions) is rejected with an error, never misread.""",
  ["inputs", "configurations"], "all header layouts with up to a few properties x types x encodings",
  "Tests load a few files with one layout each.",
  ["src/io/ply/header.rs", "src/io/ply/types.rs", "src/io/ply/iterators_internal.rs", "src/io/ply/load.rs"], [("header parser", "src/io/ply/header.rs"), ("before/between/after skipping", "src/io/ply/types.rs")])

P("C17", "All STL entry points agree",
  """For the same triangles, the ASCII and binary STL readers, the format-detecting reader, the unique-vertex, duplicated-vertex and triplet-iterating loaders all describe the same triangle list: the duplicated variant has three vertices per triangle, the unique variant shares a vertex exactly when coordinates are equal (dropping triangles that use a vertex twice, together with their normal), and normals are read as written, whatever the layout of the text, the contents of the binary header and the attribute bytes. Text that is not a sequence of facets is rejected.""",
  ["inputs", "configurations"], "all small triangle lists x encodings x loaders",
  "Each loader is tested on one or two files.",
  ["src/io/stl.rs", "src/utils.rs"], [("format detection", "src/io/stl.rs is_ascii"), ("vertex dedup", "src/utils.rs pack_dupes_indexed / src/io/stl.rs")])

P("C18", "OBJ and OFF files are read as their text says",
  """Loading an OBJ or OFF file gives exactly the vertices and triangles the text lists, in order, ignoring comments, blank lines and unrelated statements, accepting vertex/texture/normal face syntax and additional columns; OBJ polygons are split into a fan of triangles, OFF polygons are rejected; a face that references a vertex the file does not define, or that uses a vertex twice, is rejected with an error, as is a vertex, count or face that cannot be parsed or an OFF file with fewer lines than declared.""",
  ["inputs"], "all short files over a statement alphabet", "Tests load one or two fixed files.",
  ["src/io/obj.rs", "src/io/off.rs"], [("line dispatch", "src/io/obj.rs"), ("count handling", "src/io/off.rs")])

P("C19", "PTS and PTX scans are read completely",
  """Loading a PTS or PTX file returns every point of every block in order, with the transformation of its own block applied in PTX, whatever the number and size of blocks (empty ones included) and whatever extra columns the points carry; a block with an unreadable count, point or matrix line is rejected.""",
  ["inputs"], "all small multi-block files", "Tests load one file per format.",
  ["src/io/pts.rs", "src/io/ptx.rs"], [("block counters", "src/io/pts.rs, src/io/ptx.rs")])

P("C20", "PSL and LAS readers return every point record",
  """Loading a PSL or LAS file returns one point per point record in file order, with the header's scale and offset applied for LAS, for every record count, every supported record format and record length, header size and data offset, whatever the bytes that carry no coordinates are; unsupported versions, record formats and incomplete files are rejected.""",
  ["inputs", "configurations"], "all small files x record formats / layouts", "One file is loaded per format at most.",
  ["src/io/psl.rs", "src/io/las/load.rs", "src/io/las/types.rs"], [("record counters", "src/io/psl.rs"), ("header parsing", "src/io/las/load.rs")])

P("C21", "G-code position tracking follows the machine state",
  """Loading G-code yields one position per move (G1, G2, G3) or position reset (G92) that names an axis: absolute (G90) and relative (G91) modes, partial coordinates, resets, other commands, other words and comments (;) act as they do on the machine, for every sequence of commands; an axis word without a readable number is an error.""",
  ["histories", "inputs"], "all command sequences up to a bounded length", "One file is loaded in the tests.",
  ["src/io/gcode.rs"], [("command dispatch and modal state", "src/io/gcode.rs")])

P("C22", "Readers never panic, hang or exhaust memory",
  """Whatever bytes a reader is given, valid, truncated, corrupted or hostile (huge declared counts, missing fields, non-UTF-8), every loader returns a value or an error within time and memory proportional to the input, and never panics or aborts.""",
  ["inputs"], "all byte strings near valid files: every truncation, every single-byte/token mutation, every short token sequence",
  "Tests only feed well-formed files and a couple of broken ones.",
  ["src/io/*.rs", "src/io/las/load.rs", "src/io/ply/*.rs"], [("checked parsing", "src/io/from_bytes.rs, src/io/byte_reader.rs"), ("error propagation", "src/io/types.rs")])

P("C23", "How the input is buffered does not change what is read",
  """The result of any loader depends only on the bytes of the file: delivering the same bytes in differently sized pieces, down to one byte at a time and with interrupted reads in between, gives the same result as delivering them at once.""",
  ["schedules", "inputs"], "all ways to split small files into read chunks up to a deviation bound, all constant chunk sizes",
  "Tests read from files that fit into one buffer.",
  ["src/io/utils.rs", "src/io/byte_reader.rs", "src/io/stl.rs", "src/io/ply/iterators_internal.rs"], [("buffered line/byte reading", "src/io/utils.rs fetch_line, src/io/byte_reader.rs")])

P("C24", "I/O failures are reported, and short writes lose nothing",
  """When the underlying reader fails at any point before the loader has what it needs, the load returns an error instead of a shortened result; when the underlying writer fails, the save returns an error, and when it accepts only part of the data per call the complete file is still written, identical to an unconstrained save.""",
  ["fault_sequences"], "every fault position of every read/write call, every short-write pattern up to a bound",
  "Tests never inject I/O faults.",
  ["src/io/utils.rs", "src/io/*.rs", "src/io/ply/save.rs"], [("error mapping", "src/io/types.rs"), ("write_all", "src/io/xyz.rs, src/io/ply/save.rs, src/io/stl.rs")])

P("C25", "Files that end before their declared contents are rejected",
  """When a file declares how many vertices, faces, points or triangles follow (PLY, OFF, PTS, PTX, LAS, binary STL) or has an explicit end structure (a facet of an ASCII STL), loading a file cut off before that content is complete returns an error, never a shorter result presented as success.""",
  ["crash_points"], "every truncation point of small valid files of each format", "No test truncates a file.",
  ["src/io/off.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/las/load.rs", "src/io/ply/iterators_internal.rs", "src/io/stl.rs"], [("count checks", "src/io/**")])

P("C26", "Streaming iterators agree with the one-shot loaders and stop after an error",
  """For every input, collecting what a streaming reader yields gives the same points and faces, or an error exactly when the corresponding one-shot loader errors; once a streaming reader has yielded an error or its end it yields nothing further, and skipping elements while iterating never changes the later elements.""",
  ["inputs", "histories"], "all small valid and broken files x next/skip call sequences", "Iterators are only driven through the loaders.",
  ["src/io/*.rs", "src/io/ply/iterators.rs", "src/io/ply/iterators_internal.rs"], [("is_done flags", "src/io/**")])

P("C27", "Line endings, trailing blanks and a missing final newline do not matter",
  """For every text format, replacing any line feed by a carriage-return line-feed pair, adding trailing blanks to any line, adding blank lines where the reader allows them (OFF, PTS, OBJ, G-code), or dropping the final line break gives the same loaded data.""",
  ["inputs"], "all combinations of line-end styles per line of small files", "Tests use fixed files with Unix line ends.",
  ["src/io/utils.rs", "src/io/*.rs"], [("line trimming", "src/io/utils.rs")])

P("C28", "Spatial clustering never misses an object",
  """For any collection of objects with bounding boxes and any positive cell size, asking the spatial x/y cluster for the objects at a position reports every object whose bounding box contains that x and y exactly once, at any position inside or outside the covered area, and reports no object
  that is more than one cell away from the position in x or y; a collection without any object is rejected.""",
  ["inputs", "configurations"], "all small object collections x cell sizes x query positions (inside, on cell borders, outside)", "No test clusters anything.",
  ["src/cluster.rs", "src/iter_cluster.rs"], [("cell assignment", "src/cluster.rs"), ("lookup", "src/cluster.rs")])

P("C29", "Linear subdivision preserves the surface",
  """Subdividing a mesh linearly turns every face into exactly four faces that cover the original face with the same orientation and total area, keeps all original vertices with their ids, adds exactly one vertex per distinct edge at its midpoint (shared by all faces at that edge), and creates no face that references a missing vertex; repeated subdivision quadruples the face count each time.""",
  ["inputs"], "all small meshes (all face lists over small vertex sets, non-manifold ones included) x repetitions", "No test subdivides.",
  ["src/subdivide.rs"], [("edge splitting", "src/subdivide.rs")])

P("C30", "Vertex clustering and mesh healing only merge and drop what they should",
  """Healing a mesh merges vertices with equal positions, drops exactly the faces that are degenerate and those that repeat an earlier face (same vertices, same cyclic order), and keeps all other faces in order and orientation.  Clustering vertices with a positive cell size
  replaces every vertex by one vertex of the mesh lying in the same cell of the grid that starts at the lower corner of the mesh's bounding box (the same one for the whole cell), drops exactly the degenerate and repeated faces, and is rejected when there are fewer than two cells along an axis.  The result references only existing vertices.""",
  ["inputs"], "all small meshes x cell sizes", "No test exists.",
  ["src/cluster_vertices.rs", "src/heal_mesh.rs"], [("vertex merging", "src/cluster_vertices.rs"), ("degenerate face removal", "src/heal_mesh.rs")])

P("C31", "Generated curves have the requested points",
  """Interpolated and generated 2D curves have exactly the requested number of points (linear, cosine, Bezier, arcs, ellipses, rectangles as defined per function), are finite, and lie on their curve: Bezier points are the Bernstein sums at t=i/n starting at the first base point for any number of base points; linear and cosine interpolation distribute the points at equal arc length from the first to the last base point;
  arcs and involutes run from the start to the end angle, an ellipse covers the full turn once.  Requests for zero or one point are handled, too few base points rejected, never with a panic or NaN.""",
  ["inputs"], "all small base point lists x point counts", "Two fixed examples are tested.",
  ["src/interpolate_2d.rs", "src/interpolation_2d.rs", "src/factory_2d.rs"], [("sampling loops", "src/interpolate_2d.rs, src/factory_2d.rs")])

P("C32", "Compressed point clouds restore points within the grid resolution",
  """Compressing a point cloud succeeds whenever its bounding box is non-degenerate (clouds without one are rejected), and decompressing it gives the same number of points in the same order, each within one grid step of the original per axis and inside the original bounding box (up to rounding), for every unit type.""",
  ["inputs"], "all small clouds x unit types", "No test compresses.",
  ["src/compressed_point_cloud_3d.rs", "src/compressed_point_3d.rs"], [("unit quantisation", "src/compressed_point_cloud_3d.rs")])

P("C33", "Collision tests are symmetric and never miss a contact",
  """Two colliders (axis-aligned boxes, rotated boxes, triangles) that interpenetrate are reported as colliding, and colliders with a gap between them are never reported, whichever of them is asked; for axis-aligned boxes the answer equals the strict interval overlap test.
  An object made of several colliders collides exactly when one of them does (its bounding box when it has none), and a container (vector, deque, list, tree) reports a collision exactly when one of its elements collides.""",
  ["inputs", "configurations"], "all pairs of small boxes, rotated boxes and triangles over lattices x compositions x containers", "No test collides anything.",
  ["src/collider_3d.rs", "src/sat_collider.rs", "src/box_unaligned_3d.rs", "src/tri_face_3d.rs", "src/is_sat_object.rs", "src/has_colliders_3d.rs", "src/is_collider_container_3d.rs", "src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs", "src/aa_bb_tree_3d.rs"], [("separating axis test", "src/sat_collider.rs"), ("composition", "src/has_colliders_3d.rs")])

P("C34", "Ray intersections are real and closest means closest",
  """A ray that passes through the interior of a triangle or box ahead of its origin is reported as intersecting it, one that does not meet it ahead of its origin never is (mere contact may be reported either way); the reported point lies on the ray, ahead of the origin, and is the point where the ray crosses the triangle or first crosses the surface of the box.
  Collecting the intersections with a mesh gives one point per face hit, in face order; for-each visits exactly the objects whose bounding box is hit; closest-intersection queries (by reference, mutable, by index) return the nearest of all of them and the object it belongs to.""",
  ["inputs"], "all rays, triangles and boxes over small grids, all small object lists", "No test intersects.",
  ["src/functions.rs", "src/ray_3d.rs"], [("slab test", "src/functions.rs intersection"), ("edge tests", "src/functions.rs intersection_ray_triangle")])

P("C35", "Equality, hashing and ordering of geometric values are consistent",
  """Values that compare equal hash equally, equality is reflexive on finite values, symmetric and transitive, and ordering is a consistent total preorder on finite values; removing duplicates with returned indices reproduces the input exactly and keeps one representative per distinct value.""",
  ["inputs"], "all pairs and triples of values over representative doubles including both zeros", "No test checks hashes.",
  ["src/utils.rs", "src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/rgb.rs"], [("bitwise hashing", "src/utils.rs hash_f64"), ("pack_dupes_indexed", "src/utils.rs")])

P("C36", "Moving, scaling, centering and resizing act on every point as defined",
  """Moving a geometric object shifts all of its points by the given vector (directions unchanged), scaling it multiplies all distances to its own center by the factor while keeping that center (the bounding box center for clouds, polygons, segments and meshes, the shape's center for boxes, circles and spheres), centering puts the center of its bounding box at the origin, and setting the size scales it about the origin so that its bounding box
  has the requested size; objects without a bounding box stay unchanged, and nothing else about the object changes.""",
  ["inputs", "histories"], "all small objects x operation sequences", "Only point moves are tested.",
  ["src/is_movable_3d.rs", "src/is_scalable.rs", "src/functions.rs", "src/point_cloud_3d.rs", "src/polygon_3d.rs", "src/line_3d.rs", "src/plane_3d.rs", "src/box_3d.rs"], [("IsMovable/IsScalable impls", "src/*.rs")])

P("C37", "Polygons and lines are closed, ordered views of their points",
  """A polygon has as many segments as vertices, its segments join consecutive vertices and close from last to first, its length is the sum of its segments and its center of gravity the vertex mean; added vertices appear at the end, changing a vertex changes just that one, and errors (unknown ids, too few vertices) leave the polygon unchanged.
  Point clouds and segments have the length of the open path through their points.""",
  ["inputs", "histories"], "all small polygons x edit sequences", "No polygon test exists.",
  ["src/polygon_2d.rs", "src/polygon_3d.rs", "src/is_polygon.rs", "src/is_editable_polygon.rs", "src/line_segment_2d.rs", "src/line_segment_3d.rs"], [("segment indexing", "src/polygon_2d.rs")])

P("C38", "Sorting collections orders them and keeps every element",
  """Sorting a collection of 2D or 3D points along a dimension yields a permutation of the input in non-decreasing order of that coordinate with ties ordered by the following coordinates in cyclic order (x,y,z / y,z,x / z,x,y); an unknown dimension is rejected with the collection unchanged.""",
  ["inputs"], "all small collections x dimensions x container types", "Not tested.",
  ["src/functions.rs", "src/impls/vec.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/is_sortable_nd.rs"], [("sort helpers", "src/functions.rs")])

P("C39", "Random-access containers keep list semantics",
  """All point containers (vector, deque, list, point clouds, compact single-precision clouds) behave like a list under any sequence of push, insert, set, get, append and merge operations: length, order and contents match, positions outside the list are rejected with an error or a documented failure (inserting at the end may append or be rejected), and the list is unchanged after a rejected operation.""",
  ["histories"], "all operation sequences up to a bounded depth", "Only push is tested.",
  ["src/impls/vec.rs", "src/impls/vec_deque.rs", "src/impls/linked_list.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/point_cloud_3d_f32.rs", "src/is_data_container.rs"], [("container impls", "src/impls/*.rs")])

P("C40", "Point and vector operations follow their definition",
  """For points and vectors of every provided type whose coordinates have representable squares, dot and cross product, length, angle, (squared) distance in 2D, 3D, nD and
  along a dimension, sum, difference, multiple, quotient, negation, center, connecting vector, distance increase, 2D rotation around a center (counter-clockwise), matrix application, normalization,
  reading and replacing coordinates and conversion between 2D, 3D and nD give the result of their definition by coordinate (up to rounding), the same in every form offered (by value, by reference, boxed, in place, free function);
  any finite vector but zero has a unit vector.  Boxes, circles, spheres and their filters are positions at their center, and changing the position changes just that.  Writing a point as text and parsing it gives the same point.  A triangle's normal is the right-handed unit normal, a vertex normal of a mesh the direction of the sum of
  its faces' unit normals, a projection onto a plane the coordinates along its axes, an extrusion the points and the points moved.  What has no result (a direction without length,
  another number of dimensions, an unknown dimension or face, a text other than exactly the coordinates) is rejected with an error and changes nothing, except that face and vertex normals without a direction fall back to +z where documented by the code.""",
  ["inputs"], "all operands",
  "Tests touch a few operations on single values; each formula must hold for every operand and in each of the duplicated by-value/by-reference/in-place implementations.",
  ["src/point_2d.rs", "src/point_3d.rs", "src/norm_2d.rs", "src/norm_3d.rs", "src/is_2d.rs", "src/is_3d.rs", "src/is_nd.rs", "src/is_normalized_2d.rs", "src/is_normalized_3d.rs", "src/is_editable_2d.rs", "src/is_editable_3d.rs",
   "src/is_editable_nd.rs", "src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/is_buildable_nd.rs", "src/distances_2d.rs", "src/distances_3d.rs", "src/distances_nd.rs", "src/functions.rs", "src/utils.rs", "src/impls/boxx.rs",
   "src/has_distance_to.rs", "src/is_transformable_to_2d.rs", "src/is_transformable_to_3d.rs", "src/line_2d.rs", "src/ray_2d.rs", "src/line_3d.rs", "src/ray_3d.rs", "src/plane_3d.rs", "src/is_mesh_3d.rs", "src/face3.rs", "src/strong_types.rs", "src/skip_empty_string.rs"],
  [("vector algebra", "src/is_2d.rs, src/is_3d.rs"), ("operators", "src/point_2d.rs, src/point_3d.rs"), ("distances", "src/distances_2d.rs, src/distances_3d.rs, src/distances_nd.rs"), ("unit vectors", "src/norm_2d.rs, src/norm_3d.rs"), ("normals, projection, extrusion", "src/functions.rs, src/utils.rs")])

P("C41", "Unifying faces orients neighbours consistently",
  """Unifying the faces of any triangle mesh keeps every vertex, the number of faces, their order and the vertex set of every face (each face either keeps or flips its orientation), and on every mesh whose faces can be oriented consistently all faces joined through edges shared by exactly two faces run through the shared edge in opposite directions afterwards.""",
  ["inputs"], "all small triangle meshes with every combination of initial orientations", "No test unifies faces.",
  ["src/unify_faces.rs"], [("orientation propagation", "src/unify_faces.rs")])

P("C42", "Errors of text readers name the line that is at fault",
  """When a text reader (XY, XYZ, OBJ, OFF, PTS, PTX, G-code, ASCII PLY and STL) rejects a file because of the contents of a line, the error carries the number of that very line, counting every line of the file from 1 (comments, blank lines and headers included), and its text, in the one-shot loaders and in the streaming readers alike; of several faulty lines the first one is named.  An error about the end of the file or a failing read names the place reached.""",
  ["inputs", "fault_sequences"], "every line of files of every text format spoiled in every word, with comments and blank lines at every place", "No test looks at the position within an error.",
  ["src/io/types.rs", "src/io/xy.rs", "src/io/xyz.rs", "src/io/obj.rs", "src/io/off.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/stl.rs", "src/io/gcode.rs", "src/io/ply/header.rs", "src/io/ply/iterators_internal.rs"], [("line counting", "src/io/*.rs i_line"), ("line information", "src/io/types.rs WithLineInfo")])

P("C43", "Text forms of points and clouds keep every coordinate",
  """Parsing a point ("x y", "x y z" with any number of blanks around the numbers) or a cloud (one point per non-empty line) yields exactly the numbers in the text in order, and fails when a coordinate is missing, superfluous or no number, or when there is no point at all.  The text a point or cloud is turned into is read back as the identical points, and what is shown for points, lines, segments, rays, faces, ids, polygons and clouds contains every coordinate in order.""",
  ["inputs"], "all sequences of words and lines up to a length, all assignments of representative values to coordinates", "Tests parse a handful of texts.",
  ["src/is_buildable_2d.rs", "src/is_buildable_3d.rs", "src/is_2d.rs", "src/is_3d.rs", "src/point_2d.rs", "src/point_3d.rs", "src/point_cloud_2d.rs", "src/point_cloud_3d.rs", "src/polygon_2d.rs", "src/polygon_3d.rs", "src/line_2d.rs", "src/line_3d.rs", "src/line_segment_2d.rs", "src/line_segment_3d.rs", "src/ray_2d.rs", "src/ray_3d.rs", "src/face3.rs", "src/strong_types.rs"], [("parsing", "src/is_buildable_2d.rs, src/is_buildable_3d.rs parse"), ("text form", "src/is_2d.rs, src/is_3d.rs to_str"), ("Display", "src/point_3d.rs, src/line_3d.rs")])

P("C44", "Loading adds to what the target already holds",
  """Loading a file into a point collection or mesh that already holds elements (from earlier loads, successful or failed, or added directly) leaves these as they are and appends exactly what the file contains: loaded faces connect the vertices loaded from the same file, and a face that refers to a vertex the file does not define is rejected however many vertices the mesh holds.  A load that fails adds at most a beginning of the file's contents.""",
  ["histories"], "all sequences of loads of files of every format into the same targets up to a length", "Tests load into empty targets only.",
  ["src/io/obj.rs", "src/io/off.rs", "src/io/ply/load.rs", "src/io/stl.rs", "src/io/utils.rs", "src/io/xyz.rs", "src/io/pts.rs", "src/io/ptx.rs", "src/io/psl.rs", "src/io/las/load.rs", "src/io/gcode.rs"], [("face offsets", "src/io/utils.rs try_add_face_offset"), ("vertex sharing", "src/io/stl.rs load_stl_mesh_unique")])

P("C45", "XY and XYZ text is read column by column",
  """Loading an XY or XYZ file gives one point per line, in order, made of the first two (three) numbers of the line, where columns are separated by any number of the one delimiter of the file (the first of blank, semicolon, comma, tab that occurs at least once (twice) in the first line) and further columns are ignored; a line with fewer columns or with one that is no number, and a first line without a delimiter, are rejected, never misread.  The public text helpers (delimiter estimation, word splitting, prefix up to a delimiter, search, skipping of empty pieces) return what they say for every input.""",
  ["inputs"], "all lines of words and delimiters and all sequences of lines up to a length", "Tests read a handful of well formed files.",
  ["src/io/xy.rs", "src/io/xyz.rs", "src/utils.rs", "src/skip_empty.rs", "src/skip_empty_string.rs"], [("columns", "src/io/xy.rs, src/io/xyz.rs"), ("delimiter estimation", "src/utils.rs estimate_delimiter"), ("splitting", "src/utils.rs, src/skip_empty.rs")])
