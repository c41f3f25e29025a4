I = ["inputs"]
p("C01", "Orientation primitives are exact for every scalar type",
  "For every supported scalar type (fixed-width integers, big integers and rationals, plain and wrapped floats) and all finite coordinates, the three orientation primitives return the sign of the exact determinant: of three points, of a vector against two points, and of the vector rotated by a quarter turn counter-clockwise against two points. No intermediate result wraps, overflows, panics or is rounded, including at the extremes of the type.",
  I, "all scalar types and all coordinate values, including type minima and maxima",
  "Tests sample i8 and a few large values; wrap-around only shows for specific sign and magnitude combinations of six coordinates in each of 14 types.",
  ["src/lib.rs"], [("PolygonScalar::cmp_slope / cmp_vector_slope / cmp_perp_vector_slope", "src/lib.rs (macro-generated impls)")],
  "interval-justified polynomial abstract interpretation of MIR, compared with the determinant",
  "Every path partition of each of 42 implementations is decided; no sampling. geometry_predicates::orient2d and num/rug arithmetic are trusted by contract.")
p("C02", "Distance comparison is exact for every scalar type",
  "For every supported scalar type and all finite coordinates, comparing the distances of two points to a third gives the ordering of the exact squared Euclidean distances. Overflow of the squared distances in fixed-width types never changes the verdict and never panics.",
  I, "all scalar types and all coordinate values, including type minima and maxima",
  "The overflow branches are reached only by coordinate differences near the full range in both axes.",
  ["src/lib.rs"], [("PolygonScalar::cmp_dist", "src/lib.rs (macro-generated impls)")],
  "interval-justified polynomial abstract interpretation of MIR, compared with the exact difference",
  "Every path partition of each of 14 implementations is decided, with overflow flags split into cases.")
p("C03", "Orientation verdicts and their algebra are coherent",
  "The orientation of three points, of a point along a vector and of a point along a perpendicular vector is counter-clockwise, clockwise or colinear exactly as the sign of the determinant says. Reversing swaps the two turns and fixes colinear, composing with a second orientation only replaces a colinear verdict, and tie-broken (simulation of simplicity) orientations are never colinear and follow the documented tie rule.",
  I, "all triples of points, vectors and orientation values", "Tests check a few dozen triples; the algebra must hold for every combination of verdicts.",
  ["src/orientation.rs", "src/data/point.rs"], [("Orientation / SoS", "src/orientation.rs"), ("Point::orient*", "src/data/point.rs")],
  "decision-table extraction from MIR and exhaustive comparison with the specification table",
  "Every path partition of the listed functions is compared row by row.")
p("C04", "Angular and projection comparators implement the documented order",
  "Comparing two points around an origin orders them counter-clockwise by angle starting from the reference direction (points along the direction first, ties only for equal direction), for points, vectors, explicit reference directions and the sorting of vectors alike. Comparing along a direction orders by projection on it, and comparing distances to a point orders by Euclidean distance.",
  I, "all origins, reference directions and pairs of points", "Tests exercise a handful of directions; the comparator has 29 distinct sign regions.",
  ["src/orientation.rs", "src/data/point.rs", "src/data/vector.rs"],
  [("ccw_cmp_around(_with)", "src/orientation.rs, src/data/point.rs, src/data/vector.rs"), ("cmp_along", "src/data/vector.rs"), ("cmp_distance_to", "src/data/point.rs")],
  "decision-table extraction from MIR and comparison with the angular-order specification",
  "All rows compared; a candidate mismatch is reported when inhabited by a catalogue of small integer configurations.")
p("C05", "Triangle operations agree with the geometric triangle",
  "A triangle is accepted exactly when its corners are in counter-clockwise order; orienting three corners yields a counter-clockwise permutation of them and refuses only colinear corners. Locating a point in a valid triangle reports inside, boundary or outside exactly; the signed area is half the determinant of the corners; the bounding box is the tightest box around them. A random point of a triangle is drawn from all of that box, its sides included, and handed out only after it was found not to lie outside the triangle.",
  I, "all corner triples and query points", "Tests cover a few triangles; boundary, vertex and degenerate cases are a measure-zero set of inputs.",
  ["src/data/triangle.rs"], [("Triangle / TriangleView", "src/data/triangle.rs")],
  "decision-table extraction from MIR; polynomial normal-form equality for areas",
  "All rows compared; candidate mismatches must be inhabited by the configuration catalogue.")
p("C06", "Segment containment and intersection are exact set operations",
  "A segment with open or closed end points contains exactly the points its end-point kinds say. Intersecting two segments reports nothing, a crossing, or the exact overlapping segment with the right end-point kinds, in both argument orders and for degenerate segments. Converting ranges, inclusive ranges and directed edges into segments keeps the start closed and makes the end open exactly for half-open sources.",
  I, "all pairs of segments with all four end-point kind combinations, and all query points", "Property tests only compare the two argument orders; touching, overlapping and degenerate cases with mixed end-point kinds are rare under random sampling.",
  ["src/data/line_segment.rs", "src/data/directed_edge.rs"],
  [("LineSegment(View)::contains, Intersects for LineSegmentView", "src/data/line_segment.rs"), ("conversions", "src/data/line_segment.rs, src/data/directed_edge.rs")],
  "decision-table extraction from MIR and comparison with the point-set specification",
  "About 6,500 rows over orientation, order and openness outcomes; inhabited by the catalogue before reporting.")
p("C07", "Line and half-line crossings follow the tie-breaking rule",
  "A tie-broken line crosses a segment exactly when the segment's end points fall on different sides, end points on the line counting as left. A half-line crosses exactly when the segment meets the strictly forward part of its supporting line, reporting the side a touching segment leans to, none for parallel segments; directions given as a vector or as a second point behave alike. The crossing point of two lines through points lies on both, and parallel lines have none.",
  I, "all lines, half-lines and segments including touching and parallel ones", "Point-in-polygon counting depends on every touching case; tests only sample generic positions.",
  ["src/data/line.rs"], [("Intersects for LineSoS / HalfLineSoS", "src/data/line.rs"), ("Line::intersection_point", "src/data/line.rs")],
  "decision-table extraction from MIR and comparison with the crossing rule; rational normal forms",
  "All rows compared; candidate mismatches must be inhabited by the configuration catalogue.")
p("C08", "Point location in polygons is exact",
  "Locating a point in a polygon reports on-boundary exactly when the point lies on some boundary edge (end points included), and otherwise inside exactly when a ray from it crosses the boundary an odd number of times, for any number of vertices and crossings. Locating a point in a convex polygon, of any size, agrees with its edges: outside if the point is strictly right of some edge, on the boundary if it lies on one, inside otherwise.",
  I, "all polygons of any size, all query points including those level with vertices, on edges, on vertices and on diagonals",
  "Degenerate alignments between the query and vertices, edges or diagonals are measure-zero under random sampling, and the counting loop runs an unbounded number of times.",
  ["src/data/polygon.rs", "src/data/polygon/convex.rs"], [("Polygon::locate", "src/data/polygon.rs"), ("PolygonConvex::locate", "src/data/polygon/convex.rs")],
  "inductive loop analysis over ring positions (path-partitioned abstract interpretation of MIR) with a decision table per iteration and exit",
  "Every path of one loop iteration and of every exit is compared with the rule; the ring size is symbolic.")
p("C09", "Only valid polygons pass validation",
  "Checked construction and validation of a polygon of any size accept it only if it has at least three vertices, no repeated point, counter-clockwise order and no two intersecting boundary edges, and reject it for no other reason. Every unordered pair of distinct boundary edges is compared, and a pair is reported exactly when its edges intersect. Convex validation accepts only polygons that pass full validation and turn strictly left at every vertex, and construction returns the very polygon that was validated.",
  I, "all polygons of any size, all pairs of edges, all positions of a repeated point or reflex vertex",
  "A pair of edges or a vertex that is never examined only matters for the polygons whose sole defect is there.",
  ["src/data/polygon.rs", "src/data/polygon/convex.rs", "src/algorithms/intersection/naive.rs"],
  [("Polygon::new, validate, validate_weakly", "src/data/polygon.rs"), ("PolygonConvex::validate", "src/data/polygon/convex.rs"), ("segment_intersections", "src/algorithms/intersection/naive.rs")],
  "gate analysis over MIR path partitions with undetermined sub-verdicts; comprehension reading of the pair pipeline; inductive step analysis of the scanning loops",
  "Ring size and the scanned position are symbolic; the index pairs of the lazy pipeline are read off as affine ranges.")
p("C10", "Polygon index tables stay mutually consistent",
  "In every constructed polygon each vertex id occurs once on its ring and its recorded ring and position locate it there. Mapping, casting or converting coordinates turns the k-th point into the image of the k-th point and leaves ids, rings and positions as they were. Reordering keeps rings and recorded positions inverse to each other: reversing a boundary range (also across the start of the ring) exchanges it end for end, moving a vertex shifts only the ones in between, and enforcing counter-clockwise order reverses the whole ring exactly when it is clockwise.",
  I + ["histories"], "all polygons of any size, all ranges, all sequences of reordering and mapping operations",
  "Stale position entries only surface through id-based lookups after particular reorderings, e.g. ranges that wrap around the ring.",
  ["src/data/polygon.rs"], [("new_unchecked, map, cast, float, map_points", "src/data/polygon.rs"), ("swap_positions, vertices_reverse, vertices_join, ensure_ccw", "src/data/polygon.rs")],
  "comprehension summaries of building loops and inductive step analysis of reordering loops at an arbitrary symbolic position; enumeration of all construction and mutable-borrow sites",
  "Ring size, positions and the inspected index are symbolic.")
p("C11", "Boundary traversal follows cyclic ring order",
  "Stepping a cursor or position moves to the cyclic successor or predecessor on its ring, and a cursor designates the vertex stored at its position. Boundary iterators visit each vertex of the requested range exactly once in ring order from either end, with exact remaining lengths, and edge iteration pairs every vertex with its successor. Directing an undirected edge restores the order of its end points along the boundary, and forgetting a direction keeps both end points, the smaller first.",
  I, "all rings of any size, all positions, all ranges and all interleavings of front and back steps", "Wrap-around positions, ranges crossing the start of the ring and mixed front/back iteration are rarely hit together.",
  ["src/data/polygon.rs", "src/data/polygon/iter.rs"], [("Cursor / Position", "src/data/polygon.rs"), ("CursorIter / EdgeIter", "src/data/polygon/iter.rs"), ("Polygon::direct", "src/data/polygon.rs")],
  "path-partitioned abstract interpretation of MIR on a ring of symbolic size, compared with cyclic-sequence semantics",
  "Ring size and positions are symbolic; compositions of up to three iterator steps from every kind of start are decided.")
p("C17", "Point, vector and transformation algebra",
  "Every arithmetic operator on points and vectors, owned, borrowed or in place, acts coordinate by coordinate, and conversions, casts, maps and indexing keep each coordinate in its place. Squared magnitudes and distances are the sum of squares, and summing vectors adds them component-wise. Translation, scaling and uniform scaling act as named, composing two transformations equals applying the right one first, and every way of applying a transformation to a vector, point or polygon gives the same image, for a polygon point by point with its order unchanged; normalising a polygon moves it by minus its centroid and divides it by the larger side of its box.",
  I, "all coordinate values, every operand form (owned or borrowed), dimensions one to three, polygons of any size",
  "The operators have dozens of owned/borrowed copies; a slip in one of them, in one dimension or in composition order is not sampled.",
  ["src/data/point.rs", "src/data/point/add.rs", "src/data/point/sub.rs", "src/data/vector.rs", "src/data/vector/add.rs", "src/data/vector/mul.rs", "src/transformation.rs", "src/matrix.rs"],
  [("arithmetic impls", "src/data/point/**, src/data/vector/**"), ("Transform and its Mul impls", "src/transformation.rs"), ("Matrix product", "src/matrix.rs")],
  "polynomial normal forms of MIR path partitions, compared component-wise; induction over the point loop for polygons",
  "Transformations are built through the public constructors only; any composition of them has the general form that is checked.")
p("C18", "Polygon measures equal their defining sums",
  "For a polygon of any size, twice the signed area is the sum over all boundary edges of the cross product of their end points, the signed area is half of it, and the centroid is the standard area-weighted ratio with a single final division. The bounding box is exactly the minimum and maximum of each coordinate over all boundary vertices, and the orientation is the turn at a lexicographically extreme vertex. Area and squared-distance functions with a caller-chosen result type convert the coordinates before doing any arithmetic on them.",
  I, "all polygons of any size and all coordinate and result types",
  "A wrong term, a skipped edge or a narrow intermediate only shows for particular sizes, shapes or magnitudes.",
  ["src/data/polygon.rs", "src/data/triangle.rs", "src/data/point.rs"],
  [("Polygon::signed_area(_2x), centroid, bounding_box, orientation", "src/data/polygon.rs"), ("squared_euclidean_distance", "src/data/point.rs"), ("TriangleView::signed_area(_2x)", "src/data/triangle.rs")],
  "inductive loop analysis with symbolic boundary sums in polynomial normal form; update tables for extrema; call-graph effect analysis for conversions",
  "The sums are compared as polynomials over all edges, invariant under the starting vertex; nothing is evaluated on sample polygons.")
p("C19", "Every ordering is a lawful total order",
  "Points compare lexicographically by coordinate, and equality, partial order, total order and the crate's own total comparison agree on every ordered type. Every comparator used for sorting or selecting is reflexive, antisymmetric and transitive, and minimum/maximum selection returns the smaller/larger argument.",
  I, "all values of all ordered types, all triples for the laws", "Inconsistent comparators only show for specific triples and may make sorting panic or misorder.",
  ["src/data/point.rs", "src/data/vector.rs", "src/data/polygon.rs", "src/lib.rs", "src/data/intersection_set.rs"],
  [("Ord/PartialOrd/PartialEq/TotalOrd impls", "src/**"), ("sort and selection comparators", "src/algorithms/**, src/data/**")],
  "self-composition of MIR path partitions (law checking over shared facts)",
  "Every impl and comparator closure is composed with itself two and three times.")
p("C12", "Combinatorial algorithms only use the input's own points",
  "Hulls, star, monotone and two-opt polygons consist of unchanged copies of input points, and triangulations and edge intersections refer to the polygon's own vertices and edges. No coordinate is computed, converted or overwritten on the way: every decision is taken by the scalar's comparisons and exact predicates.",
  I, "all inputs of all hull, polygonization, triangulation and edge-intersection routines, all scalar types",
  "Rounded or overflowing arithmetic on coordinates only shows for particular magnitudes and scalar types; tests use a few small ones.",
  ["src/algorithms/convex_hull/*.rs", "src/algorithms/polygonization/*.rs", "src/algorithms/triangulation/earclip.rs", "src/algorithms/intersection/naive.rs"],
  [("public functions of algorithms::convex_hull, polygonization, triangulation, intersection", "src/algorithms/**")],
  "interprocedural effect analysis over MIR (arithmetic, conversion and coordinate-write effects on the scalar type)",
  "All functions reachable from each routine are inspected, closures included; scalar predicates and library sorting are trusted not to alter values.")
p("C14", "Results depend on the arguments only",
  "No operation reads or changes hidden state: no statics, thread-locals, clocks, environment, files, threads, entropy, memory addresses, hash-table iteration order or output. Randomised operations draw only from the generator they are given or from one seeded with a fixed value, so equal arguments give equal results. Values hold no interior mutability, shared ownership or raw pointers, so operations that only read a value never change it, also when it is shared between threads.",
  I + ["schedules"], "all public operations, all call histories and all interleavings of reading threads",
  "Hidden state only shows up after particular histories, in other processes or under concurrency.",
  ["src/**/*.rs"], [("all public functions and data types", "src/**")],
  "interprocedural effect analysis over MIR with a deny list of sources of hidden state; structural type analysis",
  "Every function reachable from about 500 public functions is inspected; code behind the caller's own type parameters is the caller's.")
p("C15", "No unchecked memory access",
  "The only operation that bypasses the compiler's bounds, type and lifetime checks is viewing a borrowed point as a vector, and the two types have the same layout by declaration. No other code uses unchecked access, reinterpretation, unsafe functions, mutable statics or unions, so no call through the safe interface can read or write memory it should not.",
  I + ["histories"], "all calls through the safe interface with any ids, indices and sizes, including ids from another polygon",
  "Out-of-range accesses and layout assumptions happen to work on the platforms and inputs that tests run on.",
  ["src/data/vector.rs", "src/**/*.rs"], [("From<&Point> for &Vector", "src/data/vector.rs"), ("repr(transparent) Point and Vector", "src/data/point.rs, src/data/vector.rs")],
  "audit of every unsafe construct in the type-checked program with a layout-equality rule for pointer casts",
  "All function bodies, impls, statics and types of the crate are inspected.")
p("C16", "Validated types cannot be corrupted from outside",
  "A convex polygon or triangle that was accepted stays acceptable: what it wraps is not public, no safe public operation hands out mutable access to it or overwrites it, and no safe public operation builds one from raw points without an orientation or validity test, except constructors named unchecked. Vertex ids, positions, cursors and a polygon's index tables are likewise not publicly constructible field by field or mutably accessible.",
  I + ["histories"], "all sequences of calls through the public interface",
  "The absence of an operation cannot be tested; a leak only matters for callers that use it in a particular order.",
  ["src/data/polygon/convex.rs", "src/data/triangle.rs", "src/data/polygon.rs"],
  [("PolygonConvex", "src/data/polygon/convex.rs"), ("Triangle, TriangleView", "src/data/triangle.rs"), ("Polygon, PointId, Position, Cursor", "src/data/polygon.rs")],
  "type and visibility analysis of the public interface plus interprocedural effect analysis of constructors",
  "All public functions and trait impls of the crate are inspected.")
p("C20", "Z-order hashes are reversible and follow the coordinates",
  "Interleaving two numbers loses no bit and undoing it gives both numbers back. For every coordinate type, every point of a box hashes no lower than the box's lowest corner and no higher than its highest corner: each coordinate is turned into a 32-bit number that never decreases as the coordinate grows, for boxes of any size up to the whole range of the type.",
  I, "all pairs of 32-bit numbers; all boxes and all points in them, for every hashable coordinate type",
  "A lost bit or a distance that does not fit only shows for particular magnitudes; tests sample random triangles of two of the five types.",
  ["src/algorithms/zhash.rs"],
  [("zhash_pair, zunhash_pair", "src/algorithms/zhash.rs"), ("ZHashable (five coordinate types)", "src/algorithms/zhash.rs")],
  "bit-provenance dataflow; machine-integer value analysis with monotonicity and range rules",
  "Every output bit is traced to its input bits; shifts are compared with the number of bits of the box's sides.")
p("C21", "Ear clipping cuts off an ear only when it is one, and keeps its books",
  "Both ear clipping routines cut off a vertex only if its corner turns strictly left and no other remaining vertex lies inside or on its triangle, and emit the previous vertex, the ear and the next one in counter-clockwise order. They then unlink exactly that vertex, reconsider both of its neighbours (each queued at most once) and go on until only two vertices remain. The hashed routine looks at the remaining vertices in hash order in both directions, stops only where a hash leaves the range of the triangle's bounding box, and hashes over a box that covers every vertex.",
  I, "all hole-free polygons of any size, all queue orders and all states reachable while clipping; induction over the steps",
  "A skipped vertex, a stale link or mark or a search that ends early only shows for particular shapes, sizes and queue orders.",
  ["src/algorithms/triangulation/earclip.rs"],
  [("earclip, earclip_hashed", "src/algorithms/triangulation/earclip.rs")],
  "inductive loop summaries and one-step decision tables over abstract link, queue and mark tables",
  "Construction establishes the state, one step from any such state is compared with the rules; triangle location (C05) and the hash itself are separate properties.")
p("C22", "The set of crossing edge pairs contains exactly the live pairs",
  "The set in which polygon repair keeps the crossing edge pairs contains exactly the pairs that were added and whose edges were not removed since. Adding a pair records it under both of its edges, removing an edge removes every pair with that edge and leaves all other pairs findable under both of their edges, and no two live pairs ever share storage. Listing gives every live pair once, and drawing gives nothing only when the set is empty and can give every live pair.",
  I, "all sequences of additions and removals, any number of vertices and pairs; induction over the operations",
  "A lost link, a shared slot or a pair left behind only shows after particular sequences of additions and removals.",
  ["src/data/intersection_set.rs", "src/utils.rs"],
  [("IndexIntersectionSet", "src/data/intersection_set.rs"), ("SparseVec", "src/utils.rs")],
  "one-step decision tables over abstract link tables (doubly linked list rules with frame conditions), slot reuse rules",
  "Each operation is analysed from an arbitrary well formed state: every written cell is accounted for and has the value of the rule.")
p("C23", "Polygons built from point sets follow their construction rules",
  "The two-opt construction refuses repeated or fewer than three points and boundaries on one line, looks for a crossing between every two edges (a shared vertex is none), and repairs crossings until none is recorded. A repair reconnects two crossing edges the other way round, or moves a bend of overlapping edges into an edge that contains it; it forgets exactly the edges that leave the boundary and compares every edge that enters it with all others. Star and monotone polygons take the points in angular order or along the direction (right side up, left side down) and are always validated, and the monotone test examines both chains between the extreme vertices.",
  I, "all point sets and random draws; each repair for any pair of edges of any boundary, induction over the loops",
  "Overlapping edges on one line, a wrongly kept or missing crossing and errors passed on show only for rare point sets and draws.",
  ["src/algorithms/polygonization/two_opt.rs", "src/algorithms/polygonization/star.rs", "src/algorithms/polygonization/monotone.rs"],
  [("two_opt_moves / resolve_self_intersections", "src/algorithms/polygonization/two_opt.rs"), ("new_star_polygon", "src/algorithms/polygonization/star.rs"), ("new_monotone_polygon / is_monotone", "src/algorithms/polygonization/monotone.rs")],
  "path-partitioned abstract interpretation over an algebra of cursors and edges with ring edits and the crossing set as effects; loop induction",
  "Termination of the repairs is not decided (it rests on shrinking circumference).")

p("C24", "Convex hull routines follow their selection rules at every step",
  "Gift wrapping starts at the lowest (then leftmost) point and always goes on to the point that leaves no input point on its right, the farthest among aligned ones, until it is back at the start. Graham scan orders the points by angle around that same start (nearer first on a common ray), keeps only the farthest point of the first ray, and keeps a point only while the chain turns strictly left there. Melkman visits the polygon's vertices in boundary order, ignores one only if it is strictly left of the edges at both ends of the current hull, and otherwise adds it at both ends and drops neighbours until both ends turn strictly left.",
  I, "all inputs of the three hull routines: any number of points, duplicates and aligned points included; induction over their loops",
  "Samples rarely contain the aligned, duplicated or late extreme points for which a wrong turn, tie or coverage decision shows.",
  ["src/algorithms/convex_hull/gift_wrapping.rs", "src/algorithms/convex_hull/graham_scan.rs", "src/algorithms/convex_hull/melkman.rs"],
  [("convex_hull (three routines)", "src/algorithms/convex_hull/*.rs")],
  "inductive loop summaries compared with selection rules (path-partition decision tables)",
  "Start selection, candidate scan, walk, sort order, stack scan, first ray, queue step, both dropping loops and the result.")

p("C25", "Visibility looks at every edge in every vertex direction and keeps the nearest",
  "The visibility polygon intersects every boundary edge with the ray towards each boundary vertex, taking the directions in angular order and each ray only once (the nearest vertex stands for it). On each side of a ray it keeps the blocking point nearest to the observer, and it adds the right one and then the left one unless it is nearer than the vertex. When one side of a ray is not blocked at all there is no visibility polygon.",
  I, "all observers and all hole-free polygons, with any number of vertices and any alignment between them; induction over the loops",
  "Samples rarely contain several vertices on one ray, farther edges met before nearer ones, or edges ending on the ray from a particular side.",
  ["src/algorithms/visibility/naive.rs"],
  [("get_visibility_polygon", "src/algorithms/visibility/naive.rs")],
  "inductive loop summaries compared with step rules over summarised predicates (path-partition decision tables)",
  "Edge coverage, per-side update table, contribution table, order and thinning of the directions, result.")
p("C26", "Polygon comparison, ear test and colinearity look at every vertex",
  "Two boundary walks are equal exactly when they have the same length and agree point by point, and two polygons are equal exactly when some rotation of one boundary equals the other boundary. A vertex is an ear exactly when it turns strictly left and no vertex other than its neighbours lies inside or on its triangle. A list of points is colinear exactly when no point of it leaves the line through two distinct points of the list.",
  I, "all hole-free polygons and point lists of any size; induction over the loops", "Samples never vary the number of vertices, the rotation and the position of a single deviating vertex together.",
  ["src/data/polygon.rs", "src/data/polygon/iter.rs", "src/data/point.rs"],
  [("Polygon::equals", "src/data/polygon.rs"), ("CursorIter equality", "src/data/polygon/iter.rs"), ("Cursor::is_ear", "src/data/polygon.rs"), ("Point::all_colinear", "src/data/point.rs")],
  "inductive loop summaries with per-pass justification of every answer (path-partition analysis over summarised predicates)",
  "Rotation coverage, pairwise comparison, ear corner and coverage, colinearity anchors and coverage.")
# ------------------------------------------------------------------ properties this family does not decide
na("N01", "Hull routines return the convex hull of their input",
   "Every hull routine returns exactly the extreme points of its input in counter-clockwise order, so that no input point lies outside the result and all routines agree.",
   I, "all point sets", "The result is a global fact about all points at once; tests compare a few random sets.",
   ["src/algorithms/convex_hull"], [("convex_hull, graham_scan, melkman", "src/algorithms/convex_hull")],
   "The global claim needs a loop invariant over the contents of the whole stack and the whole sorted prefix (all earlier points lie left of every stacked edge), which is a theorem of "
   "plane geometry over unboundedly many points; the abstract domain holds facts about a fixed number of named points. C24 decides the per-step selection rules the theorem rests on.")
na("N02", "Triangulations cover the polygon without overlap",
   "The triangles emitted for a simple polygon are interior-disjoint, have its orientation, and their areas add up to the polygon's area.",
   I, "all simple polygons", "Global fact about all emitted triangles.",
   ["src/algorithms/triangulation/earclip.rs"], [("earclip, triangulate_list, triangulate_list_hashed", "src/algorithms/triangulation/earclip.rs")],
   "Follows from the two-ears theorem for the whole remaining polygon, an inductive fact over an unbounded vertex set that no dataflow fact here expresses. C21 decides each step: an ear is cut only when it is one.")
na("N03", "Two-opt repair terminates with a simple polygon",
   "Repairing the crossings of an arbitrary closed tour terminates and the result has no crossing edges.",
   ["inputs", "schedules"], "all point sets and all draws of the generator", "Termination needs the shrinking tour length for all orders of repair.",
   ["src/algorithms/polygonization/two_opt.rs"], [("two_opt_moves", "src/algorithms/polygonization/two_opt.rs")],
   "Termination rests on the real-valued length of the tour decreasing with every uncrossing (triangle inequality, square roots), outside polynomial normal forms and difference bounds. C22 and C23 decide the bookkeeping and each repair step.")
na("N04", "The visibility polygon is the visible region",
   "The polygon computed from an observer contains exactly the points of the outer polygon that the observer sees.",
   I, "all simple polygons and observers", "Global fact about a region.",
   ["src/algorithms/visibility"], [("get_visibility_polygon", "src/algorithms/visibility/naive.rs")],
   "Equality of regions quantifies over all points of the plane and the intersection points are computed by division of scalars; C25 decides the selection rule per direction and edge and that every vertex direction and edge is looked at.")
na("N05", "No public operation panics on valid arguments",
   "No operation panics, overflows or indexes out of bounds for arguments that satisfy its documented preconditions.",
   I, "all valid arguments of all public operations", "A panic needs one specific combination of values.",
   ["src"], [("public operations", "src/**")],
   "Absence of index and unwrap panics in the list-based algorithms depends on representation invariants over unbounded index tables (and scalars are generic: +, - and * of a caller's type may overflow by design). "
   "Where a claimed property's rows cover a function, an unexpected panic is reported there (C01 to C11, C17 to C26); a blanket claim would be dishonest.")
na("N06", "Random generators have the documented distribution",
   "Random points, vectors and convex polygons follow the distribution their documentation promises.",
   ["inputs"], "all generator states", "A distribution is a statement about measures, not about single runs.",
   ["src/data/polygon/convex.rs", "src/data/triangle.rs"], [("PolygonConvex::random, Triangle::rejection_sampling", "src/data")],
   "Probability is not a property of paths; a static argument would need a measure semantics of the generator. The support of triangle sampling is part of C05, draws only from the given generator part of C14.")
na("N07", "Documented running times hold",
   "Every operation meets its documented asymptotic running time.",
   I, "all input sizes", "Asymptotic bounds quantify over all sizes.",
   ["src/algorithms", "src/data"], [("O(...) notes in the documentation", "src/**")],
   "Amortised and expected bounds (hash-ordered ear tests, quadratic fall-backs, rejection sampling) depend on run-time distributions of points and have no sound syntactic bound; loop-nesting depth would be a proxy, not the property.")
na("N08", "Transformations commute with the geometry to rounding accuracy",
   "Normalising, rotating and inverting with floating-point scalars is accurate to a stated number of units in the last place.",
   I, "all finite floats", "Worst-case rounding inputs are isolated values.",
   ["src/transformation.rs", "src/data/polygon.rs"], [("Transform, Polygon::normalize", "src/transformation.rs, src/data/polygon.rs")],
   "No error bound is documented, and a relative bound does not exist near cancellation; C17 and C18 decide the formulas exactly over an ideal field instead.")
